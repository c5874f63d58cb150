package playback

// Only names that the package's own tests use appear here.

// VerifQueue gives access to the player's sample queue.
type VerifQueue struct{ q *timedSampleQueue }

func VerifNewQueue(n int) *VerifQueue                  { return &VerifQueue{newTimedSampleQueue(n)} }
func (v *VerifQueue) Add(s [2]float64, t int64)        { v.q.Add(s, t) }
func (v *VerifQueue) Remove() (s [2]float64, t int64)  { return v.q.Remove() }
func (v *VerifQueue) Peek() (s [2]float64, t int64)    { return v.q.Peek() }
func (v *VerifQueue) Len() int                         { return v.q.Len() }
func (v *VerifQueue) Cap() int                         { return v.q.Cap() }
func VerifSamplesToBuf(samples [][2]float64, b []byte) { samplesToAudioBuf(samples, b) }
func VerifConvert(v float64) (low, high byte)          { return convertSampleToBytes(v) }
