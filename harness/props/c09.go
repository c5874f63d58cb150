package props

import (
	"encoding/json"
	"math"
	"sort"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"
	"github.com/hajimehoshi/oto"
	"pgregory.net/rapid"
	"verif/pbt"
)

type c09Case struct {
	Vol     []uint64    `json:"vol"`     // bits
	Samples [][2]uint64 `json:"samples"` // bits
}

func genVol(t *rapid.T) uint64 {
	return math.Float64bits(rapid.OneOf(
		rapid.Float64Range(0, 1), rapid.Float64Range(-4, 4),
		rapid.SampledFrom([]float64{0, 1, 0.1, 0.5, 2, -1, 1e-9, 1e300, -1e300, 1e18, 3.0000000001, math.Nextafter(1, 0), math.Nextafter(1, 2), math.MaxFloat64, math.Inf(1), math.Inf(-1)}),
	).Draw(t, "vol"))
}

func genSampleBits(t *rapid.T) uint64 {
	return math.Float64bits(rapid.OneOf(
		rapid.Float64Range(-1, 1), rapid.Float64Range(-1, 1),
		rapid.Map(rapid.IntRange(-32770, 32770), func(i int) float64 { return float64(i) / 32768 }),
		rapid.Map(rapid.IntRange(-32770, 32770), func(i int) float64 { return float64(i) / 32767 }),
		rapid.SampledFrom([]float64{0, 1, -1, 1.0000001, -1.0000001, 2, -2, 1e10, -1e10, math.Nextafter(1, 0), math.Nextafter(-1, 0), 32767.0 / 32768, 1e300, -1e300, math.Copysign(0, -1)}),
	).Draw(t, "s"))
}

// checkPCM compares one output value with the stream sample and volume.
func checkPCM(c *pbt.C, sample, vol float64, pcm int16, what string) {
	if !pcmOK(sample, vol, pcm) {
		c.Failf("pcm", "%s: sample %v at volume %v gives %d, should be %v clamped to 16 bit, within one step", what, sample, vol, pcm, sample*vol*32768)
	}
}

func pcmOK(sample, vol float64, pcm int16) bool {
	v := sample * vol
	if math.IsNaN(v) {
		return true // 0 * infinity: no claim
	}
	w := v * 32768
	if w > 32767 {
		w = 32767
	}
	if w < -32768 {
		w = -32768
	}
	d := w - float64(pcm)
	return d <= 1 && d >= -1
}

func runC09(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c09Case
	pbt.Decode(raw, &cs)
	samples := make([][2]float64, len(cs.Samples))
	for i, s := range cs.Samples {
		samples[i] = [2]float64{math.Float64frombits(s[0]), math.Float64frombits(s[1])}
	}
	orig := append([][2]float64{}, samples...)
	for vi, vb := range cs.Vol {
		vol := math.Float64frombits(vb)
		playback.SetVolume(vol)
		buf := make([]byte, 4*len(samples)+8)
		for i := range buf {
			buf[i] = 0xa5
		}
		playback.VerifSamplesToBuf(samples, buf)
		type pt struct {
			s float64
			p int16
		}
		var pts []pt
		for i := range samples {
			for ch := 0; ch < 2; ch++ {
				pcm := int16(uint16(buf[4*i+2*ch]) | uint16(buf[4*i+2*ch+1])<<8)
				checkPCM(c, orig[i][ch], vol, pcm, "channel "+[]string{"left", "right"}[ch])
				if !math.IsNaN(orig[i][ch] * vol) {
					pts = append(pts, pt{orig[i][ch], pcm})
				}
			}
			if samples[i] != orig[i] {
				c.Failf("modified", "the conversion changed the samples")
			}
		}
		for i := 4 * len(samples); i < len(buf); i++ {
			if buf[i] != 0xa5 {
				c.Failf("overrun", "bytes behind the samples were written")
			}
		}
		sort.Slice(pts, func(i, j int) bool { return pts[i].s < pts[j].s })
		for i := 1; i < len(pts); i++ {
			a, b := pts[i-1].p, pts[i].p
			if vol < 0 {
				a, b = b, a
			}
			if pts[i-1].s < pts[i].s && a > b {
				c.Failf("not-monotone", "volume %v: sample %v gives %d, the larger %v gives %d", vol, pts[i-1].s, pts[i-1].p, pts[i].s, pts[i].p)
			}
		}
		if vi > 0 && len(pts) > 4 {
			c.NonTrivial()
		}
	}
}

// ---- the real player: which samples a volume message changes

type c09Vol struct {
	Rate   int `json:"rate"`
	OpenMs int `json:"open_ms"`
	Msgs   []struct {
		At  int    `json:"at_us"`
		Vol uint64 `json:"vol"`
	} `json:"msgs"`
}

func runC09Vol(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	keepAlive()
	var cs c09Vol
	pbt.Decode(raw, &cs)
	schedule.TimeSyncCycles = 1
	schedule.TimeSyncCycleDelay = time.Millisecond
	schedule.TimeSyncInterval = time.Hour
	oto.OpenDelay = time.Duration(cs.OpenMs) * time.Millisecond
	fs := newFakeServer(c, func(fc *fsConn, m proto.Message) {
		if r, ok := m.(*comm.TimeSyncRequest); ok {
			now := timing.GetRawTime()
			fc.send(&comm.TimeSyncResponse{ClientSendTime: r.ClientSend, ServerRecvTime: now, ServerSendTime: now})
		}
	})
	dev := startDevice(cs.Rate, timing.GetRawTime)
	startPlayer(procIP(), fs.port(), cs.Rate)
	conn := fs.subscriber(comm.Channel_AUDIO)
	time.Sleep(10 * time.Millisecond)
	t0 := timing.GetRawTime()
	last := cs.Msgs[len(cs.Msgs)-1].At
	n := (last/1000 + 1500) * cs.Rate / 1000
	low, high := make([]float64, n), make([]float64, n)
	for i := range low {
		// every sample differs from its neighbours, left from right
		low[i] = float64(i%4001-2000) / 2000
		high[i] = -float64(i%3001-1500) / 1500
	}
	conn.send(&comm.QueueChunkRequest{StartTime: t0 + 300e6, SampleLow: low, SampleHigh: high})
	type chg struct {
		at  int64
		vol float64
	}
	var hist []chg
	for _, m := range cs.Msgs {
		if d := t0 + int64(m.At)*1000 + 333 - timing.GetRawTime(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		v := math.Float64frombits(m.Vol)
		conn.send(&comm.SetVolumeRequest{Volume: v})
		hist = append(hist, chg{timing.GetRawTime(), v})
	}
	if d := t0 + 200e6 + int64(n)*1e9/int64(cs.Rate) - timing.GetRawTime(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	pos := 0
	started := false
	used := map[float64]bool{}
	for _, w := range dev.snapshot() {
		if w.at < hist[0].at {
			started = started || w.at+int64(len(w.buf)/4)*1e9/int64(cs.Rate) > t0+300e6
			if started {
				// cannot happen: the first message comes before the audio
				c.Harnessf("audio before the first volume message")
			}
			continue
		}
		vol := hist[0].vol
		for _, h := range hist {
			if h.at <= w.at {
				vol = h.vol
			}
		}
		for j := 0; j+3 < len(w.buf); j += 4 {
			at := w.at + int64(j/4)*1e9/int64(cs.Rate)
			k := int(((at-t0-300e6)*int64(cs.Rate) + 5e8) / 1e9)
			if at < t0+300e6-1e9/int64(cs.Rate) || k < 2 || k >= n-2 {
				continue
			}
			l := int16(uint16(w.buf[j]) | uint16(w.buf[j+1])<<8)
			r := int16(uint16(w.buf[j+2]) | uint16(w.buf[j+3])<<8)
			// the position is known to within one sample (C01 checks it)
			ok := false
			for d := -1; d <= 1 && !ok; d++ {
				ok = pcmOK(low[k+d], vol, l) && pcmOK(high[k+d], vol, r)
			}
			if !ok {
				c.Failf("volume", "the buffer written %v after the audio began, volume %v: samples (%v, %v) are written as (%d, %d)", time.Duration(w.at-t0-300e6), vol, low[k], high[k], l, r)
			}
			used[vol] = true
			pos++
		}
	}
	if pos < n/2 {
		c.Failf("silent", "only %d of %d samples are written", pos, n)
	}
	if len(used) > 1 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C09", Targets: []pbt.Target{
		{Name: "pcm", Mode: pbt.Pure, Run: runC09, Quick: 200000, Thorough: 10000000,
			Gen: func(t *rapid.T) interface{} {
				return c09Case{rapid.SliceOfN(rapid.Custom(genVol), 1, 4).Draw(t, "vols"),
					rapid.SliceOfN(rapid.Custom(func(t *rapid.T) [2]uint64 { return [2]uint64{genSampleBits(t), genSampleBits(t)} }), 1, 24).Draw(t, "samples")}
			},
			Rule: "1-24 stereo samples (16 bit grid points, full scale, beyond) at 1-4 volumes from tiny to infinite: each output word within one step of clamp(v*s*32768), left before right, little endian, monotone; non-trivial: a second volume and several samples"},
		{Name: "volume-messages", Mode: pbt.Fake, Run: runC09Vol, Quick: 1500, Thorough: 60000,
			Gen: func(t *rapid.T) interface{} {
				cs := c09Vol{Rate: rapid.SampledFrom([]int{1000, 2000, 1500}).Draw(t, "rate")}
				if rapid.IntRange(0, 3).Draw(t, "slowopen") == 0 {
					cs.OpenMs = rapid.IntRange(1, 700).Draw(t, "open")
				}
				at := 0
				n := rapid.IntRange(1, 6).Draw(t, "n")
				for i := 0; i < n; i++ {
					cs.Msgs = append(cs.Msgs, struct {
						At  int    `json:"at_us"`
						Vol uint64 `json:"vol"`
					}{at, math.Float64bits(rapid.OneOf(rapid.Float64Range(0, 1), rapid.Float64Range(-2, 3), rapid.SampledFrom([]float64{0, 1, 0.1, 1e300})).Draw(t, "vol"))})
					at += rapid.OneOf(rapid.IntRange(10, 900_000), rapid.IntRange(200_000, 600_000)).Draw(t, "gap")
				}
				return cs
			},
			Rule: "the real player with a simulated, sometimes slow sound card plays a ramp while 1-6 volume messages arrive at arbitrary instants: every buffer written after a message and before the next has exactly that volume; non-trivial: at least two volumes were heard"},
	}})
}
