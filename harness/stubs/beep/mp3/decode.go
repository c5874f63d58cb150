// Package mp3 implements audio data decoding in MP3 format.
package mp3

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"time"

	"github.com/faiface/beep"
	gomp3 "github.com/hajimehoshi/go-mp3"
	"github.com/pkg/errors"
)

const (
	gomp3NumChannels   = 2
	gomp3Precision     = 2
	gomp3BytesPerFrame = gomp3NumChannels * gomp3Precision
)

// Decode takes a ReadCloser containing audio data in MP3 format and returns a StreamSeekCloser,
// which streams that audio. The Seek method will panic if rc is not io.Seeker.
//
// Do not close the supplied ReadSeekCloser, instead, use the Close method of the returned
// StreamSeekCloser when you want to release the resources.
func Decode(rc io.ReadCloser) (s beep.StreamSeekCloser, format beep.Format, err error) {
	defer func() {
		if err != nil {
			err = errors.Wrap(err, "mp3")
		}
	}()
	if s, f, e, ok := decodeSyn(rc); ok {
		return s, f, e
	}
	d, err := gomp3.NewDecoder(rc)
	if err != nil {
		return nil, beep.Format{}, err
	}
	format = beep.Format{
		SampleRate:  beep.SampleRate(d.SampleRate()),
		NumChannels: gomp3NumChannels,
		Precision:   gomp3Precision,
	}
	return &decoder{rc, d, format, 0, nil}, format, nil
}

type decoder struct {
	closer io.Closer
	d      *gomp3.Decoder
	f      beep.Format
	pos    int
	err    error
}

func (d *decoder) Stream(samples [][2]float64) (n int, ok bool) {
	if d.err != nil {
		return 0, false
	}
	var tmp [gomp3BytesPerFrame]byte
	for i := range samples {
		dn, err := d.d.Read(tmp[:])
		if dn == len(tmp) {
			samples[i], _ = d.f.DecodeSigned(tmp[:])
			d.pos += dn
			n++
			ok = true
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			d.err = errors.Wrap(err, "mp3")
			break
		}
	}
	return n, ok
}

func (d *decoder) Err() error {
	return d.err
}

func (d *decoder) Len() int {
	return int(d.d.Length()) / gomp3BytesPerFrame
}

func (d *decoder) Position() int {
	return d.pos / gomp3BytesPerFrame
}

func (d *decoder) Seek(p int) error {
	if p < 0 || d.Len() < p {
		return fmt.Errorf("mp3: seek position %v out of range [%v, %v]", p, 0, d.Len())
	}
	_, err := d.d.Seek(int64(p)*gomp3BytesPerFrame, io.SeekStart)
	if err != nil {
		return errors.Wrap(err, "mp3")
	}
	d.pos = p * gomp3BytesPerFrame
	return nil
}

func (d *decoder) Close() error {
	err := d.closer.Close()
	if err != nil {
		return errors.Wrap(err, "mp3")
	}
	return nil
}

// Synthetic songs of the verification harness: "SYNSONG1 {json}". Every sample
// names its song and its position, exactly, also after conversion to 16 bit.
type synHeader struct {
	ID     int  `json:"id"`
	N      int  `json:"n"`       // samples delivered
	Len    int  `json:"len"`     // length announced (0: n)
	OpenMs int  `json:"open_ms"` // time it takes to open the file
	ReadUs int  `json:"read_us"` // time each Stream call takes
	Fail   bool `json:"fail"`    // cannot be decoded
}

const synMagic = "SYNSONG1"

// SynSample returns sample i of song id.
func SynSample(id, i int) [2]float64 {
	return [2]float64{float64(1+i%32000) / 32768, float64(1+id*8+i/32000) / 32768}
}

// SynIdent inverts SynSample.
func SynIdent(s [2]float64) (id, i int) {
	lo, hi := int(s[0]*32768+0.5)-1, int(s[1]*32768+0.5)-1
	return hi / 8, hi%8*32000 + lo
}

type synDecoder struct {
	closer io.Closer
	h      synHeader
	pos    int
}

func decodeSyn(rc io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error, bool) {
	sk, ok := rc.(io.Seeker)
	if !ok {
		return nil, beep.Format{}, nil, false
	}
	// tags may come before and after it, as in a real file
	b, _ := io.ReadAll(rc)
	at := bytes.Index(b, []byte(synMagic))
	if at < 0 {
		sk.Seek(0, io.SeekStart)
		return nil, beep.Format{}, nil, false
	}
	d := &synDecoder{closer: rc}
	if err := json.NewDecoder(bytes.NewReader(b[at+len(synMagic):])).Decode(&d.h); err != nil {
		return nil, beep.Format{}, err, true
	}
	if d.h.OpenMs > 0 {
		time.Sleep(time.Duration(d.h.OpenMs) * time.Millisecond)
	}
	if d.h.Fail {
		return nil, beep.Format{}, errors.New("mp3: synthetic song that cannot be decoded"), true
	}
	return d, beep.Format{SampleRate: 44100, NumChannels: 2, Precision: 2}, nil, true
}

func (d *synDecoder) Stream(samples [][2]float64) (n int, ok bool) {
	if d.h.ReadUs > 0 {
		time.Sleep(time.Duration(d.h.ReadUs) * time.Microsecond)
	}
	for n < len(samples) && d.pos < d.h.N {
		samples[n] = SynSample(d.h.ID, d.pos)
		n++
		d.pos++
	}
	return n, n > 0
}

func (d *synDecoder) Err() error { return nil }

func (d *synDecoder) Len() int {
	if d.h.Len != 0 {
		return d.h.Len
	}
	return d.h.N
}

func (d *synDecoder) Position() int { return d.pos }

func (d *synDecoder) Seek(p int) error { d.pos = p; return nil }

func (d *synDecoder) Close() error { return d.closer.Close() }
