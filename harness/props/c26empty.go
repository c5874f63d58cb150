package props

import (
	"encoding/json"
	"fmt"
	"time"

	"pgregory.net/rapid"
	"verif/pbt"
)

// Songs without a single sample, with and without breaks between songs.

type emptyCase struct {
	Sim  simCase `json:"sim"`
	Late int     `json:"late_ms"` // when songs with samples are added (0: never)
}

func genEmpty(t *rapid.T) interface{} {
	rate := rapid.SampledFrom([]int{8000, 16000, 44100}).Draw(t, "rate")
	f := ServerFlags{Rate: rate, ChunkSize: rapid.IntRange(rate/8, rate).Draw(t, "chunk"), Nan: rapid.SampledFrom([]int{0, 0, rate / 10, rate}).Draw(t, "nan"), Delay: 2000}
	cs := emptyCase{Sim: simCase{Flags: f}}
	s := &cs.Sim
	n := rapid.IntRange(1, 4).Draw(t, "songs")
	for i := 0; i < n; i++ {
		g := Song{Name: fmt.Sprintf("e%d.mp3", i), ID: i + 1}
		if rapid.IntRange(0, 3).Draw(t, "unplayable") == 0 {
			g.Fail, g.Bad = true, "garbage"
		}
		s.Songs = append(s.Songs, g)
		s.Ops = append(s.Ops, simOp{At: 10 + 10*i, Op: "queue", S: i})
	}
	s.Ops = append(s.Ops, simOp{At: 100, Op: "resume"})
	at := 100
	for i := rapid.IntRange(0, 6).Draw(t, "ops"); i > 0; i-- {
		at += rapid.IntRange(7, 1500).Draw(t, "gap")
		s.Ops = append(s.Ops, simOp{At: at, Op: rapid.SampledFrom([]string{"jump", "queue", "pause", "resume"}).Draw(t, "op"), S: rapid.IntRange(0, n-1).Draw(t, "song"), P: rapid.IntRange(-3, 9).Draw(t, "pos")})
	}
	at += 10
	s.Ops = append(s.Ops, simOp{At: at, Op: "resume"})
	s.End = at + 6000
	if rapid.IntRange(0, 3).Draw(t, "late") > 0 {
		cs.Late = at + rapid.IntRange(7, 3000).Draw(t, "at")
		k := len(s.Songs)
		s.Songs = append(s.Songs, Song{Name: "x.mp3", ID: k + 1, N: rapid.IntRange(rate/4, 3*rate).Draw(t, "len")})
		s.Ops = append(s.Ops, simOp{At: cs.Late, Op: rapid.SampledFrom([]string{"queue", "insert"}).Draw(t, "how"), S: k, P: rapid.IntRange(0, 3).Draw(t, "pos")})
		s.End = cs.Late + 1000*(noSong+3*rate+2*len(s.Ops)*f.Nan)/rate + 2*f.ChunkSize*1000/rate + 500
	}
	return cs
}

func runEmpty(c *pbt.C, raw json.RawMessage) {
	var cs emptyCase
	pbt.Decode(raw, &cs)
	r := simServe(c, cs.Sim)
	defer r.w.Close()
	r.play()
	r.collect() // the stream went on in time
	next, heard := 0, false
	x := cs.Sim.Songs[len(cs.Sim.Songs)-1]
	for i, id := range r.id {
		if id == 0 {
			continue
		}
		if id != x.ID || r.pos[i] != next {
			r.failf("empty-order", "sample %d of the stream should be sample %d of %s and is %s", i, next, x.Name, r.state(i))
		}
		heard = true
		if next++; next == x.N {
			next = 0
		}
	}
	if cs.Late > 0 && !heard {
		r.failf("empty-late", "a song added %d ms after the start to a list of songs without samples is not played in the %d ms until the end", cs.Late, cs.Sim.End-cs.Late)
	}
	if len(r.chunks) > 3 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C26", Targets: []pbt.Target{
		{Name: "empty-songs", Mode: pbt.Fake, Gen: genEmpty, Run: runEmpty, Quick: 300, Thorough: 40000, Timeout: 40 * time.Second,
			Rule: "the real server in virtual time with songs that hold no sample (and unplayable ones), mostly without breaks between songs: the chunk stream goes on in time, commands are answered, and a song that is added later is played; non-trivial: more than three chunks"},
	}})
}
