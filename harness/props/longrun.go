package props

import (
	"encoding/json"
	"fmt"
	"math"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/faiface/beep/mp3"
	"pgregory.net/rapid"
	"verif/pbt"
)

// The stream over a long time: many chunks, and many samples.

type longCase struct {
	Rate  int    `json:"rate"`
	Chunk int    `json:"chunk"`
	N     int    `json:"chunks"`
	Delay int    `json:"delay_ms"`
	Nan   int    `json:"nan"`
	Songs []Song `json:"songs"`
	Play  int    `json:"resume_ms"`
	Pause []int  `json:"toggles_ms"`
}

func genLong(t *rapid.T) interface{} {
	cs := longCase{Rate: 1000, Delay: rapid.IntRange(0, 20000).Draw(t, "delay"), Nan: rapid.IntRange(0, 2000).Draw(t, "nan")}
	switch rapid.IntRange(0, 2).Draw(t, "kind") {
	case 0: // many chunks
		cs.Chunk = rapid.SampledFrom([]int{5, 10, 13}).Draw(t, "chunk")
		cs.N = rapid.IntRange(65540, 72000).Draw(t, "n")
	case 1: // many samples
		cs.Chunk = rapid.IntRange(30000, 70000).Draw(t, "chunk")
		cs.N = (1<<24)/cs.Chunk + rapid.IntRange(1, 40).Draw(t, "n")
	default: // a long time
		cs.Rate = rapid.SampledFrom([]int{1000, 3000}).Draw(t, "rate")
		cs.Chunk = rapid.IntRange(500, 5000).Draw(t, "chunk")
		cs.N = rapid.IntRange(500, 6000).Draw(t, "n")
		if cs.N*cs.Chunk > 1<<24 {
			cs.N = (1 << 24) / cs.Chunk
		}
	}
	total := cs.N * cs.Chunk
	for i := rapid.IntRange(1, 5).Draw(t, "songs"); i > 0; i-- {
		cs.Songs = append(cs.Songs, Song{Name: fmt.Sprintf("s%d.mp3", i), ID: len(cs.Songs) + 1, N: rapid.OneOf(rapid.IntRange(1000, 20000), rapid.IntRange(100000, 256000)).Draw(t, "len")})
	}
	ms := total / cs.Rate * 1000
	cs.Play = rapid.OneOf(rapid.IntRange(100, 1000), rapid.IntRange(100, ms)).Draw(t, "resume")
	at := cs.Play
	for i := rapid.IntRange(0, 6).Draw(t, "toggles"); i > 0; i-- {
		at += rapid.OneOf(rapid.IntRange(5, 5000), rapid.IntRange(5, 1+ms/3)).Draw(t, "gap")
		cs.Pause = append(cs.Pause, at)
	}
	return cs
}

func runLong(c *pbt.C, raw json.RawMessage) {
	var cs longCase
	pbt.Decode(raw, &cs)
	w := newWorld(c)
	defer w.Close()
	for _, s := range cs.Songs {
		w.writeSong(s)
	}
	f := ServerFlags{Rate: cs.Rate, ChunkSize: cs.Chunk, Nan: cs.Nan, StartDelay: 200, Delay: cs.Delay}
	w.startServer(f)
	audio := w.dial(comm.Channel_AUDIO)
	meta := w.dial(comm.Channel_META)
	adm := w.admin()
	for _, s := range cs.Songs {
		adm.cmd("queue " + s.Name)
	}
	chunkT := int64(f.chunkDur())
	// the song samples, in order, wherever the silence is
	song, next := 0, 0
	k := 0
	var first int64
	infos := map[uint64]*comm.ChunkInfo{}
	starts := map[uint64]string{}
	began := 0
	take := func(rc *rawClient) []stamped {
		rc.mu.Lock()
		defer rc.mu.Unlock()
		l := rc.log
		rc.log = nil
		return l
	}
	var begun [][2]uint64 // stream index, song
	check := func() {
		for _, m := range take(meta) {
			switch x := m.Msg.(type) {
			case *comm.ChunkInfo:
				infos[x.FirstSampleIndex] = x
			case *comm.NewSongInfo:
				starts[x.FirstSampleOfSongIndex] = x.SongFileName
			}
		}
		for _, m := range take(audio) {
			q, ok := m.Msg.(*comm.QueueChunkRequest)
			if !ok {
				continue
			}
			if k == 0 {
				first = q.StartTime
			}
			if q.ChunkId != int64(k) || q.FirstSampleIndex != uint64(k)*uint64(cs.Chunk) || len(q.SampleLow) != cs.Chunk || len(q.SampleHigh) != cs.Chunk {
				c.Failf("long-chunk", "chunk %d of the stream has number %d, first sample %d and %d samples; chunks have %d", k, q.ChunkId, q.FirstSampleIndex, len(q.SampleLow), cs.Chunk)
			}
			if q.StartTime != first+int64(k)*chunkT {
				c.Failf("long-due", "chunk %d is due %v after chunk 0, chunks last %v", k, time.Duration(q.StartTime-first), time.Duration(chunkT))
			}
			if d := m.At - (first - int64(cs.Delay)*1e6 + int64(k+1)*chunkT); d > 20e6 || d < -20e6 {
				c.Failf("long-sent", "chunk %d is handed out %v away from its time", k, time.Duration(d))
			}
			for i := range q.SampleLow {
				l, h := q.SampleLow[i], q.SampleHigh[i]
				if math.IsNaN(l) && math.IsNaN(h) {
					continue
				}
				id, p := mp3.SynIdent([2]float64{l, h})
				if id != song+1 || p != next || mp3.SynSample(id, p) != [2]float64{l, h} {
					c.Failf("long-samples", "sample %d of chunk %d is sample %d of song %d, should be sample %d of song %d", i, k, p, id, next, song+1)
				}
				if next == 0 {
					begun = append(begun, [2]uint64{uint64(k)*uint64(cs.Chunk) + uint64(i), uint64(song)})
				}
				if next++; next == cs.Songs[song].N {
					song, next = (song+1)%len(cs.Songs), 0
					began++
				}
			}
			k++
		}
	}
	state, ti := false, -1
	for w.now() < 200e6+int64(cs.N)*chunkT {
		at := cs.Play
		if ti >= 0 {
			at = math.MaxInt32
			if ti < len(cs.Pause) {
				at = cs.Pause[ti]
			}
		}
		step := w.now() + 500*chunkT
		if chunkT*500 > 20e9*60 {
			step = w.now() + 20*chunkT
		}
		if step >= int64(at)*1e6 {
			w.sleepUntil(at)
			state = !state
			adm.cmd(map[bool]string{true: "resume", false: "pause"}[state])
			ti++
			continue
		}
		time.Sleep(time.Duration(step - w.now()))
		check()
	}
	time.Sleep(30 * time.Millisecond)
	check()
	if k < cs.N-1 {
		c.Failf("long-missing", "%d chunks in %v, should be %d", k, time.Duration(w.now()), cs.N)
	}
	for i := 0; i < k; i++ {
		x := infos[uint64(i)*uint64(cs.Chunk)]
		if x == nil || x.StartTime != first+int64(i)*chunkT || x.ChunkSize != uint64(cs.Chunk) {
			c.Failf("long-info", "chunk %d, due %v after chunk 0, is announced as %v (chunk 0 was due at %d)", i, time.Duration(int64(i)*chunkT), x, first)
		}
	}
	for i, b := range begun {
		// (the first one may have begun while paused)
		if n := starts[b[0]]; n != cs.Songs[b[1]].Name && len(cs.Pause) == 0 && i > 0 {
			c.Failf("long-song", "song %s begins at sample %d; announced there: %q", cs.Songs[b[1]].Name, b[0], n)
		}
	}
	c.Count("chunks", k)
	c.Count("songs completed", began)
	if k > 500 || k*cs.Chunk >= 1<<24 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C03", Targets: []pbt.Target{
		{Name: "long-stream", Mode: pbt.Fake, Gen: genLong, Run: runLong, Quick: 8, Thorough: 400, Timeout: 200 * time.Second,
			Rule: "the real server in virtual time for more than 65536 chunks, more than 2^24 samples or some hours: number, first sample, due and hand-out time of every chunk and its announcement, all samples of the songs in order, and where songs are announced; non-trivial: more than 500 chunks or 2^24 samples"},
	}})
}
