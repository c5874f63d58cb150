package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

// The stream clock: songs on a slow disk make the server wait for samples, and
// more audio clients come and go.

type c03Case struct {
	Sim   simCase `json:"sim"`
	Joins []int   `json:"joins_ms"`  // further audio clients
	Leave []int   `json:"leaves_ms"` // when they leave (0: never)
}

func genC03(t *rapid.T) interface{} {
	cs := c03Case{}
	rate := rapid.SampledFrom([]int{3000, 4000, 8000, 11025, 16000, 22050, 44100, 48000}).Draw(t, "rate")
	f := ServerFlags{Rate: rate}
	f.ChunkSize = rapid.OneOf(rapid.IntRange(rate/40, rate), rapid.IntRange(rate/4, 4*rate), rapid.SampledFrom([]int{rate / 50, rate / 2, rate, 512 * 4, 32768, 32769})).Draw(t, "chunk")
	f.Nan = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 511, 512, 513}), rapid.IntRange(0, rate)).Draw(t, "nan")
	f.StartDelay = rapid.OneOf(rapid.IntRange(0, 50), rapid.IntRange(0, 3000)).Draw(t, "start")
	f.Delay = rapid.OneOf(rapid.IntRange(0, 20000), rapid.Just(f.ChunkSize*1000/rate+200)).Draw(t, "delay")
	s := simCase{Flags: f}
	n := rapid.IntRange(1, 4).Draw(t, "songs")
	slow := rapid.Bool().Draw(t, "slow")
	for i := 0; i < n; i++ {
		g := Song{Name: fmt.Sprintf("s%d.mp3", i), ID: i + 1, N: rapid.IntRange(rate/3, 2*rate).Draw(t, "len")}
		if slow {
			g.OpenMs = rapid.OneOf(rapid.Just(0), rapid.IntRange(1, 999), rapid.IntRange(1000, 6000)).Draw(t, "open")
		}
		s.Songs = append(s.Songs, g)
		s.Ops = append(s.Ops, simOp{At: 10 * (i + 1), Op: "queue", S: i})
	}
	s.Ops = append(s.Ops, simOp{At: 60, Op: "resume"})
	if rapid.Bool().Draw(t, "pauses") {
		at := 100
		for i := rapid.IntRange(1, 6).Draw(t, "toggles"); i > 0; i-- {
			at += rapid.IntRange(50, 3000).Draw(t, "gap")
			s.Ops = append(s.Ops, simOp{At: at, Op: rapid.SampledFrom([]string{"pause", "resume"}).Draw(t, "op")})
		}
	}
	s.End = f.StartDelay + rapid.OneOf(rapid.IntRange(500, 4*f.ChunkSize*1000/rate+15000), rapid.IntRange(3*f.ChunkSize*1000/rate+100, 4*f.ChunkSize*1000/rate+15000)).Draw(t, "end")
	if max := f.StartDelay + 400*f.ChunkSize*1000/rate; s.End > max {
		s.End = max
	}
	if max := f.StartDelay + 600_000_000/rate; s.End > max {
		s.End = max
	}
	if s.End < 70 {
		s.End = 70
	}
	ops := s.Ops[:0]
	for _, o := range s.Ops {
		if o.At < s.End-10 {
			ops = append(ops, o)
		}
	}
	s.Ops = ops
	for i := rapid.IntRange(0, 4).Draw(t, "clients"); i > 0; i-- {
		j := rapid.IntRange(0, s.End).Draw(t, "join")
		l := 0
		if rapid.Bool().Draw(t, "leaves") {
			l = j + rapid.IntRange(0, s.End).Draw(t, "leave")
		}
		cs.Joins = append(cs.Joins, j)
		cs.Leave = append(cs.Leave, l)
	}
	cs.Sim = s
	return cs
}

func (r *simRun) stalls() bool {
	for _, s := range r.cs.Songs {
		if s.OpenMs > 0 {
			return true
		}
	}
	return false
}

func (r *simRun) maxOpen() int64 {
	max := 0
	for _, s := range r.cs.Songs {
		if s.OpenMs > max {
			max = s.OpenMs
		}
	}
	return int64(max) * 1e6
}

// lateness computes how long chunks have to wait for samples: the playlist is
// at most one second of samples ahead of the stream, and stops for the time a
// song takes to open.
func (r *simRun) lateness() func(k int) int64 {
	f := r.cs.Flags
	open := map[int]int64{}
	for _, s := range r.songs {
		open[int(s.FirstSampleOfSongIndex)] = int64(r.cs.Songs[r.byName[s.SongFileName]].OpenMs) * 1e6
	}
	read := []int64{} // when each sample is taken
	wrote := r.w.T0   // when the last one was written
	return func(k int) int64 {
		for i := len(read); i < (k+1)*f.ChunkSize; i++ {
			if d, ok := open[i]; ok { // opened once the sample before is written
				wrote += d
			}
			if i >= f.Rate && read[i-f.Rate] > wrote {
				wrote = read[i-f.Rate]
			}
			at := wrote
			if t := r.tick(i/f.ChunkSize + 1); t > at {
				at = t
			}
			if i > 0 && read[i-1] > at {
				at = read[i-1]
			}
			read = append(read, at)
		}
		return read[(k+1)*f.ChunkSize-1] - r.tick(k+1)
	}
}

func runC03(c *pbt.C, raw json.RawMessage) {
	var cs c03Case
	pbt.Decode(raw, &cs)
	r := simServe(c, cs.Sim)
	defer r.w.Close()
	type ev struct {
		at, i int
		leave bool
	}
	var evs []ev
	for i, j := range cs.Joins {
		evs = append(evs, ev{j, i, false})
		if cs.Leave[i] > 0 {
			evs = append(evs, ev{cs.Leave[i], i, true})
		}
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	others := make([]*rawClient, len(cs.Joins))
	joined := make([]int64, len(cs.Joins))
	go func() {
		for _, e := range evs {
			r.w.sleepUntil(e.at)
			time.Sleep(700 * time.Microsecond)
			if e.leave {
				others[e.i].conn.Close()
			} else {
				joined[e.i] = r.w.now() + r.w.T0
				others[e.i] = r.w.dial(comm.Channel_AUDIO)
			}
		}
	}()
	r.play()
	r.collect()
	for i, rc := range others {
		if rc == nil {
			continue
		}
		left := r.w.now() + r.w.T0
		if l := cs.Leave[i]; l > 0 && r.w.T0+int64(l)*1e6 < left {
			left = r.w.T0 + int64(l)*1e6
		}
		k := 0
		for k < len(r.chunks) && r.chunks[k].At < joined[i]+2e6 {
			k++
		}
		got := 0
		for _, m := range rc.messages() {
			q, ok := m.Msg.(*comm.QueueChunkRequest)
			if !ok {
				continue
			}
			if got == 0 && k > 0 && q.ChunkId == int64(k-1) {
				k-- // sent while it joined
			}
			if k >= len(r.chunks) || !proto.Equal(q, r.chunks[k].Msg) {
				c.Failf("join-chunks", "a client that joined at %v got chunk %d, expected chunk %d, or its contents differ", time.Duration(joined[i]-r.w.T0), q.ChunkId, k)
			}
			k++
			got++
		}
		if k < len(r.chunks) && r.chunks[k].At < left-2e6 {
			c.Failf("join-missing", "a client that joined at %v and left at %v never got chunk %d, sent at %v", time.Duration(joined[i]-r.w.T0), time.Duration(left-r.w.T0), k, time.Duration(r.chunks[k].At-r.w.T0))
		}
		if got > 0 {
			c.Class("joiner")
		}
	}
	if len(r.chunks) > 2 {
		c.NonTrivial()
	}
	if r.late != nil {
		for k := range r.chunks {
			if r.late(k) > 30e6 {
				c.Class("stalled")
				break
			}
		}
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C03", Targets: []pbt.Target{
		{Name: "chunk-stream", Mode: pbt.Fake, Gen: genC03, Run: runC03, Quick: 600, Thorough: 30000, Timeout: 40 * time.Second,
			Rule: "the real server in virtual time with sample rates from 3 to 48 kHz, chunks of 20 ms to 4 s, any delays, songs that take up to 6 s to open, pauses, and clients that join and leave: every chunk's number, size, first sample, due time and the time it is handed out (late only while there are no samples, and caught up with at once), the chunk announcements, and what each joiner gets; non-trivial: at least three chunks"},
	}})
}
