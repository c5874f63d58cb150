package props

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

// toggle is one entry of a pause history.
type toggle struct {
	I uint64 `json:"i"`
	P bool   `json:"p"`
}

// pauseAt says what a history means at a sample of the song that starts at
// start: the state, and how many samples of the song so far were paused.
func pauseAt(h []toggle, start, sample uint64) (playing bool, paused uint64) {
	s := append([]toggle{}, h...)
	sort.SliceStable(s, func(a, b int) bool { return s[a].I < s[b].I })
	playing = true
	from := uint64(0) // begin of the pause
	add := func(to uint64) {
		a := from
		if a < start {
			a = start
		}
		if to > a {
			paused += to - a
		}
	}
	for _, p := range s {
		if p.I > sample {
			break
		}
		if playing && !p.P {
			from = p.I
		} else if !playing && p.P {
			add(p.I)
		}
		playing = p.P
	}
	if !playing {
		add(sample)
	}
	return
}

// meaning answers what pauseAt does, for many samples.
type meaning struct {
	h    []toggle // sorted, changes only
	sum  []uint64 // paused in the song before h[i]
	from uint64
}

func newMeaning(h []toggle, start uint64) *meaning {
	s := append([]toggle{}, h...)
	sort.SliceStable(s, func(a, b int) bool { return s[a].I < s[b].I })
	m := &meaning{from: start}
	playing := true
	var sum uint64
	for i, p := range s {
		if i > 0 && !playing {
			sum += m.between(s[i-1].I, p.I)
		}
		m.h, m.sum = append(m.h, p), append(m.sum, sum)
		playing = p.P
	}
	return m
}

func (m *meaning) between(a, b uint64) uint64 {
	if a < m.from {
		a = m.from
	}
	if b < a {
		return 0
	}
	return b - a
}

func (m *meaning) at(sample uint64) (playing bool, paused uint64) {
	i := sort.Search(len(m.h), func(i int) bool { return m.h[i].I > sample }) - 1
	if i < 0 {
		return true, 0
	}
	if m.h[i].P {
		return true, m.sum[i]
	}
	return false, m.sum[i] + m.between(m.h[i].I, sample)
}

// sameHistory compares what two histories say from start on.
func sameHistory(full, sent []toggle, start uint64) string {
	pts := []uint64{start, start + 1, start + 1<<40}
	for _, h := range [][]toggle{full, sent} {
		for _, p := range h {
			for d := uint64(0); d < 3; d++ {
				if p.I+d > start+1 {
					pts = append(pts, p.I+d-1)
				}
			}
		}
	}
	m1, m2 := newMeaning(full, start), newMeaning(sent, start)
	for _, x := range pts {
		if x < start {
			continue
		}
		p1, n1 := m1.at(x)
		p2, n2 := m2.at(x)
		if p1 != p2 || n1 != n2 {
			return fmt.Sprintf("song starts at %d; at sample %d the complete history says playing=%v, %d samples paused, the history sent says playing=%v, %d samples paused", start, x, p1, n1, p2, n2)
		}
	}
	return ""
}

// recSender records messages.
type recSender struct {
	mu   sync.Mutex
	msgs []proto.Message
}

func (r *recSender) SendMessage(m proto.Message) error {
	r.mu.Lock()
	r.msgs = append(r.msgs, m)
	r.mu.Unlock()
	return nil
}

func (r *recSender) all() []proto.Message {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]proto.Message{}, r.msgs...)
}

func togglesOf(ms []proto.Message) (h []toggle) {
	for _, m := range ms {
		if p, ok := m.(*comm.PauseInfo); ok {
			h = append(h, toggle{p.ToggleSampleIndex, p.Playing})
		}
	}
	return
}

type c16Case struct {
	T     []toggle `json:"toggles"`
	Songs []uint64 `json:"songs"` // newest song starts, one after the other
	At    []int    `json:"at"`    // how many toggles are there when a song comes
	Conc  bool     `json:"conc"`
}

func genC16(t *rapid.T) interface{} {
	cs := c16Case{Conc: rapid.IntRange(0, 3).Draw(t, "conc") == 0}
	n := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 60)).Draw(t, "n")
	idx := uint64(rapid.SampledFrom([]int{0, 1, 512, 1 << 33}).Draw(t, "base"))
	alt := rapid.IntRange(0, 2).Draw(t, "alt") > 0
	p := rapid.Bool().Draw(t, "first")
	for i := 0; i < n; i++ {
		cs.T = append(cs.T, toggle{idx, p})
		idx += uint64(rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 100000)).Draw(t, "gap"))
		if alt {
			p = !p
		} else {
			p = rapid.Bool().Draw(t, "p")
		}
	}
	if rapid.IntRange(0, 149).Draw(t, "long") == 0 { // a night of pauses
		m := rapid.IntRange(60, 3000).Draw(t, "more")
		gap := uint64(rapid.IntRange(1, 5000).Draw(t, "every"))
		for i := 0; i < m; i++ {
			cs.T = append(cs.T, toggle{idx, p})
			idx += gap + uint64(i)%7
			p = !p
		}
		n += m
	}
	k := rapid.IntRange(0, 6).Draw(t, "songs")
	at, s := 0, uint64(0)
	for i := 0; i < k; i++ {
		at = rapid.IntRange(at, n).Draw(t, "at")
		x := s
		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 0: // exactly at, or next to a toggle
			if n > 0 {
				x = cs.T[rapid.IntRange(0, n-1).Draw(t, "which")].I + uint64(rapid.IntRange(0, 2).Draw(t, "off"))
				if x > 0 {
					x--
				}
			}
		default:
			x = rapid.Uint64Range(s, idx+1000).Draw(t, "start")
		}
		if x < s {
			x = s
		}
		s = x
		cs.Songs = append(cs.Songs, s)
		cs.At = append(cs.At, at)
	}
	return cs
}

func runC16(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c16Case
	pbt.Decode(raw, &cs)
	v := schedule.VerifNewPrune()
	wire := func(h []toggle) []*comm.PauseInfo {
		l := make([]*comm.PauseInfo, len(h))
		for i, t := range h {
			l[i] = &comm.PauseInfo{Playing: t.P, ToggleSampleIndex: t.I}
		}
		return l
	}
	sent := func() []toggle {
		r := &recSender{}
		v.Send(r)
		return togglesOf(r.all())
	}
	// the history is kept pruned while songs and toggles come
	done, start := 0, uint64(0)
	for i := 0; i <= len(cs.Songs); i++ {
		upto := len(cs.T)
		if i < len(cs.Songs) {
			upto = cs.At[i]
		}
		full := cs.T[:upto]
		v.SetPauses(append(wire(sent()), wire(cs.T[done:upto])...))
		done = upto
		if i < len(cs.Songs) {
			start = cs.Songs[i]
			v.SetSong(&comm.NewSongInfo{FirstSampleOfSongIndex: start})
		}
		rem := v.Removable()
		before := len(sent())
		if rem < 0 || rem > before {
			c.Failf("removable", "%d of %d entries are removable", rem, before)
		}
		if cs.Conc {
			var wg sync.WaitGroup
			res := make([]string, 8)
			for g := range res {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					if g%2 == 0 {
						v.Prune()
					} else {
						res[g] = sameHistory(full, sent(), start)
					}
				}(g)
			}
			wg.Wait()
			for _, m := range res {
				if m != "" {
					c.Failf("concurrent", "while pruning: %s", m)
				}
			}
		} else {
			v.Prune()
		}
		got := sent()
		if len(cs.Songs) == 0 || start == 0 {
			if m := sameHistory(full, got, 0); m != "" {
				c.Failf("history", "without a song: %s", m)
			}
		} else if m := sameHistory(full, got, start); m != "" {
			c.Failf("history", "%s (complete %v, sent %v)", m, full, got)
		}
		if len(got) < before {
			c.NonTrivial()
		}
		// nothing piles up
		if i < len(cs.Songs) {
			old, lastResume := 0, -1
			for j, t := range got {
				if t.I < start && t.P {
					lastResume = j
				}
			}
			for j := range got {
				if j < lastResume {
					old++
				}
			}
			if old > 1 {
				c.Failf("piles-up", "after pruning for the song at %d, %v is still there", start, got)
			}
		}
	}
}

// ---- the whole server, without a network

type c16Op struct {
	At  int    `json:"at_ms"`
	Cmd string `json:"cmd"`
}

type c16SimCase struct {
	Rate  int     `json:"rate"`
	Chunk int     `json:"chunk"`
	Nan   int     `json:"nan"`
	Songs []int   `json:"songs"` // lengths
	Ops   []c16Op `json:"ops"`
	Joins []int   `json:"joins_ms"`
}

func genC16Sim(t *rapid.T) interface{} {
	rate := rapid.SampledFrom([]int{600, 1000, 2000}).Draw(t, "rate")
	cs := c16SimCase{Rate: rate, Chunk: rapid.IntRange(rate/4, 3*rate).Draw(t, "chunk"), Nan: rapid.IntRange(0, rate).Draw(t, "nan")}
	n := rapid.IntRange(1, 4).Draw(t, "songs")
	for i := 0; i < n; i++ {
		cs.Songs = append(cs.Songs, rapid.OneOf(rapid.IntRange(1, rate), rapid.IntRange(rate, 20*rate)).Draw(t, "len"))
	}
	at := noSong*1000/rate + 500
	if rapid.IntRange(0, 24).Draw(t, "long") == 0 { // a long song with many pauses
		cs.Songs = []int{rapid.IntRange(100*rate, 240000).Draw(t, "len")}
		m := rapid.IntRange(80, 500).Draw(t, "many")
		gap := 600000/rate + rapid.IntRange(0, 100).Draw(t, "every")
		for i := 0; i < m; i++ {
			at += gap
			cs.Ops = append(cs.Ops, c16Op{at, []string{"pause", "resume"}[i%2]})
			if i%50 == 49 {
				cs.Joins = append(cs.Joins, at)
			}
		}
	}
	m := rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 80)).Draw(t, "ops")
	for i := 0; i < m; i++ {
		at += rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(10, 1500), rapid.IntRange(100, 20000)).Draw(t, "gap")
		op := rapid.SampledFrom([]string{"pause", "resume", "pause", "resume", "jump 0", "jump 1"}).Draw(t, "op")
		cs.Ops = append(cs.Ops, c16Op{at, op})
		if rapid.IntRange(0, 3).Draw(t, "join") == 0 {
			cs.Joins = append(cs.Joins, at+rapid.IntRange(0, 3000).Draw(t, "join at"))
		}
	}
	cs.Joins = append(cs.Joins, at+5000)
	sort.Ints(cs.Joins)
	return cs
}

func runC16Sim(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	keepAlive()
	var cs c16SimCase
	pbt.Decode(raw, &cs)
	dir, err := os.MkdirTemp("", "c16")
	if err != nil {
		c.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	w := &World{c: c, dir: dir, Audio: dir}
	for i, n := range cs.Songs {
		w.writeSong(Song{Name: fmt.Sprintf("s%d.mp3", i), ID: i + 1, N: n})
	}
	playback.AudioDir = dir
	schedule.SampleRate = cs.Rate
	schedule.StreamChunkSize = cs.Chunk
	schedule.StreamChunkTime = time.Duration(cs.Chunk) * time.Second / time.Duration(cs.Rate)
	schedule.NanBreakSize = cs.Nan
	schedule.StreamStartDelay = 10 * time.Millisecond
	schedule.StreamDelay = 15 * time.Second
	rec := &recSender{}
	schedule.Server(rec)
	run := func(line string) {
		f := strings.Fields(line)
		for _, k := range ssh.VerifCommands() {
			if k.Name == f[0] {
				k.ExecFunc(f[1:])
				return
			}
		}
		c.Failf("no-command", "the server has no command %s", f[0])
	}
	t0 := time.Now()
	until := func(ms int) { time.Sleep(time.Duration(ms)*time.Millisecond - time.Since(t0)) }
	run("queue *")
	run("resume")
	join := func(ms int) {
		until(ms)
		time.Sleep(313 * time.Microsecond)
		all := rec.all()
		r := &recSender{}
		comm.NewClientHandler(comm.Channel_META, r)
		var song *comm.NewSongInfo
		for _, m := range all {
			if s, ok := m.(*comm.NewSongInfo); ok && (song == nil || s.FirstSampleOfSongIndex >= song.FirstSampleOfSongIndex) {
				song = s
			}
		}
		var got *comm.NewSongInfo
		for _, m := range r.all() {
			if s, ok := m.(*comm.NewSongInfo); ok {
				got = s
			}
		}
		if (song == nil) != (got == nil) || song != nil && got.FirstSampleOfSongIndex != song.FirstSampleOfSongIndex {
			c.Failf("song", "at %d ms the newest song is %v, a joiner is sent %v", ms, song, got)
		}
		full, sent := togglesOf(all), togglesOf(r.all())
		start := uint64(0)
		if song != nil {
			start = song.FirstSampleOfSongIndex
		}
		if m := sameHistory(full, sent, start); m != "" {
			c.Failf("history", "join at %d ms: %s (complete %v, sent %v)", ms, m, full, sent)
		}
		if len(sent) < len(full) {
			c.NonTrivial()
		}
		c.Count("toggles", len(full))
	}
	j := 0
	for _, o := range cs.Ops {
		for j < len(cs.Joins) && cs.Joins[j] < o.At {
			join(cs.Joins[j])
			j++
		}
		until(o.At)
		run(o.Cmd)
	}
	for ; j < len(cs.Joins); j++ {
		join(cs.Joins[j])
	}
	// one more song and one more pause and resume: everything old is dropped
	run("resume")
	run("jump 0")
	time.Sleep(4*time.Second + time.Duration(cs.Nan)*time.Second/time.Duration(cs.Rate))
	for i := 0; i < 2; i++ {
		run("pause")
		time.Sleep(3 * time.Second)
		run("resume")
		time.Sleep(3 * time.Second)
	}
	r := &recSender{}
	comm.NewClientHandler(comm.Channel_META, r)
	start := uint64(0)
	for _, m := range r.all() {
		if s, ok := m.(*comm.NewSongInfo); ok {
			start = s.FirstSampleOfSongIndex
		}
	}
	old := 0
	h := togglesOf(r.all())
	lastResume := 0
	for i, t := range h {
		if t.P && t.I < start {
			lastResume = i
		}
	}
	old = lastResume
	if old > 6 {
		c.Failf("piles-up", "the newest song starts at %d, a joiner is still sent %v", start, h)
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C16", Targets: []pbt.Target{
		{Name: "prune", Mode: pbt.Pure, Gen: genC16, Run: runC16, Quick: 60000, Thorough: 8000000,
			Rule: "0-60 pauses and resumes, alternating or not, and 0-6 newer and newer songs, at and next to the toggles; the server's history, pruned again and again (also concurrently with sending), against the complete one at every toggle, its neighbours and the far future; non-trivial: something was pruned"},
		{Name: "prune-server", Mode: pbt.Fake, Gen: genC16Sim, Run: runC16Sim, Quick: 600, Thorough: 60000, Timeout: 60 * time.Second,
			Rule: "the whole server in virtual time with up to 80 pauses, resumes and jumps, in bursts and minutes apart, and displays joining in between; what each is sent, against everything broadcast before; old entries must be gone in the end; non-trivial: something was pruned"},
		{Name: "history-threads", Mode: pbt.Fresh, Gen: genServerThreads(true), Run: runServerThreads, Quick: 200, Thorough: 10000, Timeout: 60 * time.Second,
			Rule: "the server on real threads streams up to 10 million samples a second while its pause, resume and (in a quarter of the cases) jump commands run as fast as they can; then what a joining display is sent against everything broadcast; non-trivial: two songs begin and three changes are announced"},
	}})
}
