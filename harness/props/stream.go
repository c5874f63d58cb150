package props

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/faiface/beep/mp3"
	"pgregory.net/rapid"
	"verif/pbt"
)

// The real server program in virtual time, one administrator, an audio and a
// display client from the start; the recorded stream is followed sample by
// sample and compared with what the commands ask for.

type simOp struct {
	At int    `json:"at_ms"`
	Op string `json:"op"` // queue, insert, remove, pause, resume, jump
	S  int    `json:"s"`  // song (queue, insert)
	P  int    `json:"p"`  // position (insert, remove, jump)
}

type simCase struct {
	Flags ServerFlags `json:"flags"`
	Songs []Song      `json:"songs"`
	Ops   []simOp     `json:"ops"`
	End   int         `json:"end_ms"`
}

const noSong = 32768 // silence pushed at a time while nothing can be played

// simPlan holds what the generators vary.
type simPlan struct {
	pauses, jumps, edits, appends bool
	bad                           bool // unplayable and short songs
	maxOps                        int
}

func genFlags(t *rapid.T) ServerFlags {
	rate := rapid.SampledFrom([]int{4000, 8000, 8000, 11025, 16000}).Draw(t, "rate")
	f := ServerFlags{Rate: rate}
	f.ChunkSize = rapid.OneOf(rapid.IntRange(rate/8, rate), rapid.IntRange(rate/4, 3*rate), rapid.SampledFrom([]int{rate / 2, rate, 512 * 4})).Draw(t, "chunk")
	f.Nan = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 511, 512, 513}), rapid.IntRange(0, rate)).Draw(t, "nan")
	f.StartDelay = rapid.IntRange(0, 700).Draw(t, "start")
	f.Delay = f.ChunkSize*1000/rate + rapid.IntRange(100, 3000).Draw(t, "delay")
	return f
}

func genSim(t *rapid.T, pl simPlan) simCase {
	cs := simCase{Flags: genFlags(t)}
	rate := cs.Flags.Rate
	n := rapid.IntRange(1, 6).Draw(t, "songs")
	for i := 0; i < n; i++ {
		l := rapid.OneOf(rapid.IntRange(1, 2*rate), rapid.IntRange(1, 700), rapid.SampledFrom([]int{511, 512, 513, 1024, 1023, 1})).Draw(t, "len")
		s := Song{Name: fmt.Sprintf("s%d.mp3", i), ID: i + 1, N: l}
		if pl.bad {
			switch rapid.IntRange(0, 6).Draw(t, "kind") {
			case 0:
				s.Fail = true
			case 1, 4:
				s.Fail = true
				s.Bad = rapid.SampledFrom([]string{"gone", "gone", "dir", "empty", "garbage", "link", "loop", "cutmp3"}).Draw(t, "bad")
			case 2:
				s.Len = l + rapid.IntRange(1, 5000).Draw(t, "announced") // breaks off
			case 3:
				s.N = 0
			}
		}
		cs.Songs = append(cs.Songs, s)
	}
	song := func() int { return rapid.IntRange(0, n-1).Draw(t, "song") }
	// when the first song can begin
	first := (noSong-rate)*1000/rate + cs.Flags.StartDelay
	at := rapid.IntRange(10, 40).Draw(t, "t0")
	k := rapid.IntRange(1, 5).Draw(t, "queued")
	for i := 0; i < k; i++ {
		cs.Ops = append(cs.Ops, simOp{At: at, Op: "queue", S: song()})
		at += 10
	}
	if !pl.pauses || rapid.IntRange(0, 3).Draw(t, "resumed") > 0 {
		cs.Ops = append(cs.Ops, simOp{At: at, Op: "resume"})
		at += 10
	}
	if rapid.IntRange(0, 4).Draw(t, "early") > 0 {
		at += rapid.IntRange(0, first).Draw(t, "skip")
		if at < first-500 && rapid.Bool().Draw(t, "toStart") {
			at = first - 500
		}
	}
	var kinds []string
	if pl.pauses {
		kinds = append(kinds, "pause", "resume", "resume", "pause")
	}
	if pl.jumps {
		kinds = append(kinds, "jump", "jump")
	}
	if pl.appends {
		kinds = append(kinds, "queue")
	}
	if pl.edits {
		kinds = append(kinds, "insert", "remove", "queue")
	}
	m := rapid.IntRange(1, pl.maxOps).Draw(t, "ops")
	for i := 0; i < m; i++ {
		at += rapid.OneOf(rapid.IntRange(7, 30), rapid.IntRange(7, 1000), rapid.IntRange(100, 3000)).Draw(t, "gap")
		o := simOp{At: at, Op: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch o.Op {
		case "queue":
			o.S = song()
		case "insert":
			o.S = song()
			o.P = rapid.IntRange(-2, 9).Draw(t, "pos")
		case "remove":
			o.P = rapid.IntRange(-2, 9).Draw(t, "pos")
		case "jump":
			o.P = rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(-9, 12), rapid.SampledFrom([]int{-1, 1 << 40, -1 << 40, math.MaxInt64, math.MinInt64})).Draw(t, "pos")
		}
		cs.Ops = append(cs.Ops, o)
	}
	cs.End = at
	if cs.End < first+1000 {
		cs.End = first + 1000
	}
	cs.End += rapid.IntRange(500, 5000).Draw(t, "tail")
	if cs.End > 60000 {
		cs.End = 60000
	}
	for _, s := range cs.Songs {
		if s.N == 0 && cs.Flags.Nan == 0 {
			cs.Flags.Nan = 1 // or the order of the announcements of one sample would not be known
		}
	}
	// keep the number of songs in bounds
	need := (cs.End - first) * rate / 1000 / 1500
	longer := rapid.Bool().Draw(t, "longer")
	for _, s := range cs.Songs {
		if s.N == 0 && cs.Flags.Nan < need {
			cs.Flags.Nan = need
		}
	}
	for i := range cs.Songs {
		if s := &cs.Songs[i]; s.N+cs.Flags.Nan < need && s.N > 0 {
			if longer {
				if s.Len != 0 {
					s.Len += need
				}
				s.N = need - cs.Flags.Nan
			} else {
				cs.Flags.Nan = need - s.N
			}
		}
	}
	return cs
}

// songAnn and pauseAnn are announcements in stream order.
type simRun struct {
	c       *pbt.C
	cs      simCase
	w       *World
	adm     *admin
	audio   *rawClient
	meta    *rawClient
	applied []simOp // with AtNs filled
	atNs    []int64 // raw time of each applied op
	base    int64   // raw time of the first tick minus chunkTime
	chunkT  int64
	id      []int // song of each stream sample, 0 for silence
	pos     []int
	songs   []*comm.NewSongInfo
	pauses  []*comm.PauseInfo
	byName  map[string]int
	chunks  []stamped // received by r.audio
	late    func(k int) int64 // extra time chunk k waits for its samples
}

// simServe starts everything and applies the operations.
func simServe(c *pbt.C, cs simCase) *simRun {
	w := newWorld(c)
	r := &simRun{c: c, cs: cs, w: w, byName: map[string]int{}}
	for i, s := range cs.Songs {
		w.writeSong(s)
		r.byName[s.Name] = i
	}
	w.startServer(cs.Flags)
	r.audio = w.dial(comm.Channel_AUDIO)
	r.meta = w.dial(comm.Channel_META)
	r.adm = w.admin()
	return r
}

func (r *simRun) play() {
	for _, o := range r.cs.Ops {
		r.w.sleepUntil(o.At)
		time.Sleep(377123 * time.Nanosecond)
		r.do(o)
	}
	r.w.sleepUntil(r.cs.End)
	time.Sleep(501 * time.Microsecond)
}

func (r *simRun) do(o simOp) string {
	r.applied = append(r.applied, o)
	r.atNs = append(r.atNs, r.w.now()+r.w.T0)
	before := r.w.now()
	var out string
	switch o.Op {
	case "queue":
		r.w.unspoil(r.cs.Songs[o.S])
		out = r.adm.cmd("queue " + r.cs.Songs[o.S].Name)
		r.w.spoil(r.cs.Songs[o.S])
	case "insert":
		r.w.unspoil(r.cs.Songs[o.S])
		out = r.adm.cmd(fmt.Sprintf("queue %s %d", r.cs.Songs[o.S].Name, o.P))
		r.w.spoil(r.cs.Songs[o.S])
	case "remove":
		out = r.adm.cmd(fmt.Sprintf("remove %d", o.P))
	case "jump":
		out = r.adm.cmd(fmt.Sprintf("jump %d", o.P))
	case "pause", "resume":
		out = r.adm.cmd(o.Op)
	}
	if want := map[string]string{"queue": "added to playlist", "insert": "added to playlist", "remove": "removed", "jump": "jumped to " + strconv.Itoa(o.P),
		"pause": "playback paused", "resume": "playback resumed"}[o.Op]; !contains(out, want) {
		r.c.Failf("command", "%s at %d ms does not answer %q within 5 ms but %q", o.Op, before/1e6, want, out)
	}
	return out
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// collect reads and checks the chunk stream (property C03) and the announcements.
func (r *simRun) collect() {
	c, f := r.c, r.cs.Flags
	r.chunkT = int64(f.chunkDur())
	end := r.w.now() + r.w.T0
	var chunks []stamped
	for _, m := range r.audio.messages() {
		switch m.Msg.(type) {
		case *comm.QueueChunkRequest:
			chunks = append(chunks, m)
		case *comm.SetVolumeRequest:
		default:
			c.Failf("unexpected", "an audio client received a %T", m.Msg)
		}
	}
	infos := map[uint64]stamped{}
	songAt := map[uint64]*comm.NewSongInfo{}
	for _, m := range r.meta.messages() {
		switch x := m.Msg.(type) {
		case *comm.ChunkInfo:
			if _, dup := infos[x.FirstSampleIndex]; dup {
				c.Failf("chunkinfo-dup", "two chunk announcements for sample %d", x.FirstSampleIndex)
			}
			infos[x.FirstSampleIndex] = m
		case *comm.NewSongInfo:
			if o, dup := songAt[x.FirstSampleOfSongIndex]; dup && (r.cs.Flags.Nan > 0 || o.SongFileName == x.SongFileName) && !r.hasEmpty() {
				c.Failf("song-dup", "two announcements of a song at sample %d: %s and %s", x.FirstSampleOfSongIndex, o.SongFileName, x.SongFileName)
			}
			songAt[x.FirstSampleOfSongIndex] = x
			r.songs = append(r.songs, x)
		case *comm.PauseInfo:
			r.pauses = append(r.pauses, x)
		case *comm.SetVolumeRequest:
		default:
			c.Failf("unexpected", "a display received a %T", m.Msg)
		}
	}
	sort.SliceStable(r.songs, func(i, j int) bool { return r.songs[i].FirstSampleOfSongIndex < r.songs[j].FirstSampleOfSongIndex })
	sort.SliceStable(r.pauses, func(i, j int) bool { return r.pauses[i].ToggleSampleIndex < r.pauses[j].ToggleSampleIndex })
	if len(chunks) == 0 {
		if end > r.w.T0+int64(f.StartDelay)*1e6+r.chunkT+20e6+r.maxOpen() {
			c.Failf("no-chunks", "no chunk has arrived %v after the start", time.Duration(end-r.w.T0))
		}
		return
	}
	r.chunks = chunks
	first := chunks[0].Msg.(*comm.QueueChunkRequest)
	r.base = first.StartTime - int64(f.Delay)*1e6
	if d := r.base - r.w.T0 - int64(f.StartDelay)*1e6; d < 0 || d > 10e6 {
		c.Failf("stream-start", "the stream starts %v after the server instead of %d ms", time.Duration(r.base-r.w.T0), f.StartDelay)
	}
	if r.stalls() {
		r.late = r.lateness()
	}
	for k, m := range chunks {
		q := m.Msg.(*comm.QueueChunkRequest)
		if q.ChunkId != int64(k) {
			c.Failf("chunk-id", "chunk %d of the stream has number %d", k, q.ChunkId)
		}
		if len(q.SampleLow) != f.ChunkSize || len(q.SampleHigh) != f.ChunkSize {
			c.Failf("chunk-size", "chunk %d has %d and %d samples instead of %d", k, len(q.SampleLow), len(q.SampleHigh), f.ChunkSize)
		}
		if q.FirstSampleIndex != uint64(k*f.ChunkSize) {
			c.Failf("chunk-index", "chunk %d starts at sample %d instead of %d", k, q.FirstSampleIndex, k*f.ChunkSize)
		}
		if q.StartTime != first.StartTime+int64(k)*r.chunkT {
			c.Failf("chunk-due", "chunk %d is due %v after chunk 0, chunks last %v", k, time.Duration(q.StartTime-first.StartTime), time.Duration(r.chunkT))
		}
		// virtual time: handing out is exact up to scheduling
		wait := int64(0)
		if r.late != nil {
			wait = r.late(k)
		}
		if at := m.At - r.tick(k+1) - wait; at > 20e6 || at < -20e6 {
			c.Failf("chunk-sent", "chunk %d is handed out %v away from its time (%v late for want of samples)", k, time.Duration(at), time.Duration(wait))
		}
		if lead := q.StartTime - m.At + wait; lead < int64(f.Delay)*1e6-r.chunkT-20e6 {
			c.Failf("chunk-lead", "chunk %d arrives %v before it is due, stream delay %d ms, chunk duration %v", k, time.Duration(lead), f.Delay, time.Duration(r.chunkT))
		}
		if inf, ok := infos[q.FirstSampleIndex]; ok {
			x := inf.Msg.(*comm.ChunkInfo)
			if x.StartTime != q.StartTime || x.ChunkSize != uint64(f.ChunkSize) {
				c.Failf("chunkinfo", "chunk %d is announced as %v, it starts at %d", k, x, q.StartTime)
			}
		} else {
			c.Failf("chunkinfo-missing", "chunk %d is not announced", k)
		}
		for i := range q.SampleLow {
			l, h := q.SampleLow[i], q.SampleHigh[i]
			if math.IsNaN(l) != math.IsNaN(h) {
				c.Failf("half-silent", "chunk %d sample %d is silent on one side", k, i)
			}
			if math.IsNaN(l) {
				r.id, r.pos = append(r.id, 0), append(r.pos, 0)
				continue
			}
			id, p := mp3.SynIdent([2]float64{l, h})
			if mp3.SynSample(id, p) != [2]float64{l, h} || id < 1 || id > len(r.cs.Songs) {
				c.Failf("foreign", "chunk %d sample %d is (%v, %v), which is no sample of any song", k, i, l, h)
			}
			r.id, r.pos = append(r.id, id), append(r.pos, p)
		}
	}
	if len(infos) != len(chunks) {
		c.Failf("chunkinfo-extra", "%d chunks, %d chunk announcements", len(chunks), len(infos))
	}
	n := int((end - r.base - 1e6) / r.chunkT)
	for r.late != nil && n > 0 && end-1e6-r.tick(n)-r.late(n-1) < 20e6+r.maxOpen() { // the next song may be being opened
		n--
	}
	if len(chunks) < n {
		c.Failf("chunk-missing", "%d chunks were sent in %v, should be %d", len(chunks), time.Duration(end-r.base), n)
	}
	c.Count("chunks", len(chunks))
}

func (r *simRun) hasEmpty() bool {
	for _, s := range r.cs.Songs {
		if s.N == 0 {
			return true
		}
	}
	return false
}

// tick is when the k-th chunk (from 1) is taken from the playlist; tick(0) is before everything.
func (r *simRun) tick(k int) int64 {
	if k <= 0 {
		return r.w.T0
	}
	return r.base + int64(k)*r.chunkT
}

// written gives when the playlist reaches stream index i: as soon as its buffer
// of one second has room for it.
func (r *simRun) written(i int) int64 {
	n := i - r.cs.Flags.Rate
	if n <= 0 {
		return r.w.T0
	}
	return r.tick((n + r.cs.Flags.ChunkSize - 1) / r.cs.Flags.ChunkSize)
}

// window is written with some slack for the samples in flight.
func (r *simRun) window(i int) (lo, hi int64) { return r.written(i - 4), r.written(i + 4) }

// readIndex is the number of samples taken from the playlist at raw time t.
func (r *simRun) readIndex(t int64) int {
	if t < r.base {
		return 0
	}
	return int((t-r.base)/r.chunkT) * r.cs.Flags.ChunkSize
}

func (r *simRun) playingAt(t int64) bool {
	p := false
	for i, o := range r.applied {
		if r.atNs[i] <= t && (o.Op == "pause" || o.Op == "resume") {
			p = o.Op == "resume"
		}
	}
	return p
}

// playlistAt is the playlist at time t and whether it was changed by anything but appending after time since.
func (r *simRun) playlistAt(t, since int64) (pl []int, edited bool) {
	for i, o := range r.applied {
		if r.atNs[i] > t {
			break
		}
		switch o.Op {
		case "queue":
			pl = append(pl, o.S)
		case "insert":
			p := clipPos(o.P, len(pl))
			if p < len(pl) && r.atNs[i] > since {
				edited = true
			}
			pl = append(pl[:p:p], append([]int{o.S}, pl[p:]...)...)
		case "remove":
			if len(pl) == 0 {
				continue
			}
			if r.atNs[i] > since {
				edited = true
			}
			p := clipPos(o.P, len(pl)-1)
			pl = append(pl[:p:p], pl[p+1:]...)
		}
	}
	return
}

func clipPos(p, n int) int {
	if p < 0 {
		return 0
	}
	if p > n {
		return n
	}
	return p
}

func mod(a, n int) int { return (a%n + n) % n }

func (r *simRun) playable(s int) bool { return !r.cs.Songs[s].Fail && !r.cs.Songs[s].Gone }

func (r *simRun) state(i int) string {
	if i >= len(r.id) {
		return "end of recording"
	}
	if r.id[i] == 0 {
		return "silence"
	}
	return fmt.Sprintf("sample %d of %s", r.pos[i], r.cs.Songs[r.id[i]-1].Name)
}

// failf reports a failure along with what was announced.
func (r *simRun) failf(sig, format string, args ...interface{}) {
	s := "announced songs:"
	for i, x := range r.songs {
		if i > 5 && i < len(r.songs)-8 {
			continue
		}
		s += fmt.Sprintf(" %s@%d", x.SongFileName, x.FirstSampleOfSongIndex)
	}
	s += "; playing:"
	for _, x := range r.pauses {
		s += fmt.Sprintf(" %v@%d", x.Playing, x.ToggleSampleIndex)
	}
	r.c.Failf(sig, "%s\n(%s)", fmt.Sprintf(format, args...), s)
}

// follow walks along the stream and compares it with the operations.
func (r *simRun) follow() {
	c, f := r.c, r.cs.Flags
	total := len(r.id)
	// a pause announcement: states alternate, starting from playing
	state := true
	for i, p := range r.pauses {
		if p.Playing == state {
			r.failf("pause-twice", "announcement %d (%v) repeats the state", i, p)
		}
		state = p.Playing
	}
	pi := 0 // next pause announcement
	state = true
	at := 0                       // stream index reached
	pos := map[int]bool{-1: true} // possible playlist positions of the last song, -1: none yet
	last := r.w.T0 - 1            // when the last song was chosen (earliest)
	lastHi := r.w.T0 - 1          // (latest)
	played, completed := 0, 0
	for n := 0; ; n++ {
		// silence until the next song; it comes in whole blocks
		s := total
		if n < len(r.songs) {
			s = int(r.songs[n].FirstSampleOfSongIndex)
		}
		for i := at; i < s && i < total; i++ {
			if r.id[i] != 0 {
				r.failf("unannounced", "sample %d of the stream is %s, but no song is announced there (next at %d)", i, r.state(i), s)
			}
		}
		if n >= len(r.songs) {
			// a song must have been chosen if the stream went on beyond a block of silence with a playable song in the list
			for d := at; d+8 < total; d += noSong {
				if r.mustChooseIn(r.window(d)) {
					r.failf("no-song", "no song begins at sample %d of the stream although the playlist holds playable songs", d)
				}
			}
			break
		}
		if s > total+2*f.Rate+1024 {
			r.failf("ann-early", "a song is announced for sample %d, the stream has reached %d", s, total)
		}
		// decisions that found nothing to play
		d := at
		for ; d < s; d += noSong {
			if r.mustChooseIn(r.window(d)) {
				r.failf("no-song", "no song begins at sample %d of the stream although the playlist holds playable songs (next announced at %d)", d, s)
			}
		}
		if d != s {
			what := "after the break"
			if n == 0 {
				what = "at the start"
			}
			r.failf("break-size", "song %d begins at sample %d, expected %d (%s; silence comes in blocks of %d)", n, s, d, what, noSong)
		}
		si, ok := r.byName[r.songs[n].SongFileName]
		if !ok || !r.playable(si) {
			r.failf("ann-name", "song %d is announced as %q", n, r.songs[n].SongFileName)
		}
		song := r.cs.Songs[si]
		wantLen := song.N
		if song.Len != 0 {
			wantLen = song.Len
		}
		if r.songs[n].SongLength != int64(wantLen) {
			r.failf("ann-length", "song %s is announced with %d samples, has %d", song.Name, r.songs[n].SongLength, wantLen)
		}
		// was it this song's turn?
		lo, hi := r.window(s)
		turn := map[int]bool{} // where in the playlist it may be
		var why string
		for _, t := range r.times(lo, hi) {
			pls, edited := r.playlistAt(t, last)
			for p := range pos {
				cand, free := r.turn(pls, p, last, lastHi, t)
				if edited || free {
					cand = cand[:0]
					for q := range pls {
						cand = append(cand, q)
					}
				}
				for _, q := range cand {
					if pls[q] == si {
						turn[q] = true
					}
				}
				why = fmt.Sprintf("playlist %v, expected position %v", pls, cand)
			}
		}
		if len(turn) == 0 {
			r.failf("turn", "song %d, at sample %d, is %s (song %d): not its turn: %s, the one before was at %v", n, s, song.Name, si, why, pos)
		}
		pos = turn
		last, lastHi = lo, hi
		played++
		// its samples
		i, next := s, 0 // (of the stream, of the song)
		stop := total
		if n+1 < len(r.songs) {
			stop = int(r.songs[n+1].FirstSampleOfSongIndex)
			if stop > total {
				stop = total
			}
		}
		spanEnd := -1
		for {
			if next == song.N && state && n+1 < len(r.songs) && i+f.Nan == int(r.songs[n+1].FirstSampleOfSongIndex) {
				// a change announced for this sample belongs to the next song
				spanEnd = i
				completed++
				break
			}
			for pi < len(r.pauses) && int(r.pauses[pi].ToggleSampleIndex) == i {
				state = r.pauses[pi].Playing
				l, h := r.window(i)
				if r.playingAt(l) != state && r.playingAt(h) != state {
					r.failf("pause-wrong", "at sample %d %v is announced, which no command asked for then", i, r.pauses[pi])
				}
				pi++
			}
			if next == song.N && state {
				spanEnd = i
				completed++
				break
			}
			if i >= stop {
				break
			}
			if !state {
				if r.id[i] != 0 {
					if r.cut(lo, i) {
						break
					}
					r.failf("pause-audible", "at sample %d the stream is announced as paused but holds %s", i, r.state(i))
				}
				// the song may also end here: found out below
				if pi >= len(r.pauses) || int(r.pauses[pi].ToggleSampleIndex) >= stop {
					// resumed behind its last sample, at the very start of the next song?
					atEnd := next == song.N && f.Nan == 0 && pi < len(r.pauses) && int(r.pauses[pi].ToggleSampleIndex) == stop
					if stop < total && !atEnd {
						break
					}
				}
				i++
				continue
			}
			if r.id[i] == 0 {
				break
			}
			if r.id[i] != si+1 || r.pos[i] != next {
				r.failf("song-samples", "sample %d of the stream should be sample %d of %s and is %s", i, next, song.Name, r.state(i))
			}
			next++
			i++
		}
		if spanEnd < 0 {
			if i >= total {
				r.lateChecks(n, hi, s, total, state)
				break
			}
			// cut by a jump, when paused somewhere in the silence
			if state {
				j := r.jumpBefore(lo, i)
				if j == nil {
					r.failf("cut", "%s breaks off at sample %d of %d (stream sample %d) without a jump", song.Name, next, song.N, i)
				}
				spanEnd = i
			} else if n+1 < len(r.songs) {
				e := int(r.songs[n+1].FirstSampleOfSongIndex) - f.Nan
				// blocks of silence may follow while nothing is playable
				for d := e; d >= i; d -= noSong {
					if d < e && r.mustChooseIn(r.window(d+f.Nan)) {
						break
					}
					if r.jumpBefore(lo, d) != nil {
						spanEnd = d
						break
					}
				}
				if spanEnd < 0 {
					r.failf("cut", "%s ends at sample %d of %d while paused, without a jump (next song at %d)", song.Name, next, song.N, e+f.Nan)
				}
			} else {
				r.lateChecks(n, hi, s, total, state)
				break
			}
		}
		// every jump while it was playing must have ended it in time
		r.checkJumps(hi, s, spanEnd)
		r.checkPauses(hi, s, spanEnd)
		at = spanEnd + f.Nan
		if at >= total {
			break
		}
		for pi < len(r.pauses) && int(r.pauses[pi].ToggleSampleIndex) < at && int(r.pauses[pi].ToggleSampleIndex) > spanEnd {
			r.failf("pause-break", "a change of the playing state is announced at sample %d, between songs", r.pauses[pi].ToggleSampleIndex)
		}
	}
	c.Count("songs begun", played)
	c.Count("songs completed", completed)
	c.Count("pauses announced", len(r.pauses))
}

// mustChoose says whether the playlist held a playable song at time t (with samples).
func (r *simRun) mustChoose(t int64) bool {
	pls, _ := r.playlistAt(t, 0)
	for _, s := range pls {
		if r.playable(s) && r.cs.Songs[s].N+r.cs.Flags.Nan > 0 {
			return true
		}
	}
	return false
}

// mustChooseIn says whether it held one all the time from lo to hi.
func (r *simRun) mustChooseIn(lo, hi int64) bool {
	for _, t := range r.times(lo, hi) {
		if !r.mustChoose(t) {
			return false
		}
	}
	return true
}

// times are the instants in [lo, hi] at which things may have been different.
func (r *simRun) times(lo, hi int64) []int64 {
	ts := []int64{lo}
	for _, t := range r.atNs {
		if lo < t && t < hi {
			ts = append(ts, t)
		}
	}
	if hi != lo {
		ts = append(ts, hi)
	}
	return ts
}

// turn gives the positions whose song may begin at time t, after the one at pos chosen at last.
func (r *simRun) turn(pls []int, pos int, last, lastHi, t int64) (cand []int, free bool) {
	if len(pls) == 0 {
		return nil, false
	}
	skip := func(p int) int {
		p = mod(p, len(pls))
		for k := 0; k < len(pls) && !r.playable(pls[p]); k++ {
			p = mod(p+1, len(pls))
		}
		return p
	}
	target := pos + 1
	jumped := false
	for i, o := range r.applied {
		if o.Op != "jump" || r.atNs[i] > t || r.atNs[i] < last {
			continue
		}
		at, _ := r.playlistAt(r.atNs[i], 0)
		// it may have been before or after the choice; a jump in an empty playlist points nowhere
		free = r.atNs[i] <= lastHi || len(at) == 0
		// a target that is not playable leads on to the next; if it was skipped
		// before others were added the next one depends on when
		if len(at) > 0 && !r.playable(at[mod(o.P, len(at))]) {
			free = true
		}
		target = mod(o.P, len(pls))
		jumped = true
	}
	if !jumped && pos >= 0 {
		// unplayable entries in between: the list may have grown while they were skipped
		old, _ := r.playlistAt(last, 0)
		_ = old
	}
	if r.anyUnplayable(pls) && len(r.applied) > 0 {
		// the playlist may change between skipping one entry and choosing the next only
		// at the same instant, or when nothing at all is playable
		return []int{skip(target)}, free || !r.mustChoose(last) || pos < 0
	}
	return []int{skip(target)}, free
}

func (r *simRun) anyUnplayable(pls []int) bool {
	for _, s := range pls {
		if !r.playable(s) {
			return true
		}
	}
	return false
}

// jumpBefore finds a jump that may have cut a song chosen at chosen at stream index i.
func (r *simRun) jumpBefore(chosen int64, i int) *simOp {
	_, hi := r.window(i)
	for k, o := range r.applied {
		if o.Op == "jump" && r.atNs[k] >= chosen && r.atNs[k] <= hi {
			return &r.applied[k]
		}
	}
	return nil
}

func (r *simRun) cut(chosen int64, i int) bool { return r.jumpBefore(chosen, i) != nil }

// bound is the stream index by which a command at time t has taken effect.
func (r *simRun) bound(t int64) int {
	return r.readIndex(t) + r.cs.Flags.Rate + 512 + 4
}

// checkJumps: jumps given while the song [s,e) was playing ended it within a second of stream.
func (r *simRun) checkJumps(chosen int64, s, e int) {
	for k, o := range r.applied {
		if o.Op != "jump" || r.atNs[k] <= chosen {
			continue
		}
		if b := r.bound(r.atNs[k]); b < e {
			if lo, _ := r.window(e); r.atNs[k] < lo {
				r.failf("jump-late", "the jump at %v (to %d) should have cut the song begun at sample %d by sample %d, it goes on until %d", time.Duration(r.atNs[k]-r.w.T0), o.P, s, b, e)
			}
		}
	}
}

// checkPauses: within the song [s,e) the announced state follows the commands.
func (r *simRun) checkPauses(chosen int64, s, e int) {
	for k, o := range r.applied {
		if o.Op != "pause" && o.Op != "resume" {
			continue
		}
		want := o.Op == "resume"
		from := r.bound(r.atNs[k])
		if from < s+4 {
			from = s + 4 // the state is looked at when the song begins
			if r.atNs[k] > chosen {
				from = s + 4 + 512
			}
		}
		// until the next command that may change it
		until := e
		for k2 := k + 1; k2 < len(r.applied); k2++ {
			if o2 := r.applied[k2]; o2.Op == "pause" || o2.Op == "resume" {
				if i := r.readIndex(r.atNs[k2]); i < until {
					until = i
				}
				break
			}
		}
		for i := from; i < until && i < e && i < len(r.id); i++ {
			if (r.id[i] != 0) != want {
				r.failf("pause-late", "%s at %v should have taken effect by stream sample %d, but sample %d is %s", o.Op, time.Duration(r.atNs[k]-r.w.T0), from, i, r.state(i))
			}
		}
	}
}

// lateChecks are the checks of a song that goes on until the end of the recording.
func (r *simRun) lateChecks(n int, hi int64, s, total int, state bool) {
	end := total
	if !state {
		// it may have ended in the silence, unless the next one says when
		end = s
		if n+1 < len(r.songs) {
			end = int(r.songs[n+1].FirstSampleOfSongIndex) - r.cs.Flags.Nan
		}
		if end > total {
			end = total
		}
	}
	r.checkJumps(hi, s, end)
	for k, o := range r.applied {
		if o.Op == "jump" && r.atNs[k] > hi && r.bound(r.atNs[k]) < total {
			// the song is over; nothing more to say here
			return
		}
	}
	r.checkPauses(hi, s, total)
}

func runSim(c *pbt.C, raw json.RawMessage) {
	var cs simCase
	pbt.Decode(raw, &cs)
	r := simServe(c, cs)
	defer r.w.Close()
	r.play()
	r.collect()
	r.follow()
	if len(r.songs) > 1 || len(r.pauses) > 2 {
		c.NonTrivial()
	}
}
