package props

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/faiface/beep/mp3"
	"pgregory.net/rapid"
	"verif/pbt"
)

// The real playlist on real threads: one streams, one reads, others pause and
// resume, jump, append and ask what is playing, as fast as they can.

type threadsCase struct {
	Songs   []int // lengths in samples
	More    []int // appended by a thread
	Nan     int
	Buf     int // size of the playlist's buffer
	Chunk   int
	Toggles []int // pauses before each toggle, in turns of a loop
	Jumps   []threadJump
	Readers int
	Join    bool   `json:",omitempty"` // a joining display is checked, too
	Base    uint64 `json:",omitempty"` // how many samples were streamed before
}

type threadJump struct{ Gap, To int }

type threadSong struct {
	Start uint64
	File  string
	Len   int64
}

type threadPause struct {
	At      uint64
	Playing bool
}

func spin(n int) {
	for i := 0; i < n; i++ {
		if i%64 == 63 {
			runtime.Gosched()
		}
		spinSink.Add(1)
	}
}

var spinSink atomic.Int64

func threadName(i int) string {
	return fmt.Sprintf("%s-%d.mp3", strings.Repeat("n", 1+i*7), i)
}

func genThreads(jumps, toggles, more bool) func(t *rapid.T) interface{} {
	return func(t *rapid.T) interface{} {
		length := rapid.OneOf(rapid.IntRange(1, 3000), rapid.SampledFrom([]int{511, 512, 513, 1024, 5120}), rapid.IntRange(1, 30000))
		cs := threadsCase{
			Songs:   rapid.SliceOfN(length, 1, 4).Draw(t, "songs"),
			Nan:     rapid.OneOf(rapid.IntRange(1, 64), rapid.IntRange(1, 4000)).Draw(t, "nan"),
			Buf:     rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 5000)).Draw(t, "buf"),
			Chunk:   rapid.IntRange(1, 2000).Draw(t, "chunk"),
			Readers: rapid.IntRange(0, 2).Draw(t, "readers"),
		}
		gap := rapid.OneOf(rapid.IntRange(0, 200), rapid.IntRange(0, 5000))
		if rapid.IntRange(0, 2).Draw(t, "long") == 0 { // it has been running for long
			cs.Base = rapid.SampledFrom([]uint64{1 << 31, 1 << 32, 1 << 32, 1 << 53, 1 << 62}).Draw(t, "base") - uint64(rapid.IntRange(0, 20000).Draw(t, "below"))
		}
		if toggles {
			cs.Toggles = rapid.SliceOfN(gap, 1, 400).Draw(t, "toggles")
		}
		if jumps {
			cs.Jumps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) threadJump {
				return threadJump{gap.Draw(t, "gap"), rapid.IntRange(-1, len(cs.Songs)).Draw(t, "to")}
			}), 1, 60).Draw(t, "jumps")
		}
		if more {
			cs.More = rapid.SliceOfN(length, 1, 3).Draw(t, "more")
		}
		return cs
	}
}

// streamed makes it look as if n samples had been streamed before, if it is known how.
func streamed(pl *playback.Playlist, n uint64) bool {
	var f []reflect.Value
	for _, name := range []string{"sampleIndexRead", "sampleIndexWrite"} {
		v := reflect.ValueOf(pl).Elem().FieldByName(name)
		if !v.IsValid() || v.Kind() != reflect.Uint64 {
			return false
		}
		f = append(f, v)
	}
	for _, v := range f {
		*(*uint64)(v.Addr().UnsafePointer()) = n
	}
	return true
}

func runThreads(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs threadsCase
	pbt.Decode(raw, &cs)
	dir, err := os.MkdirTemp("", "threads")
	if err != nil {
		c.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	w := &World{c: c, dir: dir, Audio: dir}
	all := append(append([]int{}, cs.Songs...), cs.More...)
	total := 0
	names := []string{}
	for i, n := range all {
		names = append(names, threadName(i))
		w.writeSong(Song{Name: threadName(i), ID: i + 1, N: n})
		total += n + cs.Nan
	}
	playback.AudioDir = dir
	pl := playback.NewPlaylist(cs.Buf, append([]string{}, names[:len(cs.Songs)]...), cs.Nan)
	if cs.Base > 0 && !streamed(pl, cs.Base) {
		cs.Base = 0
	}
	if cs.Base > 0 {
		c.Class("after a long time")
	}
	var mu sync.Mutex
	var songs []threadSong
	var pauses []threadPause
	pl.SetNewSongHandler(func(at uint64, file string, n int64) {
		mu.Lock()
		defer mu.Unlock()
		songs = append(songs, threadSong{at - cs.Base, file, n})
	})
	pl.SetPauseToggleHandler(func(playing bool, at uint64) {
		mu.Lock()
		defer mu.Unlock()
		pauses = append(pauses, threadPause{at - cs.Base, playing})
	})
	var wg sync.WaitGroup
	var done atomic.Bool
	go1 := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	if cs.Toggles == nil {
		pl.SetPlaying(true)
	}
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan bool)
	go func() { defer close(ended); pl.StreamLoop(ctx) }()
	if cs.Toggles != nil {
		go1(func() {
			for i, g := range cs.Toggles {
				spin(g)
				pl.SetPlaying(i%2 == 0)
			}
			pl.SetPlaying(true)
		})
	}
	if cs.Jumps != nil {
		go1(func() {
			for _, j := range cs.Jumps {
				spin(j.Gap)
				pl.SetPos(j.To)
			}
		})
	}
	if cs.More != nil {
		go1(func() {
			for i := range cs.More {
				spin(2000)
				pl.AddSong(threadName(len(cs.Songs) + i))
			}
		})
	}
	var busy sync.WaitGroup
	for i := 0; i < cs.Readers; i++ {
		busy.Add(1)
		go func() {
			defer busy.Done()
			for !done.Load() {
				s := pl.CurrentSong()
				ok := s == ""
				for _, n := range names {
					ok = ok || s == n
				}
				if !ok {
					c.Errorf("torn", "the current song is said to be %q, which is none of the songs", s)
					return
				}
				pl.Playing()
				pl.Pos()
				spin(50)
			}
		}()
	}
	stopped := make(chan bool)
	go func() { wg.Wait(); close(stopped) }()

	var low, high []float64
	bl, bh := make([]float64, cs.Chunk), make([]float64, cs.Chunk)
	fill := func() {
		if at := pl.Fill(bl, bh); at != cs.Base+uint64(len(low)) {
			c.Errorf("index", "a chunk was said to begin at %d, after %d samples", at, cs.Base+uint64(len(low)))
		}
		low, high = append(low, bl...), append(high, bh...)
	}
	for on := true; on; {
		select {
		case <-stopped:
			on = false
		default:
		}
		fill()
	}
	mark := len(low)
	for len(low) < mark+cs.Buf+2*total+8192 {
		fill()
	}
	done.Store(true)
	busy.Wait()
	cancel()
	endPlaylist(pl, ended)

	// the handlers run on threads of their own
	var sig, msg string
	for end := time.Now().Add(3 * time.Second); ; time.Sleep(time.Millisecond) {
		mu.Lock()
		ss, ps := append([]threadSong{}, songs...), append([]threadPause{}, pauses...)
		mu.Unlock()
		var n int
		sig, msg, n = judgeThreads(cs, all, low, high, ss, ps, false)
		if sig == "" {
			if n > 3 {
				c.NonTrivial()
			}
			return
		}
		if time.Now().After(end) {
			break
		}
	}
	c.Failf(sig, "%s", msg)
}

// onceContext is cancelled from the second time on that it is asked.
type onceContext struct {
	context.Context
	asked atomic.Int32
}

func (o *onceContext) Done() <-chan struct{} {
	ch := make(chan struct{})
	if o.asked.Add(1) > 1 {
		close(ch)
	}
	return ch
}

func (o *onceContext) Err() error {
	if o.asked.Load() > 1 {
		return context.Canceled
	}
	return nil
}

// endPlaylist reads until the cancelled stream loop has returned, and leaves
// no reader behind that waits for a sample.
func endPlaylist(pl *playback.Playlist, ended chan bool) {
	var stop atomic.Bool
	idle := make(chan bool)
	go func() {
		defer close(idle)
		b1, b2 := make([]float64, 1), make([]float64, 1)
		for !stop.Load() {
			pl.Fill(b1, b2)
		}
	}()
	<-ended
	stop.Store(true)
	select {
	case <-idle:
		return
	case <-time.After(2 * time.Millisecond):
	}
	// it waits for one more: what is played without songs
	for len(pl.Songs()) > 0 {
		pl.RemoveSong(0)
	}
	over := make(chan bool)
	go func() {
		defer close(over)
		pl.StreamLoop(&onceContext{Context: context.Background()})
		<-idle
	}()
	go func() {
		<-idle
		b1, b2 := make([]float64, 32768/8), make([]float64, 32768/8)
		for i := 0; i < 7; i++ {
			pl.Fill(b1, b2)
		}
		pl.Fill(b1[1:], b2[1:])
	}()
	select {
	case <-over:
	case <-time.After(time.Second):
	}
}

func judgeThreads(cs threadsCase, all []int, low, high []float64, songs []threadSong, pauses []threadPause, queued bool) (sig, msg string, n int) {
	sort.Slice(songs, func(i, j int) bool { return songs[i].Start < songs[j].Start })
	sort.SliceStable(pauses, func(i, j int) bool { return pauses[i].At < pauses[j].At })
	fail := func(s, f string, a ...interface{}) (string, string, int) { return s, fmt.Sprintf(f, a...), 0 }
	state := true
	for _, p := range pauses {
		if p.Playing == state {
			return fail("announced-twice", "playing=%v announced for sample %d, where that was so already (%v)", p.Playing, p.At, pauses)
		}
		state = p.Playing
	}
	if len(songs) == 0 || songs[0].Start != 0 && !queued {
		return fail("no-song", "no song announced at the start of the stream: %v", songs)
	}
	for at := uint64(0); at < songs[0].Start && at < uint64(len(low)); at++ {
		if !math.IsNaN(low[at]) {
			return fail("audio-before", "sample %d is audio; the first song begins at %d", at, songs[0].Start)
		}
	}
	index := map[string]int{}
	for i := range all {
		index[threadName(i)] = i
	}
	// which jumps may have been taken before each song
	reach := map[int]bool{}
	for k := 0; k <= len(cs.Jumps); k++ {
		if k == 0 && songs[0].File == threadName(0) || k > 0 && songs[0].File == threadName(jumpTo(cs, k-1)) {
			reach[k] = true
		}
	}
	state = true
	pi := 0
	whole := false
	for i, s := range songs {
		if s.Start >= uint64(len(low)) {
			break
		}
		n++
		e, ok := index[s.File]
		if !ok {
			return fail("wrong-song", "announced song %q", s.File)
		}
		if s.Len != int64(all[e]) {
			return fail("wrong-length", "%s announced with %d samples, it has %d", s.File, s.Len, all[e])
		}
		if i > 0 {
			p := index[songs[i-1].File]
			next := map[int]bool{}
			for k := range reach {
				if whole && (e == p+1 || e == 0 && (p+1 >= len(cs.Songs))) {
					next[k] = true
				}
				for m := k + 1; m <= len(cs.Jumps); m++ {
					if jumpTo(cs, m-1) == e {
						next[m] = true
					}
				}
			}
			reach = next
		}
		if len(reach) == 0 {
			return fail("wrong-order", "song %s (entry %d) begins at sample %d after %d played songs; neither the next one (previous one complete: %v) nor the target of a jump that is left", s.File, e, s.Start, i, whole)
		}
		end := uint64(len(low))
		last := true
		if i+1 < len(songs) && songs[i+1].Start < end+uint64(cs.Nan) {
			last = songs[i+1].Start > end
			if songs[i+1].Start < s.Start+uint64(cs.Nan) {
				return fail("no-break", "songs begin at samples %d and %d with breaks of %d", s.Start, songs[i+1].Start, cs.Nan)
			}
			if x := songs[i+1].Start - uint64(cs.Nan); x < end {
				end = x
			}
		}
		pos := 0
		for at := s.Start; at < end; at++ {
			for pi < len(pauses) && pauses[pi].At <= at {
				state = pauses[pi].Playing
				pi++
			}
			silent := math.IsNaN(low[at])
			if silent != math.IsNaN(high[at]) {
				return fail("channels", "sample %d is silent in one channel", at)
			}
			if silent {
				if last && pos == all[e] {
					break // its break; the next one is not announced yet
				}
				if state {
					return fail("silent-while-playing", "sample %d, in %s, is silent; the announced state there is playing (%v)", at, s.File, pauses)
				}
				continue
			}
			if !state {
				return fail("audio-while-paused", "sample %d, in %s, is audio; the announced state there is paused (%v)", at, s.File, pauses)
			}
			id, j := mp3.SynIdent([2]float64{low[at], high[at]})
			if id != e+1 || j != pos {
				return fail("wrong-sample", "sample %d is sample %d of song %d, expected sample %d of %s", at, j, id-1, pos, s.File)
			}
			pos++
		}
		whole = pos == all[e]
		for at := end; i+1 < len(songs) && at < songs[i+1].Start && at < uint64(len(low)); at++ {
			if !math.IsNaN(low[at]) {
				return fail("break", "sample %d, in the break before %s, is audio", at, songs[i+1].File)
			}
		}
	}
	if !reach[len(cs.Jumps)] {
		return fail("jump-lost", "the last of %d jumps was not followed (at most %v were)", len(cs.Jumps), reach)
	}
	return "", "", n
}

func jumpTo(cs threadsCase, k int) int {
	n := len(cs.Songs)
	return ((cs.Jumps[k].To)%n + n) % n
}

// The same with the whole server, streaming in real time as fast as it gets,
// and its commands.

func genServerThreads(join bool) func(t *rapid.T) interface{} {
	return func(t *rapid.T) interface{} {
		cs := genThreads(rapid.IntRange(0, 3).Draw(t, "jumping") == 0, true, false)(t).(threadsCase)
		cs.Buf = rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 3000)).Draw(t, "rate")
		cs.Join = join
		cs.Chunk += 300
		for len(cs.Toggles) < 30 {
			cs.Toggles = append(cs.Toggles, cs.Toggles...)
		}
		return cs
	}
}

func runServerThreads(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs threadsCase
	pbt.Decode(raw, &cs)
	dir, err := os.MkdirTemp("", "threads")
	if err != nil {
		c.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	w := &World{c: c, dir: dir, Audio: dir}
	for i, n := range cs.Songs {
		w.writeSong(Song{Name: threadName(i), ID: i + 1, N: n})
	}
	playback.AudioDir = dir
	schedule.SampleRate = cs.Buf
	schedule.StreamChunkSize = cs.Chunk
	schedule.StreamChunkTime = 20 * time.Microsecond
	schedule.NanBreakSize = cs.Nan
	schedule.StreamStartDelay = 0
	rec := &recSender{}
	schedule.Server(rec)
	run := func(line ...string) {
		for _, k := range ssh.VerifCommands() {
			if k.Name == line[0] {
				k.ExecFunc(line[1:])
				return
			}
		}
		c.Errorf("no-command", "the server has no command %s", line[0])
	}
	run("queue", "*")
	first := func() bool {
		for _, m := range rec.all() {
			if _, ok := m.(*comm.NewSongInfo); ok {
				return true
			}
		}
		return false
	}
	for n := 0; !first(); n++ {
		if n > 4000 {
			c.Timeoutf("start", "no song begins within 20 s")
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i, end := 0, time.Now().Add(40*time.Millisecond); i < len(cs.Toggles) || time.Now().Before(end); i++ {
			spin(10 * cs.Toggles[i%len(cs.Toggles)])
			run([]string{"resume", "pause"}[i%2])
		}
		run("resume")
	}()
	go func() {
		defer wg.Done()
		for _, j := range cs.Jumps {
			spin(50 * j.Gap)
			run("jump", strconv.Itoa(j.To))
		}
	}()
	wg.Wait()
	time.Sleep(5 * time.Millisecond)
	// until nothing of before is in the way, and at least three songs were played
	total := 0
	for _, n := range cs.Songs {
		total += n + cs.Nan
	}
	chunks := func() (n int) {
		for _, m := range rec.all() {
			if _, ok := m.(*comm.QueueChunkRequest); ok {
				n++
			}
		}
		return
	}
	more := (cs.Buf + 2*total + 8192) / cs.Chunk
	for end, n := chunks()+more, 0; chunks() < end && n < 2000; n++ {
		time.Sleep(2 * time.Millisecond)
	}
	var sig, msg string
	for end := time.Now().Add(5 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		var songs []threadSong
		var pauses []threadPause
		var low, high []float64
		chunks := map[uint64]*comm.QueueChunkRequest{}
		for _, m := range rec.all() {
			switch m := m.(type) {
			case *comm.NewSongInfo:
				songs = append(songs, threadSong{m.FirstSampleOfSongIndex, m.SongFileName, m.SongLength})
			case *comm.PauseInfo:
				pauses = append(pauses, threadPause{m.ToggleSampleIndex, m.Playing})
			case *comm.QueueChunkRequest:
				chunks[m.FirstSampleIndex] = m
			}
		}
		for {
			m := chunks[uint64(len(low))]
			if m == nil || len(m.SampleLow) == 0 || len(m.SampleLow) != len(m.SampleHigh) {
				break
			}
			low, high = append(low, m.SampleLow...), append(high, m.SampleHigh...)
		}
		var n int
		// what was read last may contain a song or a change that is not announced yet
		if len(low) > 2048 {
			low, high = low[:len(low)-1024], high[:len(high)-1024]
		}
		sig, msg, n = judgeThreads(cs, cs.Songs, low, high, songs, pauses, true)
		if sig == "jump-lost" {
			sig = "" // may be further on
		}
		if sig == "" && cs.Join {
			sig, msg = judgeJoin(rec)
		}
		if sig == "" {
			if n > 1 && len(pauses) > 2 {
				c.NonTrivial()
			}
			c.Count("changes", len(pauses))
			return
		}
		if time.Now().After(end) {
			break
		}
	}
	c.Failf(sig, "%s", msg)
}

// judgeJoin compares what a display that joins now is sent with what was broadcast.
func judgeJoin(rec *recSender) (sig, msg string) {
	r := &recSender{}
	full := togglesOf(rec.all())
	comm.NewClientHandler(comm.Channel_META, r)
	for _, m := range r.all() {
		if s, ok := m.(*comm.NewSongInfo); ok {
			if m := sameHistory(full, togglesOf(r.all()), s.FirstSampleOfSongIndex); m != "" {
				return "history", m
			}
			return "", ""
		}
	}
	return "song", "a display that joins is not sent the song"
}
