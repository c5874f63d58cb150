package props

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/faiface/beep/mp3"
	"pgregory.net/rapid"
	"verif/pbt"
)

// --- the stream while songs cannot be played ------------------------------

func runC26Sim(c *pbt.C, raw json.RawMessage) {
	var cs simCase
	pbt.Decode(raw, &cs)
	r := simServe(c, cs)
	defer r.w.Close()
	r.play()
	// new clients are served
	a, m := r.w.dial(comm.Channel_AUDIO), r.w.dial(comm.Channel_META)
	a.send(&comm.TimeSyncRequest{ClientSend: 7})
	time.Sleep(20 * time.Millisecond)
	vol, answer := 0, false
	for _, x := range append(a.messages(), m.messages()...) {
		switch y := x.Msg.(type) {
		case *comm.SetVolumeRequest:
			vol++
		case *comm.TimeSyncResponse:
			answer = answer || y.ClientSendTime == 7
		}
	}
	if vol < 2 || !answer {
		c.Failf("served", "new clients are not served: volume to %d of 2, time answer %v", vol, answer)
	}
	if out := r.adm.cmd("playlist"); !contains(out, "Playlist") && !contains(out, "laylist") {
		c.Failf("served", "the playlist command answers %q", out)
	}
	time.Sleep(time.Duration(cs.Flags.chunkDur()) + 30*time.Millisecond)
	r.collect()
	r.follow()
	bad := false
	for _, s := range cs.Songs {
		bad = bad || s.Fail || s.N == 0 || s.Len > s.N
	}
	if bad {
		c.NonTrivial()
	}
}

// --- real decoder, damaged files ------------------------------------------

type c26File struct {
	Cut  int      `json:"cut"`  // frames kept from the beginning (0: all)
	From int      `json:"from"` // bytes dropped at the beginning
	Set  [][2]int `json:"set"`
	Ins  []byte   `json:"ins"` // inserted at the beginning
	Tail int      `json:"tail"`
}

type c26Case struct {
	Files []c26File `json:"files"`
	N     []int     `json:"n"` // lengths of the songs in between
	Nan   int       `json:"nan"`
}

func genC26Files(t *rapid.T) interface{} {
	cs := c26Case{Nan: rapid.IntRange(1, 600).Draw(t, "nan")}
	for i := rapid.IntRange(1, 4).Draw(t, "files"); i > 0; i-- {
		f := c26File{Cut: rapid.SampledFrom([]int{400, 900, 2000, 5000}).Draw(t, "cut"), From: rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 3000)).Draw(t, "from")}
		f.Cut += rapid.IntRange(0, 500).Draw(t, "odd")
		f.Ins = rapid.OneOf(rapid.Just([]byte{}), rapid.SliceOfN(rapid.Byte(), 0, 6), rapid.SampledFrom([][]byte{[]byte("TAG"), []byte("ID3"), {0xff, 0xfb}, {0xff, 0xe3, 0x10, 0}, {0xff, 0xfb, 0, 0}, {0xff, 0xfb, 0xf0, 0}, {0xff, 0xfa, 0x90, 0}})).Draw(t, "ins")
		for k := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 60)).Draw(t, "sets"); k > 0; k-- {
			v := rapid.OneOf(rapid.SampledFrom([]int{0, 255, 0xfb, 0xe0, 0x10, 0x90, 0xf0}), rapid.IntRange(0, 255)).Draw(t, "to")
			f.Set = append(f.Set, [2]int{rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 5000)).Draw(t, "at"), v})
		}
		if rapid.IntRange(0, 3).Draw(t, "onOpen") == 0 {
			// damage of the first frame which makes the decoder panic when it is created
			f.From, f.Ins = 0, nil
			f.Set = append(f.Set, rapid.SampledFrom([][][2]int{{{7, 0x05}, {10, 0xb9}}, {{29, 0x07}, {32, 0x0a}}, {{22, 0x58}, {25, 0x7b}}, {{15, 0xc0}, {17, 0xf1}}, {{7, 0x33}, {10, 0x54}}}).Draw(t, "side")...)
			if rapid.Bool().Draw(t, "only") {
				f.Set = f.Set[len(f.Set)-2:]
			}
		}
		cs.Files = append(cs.Files, f)
	}
	for i := 0; i <= len(cs.Files); i++ {
		cs.N = append(cs.N, rapid.IntRange(1, 2000).Draw(t, "n"))
	}
	return cs
}

var realMp3 = sync.OnceValue(func() []byte {
	for _, f := range []string{"/repo/playback/_playback_test_files/okay.mp3", realSong} {
		if b, err := os.ReadFile(f); err == nil {
			if len(b) > 10 && string(b[:3]) == "ID3" { // skip the tag
				n := int(b[6])<<21 | int(b[7])<<14 | int(b[8])<<7 | int(b[9])
				if 10+n < len(b) {
					b = b[10+n:]
				}
			}
			return b
		}
	}
	return nil
})

func (f *c26File) bytes() []byte {
	b := append([]byte{}, f.Ins...)
	src := realMp3()
	if f.From < len(src) {
		src = src[f.From:]
	}
	if f.Cut < len(src) {
		src = src[:f.Cut]
	}
	b = append(b, src...)
	for _, s := range f.Set {
		if len(b) > 0 {
			b[s[0]%len(b)] = byte(s[1])
		}
	}
	return b
}

func runC26Files(c *pbt.C, raw json.RawMessage) {
	var cs c26Case
	pbt.Decode(raw, &cs)
	quietLogs()
	if realMp3() == nil {
		c.Harnessf("no mp3 file to damage")
	}
	dir, err := os.MkdirTemp("", "mp3s")
	if err != nil {
		c.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	playback.AudioDir = dir
	var songs []string
	for i, n := range cs.N {
		name := fmt.Sprintf("s%d.mp3", i)
		os.WriteFile(filepath.Join(dir, name), []byte(fmt.Sprintf(`SYNSONG1 {"id":%d,"n":%d}`, i+1, n)), 0o644)
		songs = append(songs, name)
		if i < len(cs.Files) {
			name = fmt.Sprintf("d%d.mp3", i)
			os.WriteFile(filepath.Join(dir, name), cs.Files[i].bytes(), 0o644)
			songs = append(songs, name)
		}
	}
	type begun struct {
		at   uint64
		name string
		n    int64
	}
	var mu sync.Mutex
	var starts []begun
	pl := playback.NewPlaylist(4096, songs, cs.Nan)
	pl.SetNewSongHandler(func(at uint64, name string, n int64) {
		mu.Lock()
		starts = append(starts, begun{at, name, n})
		mu.Unlock()
	})
	pl.SetPlaying(true)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { defer close(done); pl.StreamLoop(ctx) }()
	last := len(cs.N)
	got, cur := 0, 0 // samples of the last song seen; the song expected next or playing
	next := 0        // sample expected
	foreign := 0
	deadline := time.Now().Add(c.Limit(20 * time.Second))
	low, high := make([]float64, 256), make([]float64, 256)
	for k := 0; got == 0; k++ {
		if time.Now().After(deadline) {
			c.Timeoutf("stuck", "the stream does not get from song %d to the next one, after %d blocks", cur, k)
		}
		fin := make(chan struct{})
		go func() { defer close(fin); pl.Fill(low, high) }()
		select {
		case <-fin:
		case <-time.After(c.Limit(20 * time.Second)):
			c.Timeoutf("stuck", "the stream of songs stops: no samples for 20 s (song %d)", cur)
		}
		for i := range low {
			if math.IsNaN(low[i]) {
				continue
			}
			id, p := mp3.SynIdent([2]float64{low[i], high[i]})
			if id >= 1 && id <= last && mp3.SynSample(id, p) == [2]float64{low[i], high[i]} && id-1 == cur && p == next {
				next++
				if next == cs.N[cur] {
					next = 0
					cur++
					if cur == last {
						got = 1
						break
					}
				}
				continue
			}
			if next > 0 {
				c.Failf("incomplete", "song %d of %d samples is followed by (%v, %v) after %d samples", cur, cs.N[cur], low[i], high[i], next)
			}
			foreign++
			if foreign > 40000*1152 {
				c.Failf("endless", "the damaged song before song %d goes on without end", cur)
			}
		}
	}
	cancel()
	// let the loop see it
	stop := time.After(c.Limit(20 * time.Second))
	for fin := false; !fin; {
		select {
		case <-done:
			fin = true
		case <-stop:
			c.Timeoutf("stuck", "the stream loop does not end after it was canceled")
		default:
			drain(pl)
		}
	}
	c.Count("samples decoded from damaged files", foreign)
	if foreign > 0 {
		c.NonTrivial()
	}
}

// drain takes samples so that the loop can go on.
func drain(pl *playback.Playlist) {
	low, high := make([]float64, 64), make([]float64, 64)
	fin := make(chan struct{})
	go func() { defer close(fin); pl.Fill(low, high) }()
	select {
	case <-fin:
	case <-time.After(20 * time.Millisecond):
	}
}

// --- resources ------------------------------------------------------------

type c26Long struct {
	Kinds  []string `json:"kinds"` // per song: ok, fail, gone, dir, garbage, empty, short
	Lyrics []bool   `json:"lyrics"`
	Rounds int      `json:"rounds"`
	Nan    int      `json:"nan"`
}

func genC26Long(t *rapid.T) interface{} {
	cs := c26Long{Rounds: rapid.IntRange(6, 14).Draw(t, "rounds"), Nan: rapid.SampledFrom([]int{0, 1000, 1000}).Draw(t, "nan")}
	cs.Kinds = rapid.SliceOfN(rapid.SampledFrom([]string{"ok", "ok", "fail", "gone", "dir", "garbage", "empty", "short", "link"}), 1, 6).Draw(t, "kinds")
	for range cs.Kinds {
		cs.Lyrics = append(cs.Lyrics, rapid.Bool().Draw(t, "lyrics"))
	}
	return cs
}

func openFiles() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

func runC26Long(c *pbt.C, raw json.RawMessage) {
	var cs c26Long
	pbt.Decode(raw, &cs)
	w := newWorld(c)
	defer w.Close()
	const rate = 8000
	f := ServerFlags{Rate: rate, ChunkSize: 4000, Nan: cs.Nan, Delay: 800}
	for i, k := range cs.Kinds {
		s := Song{Name: fmt.Sprintf("s%d.mp3", i), ID: i + 1, N: 3000, Bad: k}
		switch k {
		case "ok":
			s.Bad = ""
		case "short":
			s.Bad, s.N, s.Len = "", 0, 100
		case "fail":
			s.Bad, s.Fail = "", true
		default:
			s.Fail = true
		}
		w.writeSong(s)
		if cs.Lyrics[i] {
			os.WriteFile(filepath.Join(w.Audio, s.Name+".json"), []byte(`[[{"timestamp":1,"caption":"a"}]]`), 0o644)
		}
	}
	w.startServer(f)
	audio, meta := w.dial(comm.Channel_AUDIO), w.dial(comm.Channel_META)
	adm := w.admin()
	adm.raw("queue *\r")
	adm.raw("resume\r")
	for i, k := range cs.Kinds {
		if k != "ok" && k != "short" && k != "fail" {
			w.spoil(Song{Name: fmt.Sprintf("s%d.mp3", i), Bad: k})
		}
	}
	w.sleepUntil(4600 + 500*len(cs.Kinds)) // the first round
	debug.SetGCPercent(-1)                 // what is not closed stays open
	runtime.GC()
	time.Sleep(50 * time.Millisecond)
	files, routines := openFiles(), runtime.NumGoroutine()
	count := func() (n int) {
		for _, m := range meta.messages() {
			if _, ok := m.Msg.(*comm.NewSongInfo); ok {
				n++
			}
		}
		return
	}
	before := count()
	w.sleepUntil(4600 + 500*len(cs.Kinds) + cs.Rounds*500*len(cs.Kinds) + 4500)
	time.Sleep(3 * time.Millisecond)
	songs := count() - before
	f2, r2 := openFiles(), runtime.NumGoroutine()
	// a song or two may be open, and messages on their way
	if f2 > files+3 {
		c.Failf("files", "%d files were open after one round of the playlist and %d after %d more (%d songs begun): %v", files, f2, cs.Rounds, songs, cs.Kinds)
	}
	if r2 > routines+8 {
		b := make([]byte, 1<<20)
		c.Failf("routines", "%d goroutines after one round of the playlist and %d after %d more (%d songs begun): %v\n%s", routines, r2, cs.Rounds, songs, cs.Kinds, b[:runtime.Stack(b, true)])
	}
	chunks := 0
	for _, m := range audio.messages() {
		if _, ok := m.Msg.(*comm.QueueChunkRequest); ok {
			chunks++
		}
	}
	if want := int((w.now() - 2e6) / int64(f.chunkDur())); chunks < want-1 {
		c.Failf("chunks", "%d chunks were sent in %v, expected %d", chunks, time.Duration(w.now()), want)
	}
	c.Count("songs begun", songs)
	if songs > 0 || len(cs.Kinds) > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C26", Targets: []pbt.Target{
		{Name: "unplayable-stream", Mode: pbt.Fake, Run: runC26Sim, Quick: 600, Thorough: 40000, Timeout: 40 * time.Second,
			Gen: func(t *rapid.T) interface{} {
				return genSim(t, simPlan{bad: true, appends: true, edits: rapid.Bool().Draw(t, "edits"), jumps: rapid.Bool().Draw(t, "jumps"), pauses: rapid.IntRange(0, 3).Draw(t, "pauses") == 0, maxOps: 10})
			},
			Rule: "the real server in virtual time with playlists of songs of which most cannot be decoded, vanish, become directories, empty files, garbage or broken links once queued, end at once or break off, while entries are added, removed and jumped to: chunks keep their times, every command answers at once, the playable ones follow in order and complete, new clients are served; non-trivial: such a song is among them"},
		{Name: "damaged-files", Mode: pbt.Pure, Gen: genC26Files, Run: runC26Files, Quick: 2500, Thorough: 400000, Timeout: 60 * time.Second,
			Rule: "1-4 pieces of a real mp3 file, cut anywhere, with overwritten bytes and hostile beginnings, between intact songs, read by the real playlist and the real decoder: no crash, no endless song, the intact ones complete; non-trivial: a damaged file gave samples"},
		{Name: "long-run", Mode: pbt.Fake, Gen: genC26Long, Run: runC26Long, Quick: 60, Thorough: 4000, Timeout: 60 * time.Second,
			Rule: "a playlist of 1-6 playable and unplayable songs with and without lyrics, repeated 6-14 times: the number of open files and of goroutines after the first round and after the last one, with the garbage collector off; chunks keep coming; every case is non-trivial"},
	}})
}
