package props

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"

	infoermain "github.com/LogicalOverflow/music-sync/cmd/music-sync-infoer"
)

// A stream as displays know it: contiguous chunks, songs, pauses.

type dispSong struct {
	Start uint64 `json:"start"`
	Len   int64  `json:"len"`
	Name  string `json:"name"`
}

// dispState is what a display must show at a sample.
type dispState struct {
	Song    int // index in Songs, -1: none
	Playing bool
	In      int64 // samples of the song heard so far
}

func (d dispState) String() string {
	return fmt.Sprintf("song %d, playing=%v, %d samples into the song", d.Song, d.Playing, d.In)
}

// refState computes the state at sample x from the songs and toggles that were announced.
func refState(songs []dispSong, known []bool, h []toggle, x int64) dispState {
	d := dispState{Song: -1, Playing: true}
	for i, s := range songs {
		if known[i] && int64(s.Start) <= x && (d.Song < 0 || s.Start > songs[d.Song].Start) {
			d.Song = i
		}
	}
	if x < 0 {
		return d
	}
	start := uint64(0)
	if d.Song >= 0 {
		start = songs[d.Song].Start
	}
	var p uint64
	d.Playing, p = pauseAt(h, start, uint64(x))
	if d.Song >= 0 {
		d.In = x - int64(start) - int64(p)
	}
	return d
}

type c22Step struct {
	Kind string `json:"kind"` // chunk, song, pause, show
	I    int    `json:"i"`    // which one
	At   int64  `json:"at"`   // show: time since the first chunk's start, in ns
}

type c22Case struct {
	Rate   int        `json:"rate"`
	Size   int        `json:"size"`
	K0     uint64     `json:"k0"`   // number of the first chunk
	Base   int64      `json:"base"` // its start time
	Chunks int        `json:"chunks"`
	Songs  []dispSong `json:"songs"`
	Pauses []toggle   `json:"pauses"`
	Vol    float64    `json:"vol"`
	Steps  []c22Step  `json:"steps"`
}

func (cs *c22Case) chunkNs() int64 { return int64(cs.Size) * 1e9 / int64(cs.Rate) }

func (cs *c22Case) chunkMsg(i int) *comm.ChunkInfo {
	return &comm.ChunkInfo{StartTime: cs.Base + int64(i)*cs.chunkNs(), FirstSampleIndex: (cs.K0 + uint64(i)) * uint64(cs.Size), ChunkSize: uint64(cs.Size)}
}

func (cs *c22Case) msg(s c22Step) proto.Message {
	switch s.Kind {
	case "chunk":
		return cs.chunkMsg(s.I)
	case "song":
		g := cs.Songs[s.I]
		return &comm.NewSongInfo{FirstSampleOfSongIndex: g.Start, SongFileName: g.Name, SongLength: g.Len}
	case "pause":
		p := cs.Pauses[s.I]
		return &comm.PauseInfo{Playing: p.P, ToggleSampleIndex: p.I}
	}
	return nil
}

func genC22(t *rapid.T) interface{} {
	cs := c22Case{Rate: rapid.SampledFrom([]int{1000, 8000, 44100, 192000}).Draw(t, "rate"),
		Size: rapid.SampledFrom([]int{512, 1000, 4096, 44100}).Draw(t, "size"),
		Base: rapid.OneOf(rapid.Int64Range(0, 1e9), rapid.Int64Range(1.7e18, 1.71e18)).Draw(t, "base"),
		Vol:  rapid.Float64Range(0, 2).Draw(t, "vol")}
	cs.K0 = uint64(rapid.OneOf(rapid.Just(int64(0)), rapid.Int64Range(0, 100), rapid.Int64Range(0, 1e5), rapid.Int64Range(0, 3e8)).Draw(t, "up") * int64(cs.Rate) / int64(cs.Size)) // up to ten years
	cs.Chunks = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 40)).Draw(t, "chunks")
	first := int64(cs.K0) * int64(cs.Size)
	span := int64(cs.Chunks) * int64(cs.Size)
	// songs and pauses, in the order of the stream
	pos := int64(1)
	switch rapid.IntRange(0, 3).Draw(t, "past") {
	case 0:
	case 1:
		pos = first + 1
	case 2:
		pos = first - rapid.Int64Range(0, 20*span).Draw(t, "back")
	case 3: // a song that runs for days
		pos = first - rapid.Int64Range(0, 400*3600).Draw(t, "hours")*int64(cs.Rate)
	}
	if pos < 1 {
		pos = 1
	}
	nsong := rapid.IntRange(0, 5).Draw(t, "songs")
	gap := func(l string) int64 {
		return rapid.OneOf(rapid.Int64Range(1, 4), rapid.Int64Range(1, int64(cs.Size)), rapid.Int64Range(1, span), rapid.Int64Range(1, 1+span/4)).Draw(t, l)
	}
	state := true
	toggles := func() {
		n := rapid.OneOf(rapid.IntRange(0, 2), rapid.IntRange(0, 7)).Draw(t, "toggles")
		for i := 0; i < n; i++ {
			pos += gap("tgap")
			if rapid.IntRange(0, 9).Draw(t, "same") > 0 {
				state = !state
			}
			cs.Pauses = append(cs.Pauses, toggle{uint64(pos), state})
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "before") == 0 {
		toggles()
	}
	again := rapid.IntRange(0, 2).Draw(t, "again") == 0 // the same songs over and over
	for i := 0; i < nsong; i++ {
		pos += gap("sgap")
		ln := rapid.OneOf(rapid.Int64Range(1, 2*span), rapid.Int64Range(1, int64(cs.Rate)*3600*100), rapid.Just(int64(0))).Draw(t, "len")
		g := dispSong{uint64(pos), ln, fmt.Sprintf("song%d.mp3", i)}
		if again && i > 0 && rapid.IntRange(0, 3).Draw(t, "same song") > 0 {
			o := cs.Songs[rapid.IntRange(0, i-1).Draw(t, "which one")]
			g.Len, g.Name = o.Len, o.Name
		}
		cs.Songs = append(cs.Songs, g)
		toggles()
	}
	// announcements in any order, refreshes with growing times between them
	type ord struct {
		s c22Step
		k int64
	}
	var os []ord
	shuffle := rapid.SampledFrom([]string{"order", "ahead", "random", "random"}).Draw(t, "arrival")
	total := int64(cs.Chunks) * cs.chunkNs()
	prio := func(idx int64) int64 {
		at := int64(float64(idx-first) / float64(cs.Rate) * 1e9)
		switch shuffle {
		case "order":
			return at - 3*cs.chunkNs()
		case "ahead":
			return -1
		}
		if rapid.Bool().Draw(t, "early") {
			return -1
		}
		return rapid.Int64Range(-1, total).Draw(t, "arrive")
	}
	add := func(kind string, i int, k int64) {
		os = append(os, ord{c22Step{kind, i, 0}, k})
		if kind != "chunk" && rapid.IntRange(0, 5).Draw(t, "twice") == 0 {
			os = append(os, ord{c22Step{kind, i, 0}, prio(first)})
		}
	}
	for i := 0; i < cs.Chunks; i++ {
		add("chunk", i, prio(first+int64(i)*int64(cs.Size)))
	}
	for i, s := range cs.Songs {
		add("song", i, prio(int64(s.Start)))
	}
	for i, p := range cs.Pauses {
		add("pause", i, prio(int64(p.I)))
	}
	sort.SliceStable(os, func(a, b int) bool { return os[a].k < os[b].k })
	// refresh times: random ones and the instants around everything that happens
	var at []int64
	nshow := rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 60)).Draw(t, "shows")
	var marks []int64
	for _, s := range cs.Songs {
		marks = append(marks, int64(s.Start))
	}
	for _, p := range cs.Pauses {
		marks = append(marks, int64(p.I))
	}
	for i := 0; i < nshow; i++ {
		x := rapid.Int64Range(-total/10, total).Draw(t, "show")
		if len(marks) > 0 && rapid.IntRange(0, 2).Draw(t, "mark") == 0 {
			m := float64(marks[rapid.IntRange(0, len(marks)-1).Draw(t, "which")] - first)
			y := int64(m / float64(cs.Rate) * 1e9)
			y += rapid.SampledFrom([]int64{-1, 1}).Draw(t, "side") * 3 * (1e9/int64(cs.Rate) + 1)
			if y >= 0 && y <= total {
				x = y
			}
		}
		at = append(at, x)
	}
	at = append(at, total) // everything is known at the end
	sort.Slice(at, func(a, b int) bool { return at[a] < at[b] })
	j := 0
	for _, o := range os {
		for j < len(at) && at[j] < o.k {
			cs.Steps = append(cs.Steps, c22Step{"show", 0, at[j]})
			j++
		}
		cs.Steps = append(cs.Steps, o.s)
	}
	for ; j < len(at); j++ {
		cs.Steps = append(cs.Steps, c22Step{"show", 0, at[j]})
	}
	return cs
}

func runC22(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c22Case
	pbt.Decode(raw, &cs)
	schedule.SampleRate = cs.Rate
	infoermain.VerifReset()
	h := infoermain.VerifHandler()
	deliver(h, &comm.SetVolumeRequest{Volume: cs.Vol})
	known := make([]bool, len(cs.Songs))
	var hist []toggle
	have := map[int]bool{}
	shown, paused, lateStep := 0, 0, 0
	var lastShow int64 = math.MinInt64
	for n, s := range cs.Steps {
		if s.Kind != "show" {
			deliver(h, cs.msg(s))
			switch s.Kind {
			case "chunk":
				have[s.I] = true
			case "song":
				known[s.I] = true
				if int64(cs.Songs[s.I].Start) < lastShow {
					lateStep++
				}
			case "pause":
				hist = append(hist, cs.Pauses[s.I])
				if int64(cs.Pauses[s.I].I) < lastShow {
					lateStep++
				}
			}
			continue
		}
		now := cs.Base + s.At
		cover := false // is a chunk known that has not ended?
		for i := range have {
			if e := int64(i+1)*cs.chunkNs() - s.At; e > 0 {
				cover = true
			}
		}
		got := infoermain.VerifInfoAt(now)
		if !cover {
			continue
		}
		x := int64(cs.K0)*int64(cs.Size) + s.At/1e9*int64(cs.Rate) + s.At%1e9*int64(cs.Rate)/1e9
		lastShow = x
		ok := false
		var want []dispState
		for d := int64(-1); d <= 1; d++ {
			want = append(want, refState(cs.Songs, known, hist, x+d))
		}
		for _, r := range want {
			file := "None"
			var ln int64
			if r.Song >= 0 {
				file, ln = cs.Songs[r.Song].Name, cs.Songs[r.Song].Len
			}
			if got.File != file || got.Playing != r.Playing {
				continue
			}
			if r.Song >= 0 {
				if e := got.TimeInSong - samplesTime(r.In, cs.Rate); e > 3*samplesTime(1, cs.Rate)+3 || -e > 3*samplesTime(1, cs.Rate)+3 {
					continue
				}
				if e := got.SongLength - samplesTime(ln, cs.Rate); e > 2 || e < -2 {
					continue
				}
				if ln > 0 {
					p := math.Min(1, float64(r.In)/float64(ln))
					if math.Abs(math.Min(1, got.Progress)-p) > 3/float64(ln)+1e-9 {
						continue
					}
				}
			}
			ok = true
			break
		}
		if !ok {
			sg := "none"
			if want[1].Song >= 0 {
				sg = fmt.Sprintf("%+v, %v into it, %v long", cs.Songs[want[1].Song], samplesTime(want[1].In, cs.Rate), samplesTime(cs.Songs[want[1].Song].Len, cs.Rate))
			}
			c.Failf("state", "step %d: at sample %d the display should have %v (song %s); it has %s from sample %d on, playing=%v, %v of %v, fraction %v; %d pauses known",
				n, x, want[1], sg, got.File, got.Start, got.Playing, got.TimeInSong, got.SongLength, got.Progress, len(hist))
			return
		}
		if got.Volume != cs.Vol {
			c.Failf("volume", "the volume is %v, the display has %v", cs.Vol, got.Volume)
		}
		shown++
		if !want[1].Playing || want[1].Song >= 0 && want[1].In < x-int64(cs.Songs[want[1].Song].Start) {
			paused++
		}
	}
	c.Count("refreshes checked", shown)
	if lateStep > 0 {
		c.Class("announced after it was shown")
	}
	if paused > 0 {
		c.Class("with pauses in the song shown")
	}
	if shown > 1 && (len(cs.Songs) > 0 || paused > 0) {
		c.NonTrivial()
	}
}

// deliver has a message handled, and waits for it.
func deliver(h comm.TypedPackageHandler, m proto.Message) {
	switch m := m.(type) {
	case *comm.SetVolumeRequest:
		h.HandleSetVolumeRequest(m, nil)
	case *comm.ChunkInfo:
		h.HandleChunkInfo(m, nil)
	case *comm.NewSongInfo:
		h.HandleNewSongInfo(m, nil)
	case *comm.PauseInfo:
		h.HandlePauseInfo(m, nil)
	}
}

// samplesTime is how long n samples take.
func samplesTime(n int64, rate int) time.Duration {
	r := int64(rate)
	return time.Duration(n/r)*time.Second + time.Duration(n%r)*time.Second/time.Duration(r)
}

func init() {
	pbt.Register(pbt.Property{ID: "C22", Targets: []pbt.Target{
		{Name: "state", Mode: pbt.Pure, Gen: genC22, Run: runC22, Quick: 150000, Thorough: 10000000,
			Rule: "streams of 1-40 contiguous chunks far into a run, 0-5 songs and up to 42 pauses and resumes anywhere, in order or not; the announcements reach the display's handler in stream order, all ahead, or shuffled, some twice, with 1-60 refreshes at growing times between them, also right next to the songs and toggles; at every refresh song, state, times and fraction are compared with a reference over all announcements so far; non-trivial: more than one refresh was checked and there are songs or pauses"},
	}})
}
