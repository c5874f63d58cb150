package props

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/gdamore/tcell"
	"github.com/golang/protobuf/proto"
	"github.com/mattn/go-runewidth"
	"pgregory.net/rapid"
	"verif/pbt"

	infoermain "github.com/LogicalOverflow/music-sync/cmd/music-sync-infoer"
)

// The real display program on a simulated screen, against a server of the
// harness, in virtual time.

type dispTags struct {
	Title  string      `json:"title"`
	Artist string      `json:"artist"`
	Album  string      `json:"album"`
	Lyrics [][]lyricAtom `json:"lyrics"`
}

type lyricAtom struct {
	Timestamp int64  `json:"ts"`
	Caption   string `json:"text"`
}

// timedMsg is something the server sends: due at a stream index, sent at a time.
type timedMsg struct {
	At   int     `json:"at_ms"` // when it is sent, relative to the subscription
	Kind string  `json:"kind"`  // chunk, song, pause, volume
	I    int     `json:"i"`
	Vol  float64 `json:"vol"`
}

type c23Case struct {
	Rate    int        `json:"rate"`
	Size    int        `json:"size"`
	Skew    int64      `json:"skew"`
	Cycles  int        `json:"cycles"`
	Past    int        `json:"past"` // stream samples due before the subscription (negative: the stream has not begun)
	Chunks  int        `json:"chunks"`
	W       int        `json:"w"`
	H       int        `json:"h"`
	Hist    int        `json:"hist"`
	Songs   []dispSong `json:"songs"`
	Tags    []dispTags `json:"tags"`
	Pauses  []toggle   `json:"pauses"`
	Msgs    []timedMsg `json:"msgs"`
	Looks   []int      `json:"looks_ms"`
	Resizes [][3]int   `json:"resizes"` // at ms, w, h
}

var screenChars = []string{"a", "b", "c", "X", "Y", " ", " ", "0", "9", "-", ".", "(", ")", "'", "é", "ß", "Ж", "日", "本", "語", "😀", "e\u0301", "ü", "ñ", "Ω", "\u00a0x"}

// textWidth is how many cells a text takes.
func textWidth(s string) int {
	n := 0
	for _, r := range s {
		if unicode.Is(unicode.Mn, r) {
			continue
		}
		if w := runewidth.RuneWidth(r); w > 1 {
			n += w
		} else {
			n++
		}
	}
	return n
}

func genScreenText(t *rapid.T, label string, max int) string {
	from := 0
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		from = max // as much as there is space for
	}
	parts := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(screenChars[:12]), rapid.SampledFrom(screenChars)), from, max).Draw(t, label)
	s := strings.Trim(strings.Join(parts, ""), " ")
	for textWidth(s) > max {
		r := []rune(s)
		s = strings.Trim(string(r[:len(r)-1]), " ")
	}
	return s
}

func genLyrics(t *rapid.T, max int, ms int) (l [][]lyricAtom) {
	n := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 12)).Draw(t, "lines")
	at := rapid.IntRange(0, 1500).Draw(t, "first")
	for i := 0; i < n; i++ {
		var line []lyricAtom
		if len(l) > 0 && rapid.IntRange(0, 3).Draw(t, "chorus") == 0 { // sung again
			for _, a := range l[rapid.IntRange(0, len(l)-1).Draw(t, "which")] {
				line = append(line, lyricAtom{Timestamp: int64(at), Caption: a.Caption})
				at += rapid.IntRange(0, 300).Draw(t, "dur")
			}
			l = append(l, line)
			continue
		}
		k := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4}).Draw(t, "atoms")
		left := max
		for j := 0; j < k; j++ {
			s := genScreenText(t, "caption", left/2)
			if j > 0 && textWidth(s) < left && rapid.Bool().Draw(t, "space") {
				s = " " + s
			}
			left -= textWidth(s)
			line = append(line, lyricAtom{Timestamp: int64(at), Caption: s})
			at += rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 1+ms/6)).Draw(t, "dur")
		}
		l = append(l, line)
	}
	return
}

func genC23(t *rapid.T) interface{} {
	cs := c23Case{Rate: rapid.SampledFrom([]int{1000, 8000, 44100}).Draw(t, "rate"),
		Skew: rapid.OneOf(rapid.Int64Range(-1e9, 1e9), rapid.Int64Range(-1e15, 1e15)).Draw(t, "skew"),
		W:    rapid.IntRange(44, 110).Draw(t, "w"), H: rapid.OneOf(rapid.IntRange(5, 9), rapid.IntRange(5, 30)).Draw(t, "h"),
		Hist: rapid.IntRange(0, 8).Draw(t, "hist")}
	cs.Size = cs.Rate * rapid.SampledFrom([]int{100, 500, 1000, 4000}).Draw(t, "chunk") / 1000
	cs.Past = rapid.OneOf(rapid.IntRange(-2*cs.Rate, cs.Rate), rapid.IntRange(0, 100*cs.Rate), rapid.IntRange(0, 40000*cs.Rate), rapid.IntRange(0, 900_000*cs.Rate)).Draw(t, "past")
	cs.Cycles = rapid.SampledFrom([]int{1, 3, 3, 30, 80}).Draw(t, "cycles")
	dur := rapid.IntRange(1000, 8000).Draw(t, "dur") // length of the run
	end := cs.Past + (dur+500)*cs.Rate/1000
	first := cs.Past / cs.Size // the chunk being played when it subscribes
	if cs.Past < 0 {
		first = 0
	}
	cs.Chunks = end/cs.Size - first + 1
	if cs.Chunks < 1 {
		cs.Chunks = 1
	}
	lookahead := rapid.SampledFrom([]int{500, 2000, 20000}).Draw(t, "lookahead")
	shuffle := rapid.Bool().Draw(t, "shuffle")
	send := func(kind string, i int, idx int64) {
		due := int((idx - int64(cs.Past)) * 1000 / int64(cs.Rate)) // ms after the subscription
		at := due - lookahead
		if shuffle {
			at = due - 300 - rapid.IntRange(0, lookahead).Draw(t, "ahead")
		}
		if at < 0 {
			at = 0
		}
		cs.Msgs = append(cs.Msgs, timedMsg{At: at, Kind: kind, I: i})
	}
	for i := 0; i < cs.Chunks; i++ {
		send("chunk", i, int64(first+i)*int64(cs.Size))
	}
	if rapid.IntRange(0, 3).Draw(t, "resize") == 0 {
		at := 0
		for i := 0; i < 3; i++ {
			at += rapid.IntRange(1, dur/2).Draw(t, "rat")
			w := rapid.OneOf(rapid.IntRange(1, 130), rapid.IntRange(1, 8)).Draw(t, "rw")
			h := rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 8)).Draw(t, "rh")
			cs.Resizes = append(cs.Resizes, [3]int{at, w, h})
		}
	}
	narrow := cs.W // the texts fit the narrowest screen that is looked at
	for _, r := range cs.Resizes {
		if 40 <= r[1] {
			narrow = min(narrow, r[1])
		}
	}
	// songs and pauses
	pos := int64(1)
	if p := int64(cs.Past) - int64(rapid.SampledFrom([]int{0, 1, 200, 5000}).Draw(t, "start"))*int64(cs.Rate); p > 1 {
		pos = p
	}
	st := true
	n := rapid.IntRange(0, 4).Draw(t, "songs")
	span := int64(dur) * int64(cs.Rate) / 1000
	gap := func(l string) int64 {
		return rapid.OneOf(rapid.Int64Range(1, span), rapid.Int64Range(1, 1+span/5)).Draw(t, l)
	}
	for i := 0; i < n; i++ {
		pos += gap("sgap")
		ln := rapid.OneOf(rapid.Int64Range(1, 2*span), rapid.Int64Range(1, int64(cs.Rate)*4000), rapid.Int64Range(1, int64(cs.Rate)*900_000)).Draw(t, "len")
		cs.Songs = append(cs.Songs, dispSong{uint64(pos), ln, genScreenText(t, "file", 12) + ".mp3"})
		again := -1
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 { // the same song once more
			again = rapid.IntRange(0, i-1).Draw(t, "which")
			cs.Songs[i].Len, cs.Songs[i].Name = cs.Songs[again].Len, cs.Songs[again].Name
		}
		g := dispTags{}
		if rapid.IntRange(0, 3).Draw(t, "tags") > 0 {
			g = dispTags{Title: genScreenText(t, "title", narrow-20), Artist: genScreenText(t, "artist", (narrow-20)/2), Album: genScreenText(t, "album", (narrow-30)/2)}
			if rapid.IntRange(0, 4).Draw(t, "noalbum") == 0 {
				g.Album = ""
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "haslyrics") > 0 {
			g.Lyrics = genLyrics(t, narrow-4, dur)
		}
		if again >= 0 {
			g = cs.Tags[again]
		}
		cs.Tags = append(cs.Tags, g)
		send("song", i, pos)
		k := rapid.IntRange(0, 4).Draw(t, "toggles")
		for j := 0; j < k; j++ {
			pos += gap("tgap")
			st = !st
			cs.Pauses = append(cs.Pauses, toggle{uint64(pos), st})
			send("pause", len(cs.Pauses)-1, pos)
		}
	}
	k := rapid.IntRange(0, 4).Draw(t, "volumes")
	for i := 0; i < k; i++ {
		at := 0
		if i > 0 {
			at = rapid.IntRange(1, dur).Draw(t, "volat")
		}
		cs.Msgs = append(cs.Msgs, timedMsg{At: at, Kind: "volume", Vol: rapid.OneOf(rapid.SampledFrom([]float64{0, 0.1, 0.5, 1, 2}), rapid.Float64Range(0, 2), rapid.Float64Range(0, 9)).Draw(t, "vol")})
	}
	sort.SliceStable(cs.Msgs, func(a, b int) bool { return cs.Msgs[a].At < cs.Msgs[b].At })
	cs.Looks = rapid.SliceOfN(rapid.IntRange(250, dur), 1, 25).Draw(t, "looks")
	sort.Ints(cs.Looks)
	return cs
}

// shown is what a screen says.
type shown struct {
	rows       [][]rune // main characters, wide ones once, with combining ones
	w, h       int
	volume     string
	title      string
	info       string
	times      string
	playing    string
	head, half int // filled cells of the progress bar
	lyrics     []string
}

func isBox(r rune) bool { return r >= '\u2550' && r <= '\u256c' }

var timesRe = regexp.MustCompile(`((?:\d+:)?\d+:\d\d/(?:\d+:)?\d+:\d\d)$`)
var volumeRe = regexp.MustCompile(`Volume: *([0-9.]+)%$`)

// cellsText reads cells [x0,x1) of a row as text.
func cellsText(cells []tcell.SimCell, w, y, x0, x1 int) string {
	s := ""
	for x := x0; x < x1; {
		r := cells[y*w+x].Runes
		if len(r) == 0 {
			r = []rune{' '}
		}
		s += string(r)
		if n := runewidth.RuneWidth(r[0]); n > 1 {
			x += n
		} else {
			x++
		}
	}
	return s
}

// readScreen reads the screen's areas.
func readScreen(scr tcell.SimulationScreen, hist int) (s shown, problem string) {
	cells, w, h := scr.GetContents()
	s.w, s.h = w, h
	at := func(x, y int) rune {
		if r := cells[y*w+x].Runes; len(r) > 0 {
			return r[0]
		}
		return ' '
	}
	for y := 0; y < 5; y++ {
		if !isBox(at(0, h-1-y)) || !isBox(at(w-1, h-1-y)) {
			return s, fmt.Sprintf("the frame is broken in the %dth row from below", y+1)
		}
	}
	for x := 1; x < w-1; x++ {
		if !isBox(at(x, h-1)) {
			return s, "the lower edge of the frame is broken"
		}
		if x > 9 && !isBox(at(x, h-5)) {
			return s, "the upper edge of the frame is broken"
		}
	}
	lh := hist
	if h < lh+7 {
		lh = h - 7
	}
	if lh < 0 {
		lh = 0
	}
	top := h - 6
	if lh > 0 {
		top = h - 8 - lh
	}
	for y := 0; y <= top && y < h; y++ {
		for x := 0; x < w; x++ {
			if r := at(x, y); r != ' ' {
				return s, fmt.Sprintf("there is %q outside the frame at %d,%d", r, x, y)
			}
		}
	}
	trim := func(t string) string { return strings.TrimRight(t, " ") }
	line := cellsText(cells, w, h-4, 1, w-1)
	m := volumeRe.FindStringSubmatchIndex(line)
	if m == nil {
		return s, fmt.Sprintf("no volume at the right of %q", line)
	}
	s.volume = line[m[2]:m[3]]
	s.title = trim(line[:m[0]])
	line = cellsText(cells, w, h-3, 1, w-1)
	m = timesRe.FindStringSubmatchIndex(line)
	if m == nil {
		return s, fmt.Sprintf("no times at the right of %q", line)
	}
	s.times = line[m[2]:m[3]]
	s.info = trim(line[:m[0]])
	for x := 1; x < w-1; x++ {
		switch r := at(x, h-2); r {
		case '█':
			if s.head+s.half != x-1 || s.half > 0 {
				return s, "the progress bar has gaps"
			}
			s.head++
		case '▌':
			if s.head+s.half != x-1 || s.half > 0 {
				return s, "the progress bar has gaps"
			}
			s.half++
		case ' ':
		default:
			return s, fmt.Sprintf("there is %q in the progress bar", r)
		}
	}
	s.playing = strings.Trim(cellsText(cells, w, h-5, 1, 10), "═")
	if lh > 0 {
		for y := h - 7 - lh; y <= h-6; y++ {
			if !isBox(at(0, y)) || !isBox(at(w-1, y)) {
				return s, fmt.Sprintf("the lyrics frame is broken in row %d", y)
			}
		}
		for x := 1; x < w-1; x++ {
			if !isBox(at(x, h-6)) || x > 9 && !isBox(at(x, h-7-lh)) {
				return s, "an edge of the lyrics frame is broken"
			}
		}
		for i := 0; i < lh; i++ {
			s.lyrics = append(s.lyrics, trim(cellsText(cells, w, h-7-i, 1, w-1)))
		}
	}
	return s, ""
}

func refClock(d time.Duration) string {
	s := int64(d / time.Second)
	if s >= 3600 {
		return fmt.Sprintf("%d:%02d:%02d", s/3600, s/60%60, s%60)
	}
	return fmt.Sprintf("%d:%02d", s/60, s%60)
}

// lineFits says whether a row can be a lyrics line ms milliseconds into the song.
func lineFits(row string, atoms []lyricAtom, ms int64) bool {
	var try func(i int, s string) bool
	try = func(i int, s string) bool {
		if i == len(atoms) {
			return strings.TrimRight(s, " ") == row
		}
		a := atoms[i]
		return a.Timestamp <= ms+100 && try(i+1, s+a.Caption) || a.Timestamp > ms && try(i+1, s)
	}
	return try(0, "")
}

// lyricsFit says what is wrong with lyrics rows, newest first.
func lyricsFit(rows []string, lines [][]lyricAtom, ms int64) string {
	next := 0
	for next < len(lines) && (len(lines[next]) == 0 || lines[next][0].Timestamp <= ms) {
		next++
	}
	for i, r := range rows {
		j := next - 1 - i
		if j < 0 {
			if r != "" {
				return fmt.Sprintf("row %d should be empty and is %q", i, r)
			}
			continue
		}
		if !lineFits(r, lines[j], ms) {
			return fmt.Sprintf("row %d should have line %d, %+v, and is %q", i, j, lines[j], r)
		}
	}
	return ""
}

// against says in what the screen differs from a state; empty: in nothing.
func (cs *c23Case) against(s shown, d dispState, vol float64) string {
	name, info := "None", []string{""}
	var g dispTags
	var ln int64
	if d.Song >= 0 {
		name, g, ln = cs.Songs[d.Song].Name, cs.Tags[d.Song], cs.Songs[d.Song].Len
		if g.Title != "" {
			name = g.Title
		}
		info = []string{g.Artist}
		if g.Album != "" {
			info = []string{g.Artist + " - " + g.Album}
			if g.Artist == "" {
				info = []string{"", g.Album}
			}
		}
	}
	if got, err := strconv.ParseFloat(s.volume, 64); err != nil || math.Abs(got-vol*100) > 0.00501 {
		return fmt.Sprintf("the volume is %v and %q is shown", vol, s.volume)
	}
	times := refClock(samplesTime(d.In, cs.Rate)) + "/" + refClock(samplesTime(ln, cs.Rate))
	if s.times != times {
		return fmt.Sprintf("the times are %s and %s is shown", times, s.times)
	}
	want := "Paused"
	if d.Playing {
		want = "Playing"
	}
	if s.playing != want {
		return fmt.Sprintf("the state is %s and %q is shown", want, s.playing)
	}
	if textWidth(name) <= s.w-21 && s.title != name {
		return fmt.Sprintf("the song is %q and %q is shown", name, s.title)
	}
	ok := false
	for _, i := range info {
		if textWidth(i) > s.w-4-len(times) || s.info == i {
			ok = true
		}
	}
	if !ok {
		return fmt.Sprintf("artist and album are %q and %q is shown", info, s.info)
	}
	frac := 0.0
	if ln > 0 {
		frac = math.Min(1, float64(d.In)/float64(ln))
	}
	if filled := float64(s.head) + float64(s.half)/2; ln > 0 && math.Abs(filled-frac*float64(s.w-2)) > 1.01+float64(cs.Rate/1000+2)/float64(ln)*float64(s.w) || ln <= 0 && filled > 1 {
		return fmt.Sprintf("the fraction %.4f of %d cells was played and %v are filled", frac, s.w-2, filled)
	}
	wide := false
	for _, l := range g.Lyrics {
		x := ""
		for _, a := range l {
			x += a.Caption
		}
		if textWidth(x) > s.w-2 {
			wide = true
		}
	}
	if !wide {
		if p := lyricsFit(s.lyrics, g.Lyrics, int64(samplesTime(d.In, cs.Rate)/time.Millisecond)); p != "" {
			return "lyrics: " + p
		}
	}
	return ""
}

func (cs *c23Case) proto(m timedMsg, base int64) proto.Message {
	switch m.Kind {
	case "volume":
		return &comm.SetVolumeRequest{Volume: m.Vol}
	case "chunk":
		first := cs.Past / cs.Size
		if cs.Past < 0 {
			first = 0
		}
		k := int64(first + m.I)
		return &comm.ChunkInfo{StartTime: base + int64(samplesTime(k*int64(cs.Size), cs.Rate)), FirstSampleIndex: uint64(k) * uint64(cs.Size), ChunkSize: uint64(cs.Size)}
	case "song":
		s, g := cs.Songs[m.I], cs.Tags[m.I]
		msg := &comm.NewSongInfo{FirstSampleOfSongIndex: s.Start, SongFileName: s.Name, SongLength: s.Len,
			Metadata: &comm.NewSongInfo_SongMetadata{Title: g.Title, Artist: g.Artist, Album: g.Album}}
		for _, l := range g.Lyrics {
			line := &comm.NewSongInfo_SongLyricsLine{}
			for _, a := range l {
				line.Atoms = append(line.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: a.Timestamp, Caption: a.Caption})
			}
			msg.Lyrics = append(msg.Lyrics, line)
		}
		return msg
	}
	return &comm.PauseInfo{Playing: cs.Pauses[m.I].P, ToggleSampleIndex: cs.Pauses[m.I].I}
}

func runC23(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	keepAlive()
	var cs c23Case
	pbt.Decode(raw, &cs)
	schedule.TimeSyncCycles = cs.Cycles
	schedule.TimeSyncCycleDelay = 10 * time.Millisecond
	schedule.TimeSyncInterval = 2 * time.Second
	fs := newFakeServer(c, func(fc *fsConn, m proto.Message) {
		if r, ok := m.(*comm.TimeSyncRequest); ok {
			now := timing.GetRawTime() + cs.Skew
			fc.send(&comm.TimeSyncResponse{ClientSendTime: r.ClientSend, ServerRecvTime: now, ServerSendTime: now})
		}
	})
	p0 := timing.GetRawTime() // it redraws every 200 ms from here on
	scr := startInfoer(procIP(), fs.port(), cs.Rate, cs.W, cs.H, cs.Hist)
	conn := fs.subscriber(comm.Channel_META)
	if conn == nil {
		return
	}
	t0 := timing.GetRawTime()
	base := t0 + cs.Skew - int64(samplesTime(int64(cs.Past), cs.Rate)) // when sample 0 is due
	type ev struct {
		at   int
		kind int // 0 message, 1 resize, 2 look
		i    int
	}
	var evs []ev
	for i, m := range cs.Msgs {
		evs = append(evs, ev{m.At, 0, i})
	}
	for i, r := range cs.Resizes {
		evs = append(evs, ev{r[0], 1, i})
	}
	for i, l := range cs.Looks {
		evs = append(evs, ev{l, 2, i})
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	resized := -1000
	looks, songs := 0, 0
	for _, e := range evs {
		time.Sleep(time.Duration(t0 + int64(e.at)*1e6 + 7000 - timing.GetRawTime()))
		switch e.kind {
		case 0:
			conn.send(cs.proto(cs.Msgs[e.i], base))
			continue
		case 1:
			w, h := cs.Resizes[e.i][1], cs.Resizes[e.i][2]
			scr.SetSize(w, h)
			scr.PostEvent(tcell.NewEventResize(w, h))
			resized = e.at
			continue
		}
		if e.at-resized < 450 {
			continue
		}
		if _, w, h := scr.GetContents(); w < 40 || h < 5 {
			continue
		}
		s, problem := readScreen(scr, cs.Hist)
		if problem != "" {
			c.Failf("screen", "%s\n%s", problem, dump(scr))
			return
		}
		var diff string
		var diffs []string
		ok := false
		at := (e.at*1000 + 7) * 1000 // ns since the subscription
		tick := int(int64(at) - (t0+int64(at)-p0)%200e6)
		cands := []int{tick}
		for d := 1; d <= 2; d++ {
			cands = append(cands, tick-d*1e9/cs.Rate, tick+d*1e9/cs.Rate)
		}
		for back := 0; back <= 201; back++ {
			cands = append(cands, at-back*1e6)
		}
		for i := 0; i < len(cands) && !ok; i++ {
			u := cands[i]
			vol := 0.0
			known := make([]bool, len(cs.Songs))
			var hist []toggle
			for _, m := range cs.Msgs {
				if (m.At*1000+7)*1000 > u {
					break
				}
				switch m.Kind {
				case "volume":
					vol = m.Vol
				case "song":
					known[m.I] = true
				case "pause":
					hist = append(hist, cs.Pauses[m.I])
				}
			}
			x := int64(cs.Past) + int64(math.Floor(float64(u)*float64(cs.Rate)/1e9))
			diff = cs.against(s, refState(cs.Songs, known, hist, x), vol)
			ok = diff == ""
			if len(diffs) == 0 || diffs[len(diffs)-1] != diff {
				diffs = append(diffs, diff)
			}
		}
		if !ok {
			diff = strings.Join(diffs, "; earlier: ")
			c.Failf("display", "%d ms after the subscription (sample %d): %s\n%s", e.at, int64(cs.Past)+int64(e.at)*int64(cs.Rate)/1000, diff, dump(scr))
			return
		}
		looks++
		if s.title != "None" {
			songs++
		}
		if len(s.lyrics) > 0 && s.lyrics[0] != "" {
			c.Class("lyrics shown")
		}
		if s.playing == "Paused" {
			c.Class("paused")
		}
	}
	c.Count("screens compared", looks)
	if songs > 0 {
		c.NonTrivial()
	}
	if len(cs.Resizes) > 0 {
		c.Class("resized")
	}
}

func dump(scr tcell.SimulationScreen) string {
	cells, w, h := scr.GetContents()
	s := ""
	for y := 0; y < h; y++ {
		s += strings.TrimRight(cellsText(cells, w, y, 0, w), " ") + "\n"
	}
	return s
}

// ---- the lyrics area alone

type c23Lyrics struct {
	Lines  [][]lyricAtom `json:"lines"`
	Height int         `json:"height"`
	At     []int64     `json:"at_us"`
}

func genC23Lyrics(t *rapid.T) interface{} {
	cs := c23Lyrics{Lines: genLyrics(t, 40, 8000), Height: rapid.IntRange(0, 10).Draw(t, "height")}
	if rapid.IntRange(0, 49).Draw(t, "epic") == 0 { // very many lines, long ones
		k := rapid.IntRange(100, 5000).Draw(t, "more lines")
		step := rapid.IntRange(0, 2000).Draw(t, "step")
		at := int64(0)
		for i := 0; i < k; i++ {
			at += int64(step)
			cs.Lines = append(cs.Lines, []lyricAtom{{Timestamp: at, Caption: fmt.Sprint("line ", i)}})
		}
		cs.At = rapid.SliceOfN(rapid.Int64Range(0, at*1000+1), 1, 10).Draw(t, "late")
		return cs
	}
	cs.At = rapid.SliceOfN(rapid.Int64Range(0, 20e6), 1, 10).Draw(t, "at")
	for _, l := range cs.Lines {
		for _, a := range l {
			if rapid.Bool().Draw(t, "next to") {
				cs.At = append(cs.At, max(0, a.Timestamp*1000+rapid.Int64Range(-101000, 1000).Draw(t, "off")))
			}
		}
	}
	return cs
}

func runC23Lyrics(c *pbt.C, raw json.RawMessage) {
	var cs c23Lyrics
	pbt.Decode(raw, &cs)
	var ls []metadata.LyricsLine
	for _, l := range cs.Lines {
		var line metadata.LyricsLine
		for _, a := range l {
			line = append(line, metadata.LyricsAtom{Timestamp: a.Timestamp, Caption: a.Caption})
		}
		ls = append(ls, line)
	}
	n := 0
	for _, us := range cs.At {
		rows := infoermain.VerifLyrics(cs.Height, ls, time.Duration(us)*time.Microsecond)
		if len(rows) != cs.Height {
			c.Failf("height", "%d lyrics rows for a height of %d", len(rows), cs.Height)
			return
		}
		trimmed := make([]string, len(rows))
		for i, r := range rows {
			trimmed[i] = strings.TrimRight(r, " ")
			if r != "" {
				n++
			}
		}
		if p := lyricsFit(trimmed, cs.Lines, us/1000); p != "" {
			c.Failf("lyrics", "%d us into the song, newest row first: %s", us, p)
			return
		}
	}
	if n > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C23", Targets: []pbt.Target{
		{Name: "lyrics", Mode: pbt.Pure, Gen: genC23Lyrics, Run: runC23Lyrics, Quick: 150000, Thorough: 15000000,
			Rule: "0-12 lines of 0-4 parts, heights 0-10, times anywhere and next to the timestamps; each row against the lines that have begun and their parts due; non-trivial: a row has text"},
		{Name: "display", Mode: pbt.Fake, Gen: genC23, Run: runC23, Quick: 3000, Thorough: 300000, Timeout: 60 * time.Second,
			Rule: "the real display program in virtual time on a simulated screen, with its clock up to 11 days off, joining up to 11 hours into a stream of 0-4 songs with generated tags and lyrics (ASCII, wide, combining, emoji), pauses, volumes and resizes; the screen is read back at up to 25 instants and compared field by field with a reference; non-trivial: a song was shown"},
	}})
}
