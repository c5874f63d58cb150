package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/faiface/beep/mp3"
	"pgregory.net/rapid"
	"verif/pbt"
)

// Lyrics and metadata, from the files to the displays.

type lyrAtom struct {
	T int64  `json:"t"`
	C string `json:"c"`
	F int    `json:"f,omitempty"` // how it is written
}

// lyrSpec describes a lyrics file.
type lyrSpec struct {
	Kind  string      `json:"kind"` // none, file, cut, wrong, dir, loop, dangling
	Lines [][]lyrAtom `json:"lines"`
	Null  []int       `json:"null,omitempty"` // empty lines that are written as null
	F     int         `json:"f,omitempty"`
	Cut   int         `json:"cut,omitempty"`
	Raw   []byte      `json:"raw,omitempty"`
}

func jsonText(s string, ascii bool) string {
	if !ascii {
		b, _ := json.Marshal(s)
		return string(b)
	}
	return strconv.QuoteToASCII(s) // replaced below, where JSON and Go differ
}

// asciiJSON writes s with \u escapes only.
func asciiJSON(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			fmt.Fprintf(&b, "\\u%04x\\u%04X", 0xd800+r>>10, 0xdc00+r&0x3ff)
		} else {
			fmt.Fprintf(&b, "\\u%04x", r)
		}
	}
	return b.String() + `"`
}

func (s *lyrSpec) text() []byte {
	sp := []string{"", " ", "\n\t", "\r\n"}[s.F&3]
	var lines []string
	for i, l := range s.Lines {
		null := false
		for _, n := range s.Null {
			null = null || n == i
		}
		if null && len(l) == 0 {
			lines = append(lines, "null")
			continue
		}
		var atoms []string
		for _, a := range l {
			cap := jsonText(a.C, false)
			if a.F&1 != 0 {
				cap = asciiJSON(a.C)
			}
			f := []string{`"timestamp":` + sp + strconv.FormatInt(a.T, 10), `"caption":` + sp + cap}
			if a.F&2 != 0 {
				f[0], f[1] = f[1], f[0]
			}
			if a.F&4 != 0 {
				f = append(f, `"other":{"timestamp":[1.5,null,"x"]}`)
			}
			if a.F&8 != 0 && a.C == "" { // absent fields are empty
				f = []string{`"timestamp":` + strconv.FormatInt(a.T, 10)}
			}
			atoms = append(atoms, "{"+strings.Join(f, sp+","+sp)+"}")
		}
		lines = append(lines, "["+sp+strings.Join(atoms, ","+sp)+"]")
	}
	return []byte(sp + "[" + strings.Join(lines, ","+sp) + sp + "]")
}

func (s *lyrSpec) write(path string) error {
	switch s.Kind {
	case "file":
		return os.WriteFile(path, append(s.text(), "\n"[:s.F>>2&1]...), 0o644)
	case "cut":
		b := []byte(strings.TrimRight(string(s.text()), " \n\t\r"))
		return os.WriteFile(path, b[:s.Cut%len(b)], 0o644)
	case "wrong":
		return os.WriteFile(path, s.Raw, 0o644)
	case "dir":
		return os.Mkdir(path, 0o755)
	case "loop":
		return os.Symlink(filepath.Base(path), path)
	case "dangling":
		return os.Symlink("nowhere", path)
	}
	return nil
}

// want is what the displays get; ok is false, if that is not determined.
func (s *lyrSpec) want() (lines [][]lyrAtom) {
	lines = [][]lyrAtom{}
	if s.Kind != "file" {
		return
	}
	for _, l := range s.Lines {
		w := []lyrAtom{}
		for _, a := range l {
			w = append(w, lyrAtom{T: a.T, C: a.C})
		}
		lines = append(lines, w)
	}
	return
}

func genLyr(t *rapid.T) (s lyrSpec) {
	s.Kind = rapid.SampledFrom([]string{"file", "file", "file", "file", "file", "none", "cut", "wrong", "dir", "loop", "dangling"}).Draw(t, "lyrics")
	s.F = rapid.IntRange(0, 7).Draw(t, "style")
	switch s.Kind {
	case "file", "cut":
		max := rapid.SampledFrom([]int{6, 6, 6, 200}).Draw(t, "max")
		s.Lines = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []lyrAtom {
			return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) lyrAtom {
				return lyrAtom{T: genI64(t, "ts"), C: strings.ReplaceAll(genText(t, "caption", 8), "\ufffd", "x"), F: rapid.IntRange(0, 15).Draw(t, "f")}
			}), 0, 4).Draw(t, "line")
		}), 0, max).Draw(t, "lines")
		if len(s.Lines) > 0 && rapid.IntRange(0, 2).Draw(t, "chorus") == 0 { // lines and parts that come again
			for n := rapid.IntRange(1, 4).Draw(t, "times"); n > 0; n-- {
				l := s.Lines[rapid.IntRange(0, len(s.Lines)-1).Draw(t, "line")]
				k := rapid.IntRange(0, len(s.Lines)).Draw(t, "to")
				if rapid.Bool().Draw(t, "at once") {
					l, k = s.Lines[len(s.Lines)-1], len(s.Lines)
				}
				if len(l) > 0 && rapid.IntRange(0, 3).Draw(t, "parts") == 0 {
					l = append(append([]lyrAtom{}, l...), l[rapid.IntRange(0, len(l)-1).Draw(t, "part")])
				}
				s.Lines = append(s.Lines[:k:k], append([][]lyrAtom{l}, s.Lines[k:]...)...)
			}
		}
		s.Null = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 3).Draw(t, "null")
		if s.Kind == "cut" {
			s.Cut = rapid.IntRange(0, 1<<20).Draw(t, "cut")
		}
	case "wrong":
		s.Raw = []byte(rapid.SampledFrom([]string{"", " ", "{}", `"x"`, "5", "true", "[5]", "[[5]]", `[[{"timestamp":"5","caption":"a"}]]`, `[[{"timestamp":1.5,"caption":"a"}]]`,
			`[[{"timestamp":1,"caption":5}]]`, `[[{"timestamp":9223372036854775808,"caption":"a"}]]`, `[[{"timestamp":1,"caption":"a"}],[{"timestamp":1,"caption":["a"]}]]`,
			`[[{"timestamp":1,"caption":"a"}],[{"timestamp":1,"caption":"b"},7]]`, `[{"timestamp":1,"caption":"a"}]`, "null", "[[{]]", "[[{'timestamp':1}]]", "\ufeff[[{\"timestamp\":1,\"caption\":\"a\"}]]",
			"\x00\x01\x02", "[[{\"timestamp\":1,\"caption\":\"a\nb\"}]]", "[[{\"timestamp\":01,\"caption\":\"a\"}]]", "[[{\"timestamp\":1,\"caption\":\"a\"},]]", "#EXTM3U", "[00:01.00] text"}).Draw(t, "raw"))
	}
	return
}

// readable reads a tag the way a display would show it: texts without NULs.
func sameText(want, got string) bool { return want == got }

func checkTag(c *pbt.C, s *tagSpec, what, title, artist, album string) {
	if !s.exact() {
		return
	}
	got := []string{title, artist, album}
	for i, w := range s.texts() {
		if !sameText(w, got[i]) {
			c.Failf("metadata", "%s: the %s of the %s tag is %q, %q was found (tag %+v)", what, []string{"title", "artist", "album"}[i], s.Kind, w, got[i], *s)
		}
	}
}

// --- the files alone ------------------------------------------------------

type c24Tags struct {
	Tags []tagSpec `json:"tags"`
	Base bool      `json:"base"` // a real song between the tags
	Lyr  []lyrSpec `json:"lyr"`
}

func genC24Tags(t *rapid.T) interface{} {
	cs := c24Tags{Base: rapid.IntRange(0, 9).Draw(t, "base") == 0}
	for i := rapid.IntRange(1, 4).Draw(t, "tags"); i > 0; i-- {
		s := genTag(t, rapid.IntRange(0, 2).Draw(t, "wild") > 0)
		if s.exact() == false && rapid.IntRange(0, 9).Draw(t, "none") == 0 {
			s.Kind = ""
		}
		cs.Tags = append(cs.Tags, s)
		cs.Lyr = append(cs.Lyr, genLyr(t))
	}
	return cs
}

var realSong = "/repo/metadata/_test_files/test-song.mp3"

func runC24Tags(c *pbt.C, raw json.RawMessage) {
	var cs c24Tags
	pbt.Decode(raw, &cs)
	dir, err := os.MkdirTemp("", "tags")
	if err != nil {
		c.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	playback.AudioDir = dir
	audio := []byte("SYNSONG1 {\"id\":1,\"n\":10}")
	if cs.Base {
		if b, err := os.ReadFile(realSong); err == nil {
			audio = b
		}
	}
	big := false
	for i := range cs.Tags {
		s := &cs.Tags[i]
		name := fmt.Sprintf("s%d.mp3", i)
		if s.Kind == "v1" { // the real song has a tag at its beginning
			audio = []byte("SYNSONG1 {\"id\":1,\"n\":10}")
		}
		b := s.wrap(audio)
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			c.Harnessf("%v", err)
		}
		if err := cs.Lyr[i].write(filepath.Join(dir, name+".json")); err != nil {
			c.Harnessf("%v", err)
		}
		c.Class("tag " + s.Kind)
		c.Class("lyrics " + cs.Lyr[i].Kind)
		if s.exact() {
			big = true
			md := collect24(c, b, name)
			checkTag(c, s, name, md.Title, md.Artist, md.Album)
			c.Class("well-formed tags")
		} else {
			// a size read from a broken tag is allocated at once, up to 4 GB
			unlock := alone()
			collect24(c, b, name)
			unlock()
			c.Class("malformed tags")
		}
		got := [][]lyrAtom{}
		for _, l := range metadata.GetLyricsProvider().CollectLyrics(name) {
			g := []lyrAtom{}
			for _, a := range l {
				g = append(g, lyrAtom{T: a.Timestamp, C: a.Caption})
			}
			got = append(got, g)
		}
		if want := cs.Lyr[i].want(); !reflect.DeepEqual(got, want) {
			c.Failf("lyrics", "%s: lyrics file (%s) %q gives\n%v instead of\n%v", name, cs.Lyr[i].Kind, cs.Lyr[i].text(), got, want)
		}
	}
	if big {
		c.NonTrivial()
	}
}

func collect24(c *pbt.C, file []byte, name string) (md metadata.SongMetadata) {
	defer func() {
		if p := recover(); p != nil {
			if len(file) > 400 {
				file = file[:400]
			}
			c.Failf("tag-panic", "reading the tag of a song panics: %v\nfile %q\n%s", p, file, debug.Stack())
		}
	}()
	return metadata.GetProvider().CollectMetadata(name)
}

// alone keeps the worker processes from allocating much at the same time.
func alone() func() {
	f, err := os.OpenFile(filepath.Join(os.TempDir(), "verif-alone.lock"), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		return func() {}
	}
	syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
	return func() {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapSys-m.HeapReleased > 500<<20 {
			debug.FreeOSMemory()
		}
		f.Close()
	}
}

// --- with the server and displays -----------------------------------------

type c24Song struct {
	Name []byte   `json:"name"`
	Dir  bool     `json:"dir,omitempty"` // in a directory of that name
	N    int      `json:"n"`
	Tag  *tagSpec `json:"tag,omitempty"`
	Lyr  lyrSpec  `json:"lyr"`
}

type c24Case struct {
	Songs []c24Song `json:"songs"`
	Chunk int       `json:"chunk"`
	Nan   int       `json:"nan"`
	Stray bool      `json:"stray,omitempty"` // there are lyrics of no song
	Join  int       `json:"join_ms"`         // a second display joins, after the music has begun
}

// name of the i-th song; they are listed in the order of i.
func (cs *c24Case) name(i int) string {
	if cs.Songs[i].Dir {
		return fmt.Sprintf("%d%s/same.mp3", i, cs.Songs[i].Name)
	}
	return fmt.Sprintf("%d%s.mp3", i, cs.Songs[i].Name)
}

func genC24(t *rapid.T) interface{} {
	cs := c24Case{Chunk: rapid.IntRange(1000, 8000).Draw(t, "chunk"), Nan: rapid.IntRange(1, 3000).Draw(t, "nan")}
	for i := rapid.IntRange(1, 4).Draw(t, "songs"); i > 0; i-- {
		s := c24Song{N: rapid.IntRange(500, 12000).Draw(t, "n"), Lyr: genLyr(t)}
		s.Name = []byte(strings.NewReplacer("/", "_", "\x00", "_").Replace(genText(t, "name", 10)))
		if rapid.IntRange(0, 3).Draw(t, "encoding") == 0 {
			s.Name = append(s.Name, rapid.SampledFrom([]string{"\xe9", "\xff", "\xc3", "\xed\xa0\x80", "caf\xe9 ", "\xf0\x9f"}).Draw(t, "bad")...)
		}
		if rapid.IntRange(0, 5).Draw(t, "tagged") > 0 {
			g := genTag(t, rapid.IntRange(0, 2).Draw(t, "wild") == 0)
			// the audio must survive, and broken sizes must not be gigantic
			g.Cut, g.Set = 0, nil
			for k := range g.Extra {
				if g.Extra[k].Size > 0 {
					g.Extra[k].Size = -g.Extra[k].Size
				}
			}
			s.Tag = &g
		}
		s.Dir = rapid.IntRange(0, 3).Draw(t, "dir") == 0
		cs.Songs = append(cs.Songs, s)
	}
	sort.SliceStable(cs.Songs, func(a, b int) bool { return !cs.Songs[a].Dir && cs.Songs[b].Dir })
	cs.Stray = rapid.Bool().Draw(t, "stray")
	cs.Join = rapid.IntRange(0, 9000).Draw(t, "join")
	return cs
}

func runC24(c *pbt.C, raw json.RawMessage) {
	var cs c24Case
	pbt.Decode(raw, &cs)
	w := newWorld(c)
	defer w.Close()
	const rate = 8000
	total := 0
	for i, s := range cs.Songs {
		name := cs.name(i)
		if s.Dir {
			if err := os.Mkdir(filepath.Join(w.Audio, filepath.Dir(name)), 0o755); err != nil {
				c.Harnessf("%v", err)
			}
			c.Class("in directories")
		}
		if cs.Stray {
			base := strings.TrimSuffix(name, ".mp3")
			for _, x := range []string{"same.mp3.json", "same.json", base + ".json", base + ".MP3.json", base + ".mp3.json.json", base + ".mp3 .json"} {
				stray := `[[{"timestamp":1,"caption":"of no song"}]]`
				if err := os.WriteFile(filepath.Join(w.Audio, x), []byte(stray), 0o644); err != nil {
					c.Harnessf("%v", err)
				}
			}
		}
		b := []byte(fmt.Sprintf(`SYNSONG1 {"id":%d,"n":%d}`, i+1, s.N))
		if s.Tag != nil {
			b = s.Tag.wrap(append(b, " nothing"...))
		}
		if err := os.WriteFile(filepath.Join(w.Audio, name), b, 0o644); err != nil {
			c.Harnessf("%v", err)
		}
		if err := s.Lyr.write(filepath.Join(w.Audio, name+".json")); err != nil {
			c.Harnessf("%v", err)
		}
		total += s.N + cs.Nan
	}
	w.startServer(ServerFlags{Rate: rate, ChunkSize: cs.Chunk, Nan: cs.Nan, Delay: 1500})
	audio, meta := w.dial(comm.Channel_AUDIO), w.dial(comm.Channel_META)
	adm := w.admin()
	adm.raw("queue *\r")
	if cs.Songs[len(cs.Songs)-1].Dir {
		adm.raw("queue */*\r")
	}
	adm.raw("resume\r")
	w.sleepUntil(4200 + cs.Join)
	late := w.dial(comm.Channel_META)
	joined := w.now() + w.T0
	w.sleepUntil(4200 + (2*total+2*rate)*1000/rate)
	time.Sleep(1e6)

	// what was played
	type start struct {
		at   uint64
		song int
	}
	var starts []start
	played := map[int]int{}
	at := uint64(0)
	for _, m := range audio.messages() {
		q, ok := m.Msg.(*comm.QueueChunkRequest)
		if !ok {
			continue
		}
		for i := range q.SampleLow {
			if q.SampleLow[i] == q.SampleLow[i] {
				id, p := mp3.SynIdent([2]float64{q.SampleLow[i], q.SampleHigh[i]})
				if id < 1 || id > len(cs.Songs) {
					c.Failf("foreign", "sample %d of the stream belongs to no song", at)
				}
				if p == 0 {
					starts = append(starts, start{at, id - 1})
				} else if len(starts) == 0 || starts[len(starts)-1].song != id-1 || at-starts[len(starts)-1].at != uint64(p) {
					c.Failf("music", "sample %d of the stream is sample %d of song %d, which does not follow", at, p, id-1)
				}
				played[id-1]++
			}
			at++
		}
	}
	if len(starts) < len(cs.Songs) {
		c.Failf("music", "%d of %d songs were played within two rounds: %v", len(starts), len(cs.Songs), starts)
	}
	for k, s := range starts {
		if s.song != k%len(cs.Songs) {
			c.Failf("music", "songs are played in the order %v", starts)
		}
	}
	check := func(who string, x *comm.NewSongInfo, song int) {
		s := cs.Songs[song]
		name := cs.name(song)
		what := fmt.Sprintf("%s, song %q", who, name)
		if utf8.ValidString(name) && x.SongFileName != name {
			c.Failf("name", "%s is announced as %q", what, x.SongFileName)
		}
		if x.SongLength != int64(s.N) {
			c.Failf("length", "%s has %d samples and is announced with %d", what, s.N, x.SongLength)
		}
		got := [][]lyrAtom{}
		for _, l := range x.Lyrics {
			g := []lyrAtom{}
			for _, a := range l.GetAtoms() {
				g = append(g, lyrAtom{T: a.Timestamp, C: a.Caption})
			}
			got = append(got, g)
		}
		if want := s.Lyr.want(); !reflect.DeepEqual(got, want) {
			c.Failf("lyrics", "%s: the lyrics file (%s) %q arrives as\n%v instead of\n%v", what, s.Lyr.Kind, s.Lyr.text(), got, want)
		}
		md := x.GetMetadata()
		if s.Tag != nil {
			checkTag(c, s.Tag, what, md.GetTitle(), md.GetArtist(), md.GetAlbum())
		} else if md.GetTitle()+md.GetArtist()+md.GetAlbum() != "" {
			c.Failf("metadata", "%s has no tag and is announced with %v", what, md)
		}
	}
	songs := map[uint64][]*comm.NewSongInfo{}
	for _, m := range meta.messages() {
		if x, ok := m.Msg.(*comm.NewSongInfo); ok {
			songs[x.FirstSampleOfSongIndex] = append(songs[x.FirstSampleOfSongIndex], x)
		}
	}
	for _, s := range starts {
		l := songs[s.at]
		if len(l) != 1 {
			c.Failf("announcements", "song %q starts at sample %d of the stream, the displays got %d announcements of it", cs.name(s.song), s.at, len(l))
		}
		check("a display", l[0], s.song)
		c.Class("announcements")
	}
	// the late one gets the newest song, even if it is not played yet
	var newest *comm.NewSongInfo
	for _, m := range before(meta.messages(), joined-1e6) {
		if x, ok := m.Msg.(*comm.NewSongInfo); ok && (newest == nil || newest.FirstSampleOfSongIndex <= x.FirstSampleOfSongIndex) {
			newest = x
		}
	}
	if newest != nil {
		var first *comm.NewSongInfo
		for _, m := range late.messages() {
			if x, ok := m.Msg.(*comm.NewSongInfo); ok && first == nil {
				first = x
			}
		}
		if first == nil || first.FirstSampleOfSongIndex < newest.FirstSampleOfSongIndex {
			c.Failf("late", "a display that joined %v after the start has not been sent the newest song, which starts at sample %d", time.Duration(joined-w.T0), newest.FirstSampleOfSongIndex)
		}
		if song := int(first.SongFileName[0] - '0'); song < len(cs.Songs) {
			check("a late display", first, song)
			c.Class("late displays")
		}
	}
	c.NonTrivial()
}

func init() {
	pbt.Register(pbt.Property{ID: "C24", Targets: []pbt.Target{
		{Name: "tag-files", Mode: pbt.Pure, Gen: genC24Tags, Run: runC24Tags, Quick: 8000, Thorough: 600000,
			Rule: "1-4 files with generated tags (ID3v1, v2.2-2.4 in all encodings, MP4, FLAC, OGG, DSF), two thirds of them damaged (arbitrary bytes as texts, hostile frames, flags and sizes, overwritten bytes, truncation), and lyrics files written in varied JSON styles, truncated, of wrong types, directories or broken links: exact texts for the intact ones, empty lyrics for the broken ones, no panic for any; non-trivial: an intact tag was read"},
		{Name: "announce", Mode: pbt.Fake, Gen: genC24, Run: runC24, Quick: 500, Thorough: 40000, Timeout: 120 * time.Second,
			Rule: "1-4 songs with names of any encoding, tags (a third malformed or with invalid text) and lyrics as above, played by the real server: every start in the stream is announced once with the name, length, lyrics and metadata of its files, to displays there from the beginning and to one that joins later, and all the music is sent; every case is non-trivial"},
	}})
}
