package props

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	xssh "golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
	"verif/pbt"
)

// C20: control commands do exactly what they report.

// --- terminal input ---

type keyStep struct {
	Keys   []byte `json:"keys,omitempty"`
	Resize int    `json:"resize,omitempty"` // width+1, after typing
	Ms     int    `json:"ms,omitempty"`
}

type keysCase struct {
	Files []string  `json:"files"`
	Width int       `json:"width"`
	Steps []keyStep `json:"steps"`
}

var termWidths = []int{80, 80, 80, 0, 1, 2, 3, 4, 6, 11, 12, 13, 16, 20, 24, 40, 79, 100, 132, 200, 1000, 65535, 1<<32 - 1}

var wordKeys = []string{"a", "q", "queue ", "queue", "ls ", "help ", "s", "song", "d/", "playlist", "volume 0.5", "remove 0", "jump 1", "pause", "resume", " ", "\\", "\\ ",
	"\u65e5", "\u65e5\u672c", "\u00e9", "e\u0301", "\U0001F600", "\u200b", "*", "x y", "\xff", "\xe6\x97", "\ufffd"}

var controlKeys = []string{"\t", "\t", "\t\t", "\r", "\r", "\n", "\x01", "\x02", "\x03", "\x05", "\x06", "\x07", "\x08", "\x0b", "\x0c", "\x0e", "\x0f", "\x10", "\x11", "\x12", "\x12", "\x13", "\x13", "\x14",
	"\x15", "\x16", "\x17", "\x18", "\x19", "\x1a", "\x1b", "\x1c", "\x1d", "\x1e", "\x1f", "\x7f",
	"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "\x1b[3~", "\x1b[5~", "\x1b[5;6R", "\x1b[", "\x1b[1;5", "\x1bb", "\x1bf", "\x1bd", "\x1b\x14", "\x1b\x7f", "\x1bOH", "\x1bOF", "\x1bOA", "\x1b\x1b", "\x1b[Z", "\x1b[200~"}

func genTermName(t *rapid.T) string {
	base := rapid.SampledFrom([]string{"song", "song ", "\u65e5\u672c\u8a9e", "\u65e5", "a", "long name of a song which is long", "s", "e\u0301", "\U0001F600\U0001F600"}).Draw(t, "base")
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(t, "times")
	dir := rapid.SampledFrom([]string{"", "", "", "d/", "\u65e5\u672c/"}).Draw(t, "in")
	return dir + strings.Repeat(base, n) + rapid.SampledFrom([]string{"", "1", "2", "3", "[x]", "\\"}).Draw(t, "end") + ".mp3"
}

func genC20Keys(t *rapid.T) interface{} {
	cs := keysCase{Files: rapid.SliceOfNDistinct(rapid.Custom(genTermName), 0, 6, func(s string) string { return s }).Draw(t, "files")}
	cs.Width = rapid.SampledFrom(termWidths).Draw(t, "width")
	n := rapid.IntRange(1, 12).Draw(t, "steps")
	for i := 0; i < n; i++ {
		var s keyStep
		k := rapid.IntRange(1, 4).Draw(t, "keys")
		for j := 0; j < k; j++ {
			switch x := rapid.IntRange(0, 19).Draw(t, "kind"); {
			case x < 7:
				s.Keys = append(s.Keys, rapid.SampledFrom(wordKeys).Draw(t, "word")...)
			case x < 18:
				s.Keys = append(s.Keys, rapid.SampledFrom(controlKeys).Draw(t, "control")...)
			case x == 18 && len(cs.Files) > 0:
				f := []rune(refEscape(rapid.SampledFrom(cs.Files).Draw(t, "file")))
				s.Keys = append(s.Keys, "queue "+string(f[:rapid.IntRange(0, len(f)).Draw(t, "cut")])...)
			default:
				s.Keys = append(s.Keys, rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "bytes")...)
			}
		}
		if rapid.IntRange(0, 7).Draw(t, "resize?") == 0 {
			s.Resize = rapid.SampledFrom(termWidths).Draw(t, "new width") + 1
		}
		s.Ms = rapid.SampledFrom([]int{5, 5, 0, 1, 200}).Draw(t, "ms")
		cs.Steps = append(cs.Steps, s)
	}
	return cs
}

func runC20Keys(c *pbt.C, raw json.RawMessage) {
	var cs keysCase
	pbt.Decode(raw, &cs)
	stopped := make(chan os.Signal, 1)
	signal.Notify(stopped, syscall.SIGTSTP)
	w := newWorld(c)
	defer w.Close()
	for i, f := range cs.Files {
		w.writeSong(Song{Name: f, ID: i + 1, N: 200000})
	}
	w.startServer(ServerFlags{Rate: 44100, ChunkSize: 4410, Nan: 0, StartDelay: 50, Delay: 1000})
	other := w.admin()
	var typist *admin
	open := func() bool {
		if typist != nil {
			select {
			case <-typist.done:
				typist.cl.Close()
			default:
				return false
			}
		}
		a, err := w.dialTerminal(cs.Width, adminUser, xssh.Password(adminPass))
		if err != nil {
			c.Failf("login", "no session with a terminal %d wide: %v", cs.Width, err)
		}
		typist = a
		return true
	}
	typed := ""
	open()
	for i, s := range cs.Steps {
		if open() {
			c.Class("session was ended by its input")
		}
		typed += string(s.Keys)
		typist.in.Write(s.Keys)
		if s.Resize > 0 {
			typist.sess.WindowChange(50, s.Resize-1)
		}
		time.Sleep(time.Duration(s.Ms) * time.Millisecond)
		select {
		case <-stopped:
			c.Failf("suspend", "step %d: the session's input %q suspends the server process", i, typed)
		default:
		}
	}
	time.Sleep(20 * time.Millisecond)
	check := func(a *admin, who string) {
		if out := a.cmd("playlist"); !strings.Contains(out, "Current Playlist (") {
			c.Failf("other-session", "after a session typed %q, %s is answered %q to playlist", typed, who, out)
		}
	}
	check(other, "the other session")
	check(w.admin(), "a new session")
	meta := w.dial(comm.Channel_META)
	time.Sleep(20 * time.Millisecond)
	if out := other.cmd("volume 0.25"); strings.TrimSpace(out) != "setting volume to 0.250" {
		c.Failf("other-session", "after a session typed %q, volume 0.25 in the other session is answered %q", typed, out)
	}
	time.Sleep(20 * time.Millisecond)
	if v := lastVolume(meta.messages()); v == nil || *v != 0.25 {
		c.Failf("other-session", "after a session typed %q, the volume set by the other session does not reach a client", typed)
	}
	if out := other.take(); strings.TrimSpace(out) != "" {
		c.Failf("other-terminal", "the other session's terminal shows %q", out)
	}
	if strings.ContainsAny(typed, "\t\x12\x13\x14\x1a\x1b") {
		c.NonTrivial()
	}
}

func lastVolume(ms []stamped) *float64 {
	var v *float64
	for _, m := range ms {
		if r, ok := m.Msg.(*comm.SetVolumeRequest); ok {
			x := r.Volume
			v = &x
		}
	}
	return v
}

// --- histories of commands in several sessions ---

type c20Op struct {
	Sess int    `json:"sess"`
	Line string `json:"line"`
	Ms   int    `json:"ms,omitempty"`
}

type c20Case struct {
	Files    []string `json:"files"`
	Sessions int      `json:"sessions"`
	Ops      []c20Op  `json:"ops"`
}

var c20Names = []string{"a.mp3", "b.mp3", "c.mp3", "song 1.mp3", "song 2.mp3", "d/a.mp3", "d/b.mp3", "d/e/x.mp3", "[x].mp3", "日本.mp3", "back\\slash.mp3", "notes.txt", "d/cover.jpg", "A.MP3", "%s%d.mp3", "x.mp3.txt"}

func genArgPos(t *rapid.T) string {
	return rapid.OneOf(
		rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(rapid.IntRange(-1, 6).Draw(t, "pos")) }),
		rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(rapid.IntRange(0, 3).Draw(t, "pos")) }),
		rapid.SampledFrom([]string{"-5", "99", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "+1", "01", "-0", "2147483648", "4294967296"}),
	).Draw(t, "position")
}

var notInts = []string{"1x", "x1", "1-2", "0.5", "1_0", "0x1", "1e0", "--1", "+-1", "-", "+", "9223372036854775808", "99999999999999999999", "١", "one", "1,5", "１", "1.", "*", "a.mp3", "1 "}
var notFloats = []string{"1x", "x", "0,5", "1_0", "--1", "50%", "-", ".", "e5", "1e", "0x", "1e400", "-1e999", "half", "١", "1.2.3", "0.5.", "*"}
var volumes = []string{"0", "1", "0.5", ".5", "5.", "1e-3", "-1", "2", "100", "0.1", "0.3333333333333333", "1e-10", "1E2", "+0.25", "-0", "0x1p-2", "1e308", "5e-324", "0.30000000000000004"}
var c20Pats = []string{"*", "*.mp3", "d/*", "d/*/*", "?.mp3", "[ab].mp3", "[a", "nope.mp3", "*.txt", "notes.txt", "d", "d/", "song\\ *", "**", "*/*", "[^a].mp3", "a.mp", "A.mp3", "%s*"}

func genC20(t *rapid.T) interface{} {
	cs := c20Case{Sessions: rapid.IntRange(1, 3).Draw(t, "sessions")}
	cs.Files = rapid.SliceOfNDistinct(rapid.SampledFrom(c20Names), 1, 8, func(s string) string { return s }).Draw(t, "files")
	n := rapid.IntRange(1, 16).Draw(t, "ops")
	for i := 0; i < n; i++ {
		o := c20Op{Sess: rapid.IntRange(0, cs.Sessions-1).Draw(t, "in")}
		extra := ""
		if rapid.IntRange(0, 9).Draw(t, "extra?") == 0 {
			extra = " " + rapid.SampledFrom([]string{"extra", "1", "0.5", "*"}).Draw(t, "extra")
		}
		switch rapid.IntRange(0, 14).Draw(t, "what") {
		case 0, 1, 2, 3:
			pat := rapid.OneOf(rapid.SampledFrom(cs.Files), rapid.SampledFrom(cs.Files), rapid.SampledFrom(c20Pats), rapid.Custom(func(t *rapid.T) string { return genPattern(t, cs.Files, nil) })).Draw(t, "pattern")
			o.Line = "queue " + refEscape(pat)
			switch rapid.IntRange(0, 4).Draw(t, "where") {
			case 0, 1, 2:
				o.Line += " " + genArgPos(t)
			case 3:
				if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
					o.Line += " " + refEscape(rapid.SampledFrom(notInts).Draw(t, "no position"))
				}
			}
			o.Line += extra
		case 4, 5:
			o.Line = "remove " + genArgPos(t) + extra
		case 6:
			o.Line = "jump " + genArgPos(t) + extra
		case 7:
			o.Line = "volume " + rapid.SampledFrom(volumes).Draw(t, "volume") + extra
		case 8:
			o.Line = rapid.SampledFrom([]string{"pause", "resume", "resume"}).Draw(t, "play") + extra
		case 9:
			o.Line = "playlist" + extra
		case 10:
			o.Line = rapid.SampledFrom([]string{"remove", "jump", "volume", "queue"}).Draw(t, "missing")
		case 11:
			o.Line = rapid.SampledFrom([]string{"remove", "jump"}).Draw(t, "cmd") + " " + refEscape(rapid.SampledFrom(notInts).Draw(t, "arg")) + extra
		case 12:
			o.Line = "volume " + refEscape(rapid.SampledFrom(notFloats).Draw(t, "arg")) + extra
		case 13:
			o.Line = rapid.SampledFrom([]string{"help", "help queue", "help nope", "help volume", "ls", "ls d", "ls d/", "ls nope", "help exit", "clear"}).Draw(t, "info")
		default:
			o.Line = rapid.SampledFrom([]string{"Queue a.mp3", "queu a.mp3", "rm 0", "removee 0", "volumes 1", "PAUSE", "stop", "jump\\ 1", "pl\\aylist", "resume\\ ", "help\\ queue", "que\\ue a.mp3", "%d", "remove0"}).Draw(t, "unknown")
		}
		o.Ms = rapid.SampledFrom([]int{0, 0, 0, 20, 300}).Draw(t, "wait")
		cs.Ops = append(cs.Ops, o)
	}
	return cs
}

// c20Model is what the commands must have done.
type c20Model struct {
	c        *pbt.C
	files    []string
	list     []string
	playing  bool
	volume   float64
	jumped   string // song jumped to by the last command
	commands []string
}

var intRe = regexp.MustCompile(`^[+-]?[0-9]+$`)

// position reads an argument; ok says whether it is a number at all.
func position(s string) (n int, ok bool) {
	if !intRe.MatchString(s) {
		return 0, false
	}
	v, good := new(big.Int).SetString(s, 10)
	if !good || !v.IsInt64() {
		return 0, false
	}
	return int(v.Int64()), true
}

var floatRe = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

func (m *c20Model) insert(songs []string, pos int) {
	if pos < 0 {
		pos = 0
	}
	if pos > len(m.list) {
		pos = len(m.list)
	}
	l := append([]string{}, m.list[:pos]...)
	l = append(l, songs...)
	m.list = append(l, m.list[pos:]...)
}

// do checks the answer and updates the model.
func (m *c20Model) do(line, out string) {
	cmd, args := refParse(line)
	fail := func(sig, format string, a ...interface{}) {
		m.c.Failf(sig, "command %q answers %q: %s (playlist %q)", line, out, fmt.Sprintf(format, a...), m.list)
	}
	usage := func() {
		if !strings.HasPrefix(out, "Usage: "+cmd+" ") {
			fail("usage", "not its usage")
		}
		m.c.Class("usage: " + cmd)
	}
	m.jumped = ""
	switch cmd {
	case "queue":
		if len(args) == 0 {
			usage()
			return
		}
		var want []string
		for _, f := range m.files {
			if strings.HasSuffix(f, ".mp3") && matchPath(args[0], f) {
				want = append(want, f)
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		const sep = " song(s) added to playlist: "
		i := strings.Index(out, sep)
		if !plainPattern(args[0]) {
			// what it matches is not said; what it reports must be true
			want = nil
			if i >= 0 {
				want = m.split(out[i+len(sep):])
			}
		}
		if len(want) == 0 {
			if i >= 0 {
				fail("queue-none", "no song matches")
			}
			m.c.Class("queue: no match")
			return
		}
		if i < 0 || out[:i] != fmt.Sprint(len(want)) {
			fail("queue-report", "should add the %d songs %q", len(want), want)
		}
		got := m.split(out[i+len(sep):])
		s1, s2 := append([]string{}, got...), append([]string{}, want...)
		sort.Strings(s1)
		sort.Strings(s2)
		if !sameWords(s1, s2) {
			fail("queue-report", "should add the songs %q", want)
		}
		pos, at := 0, false
		if len(args) > 1 {
			pos, at = position(args[1])
		}
		if !at {
			pos = len(m.list)
		}
		m.insert(got, pos)
		if at && len(got) > 1 {
			m.c.Class("queue: several songs at a position")
		}
	case "remove":
		if len(args) == 0 {
			usage()
			return
		}
		pos, ok := position(args[0])
		if !ok {
			usage()
			return
		}
		if len(m.list) == 0 {
			if strings.HasPrefix(out, "removed") || strings.HasPrefix(out, "Usage") {
				fail("remove-nothing", "the playlist is empty, nothing was removed")
			}
			m.c.Class("remove: empty playlist")
			return
		}
		pos = clipPos(pos, len(m.list)-1)
		song := m.list[pos]
		if !strings.HasPrefix(out, "removed song "+song+" at position ") {
			fail("remove-report", "should remove %q", song)
		}
		m.list = append(append([]string{}, m.list[:pos]...), m.list[pos+1:]...)
		m.c.Class("remove")
	case "jump":
		if len(args) == 0 {
			usage()
			return
		}
		pos, ok := position(args[0])
		if !ok {
			usage()
			return
		}
		if out != fmt.Sprintf("jumped to %d", pos) {
			fail("jump-report", "should jump to %d", pos)
		}
		if len(m.list) > 0 {
			m.jumped = m.list[mod(pos, len(m.list))]
		}
		m.c.Class("jump")
	case "volume":
		if len(args) == 0 {
			usage()
			return
		}
		v, err := strconv.ParseFloat(args[0], 64)
		if err != nil {
			usage()
			return
		}
		if !floatRe.MatchString(args[0]) && strings.HasPrefix(out, "Usage") {
			return // whether that is a number is not said
		}
		if out != fmt.Sprintf("setting volume to %.3f", v) {
			fail("volume-report", "should set the volume %v", v)
		}
		m.volume = v
		m.c.Class("volume")
	case "pause", "resume":
		m.playing = cmd == "resume"
		if out != "playback "+cmd+"d" {
			fail("play-report", "should %s", cmd)
		}
	case "playlist":
		m.playlist(out, fail)
	case "help":
		if len(args) == 0 {
			for _, n := range []string{"queue", "playlist", "remove", "jump", "volume", "pause", "resume", "help", "ls", "clear", "exit"} {
				if !regexp.MustCompile(`(?m)^` + n + ` +\S`).MatchString(out) {
					fail("help", "the command %s is missing", n)
				}
			}
			return
		}
		switch args[0] {
		case "queue", "volume":
			if !strings.Contains(out, "Usage: "+args[0]+" ") {
				fail("help", "does not say the usage")
			}
		case "nope":
			if !strings.Contains(out, "nope") || strings.Contains(out, "Usage") {
				fail("help", "does not say that it is unknown")
			}
		}
	case "ls":
		sub := ""
		if len(args) > 0 {
			sub = strings.TrimSuffix(args[0], "/")
		}
		var want []string
		for _, f := range mp3s(below(m.files, sub)) {
			want = append(want, f)
		}
		got := strings.Split(out, "\n")
		if out == "" {
			got = nil
		}
		sort.Strings(want)
		sort.Strings(got)
		if !sameWords(got, want) {
			fail("ls", "there are %q", want)
		}
	case "clear":
	default:
		if !strings.HasPrefix(out, "Unknown command '"+cmd+"'") {
			fail("unknown", "does not say that %q is unknown", cmd)
		}
		m.c.Class("unknown command")
	}
}

// split splits a list of songs, whose names have no comma.
func (m *c20Model) split(s string) []string { return strings.Split(s, ", ") }

func (m *c20Model) playlist(out string, fail func(sig, format string, a ...interface{})) {
	state := "Paused"
	if m.playing {
		state = "Playing"
	}
	want := "Current Playlist (" + state + "): "
	if len(m.list) == 0 {
		want += "Empty"
	}
	for i, s := range m.list {
		want += fmt.Sprintf("\n  [%0*d] %s", len(fmt.Sprint(len(m.list)-1)), i, s)
	}
	i := strings.LastIndex(out, "\nCurrent Song: ")
	if i < 0 || out[:i] != want {
		fail("playlist", "should begin %q", want)
	}
	cur := out[i+len("\nCurrent Song: "):]
	known := cur == "None"
	for _, f := range m.files {
		known = known || f == cur
	}
	if !known {
		fail("current", "there is no song %q", cur)
	}
	if m.jumped != "" && cur != m.jumped {
		fail("jump-effect", "some time after the jump the current song is not %q", m.jumped)
	}
}

func runC20(c *pbt.C, raw json.RawMessage) {
	var cs c20Case
	pbt.Decode(raw, &cs)
	w := newWorld(c)
	defer w.Close()
	for i, f := range cs.Files {
		w.writeSong(Song{Name: f, ID: i + 1, N: 4000000})
	}
	w.startServer(ServerFlags{Rate: 44100, ChunkSize: 4410, Nan: 100, StartDelay: 50, Delay: 1000})
	audio, meta := w.dial(comm.Channel_AUDIO), w.dial(comm.Channel_META)
	var sess []*admin
	for i := 0; i < cs.Sessions; i++ {
		sess = append(sess, w.admin())
	}
	watch := w.admin()
	time.Sleep(300 * time.Millisecond)
	m := &c20Model{c: c, files: cs.Files, volume: -12345}
	if v := lastVolume(audio.messages()); v == nil {
		c.Failf("first-volume", "no volume is sent to a new client")
	} else {
		m.volume = *v
	}
	volume := func(rc *rawClient, who, line string) {
		v := lastVolume(rc.messages())
		if v == nil || math.Float64bits(*v) != math.Float64bits(m.volume) {
			got := "none"
			if v != nil {
				got = fmt.Sprint(*v)
			}
			c.Failf("volume", "after %q, %s has the volume %s, should be %v", line, who, got, m.volume)
		}
	}
	changed := 0
	for i, o := range cs.Ops {
		before := len(m.list)
		out := strings.TrimRight(sess[o.Sess].cmd(o.Line), "\n")
		m.do(o.Line, out)
		if len(m.list) != before {
			changed++
		}
		if o.Ms > 0 {
			time.Sleep(time.Duration(o.Ms) * time.Millisecond)
		}
		jumped := m.jumped
		if jumped != "" {
			time.Sleep(2 * time.Second) // the stream gets there
		} else {
			m.jumped = ""
		}
		m.playlist(strings.TrimRight(watch.cmd("playlist"), "\n"), func(sig, format string, a ...interface{}) {
			c.Failf(sig, "after command %d, %q, which answered %q, the playlist is not right: %s", i, o.Line, out, fmt.Sprintf(format, a...))
		})
		volume(audio, "a listener", o.Line)
		volume(meta, "a display", o.Line)
		for j, a := range sess {
			if s := a.take(); j != o.Sess && strings.TrimSpace(s) != "" {
				c.Failf("other-terminal", "%q in session %d shows %q in session %d", o.Line, o.Sess, s, j)
			}
		}
	}
	late := w.dial(comm.Channel_AUDIO)
	time.Sleep(50 * time.Millisecond)
	volume(late, "a late listener", "(all)")
	if changed >= 2 {
		c.NonTrivial()
	}
}

// --- commands at the same time ---

type c20Conc struct {
	Start int        `json:"start"` // songs at the beginning
	Lines [][]string `json:"lines"` // per session
}

func genC20Conc(t *rapid.T) interface{} {
	cs := c20Conc{Start: rapid.IntRange(0, 4).Draw(t, "start")}
	n := rapid.IntRange(2, 3).Draw(t, "sessions")
	for i := 0; i < n; i++ {
		k := rapid.IntRange(1, 3).Draw(t, "commands")
		var l []string
		for j := 0; j < k; j++ {
			switch rapid.IntRange(0, 5).Draw(t, "what") {
			case 0, 1, 2:
				l = append(l, fmt.Sprintf("queue %s/* %d", rapid.SampledFrom([]string{"x", "y", "z"}).Draw(t, "dir"), rapid.IntRange(-1, 12).Draw(t, "pos")))
			case 3:
				l = append(l, "queue "+rapid.SampledFrom([]string{"x/*", "y/*", "z/*", "x/1.mp3"}).Draw(t, "pattern"))
			case 4:
				l = append(l, fmt.Sprintf("remove %d", rapid.IntRange(-1, 12).Draw(t, "pos")))
			default:
				l = append(l, "playlist")
			}
		}
		cs.Lines = append(cs.Lines, l)
	}
	return cs
}

var concOnce sync.Once
var concDir string

func runC20Conc(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c20Conc
	pbt.Decode(raw, &cs)
	registerServerCommands()
	files := []string{}
	for _, d := range []string{"x", "y", "z"} {
		for i := 0; i < 9; i++ {
			files = append(files, fmt.Sprintf("%s/%d.mp3", d, i))
		}
	}
	concOnce.Do(func() {
		concDir, _ = os.MkdirTemp("", "c20")
		for _, f := range files {
			os.MkdirAll(filepath.Join(concDir, filepath.Dir(f)), 0o755)
			os.WriteFile(filepath.Join(concDir, f), nil, 0o644)
		}
	})
	playback.AudioDir = concDir
	exec := func(line string) string {
		cmd, args := refParse(line)
		out, ok := cmdByName(cmd).ExecFunc(args)
		if !ok {
			c.Errorf("usage", "%q prints its usage", line)
		}
		return out
	}
	list := func() []string {
		out := exec("playlist")
		var l []string
		for _, m := range regexp.MustCompile(`(?m)^  \[\d+\] (.*)$`).FindAllStringSubmatch(out, -1) {
			l = append(l, m[1])
		}
		return l
	}
	for len(list()) > 0 {
		exec("remove 0")
	}
	for i := 0; i < cs.Start; i++ {
		exec(fmt.Sprintf("queue z/%d.mp3", i))
	}
	start := list()
	answers := make([][]string, len(cs.Lines))
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for i := range cs.Lines {
		i := i
		answers[i] = make([]string, len(cs.Lines[i]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for j, l := range cs.Lines[i] {
				answers[i][j] = exec(l)
			}
		}()
	}
	close(begin)
	wg.Wait()
	end := list()
	if !explained(files, start, end, cs.Lines, answers) {
		c.Failf("not-atomic", "playlist %q, sessions ran %q, were answered %q, then the playlist is %q: no order of the commands gives that", start, cs.Lines, answers, end)
	}
	q := 0
	for _, l := range cs.Lines {
		for _, x := range l {
			if strings.Contains(x, "*") {
				q++
				break
			}
		}
	}
	if q > 1 {
		c.NonTrivial()
	}
}

// explained says whether running the commands one after another in some order gives the answers and the playlist.
func explained(files, start, end []string, lines, answers [][]string) bool {
	next := make([]int, len(lines))
	var rec func(l []string) bool
	rec = func(l []string) bool {
		done := true
		for i := range lines {
			if next[i] == len(lines[i]) {
				continue
			}
			done = false
			m := &c20Model{files: files, list: append([]string{}, l...)}
			if !m.explains(lines[i][next[i]], answers[i][next[i]]) {
				continue
			}
			next[i]++
			ok := rec(m.list)
			next[i]--
			if ok {
				return true
			}
		}
		return done && sameWords(l, end)
	}
	return rec(start)
}

func (m *c20Model) explains(line, out string) bool {
	cmd, args := refParse(line)
	switch cmd {
	case "queue":
		const sep = " song(s) added to playlist: "
		i := strings.Index(out, sep)
		if i < 0 {
			return false
		}
		pos := len(m.list)
		if len(args) > 1 {
			pos, _ = strconv.Atoi(args[1])
		}
		m.insert(m.split(out[i+len(sep):]), pos)
	case "remove":
		pos, _ := strconv.Atoi(args[0])
		if len(m.list) == 0 {
			return !strings.HasPrefix(out, "removed song x") && !strings.HasPrefix(out, "removed song y") && !strings.HasPrefix(out, "removed song z")
		}
		pos = clipPos(pos, len(m.list)-1)
		if !strings.HasPrefix(out, "removed song "+m.list[pos]+" at position ") {
			return false
		}
		m.list = append(append([]string{}, m.list[:pos]...), m.list[pos+1:]...)
	case "playlist":
		want := "Empty\n"
		if len(m.list) > 0 {
			want = ""
		}
		for i, s := range m.list {
			want += fmt.Sprintf("\n  [%0*d] %s", len(fmt.Sprint(len(m.list)-1)), i, s)
		}
		i, j := strings.Index(out, "): "), strings.LastIndex(out, "\nCurrent Song: ")
		return i >= 0 && j > i && strings.TrimSpace(out[i+3:j]) == strings.TrimSpace(want)
	}
	return true
}

func init() {
	pbt.Register(pbt.Property{ID: "C20", Targets: []pbt.Target{
		{Name: "keys", Mode: pbt.Fake, Gen: genC20Keys, Run: runC20Keys, Quick: 4000, Thorough: 300000,
			Rule: "terminals of any width and their resizing, keys of all kinds (editing, completion, history search, escape sequences, wide and invalid characters) in one session of the real server; it must neither end nor stop the server, and another, a new session and the clients go on; non-trivial: completion, search, transposition, suspend or escape keys among them"},
		{Name: "commands", Mode: pbt.Fake, Gen: genC20, Run: runC20, Quick: 4000, Thorough: 300000,
			Rule: "histories of commands with missing, malformed, boundary and surplus arguments typed into one to three sessions of the real server, against a model of the playlist, playing state and volume: the answer, then the playlist shown in another session, the volume of listening clients and of a late one; non-trivial: at least two commands changed the playlist"},
		{Name: "at-once", Mode: pbt.Pure, Gen: genC20Conc, Run: runC20Conc, Quick: 20000, Thorough: 1000000,
			Rule: "two or three sessions run queue (nine songs at a position or the end), remove and playlist at the same time in real threads; some order of whole commands must explain all answers and the final playlist; non-trivial: two sessions queue several songs"},
	}})
}
