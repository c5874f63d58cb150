package props

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

type dropSender struct{}

func (dropSender) SendMessage(proto.Message) error { return nil }

var serverOnce sync.Once

// registerServerCommands makes the server's commands known, without a network.
func registerServerCommands() {
	serverOnce.Do(func() {
		schedule.StreamStartDelay = time.Hour
		schedule.Server(dropSender{})
	})
}

func cmdByName(n string) *ssh.Command {
	for _, k := range ssh.VerifCommands() {
		if k.Name == n {
			return &k
		}
	}
	return nil
}

type c18Case struct {
	Tree c21Case  `json:"tree"`
	Line string   `json:"line"`
	Pos  int      `json:"pos"`
	Tab  []string `json:"tab,omitempty"`
}

var c18Cmds = []string{"queue", "ls", "help", "que", "l", "h", "", "volume", "clear", "exit", "playlist", "remove", "re", "qu\\eue", "nope", "QUEUE", "p"}

// genTyped draws the text before the cursor.
func genTyped(t *rapid.T, tree c21Case) string {
	line := rapid.SampledFrom(c18Cmds[:3]).Draw(t, "cmd")
	if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
		line = rapid.SampledFrom(c18Cmds).Draw(t, "cmd2")
	}
	line = rapid.SampledFrom([]string{"", "", "", "", "", " ", "  "}).Draw(t, "lead") + line
	if rapid.IntRange(0, 5).Draw(t, "args") > 0 {
		line += " "
		var names []string
		names = append(append(names, tree.Files...), tree.Dirs...)
		names = append(names, "help", "queue", "x", "clear", "exit", "volume")
		n := rapid.SampledFrom([]int{1, 1, 1, 1, 0, 2}).Draw(t, "n")
		for i := 0; i < n; i++ {
			w := refEscape(rapid.SampledFrom(names).Draw(t, "name"))
			if rapid.IntRange(0, 3).Draw(t, "unescaped") == 0 {
				w = rapid.SampledFrom(names).Draw(t, "raw")
			}
			if i == n-1 {
				r := []rune(w)
				w = string(r[:rapid.IntRange(0, len(r)).Draw(t, "cut")])
				switch rapid.IntRange(0, 15).Draw(t, "case") {
				case 0:
					w = strings.ToUpper(w)
				case 1:
					w = strings.ToLower(w)
				}
			}
			line += w
			if i < n-1 {
				line += rapid.SampledFrom([]string{" ", "  "}).Draw(t, "sep")
			}
		}
	}
	if rapid.IntRange(0, 14).Draw(t, "wild") == 0 {
		line += genLine(t, "junk", 6)
	}
	return line
}

func genC18(t *rapid.T) interface{} {
	cs := c18Case{Tree: genC21(t).(c21Case)}
	cs.Tree.Pats, cs.Tree.Subs = nil, nil
	cs.Line = genTyped(t, cs.Tree)
	cs.Pos = len([]rune(cs.Line))
	if rapid.IntRange(0, 2).Draw(t, "rest") == 0 {
		cs.Line += genLine(t, "after", 6)
	}
	if rapid.IntRange(0, 9).Draw(t, "any pos") == 0 {
		cs.Pos = rapid.IntRange(0, len([]rune(cs.Line))).Draw(t, "pos")
	}
	return cs
}

// typedWords splits the text before the cursor into the finished words (empty
// parameters do not count) and the word being typed.
func typedWords(typed string) (before []string, word string) {
	rs := []rune(typed)
	var words []string
	var w []rune
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == ' ' || rs[i+1] == '\\'):
			w = append(w, rs[i+1])
			i++
		case rs[i] == ' ':
			if len(words) == 0 || len(w) > 0 {
				words = append(words, string(w))
			}
			w = nil
		default:
			w = append(w, rs[i])
		}
	}
	return words, string(w)
}

func runC18(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c18Case
	pbt.Decode(raw, &cs)
	registerServerCommands()
	scratch, dir := cs.Tree.build(c)
	defer os.RemoveAll(scratch)
	defer os.Chdir("/")
	playback.AudioDir = dir
	checkCompletions(c, cs.Tree, cs.Line, cs.Pos)
}

func checkCompletions(c *pbt.C, tree c21Case, line string, pos int) {
	rs := []rune(line)
	typed := string(rs[:pos])
	cands, length := ssh.VerifComplete(append([]rune{}, rs...), pos)
	if length < 0 || length > pos {
		c.Failf("length", "completing %q at %d: the replaced length is %d", line, pos, length)
	}
	before, word := typedWords(typed)
	got := []string{} // completed words
	for _, k := range cands {
		full := typed + string(k)
		b2, rest := typedWords(full)
		if rest != "" || !strings.HasSuffix(full, " ") || len(b2) != len(before)+1 || !sameWords(b2[:len(before)], before) {
			c.Failf("not-a-word", "completing %q offers %q, which gives %q: not the words %q and one more, and a space", typed, string(k), full, before)
		}
		w := b2[len(before)]
		if !strings.HasPrefix(w, word) {
			c.Failf("prefix", "completing %q offers %q, which makes the word %q of %q", typed, string(k), w, word)
		}
		got = append(got, w)
	}
	sort.Strings(got)
	for i := 1; i < len(got); i++ {
		if got[i] == got[i-1] {
			c.Failf("twice", "completing %q offers %q twice", typed, got[i])
		}
	}
	var names []string
	for _, k := range ssh.VerifCommands() {
		names = append(names, k.Name)
	}
	names = append(names, "clear", "exit")
	withPrefix := func(l []string) []string {
		r := []string{}
		for _, x := range l {
			if strings.HasPrefix(x, word) {
				r = append(r, x)
			}
		}
		sort.Strings(r)
		return r
	}
	want := []string{}
	switch {
	case len(before) == 0:
		want = withPrefix(names)
	case before[0] == "help" && len(before) == 1:
		want = withPrefix(names)
	case before[0] == "ls" && len(before) == 1:
		for _, d := range tree.Dirs {
			if strings.HasPrefix(d, word) && !strings.Contains(d[len(word):], "/") {
				want = append(want, d+"/")
			}
		}
		sort.Strings(want)
		for _, w := range got {
			params := []string{w}
			out, ok := cmdByName("ls").ExecFunc(params)
			if exp := strings.Join(mp3s(below(tree.Files, strings.TrimSuffix(w, "/"))), "\n"); !ok || out != exp {
				c.Failf("ls", "completion %q of ls lists %q, there are %q", w, out, exp)
			}
			c.Class("ls completion run")
		}
	case before[0] == "queue" && len(before) == 1:
		checkSongCompletions(c, tree, typed, word, got)
		return
	}
	if !sameWords(got, want) {
		c.Failf("options", "completing %q offers %q, should be %q", typed, got, want)
	}
	if len(got) > 0 && len(before) > 0 {
		c.NonTrivial()
	}
}

const globMeta = "*?[\\"

func checkSongCompletions(c *pbt.C, tree c21Case, typed, word string, got []string) {
	songs := mp3s(below(tree.Files, ""))
	seen := map[string]bool{}
	q, rem := cmdByName("queue"), cmdByName("remove")
	for _, w := range got {
		out, ok := q.ExecFunc([]string{w})
		if !ok || !strings.HasPrefix(out, "1 song(s) added to playlist: ") {
			c.Failf("not-one-song", "queue %q (completed from %q) answers %q; songs %q", w, typed, out, songs)
		}
		rem.ExecFunc([]string{"0"})
		s := strings.TrimPrefix(out, "1 song(s) added to playlist: ")
		if !strings.HasPrefix(s, word) && !strings.HasPrefix(strings.NewReplacer(`\`, `\\`, "*", `\*`, "?", `\?`, "[", `\[`).Replace(s), word) {
			c.Failf("other-song", "typed %q, completed to %q, which adds the song %q", typed, w, s)
		}
		if seen[s] {
			c.Failf("song-twice", "typed %q, two completions add the song %q: %q", typed, s, got)
		}
		seen[s] = true
		if strings.ContainsAny(s, globMeta) {
			c.Class("song with glob characters run")
		} else {
			c.Class("song run")
		}
	}
	for _, s := range songs {
		if strings.HasPrefix(s, word) && !strings.ContainsAny(word, globMeta) && !seen[s] {
			c.Failf("song-missing", "typed %q, the song %q is not offered, but %q", typed, s, got)
		}
	}
	if len(got) > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C18", Targets: []pbt.Target{
		{Name: "completion", Mode: pbt.Pure, Gen: genC18, Run: runC18, Quick: 40000, Thorough: 1500000,
			Rule: "trees of songs on disk with spaces, backslashes, glob and non-ASCII characters; commands and arguments typed partly, escaped or not, with text after the cursor; each completion is applied, parsed and run, and the set compared with what must be offered; non-trivial: an argument was completed"},
	}})
}
