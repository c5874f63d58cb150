package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/ssh/parser"
	"pgregory.net/rapid"
	"verif/pbt"
)

// refParse is the documented meaning of a command line.
func refParse(line string) (cmd string, params []string) {
	var words []string
	var w []rune
	rs := []rune(line)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == ' ' || rs[i+1] == '\\'):
			w = append(w, rs[i+1])
			i++
		case rs[i] == ' ':
			words = append(words, string(w))
			w = nil
		default:
			w = append(w, rs[i])
		}
	}
	words = append(words, string(w))
	params = []string{}
	for _, p := range words[1:] {
		if p != "" {
			params = append(params, p)
		}
	}
	return words[0], params
}

// refWrite writes a word so that it parses back.
func refEscape(w string) string {
	return strings.ReplaceAll(strings.ReplaceAll(w, `\`, `\\`), " ", `\ `)
}

func sameWords(a, b []string) bool { return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b)) }

var lineRunes = []rune("  \\\\  ab\"'x\u00e9\u65e5\U0001F600\t\n\r\u00a0\u2028|;$*?[]#{}.-/\x00\x7f\u0301\u0130")

func genLine(t *rapid.T, label string, max int) string {
	r := rapid.OneOf(rapid.SampledFrom(lineRunes), rapid.SampledFrom([]rune(` \ \ab`)), rapid.Rune())
	return string(rapid.SliceOfN(r, 0, max).Draw(t, label))
}

type c17Case struct {
	Line  string     `json:"line"`
	Bytes []byte     `json:"bytes,omitempty"`
	Words []string   `json:"words,omitempty"`
	Conc  [][]string `json:"conc,omitempty"`
	Rep   int        `json:"rep,omitempty"`
}

func genC17(t *rapid.T) interface{} {
	cs := c17Case{Line: genLine(t, "line", 30)}
	if rapid.IntRange(0, 9).Draw(t, "raw") == 0 {
		cs.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
	}
	if rapid.IntRange(0, 99).Draw(t, "long") == 0 {
		cs.Rep = rapid.IntRange(2, 60).Draw(t, "rep")
	}
	n := rapid.IntRange(1, 5).Draw(t, "words")
	for i := 0; i < n; i++ {
		w := genLine(t, "word", 8)
		if i > 0 && w == "" {
			w = "x"
		}
		cs.Words = append(cs.Words, w)
	}
	return cs
}

func checkParse(c *pbt.C, line string) {
	cmd, params := refParse(line)
	got := parser.ParseCommand(line)
	if got.Command != cmd || !sameWords(got.Parameters, params) {
		c.Failf("parse", "%q is parsed as command %q, parameters %q; should be command %q, parameters %q", line, got.Command, got.Parameters, cmd, params)
	}
}

func runC17(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c17Case
	pbt.Decode(raw, &cs)
	line := cs.Line
	if cs.Rep > 0 {
		line = strings.Repeat(line, cs.Rep)
	}
	checkParse(c, line)
	if cs.Bytes != nil {
		parser.ParseCommand(string(cs.Bytes)) // must end, and not crash
	}
	p := parser.ParsedCommand{Command: cs.Words[0], Parameters: append([]string{}, cs.Words[1:]...)}
	out := p.Unparse()
	if !reflect.DeepEqual(cs.Words[1:], p.Parameters) && len(p.Parameters) > 0 {
		c.Failf("unparse-changes", "writing out %q changed the parameters to %q", cs.Words, p.Parameters)
	}
	got := parser.ParseCommand(out)
	if got.Command != cs.Words[0] || !sameWords(got.Parameters, cs.Words[1:]) {
		c.Failf("round-trip", "command %q with parameters %q is written as %q, which is parsed as %q, %q", cs.Words[0], cs.Words[1:], out, got.Command, got.Parameters)
	}
	rc, rp := refParse(out)
	if rc != cs.Words[0] || !sameWords(rp, cs.Words[1:]) {
		c.Failf("unparse", "command %q with parameters %q is written as %q, which means %q, %q", cs.Words[0], cs.Words[1:], out, rc, rp)
	}
	if strings.ContainsAny(line, " ") && strings.Contains(line, `\`) {
		c.NonTrivial()
	}
}

// ---- concurrent sessions

func genC17Conc(t *rapid.T) interface{} {
	cs := c17Case{}
	n := rapid.IntRange(2, 8).Draw(t, "sessions")
	for i := 0; i < n; i++ {
		var l []string
		k := rapid.IntRange(1, 12).Draw(t, "lines")
		for j := 0; j < k; j++ {
			l = append(l, genLine(t, "line", 24))
		}
		cs.Conc = append(cs.Conc, l)
	}
	return cs
}

func runC17Conc(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c17Case
	pbt.Decode(raw, &cs)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, l := range cs.Conc {
		wg.Add(1)
		go func(l []string) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					c.Errorf("panic", "parsing in several sessions at once panics: %v", r)
				}
			}()
			<-start
			for rep := 0; rep < 3; rep++ {
				for _, x := range l {
					cmd, params := refParse(x)
					got := parser.ParseCommand(x)
					if got.Command != cmd || !sameWords(got.Parameters, params) {
						c.Errorf("concurrent", "while other sessions parse, %q is parsed as %q, %q; should be %q, %q", x, got.Command, got.Parameters, cmd, params)
						return
					}
					if u := (parser.ParsedCommand{Command: cmd, Parameters: params}).Unparse(); rep == 0 {
						if rc, rp := refParse(u); rc != cmd || !sameWords(rp, params) {
							c.Errorf("concurrent-unparse", "while other sessions parse, %q, %q is written as %q", cmd, params, u)
							return
						}
					}
				}
			}
		}(l)
	}
	close(start)
	wg.Wait()
	c.NonTrivial()
	c.Class(fmt.Sprintf("sessions %d", len(cs.Conc)))
}

func init() {
	pbt.Register(pbt.Property{ID: "C17", Targets: []pbt.Target{
		{Name: "parse", Mode: pbt.Pure, Gen: genC17, Run: runC17, Quick: 40000, Thorough: 5000000,
			Rule: "lines of up to 30 characters (1%: up to 1800) of spaces, backslashes, quotes, control characters and all of Unicode, against an independent parser; random bytes; 1-5 random words written out and parsed back; non-trivial: the line has a space and a backslash"},
		{Name: "parse-concurrent", Mode: pbt.Fresh, Gen: genC17Conc, Run: runC17Conc, Quick: 1200, Thorough: 60000, Timeout: 30 * time.Second,
			Rule: "2-8 sessions parse and write lines at the same time in a fresh process (so that shared parser tables are cold); non-trivial: all"},
	}})
}
