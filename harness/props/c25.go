package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/cmd"
	log "github.com/LogicalOverflow/music-sync/logging"
	"github.com/urfave/cli"
	"pgregory.net/rapid"
	"verif/pbt"
)

// yieldWriter collects output and lets others run in between.
type yieldWriter struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (y *yieldWriter) Write(p []byte) (int, error) {
	y.mu.Lock()
	y.b.Write(p)
	y.mu.Unlock()
	runtime.Gosched()
	return len(p), nil
}

func (y *yieldWriter) take() string {
	y.mu.Lock()
	defer y.mu.Unlock()
	s := y.b.String()
	y.b.Reset()
	return s
}

var logNames = []string{"comm", "play", "shed", "ssh", "time", "x"}

type c25Op struct {
	Kind  string `json:"kind"` // default, set, unset, log
	Name  string `json:"name"`
	Level int    `json:"level"`
	Msg   string `json:"msg"`
	Form  bool   `json:"form"` // log through the f function
}

type c25Case struct {
	Ops  []c25Op `json:"ops"`
	Par  []c25Op `json:"par"` // logged at the same time at the end
	Date string  `json:"date"`
}

func genLogMsg(t *rapid.T) string {
	s := genText(t, "msg", 12)
	if rapid.IntRange(0, 3).Draw(t, "special") == 0 {
		s += rapid.SampledFrom([]string{"{name}", "{message}", "{lvl}", "{date}", "{msg}{level}", "%s", "%d%%", "%!", "INF", "[ERR]", "\\n", "\r"}).Draw(t, "what")
	}
	return strings.ReplaceAll(s, "\n", " ")
}

// genLogText may contain line breaks.
func genLogText(t *rapid.T) string {
	s := genLogMsg(t)
	switch rapid.IntRange(0, 7).Draw(t, "breaks") {
	case 0:
		s += rapid.SampledFrom([]string{"\n", "\n\n", " \n", "\r\n", "\nmore", " ", "\t", "  "}).Draw(t, "end")
	case 1:
		s = rapid.SampledFrom([]string{"\n", " ", "\t", "more\n"}).Draw(t, "begin") + s
	}
	return s
}

func genC25(t *rapid.T) interface{} {
	cs := c25Case{Date: rapid.SampledFrom([]string{"fake-date", "2020-01-02 03:04:05.678", "{message}"}).Draw(t, "date")}
	op := func(kinds []string) c25Op {
		return c25Op{rapid.SampledFrom(kinds).Draw(t, "kind"), rapid.SampledFrom(logNames).Draw(t, "name"), rapid.IntRange(0, 6).Draw(t, "level"), genLogMsg(t), rapid.Bool().Draw(t, "form")}
	}
	n := rapid.IntRange(1, 25).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := op([]string{"default", "set", "unset", "log", "log", "log"})
		o.Msg = genLogText(t)
		cs.Ops = append(cs.Ops, o)
	}
	n = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 12)).Draw(t, "par")
	for i := 0; i < n; i++ {
		cs.Par = append(cs.Par, op([]string{"log"}))
	}
	return cs
}

// write logs one message at a level (0 trace ... 5 fatal).
func (o c25Op) write(l log.Logger) {
	plain := []func(string){l.Trace, l.Debug, l.Info, l.Warn, l.Error, l.Fatal}
	form := []func(string, ...interface{}){l.Tracef, l.Debugf, l.Infof, l.Warnf, l.Errorf, l.Fatalf}
	if o.Form {
		form[o.Level]("%s-%d", o.Msg, 17)
	} else {
		plain[o.Level](o.Msg)
	}
}

func (o c25Op) text() string {
	if o.Form {
		return o.Msg + "-17"
	}
	return o.Msg
}

var levelWords = [][]string{{"TRACE", "TRC"}, {"DEBUG", "DBG"}, {"INFO", "INF"}, {"WARN", "WRN"}, {"ERROR", "ERR"}, {"FATAL", "FTL"}}

// lineOf says whether line reports the operation.
func (o c25Op) lineOf(line, date string) bool {
	i := strings.Index(line, o.text())
	if i < 0 || !strings.HasSuffix(line, o.text()) {
		return false
	}
	head := strings.TrimSuffix(line, o.text())
	return (strings.Contains(head, levelWords[o.Level][0]) || strings.Contains(head, levelWords[o.Level][1])) && strings.Contains(head, o.Name) && strings.Contains(head, date)
}

func runC25(c *pbt.C, raw json.RawMessage) {
	var cs c25Case
	pbt.Decode(raw, &cs)
	var out, errw yieldWriter
	saved := log.DateProvider
	savedOut, savedErr := log.OutputWriter, log.ErrorWriter
	defer func() {
		log.DateProvider, log.OutputWriter, log.ErrorWriter = saved, savedOut, savedErr
		for _, n := range logNames {
			delete(log.CutoffLevels, n)
		}
		log.DefaultCutoffLevel = log.LevelInfo
	}()
	log.OutputWriter, log.ErrorWriter = &out, &errw
	log.DateProvider = func() string { return cs.Date }
	loggers := map[string]log.Logger{}
	for _, n := range logNames {
		delete(log.CutoffLevels, n)
		loggers[n] = log.GetLogger(n)
	}
	log.DefaultCutoffLevel = log.LevelInfo
	def, own := 2, map[string]int{}
	enabled := func(o c25Op) bool {
		if l, ok := own[o.Name]; ok {
			return o.Level >= l
		}
		return o.Level >= def
	}
	written, held := 0, 0
	for i, o := range cs.Ops {
		switch o.Kind {
		case "default":
			def = o.Level
			log.DefaultCutoffLevel = log.Level(o.Level)
		case "set":
			own[o.Name] = o.Level
			log.CutoffLevels[o.Name] = log.Level(o.Level)
		case "unset":
			delete(own, o.Name)
			delete(log.CutoffLevels, o.Name)
		case "log":
			if o.Level > 5 {
				continue
			}
			o.write(loggers[o.Name])
			so, se := out.take(), errw.take()
			want, other := so, se
			if o.Level >= 3 {
				want, other = se, so
			}
			if !enabled(o) {
				held++
				if so != "" || se != "" {
					c.Failf("not-held-back", "operation %d: %+v is below the cutoff (default %d, own %v) and writes %q, %q", i, o, def, own, so, se)
				}
				continue
			}
			written++
			if other != "" || !strings.HasSuffix(want, "\n") || !o.lineOf(strings.TrimSuffix(want, "\n"), cs.Date) {
				c.Failf("line", "operation %d: %+v (default %d, own %v) writes %q to the output and %q to the error stream", i, o, def, own, so, se)
			}
		}
		if c.Failed() {
			return
		}
	}
	// at the same time
	var wg sync.WaitGroup
	start := make(chan bool)
	type exp struct {
		o    c25Op
		errs bool
	}
	var want []exp
	for _, o := range cs.Par {
		if o.Level > 5 {
			continue
		}
		o := o
		if enabled(o) {
			want = append(want, exp{o, o.Level >= 3})
		}
		wg.Add(1)
		go func() { defer wg.Done(); <-start; o.write(loggers[o.Name]) }()
	}
	close(start)
	wg.Wait()
	for k, s := range []string{out.take(), errw.take()} {
		var lines []string
		if s != "" {
			lines = strings.Split(strings.TrimSuffix(s, "\n"), "\n")
		}
		var exps []c25Op
		for _, w := range want {
			if w.errs == (k == 1) {
				exps = append(exps, w.o)
			}
		}
		// longest texts first: another's text may end with a short one
		sort.SliceStable(exps, func(a, b int) bool { return len(exps[a].text()) > len(exps[b].text()) })
		used := make([]bool, len(lines))
		for _, o := range exps {
			found := false
			for i, l := range lines {
				if !used[i] && o.lineOf(l, cs.Date) {
					used[i], found = true, true
					break
				}
			}
			if !found {
				c.Failf("concurrent", "logging %d messages at the same time: no own line for %+v in %q", len(exps), o, s)
				return
			}
		}
		if len(lines) != len(exps) {
			c.Failf("concurrent", "logging %d messages at the same time writes %q", len(exps), s)
			return
		}
	}
	if written > 0 && held > 0 {
		c.NonTrivial()
	}
}

// ---- the command line options

type c25Flags struct {
	Default string      `json:"default"` // level name, "-": option not given
	Own     [][2]string `json:"own"`     // logger, level name
	Eq      bool        `json:"eq"`
	Single  bool        `json:"single"`
	First   bool        `json:"first"`
}

func genLevelName(t *rapid.T) string {
	s := rapid.SampledFrom([]string{"trace", "debug", "info", "warn", "error", "fatal", "trc", "dbg", "inf", "wrn", "err", "ftl", "off", "none", "xyz", "infos", "in", "0", " info", "error ", "trace\t", "warning", "inf-", "debug,info", "level-info", "2", "fatal\n"}).Draw(t, "lvl")
	b := []byte(s)
	for i := range b {
		if rapid.Bool().Draw(t, "up") {
			b[i] = strings.ToUpper(s)[i]
		}
	}
	return string(b)
}

// levelNo is the level that a name means; 6 is off.
func levelNo(s string) int {
	for i, w := range levelWords {
		if strings.EqualFold(s, w[0]) || strings.EqualFold(s, w[1]) {
			return i
		}
	}
	return 6
}

func genC25Flags(t *rapid.T) interface{} {
	cs := c25Flags{Default: "-", Eq: rapid.Bool().Draw(t, "eq"), Single: rapid.Bool().Draw(t, "single"), First: rapid.Bool().Draw(t, "first")}
	if rapid.Bool().Draw(t, "hasdef") {
		cs.Default = genLevelName(t)
	}
	for _, n := range logNames[:5] {
		if rapid.IntRange(0, 2).Draw(t, "has "+n) == 0 {
			cs.Own = append(cs.Own, [2]string{n, genLevelName(t)})
		}
	}
	return cs
}

func runC25Flags(c *pbt.C, raw json.RawMessage) {
	var cs c25Flags
	pbt.Decode(raw, &cs)
	savedOut, savedErr := log.OutputWriter, log.ErrorWriter
	clean := func() {
		log.OutputWriter, log.ErrorWriter = savedOut, savedErr
		for k := range log.CutoffLevels {
			delete(log.CutoffLevels, k)
		}
		log.DefaultCutoffLevel = log.LevelInfo
	}
	clean()
	defer clean()
	os.Args = []string{"music-sync"}
	args := []string{"music-sync"}
	opt := func(name, level string) {
		d := "--"
		if cs.Single {
			d = "-"
		}
		if cs.Eq {
			args = append(args, d+name+"="+level)
		} else {
			args = append(args, d+name, level)
		}
	}
	if cs.Default != "-" && cs.First {
		opt("logging", cs.Default)
	}
	for _, o := range cs.Own {
		opt(o[0]+"-logging", o[1])
	}
	if cs.Default != "-" && !cs.First {
		opt("logging", cs.Default)
	}
	app := cmd.NewApp("test")
	app.Flags = cmd.AddLoggingFlags([]cli.Flag{})
	ran := false
	app.Action = func(ctx *cli.Context) error { ran = true; cmd.HandleLoggingFlags(ctx); return nil }
	if err := app.Run(args); err != nil || !ran {
		c.Failf("options", "%q is refused: %v", args, err)
		return
	}
	def := 2
	if cs.Default != "-" {
		def = levelNo(cs.Default)
	}
	var out, errw yieldWriter
	log.OutputWriter, log.ErrorWriter = &out, &errw
	for _, n := range logNames {
		cut := def
		for _, o := range cs.Own {
			if o[0] == n {
				cut = levelNo(o[1])
			}
		}
		l := log.GetLogger(n)
		for lv := 0; lv < 6; lv++ {
			o := c25Op{Name: n, Level: lv, Msg: "m"}
			o.write(l)
			if got := out.take() + errw.take(); (got != "") != (lv >= cut) {
				c.Failf("cutoff", "with %q, logger %s writes %q for a message of level %s, its cutoff is %d", args[1:], n, got, levelWords[lv][0], cut)
				return
			}
		}
	}
	if len(cs.Own) > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C25", Targets: []pbt.Target{
		{Name: "log", Mode: pbt.Pure, Gen: genC25, Run: runC25, Quick: 40000, Thorough: 4000000, Timeout: 30 * time.Second,
			Rule: "1-25 changes of the default and of single cutoffs and messages of 6 loggers at all levels (any text, placeholders, format verbs), then up to 12 messages at the same time, against a model of the cutoffs and streams; non-trivial: something was written and something held back"},
		{Name: "options", Mode: pbt.Pure, Gen: genC25Flags, Run: runC25Flags, Quick: 10000, Thorough: 500000, Timeout: 30 * time.Second,
			Rule: "command lines with the default level and any of the 5 single loggers' levels, full and short names in any case, unknown names, four forms of options; every logger is tried at every level; non-trivial: a single logger's option is given"},
	}})
}

var _ = fmt.Sprint
