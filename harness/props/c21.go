package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/util"
	"pgregory.net/rapid"
	"verif/pbt"
)

type c21Case struct {
	Files []string `json:"files"` // regular files, relative to the music directory
	Dirs  []string `json:"dirs"`  // (empty) directories
	Base  string   `json:"base"`  // name of the music directory
	Form  int      `json:"form"`
	Subs  []string `json:"subs"`
	Pats  []string `json:"pats"`
	Lock  []string `json:"lock,omitempty"` // unreadable directories
	Link  []string `json:"link,omitempty"` // files which are symbolic links to files kept elsewhere
}

var nameParts = []string{"a", "b", "A", "song", " ", "-", ".", "\u00e9", "\u65e5", "\\", "[", "]", "*", "?", "a1", "a b", "{x}", "^", "\U0001F600", "'", "\"", "#", "~", "\u0301e"}

func genName(t *rapid.T) string {
	n := strings.Join(rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(nameParts[:6]), rapid.SampledFrom(nameParts)), 1, 4).Draw(t, "name"), "")
	if n == "." || n == ".." {
		n += "x"
	}
	return n
}

// genTree draws a tree of files and directories.
func genTree(t *rapid.T) (files, dirs []string) {
	n := rapid.IntRange(0, 4).Draw(t, "dirs")
	kind := map[string]byte{}
	all := []string{""}
	for i := 0; i < n; i++ {
		d := path.Join(rapid.SampledFrom(all).Draw(t, "parent"), genName(t))
		if rapid.IntRange(0, 9).Draw(t, "mp3dir") == 0 {
			d += ".mp3"
		}
		if kind[d] == 0 {
			kind[d] = 'd'
			all = append(all, d)
			dirs = append(dirs, d)
		}
	}
	m := rapid.IntRange(0, 9).Draw(t, "files")
	for i := 0; i < m; i++ {
		f := path.Join(rapid.SampledFrom(all).Draw(t, "in"), genName(t)+rapid.SampledFrom([]string{".mp3", ".mp3", ".mp3", ".mp3", "", ".MP3", ".mp3.json", ".wav", ".mp", "mp3", ".mp3x", ".Mp3"}).Draw(t, "ext"))
		if kind[f] == 0 {
			kind[f] = 'f'
			files = append(files, f)
		}
	}
	return
}

func genPattern(t *rapid.T, files, dirs []string) string {
	var p string
	if len(files) > 0 && rapid.IntRange(0, 9).Draw(t, "from file") > 0 {
		p = rapid.SampledFrom(files).Draw(t, "of")
	} else {
		p = rapid.SampledFrom([]string{"*", "*/*", "*.mp3", "*/*.mp3", "", "?.mp3", "a*", "[a-z]*", "[^a]*", "\\*", "[", "[a", "a\\", "[]a]*", "[-a]*", "*/", "**", "x", "*/*/*.mp3"}).Draw(t, "pat")
	}
	k := rapid.IntRange(0, 3).Draw(t, "edits")
	for i := 0; i < k; i++ {
		r := []rune(p)
		if len(r) == 0 {
			break
		}
		j := rapid.IntRange(0, len(r)-1).Draw(t, "at")
		end := j + 1
		if rapid.Bool().Draw(t, "more") {
			end = rapid.IntRange(j+1, len(r)).Draw(t, "end")
		}
		with := rapid.SampledFrom([]string{"*", "?", "[" + string(r[j]) + "]", "[^" + string(r[j]) + "]", "[!-~]", "\\" + string(r[j:end]), "*?", "", "[a-c]", "[", "\\"}).Draw(t, "with")
		p = string(r[:j]) + with + string(r[end:])
	}
	return p
}

// plainPattern says whether joining it to a directory keeps it as it is.
func plainPattern(p string) bool {
	if p == "" || p[0] == '/' || path.Clean(p) != p {
		return false
	}
	for _, e := range strings.Split(p, "/") {
		if e == ".." || e == "." {
			return false
		}
		// a separator inside brackets or escaped
		if _, err := path.Match(e, ""); err != nil && strings.Contains(p, "/") {
			return false
		}
	}
	return true
}

func genC21(t *rapid.T) interface{} {
	cs := c21Case{}
	cs.Files, cs.Dirs = genTree(t)
	cs.Base = rapid.OneOf(rapid.Just("music"), rapid.SampledFrom([]string{"audio", "m[u]sic", "m*c", "m?sic", "mu\\sic", "mu sic", "[", ".music", "m[^u]", "\u00e9"}), rapid.Custom(genName)).Draw(t, "base")
	cs.Form = rapid.IntRange(0, 10).Draw(t, "form")
	subs := append([]string{"", "missing"}, cs.Dirs...)
	cs.Subs = []string{rapid.SampledFrom(subs).Draw(t, "sub"), rapid.SampledFrom(subs).Draw(t, "sub2")}
	for i := 0; i < 4; i++ {
		if p := genPattern(t, cs.Files, cs.Dirs); plainPattern(p) {
			cs.Pats = append(cs.Pats, p)
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "links") == 0 {
		for _, f := range cs.Files {
			if rapid.IntRange(0, 2).Draw(t, "link") == 0 {
				cs.Link = append(cs.Link, f)
			}
		}
	}
	return cs
}

// matchPath matches element by element.
func matchPath(p, f string) bool {
	x, y := strings.Split(p, "/"), strings.Split(f, "/")
	for i := range x {
		if len(x) != len(y) {
			return false
		}
		if ok, err := path.Match(x[i], y[i]); err != nil || !ok {
			return false
		}
	}
	return true
}

// lessPath orders like a directory walk.
func lessPath(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

func below(l []string, sub string) []string {
	r := []string{}
	for _, p := range l {
		if sub == "" || strings.HasPrefix(p, sub+"/") {
			r = append(r, p)
		}
	}
	sort.Slice(r, func(i, j int) bool { return lessPath(r[i], r[j]) })
	return r
}

func mp3s(l []string) []string {
	r := []string{}
	for _, p := range l {
		if strings.HasSuffix(p, ".mp3") {
			r = append(r, p)
		}
	}
	return r
}

// musicDir builds the tree and returns the music directory in one of many forms.
func (cs *c21Case) build(c *pbt.C) (scratch, form string) {
	scratch, err := os.MkdirTemp("", "c21")
	if err != nil {
		c.Harnessf("%v", err)
	}
	root := filepath.Join(scratch, cs.Base)
	os.MkdirAll(root, 0o755)
	for _, d := range cs.Dirs {
		if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
			c.Harnessf("%v", err)
		}
	}
	os.MkdirAll(filepath.Join(scratch, "kept elsewhere"), 0o755)
	for i, f := range cs.Files {
		p := filepath.Join(root, f)
		if slices.Contains(cs.Link, f) {
			kept := filepath.Join(scratch, "kept elsewhere", fmt.Sprint(i))
			if err := os.Symlink(kept, p); err != nil {
				c.Harnessf("%v", err)
			}
			p = kept
		}
		if err := os.WriteFile(p, []byte("SYNSONG1 {\"id\":1,\"n\":100}"), 0o644); err != nil {
			c.Harnessf("%v", err)
		}
	}
	// decoys beside the music directory
	os.MkdirAll(filepath.Join(scratch, cs.Base+"x"), 0o755)
	os.WriteFile(filepath.Join(scratch, cs.Base+"x", "decoy.mp3"), nil, 0o644)
	os.MkdirAll(filepath.Join(scratch, "cwd"), 0o755)
	os.WriteFile(filepath.Join(scratch, "decoy2.mp3"), nil, 0o644)
	chdir := func(d string) {
		if err := os.Chdir(d); err != nil {
			c.Harnessf("%v", err)
		}
	}
	b := cs.Base
	chdir(scratch)
	switch cs.Form {
	case 0:
		return scratch, root
	case 1:
		return scratch, b
	case 2:
		return scratch, "./" + b
	case 3:
		return scratch, b + "/"
	case 4:
		return scratch, root + "//"
	case 5:
		chdir("cwd")
		return scratch, "../" + b
	case 6:
		chdir(root)
		return scratch, "."
	case 7:
		chdir(root)
		return scratch, "./"
	case 8:
		return scratch, "./cwd/../" + b + "/."
	case 9:
		return scratch, scratch + "//" + b
	}
	chdir("cwd")
	return scratch, ".././" + b + "/"
}

func runC21(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c21Case
	pbt.Decode(raw, &cs)
	scratch, dir := cs.build(c)
	defer os.RemoveAll(scratch)
	defer os.Chdir("/")
	cs.check(c, dir, cs.Files, cs.Dirs)
	if len(mp3s(cs.Files)) > 1 && len(cs.Pats) > 0 {
		c.NonTrivial()
	}
}

func (cs *c21Case) check(c *pbt.C, dir string, files, dirs []string) {
	for _, sub := range cs.Subs {
		want := below(files, sub)
		got := util.ListAllFiles(dir, sub)
		if !sameWords(got, want) {
			c.Failf("list", "music directory %q: listing %q gives %q, there are %q", dir, sub, got, want)
		}
		if s := util.FilterSongs(got); !sameWords(s, mp3s(want)) {
			c.Failf("filter", "of %q the songs are said to be %q", got, s)
		}
		playback.AudioDir = dir
		for _, k := range ssh.VerifCommands() {
			if k.Name == "ls" {
				args := []string{sub}
				if sub == "" {
					args = nil
				} else if cs.Form%2 == 0 {
					args = []string{sub + "/"}
				}
				out, ok := k.ExecFunc(args)
				if !ok || out != strings.Join(mp3s(want), "\n") {
					c.Failf("ls", "music directory %q: ls %q prints %q, there are %q", dir, args, out, mp3s(want))
				}
			}
		}
	}
	wd := append([]string{}, dirs...)
	// directories implied by others
	for _, d := range dirs {
		for p := path.Dir(d); p != "." && p != "/"; p = path.Dir(p) {
			wd = append(wd, p)
		}
	}
	wd = dedup(below(wd, ""))
	if got := util.ListAllSubDirs(dir); !sameWords(got, wd) {
		c.Failf("dirs", "music directory %q: the sub directories are said to be %q, there are %q", dir, got, wd)
	}
	pats := append([]string{}, cs.Pats...)
	for _, f := range files {
		if !strings.ContainsAny(f, `*?[\`) {
			pats = append(pats, f)
		}
	}
	for _, p := range pats {
		want := []string{}
		var bad error
		for _, f := range below(files, "") {
			ok := matchPath(p, f)
			if ok {
				want = append(want, f)
			}
		}
		if _, err := path.Match(p, ""); err != nil {
			bad = err
		}
		got, err := util.ListGlobFiles(dir, p)
		if bad != nil {
			if len(got) != 0 {
				c.Failf("bad-pattern", "malformed pattern %q selects %q", p, got)
			}
			c.Class("malformed pattern")
			continue
		}
		if err != nil || !sameWords(got, want) {
			c.Failf("glob", "music directory %q: pattern %q selects %q (%v), there are %q", dir, p, got, err, want)
		}
		if len(want) > 0 {
			c.Class("pattern matches")
		}
	}
}

func dedup(l []string) []string {
	r := l[:0]
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			r = append(r, x)
		}
	}
	return r
}

// ---- directories that cannot be read

func genC21Locked(t *rapid.T) interface{} {
	cs := genC21(t).(c21Case)
	if len(cs.Dirs) > 0 {
		cs.Lock = rapid.SliceOfN(rapid.SampledFrom(cs.Dirs), 1, 2).Draw(t, "lock")
	}
	cs.Pats = nil
	return cs
}

func runC21Locked(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c21Case
	pbt.Decode(raw, &cs)
	if os.Getuid() == 0 {
		d, err := os.MkdirTemp("/tmp", "verif-c21")
		if err != nil {
			c.Harnessf("%v", err)
		}
		os.Chown(d, 65534, 65534)
		os.Setenv("TMPDIR", d)
		defer os.Remove(d)
		if err := syscall.Setuid(65534); err != nil {
			c.Harnessf("setuid: %v", err)
		}
	}
	scratch, dir := cs.build(c)
	locked := func(p string) bool {
		for _, l := range cs.Lock {
			if strings.HasPrefix(p, l+"/") {
				return true
			}
		}
		return false
	}
	root := filepath.Join(scratch, cs.Base)
	for _, l := range cs.Lock {
		os.Chmod(filepath.Join(root, l), 0)
	}
	defer func() {
		sort.Slice(cs.Lock, func(i, j int) bool { return len(cs.Lock[i]) < len(cs.Lock[j]) })
		for _, l := range cs.Lock {
			os.Chmod(filepath.Join(root, l), 0o755)
		}
		os.Chdir("/")
		os.RemoveAll(scratch)
	}()
	keep := func(l []string) (r []string) {
		for _, p := range l {
			if !locked(p) {
				r = append(r, p)
			}
		}
		return
	}
	files := keep(cs.Files)
	want := below(files, "")
	if got := util.ListAllFiles(dir, ""); !sameWords(got, want) {
		c.Failf("locked", "directories %q cannot be read: listing gives %q, the readable files are %q", cs.Lock, got, want)
	}
	if got := util.ListAllFiles(filepath.Join(dir, "nowhere"), "x"); len(got) != 0 {
		c.Failf("missing", "listing a missing directory gives %q", got)
	}
	if len(files) > 0 && len(cs.Lock) > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C21", Targets: []pbt.Target{
		{Name: "listing", Mode: pbt.Pure, Gen: genC21, Run: runC21, Quick: 12000, Thorough: 1500000,
			Rule: "trees of 0-4 directories and 0-9 files on disk with spaces, glob characters, backslashes and non-ASCII names, the music directory given in 11 forms (relative, ./, trailing slashes, parents, '.') and with special characters; all listings, the ls command, and up to 4 generated patterns plus every plain path, against path.Match over the created files; non-trivial: at least two songs and a pattern"},
		{Name: "listing-locked", Mode: pbt.Fresh, Gen: genC21Locked, Run: runC21Locked, Quick: 500, Thorough: 20000, Timeout: 30 * time.Second,
			Rule: "as above, with directories the (unprivileged) program cannot read: everything else is listed; non-trivial: there is such a directory, and a file elsewhere"},
	}})
}

var _ = fmt.Sprint
