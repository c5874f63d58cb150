package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"

	"github.com/LogicalOverflow/music-sync/playback"
	"pgregory.net/rapid"
	"verif/pbt"
)

type editOp struct {
	Op  string `json:"op"` // add, ins, rem, songs, pos
	Pos int    `json:"pos,omitempty"`
	N   int    `json:"n,omitempty"`  // how many songs at once (0: one)
	As  int    `json:"as,omitempty"` // named like the songs of this operation or, from 100 on, like the initial ones (0: a new name)
}

// name of the j-th song of an operation.
func (o editOp) name(i, j int) string {
	if o.As >= 100 {
		return fmt.Sprintf("init-%d", o.As-100+j)
	}
	if o.As > 0 {
		i = o.As
	}
	if j > 0 {
		return fmt.Sprintf("s%d-%d", i, j)
	}
	return fmt.Sprintf("s%d", i)
}

// genPos draws positions around every boundary of a list of length n.
func genPos(t *rapid.T, n int) int {
	return rapid.OneOf(
		rapid.IntRange(0, n+1),
		rapid.IntRange(-3, n+3),
		rapid.SampledFrom([]int{0, n - 1, n, n + 1, -1, 1 << 40, -(1 << 40), 1<<63 - 1, -1 << 63, 1<<63 - 2}),
	).Draw(t, "pos")
}

func genEdits(t *rapid.T, n0, max int) []editOp {
	n := n0
	k := rapid.IntRange(0, max).Draw(t, "k")
	var ops []editOp
	for i := 0; i < k; i++ {
		o := editOp{Op: rapid.SampledFrom([]string{"add", "ins", "ins", "ins", "rem", "rem", "songs"}).Draw(t, "op")}
		switch o.Op {
		case "ins", "rem":
			o.Pos = genPos(t, n)
		}
		switch o.Op {
		case "add", "ins":
			n++
			if rapid.IntRange(0, 3).Draw(t, "several") == 0 {
				o.N = rapid.IntRange(0, 5).Draw(t, "songs")
				n += o.N
			}
			if rapid.IntRange(0, 2).Draw(t, "again") == 0 {
				o.As = rapid.OneOf(rapid.IntRange(0, i), rapid.Just(i-1), rapid.IntRange(100, 106)).Draw(t, "as")
			}
		case "rem":
			if n > 0 {
				n--
			}
		}
		ops = append(ops, o)
	}
	return ops
}

type c07Case struct {
	Initial int      `json:"initial"`
	Ops     []editOp `json:"ops"`
}

// listModel is the reference list.
type listModel struct{ l []string }

func clip(p, lo, hi int) int {
	if p < lo {
		return lo
	}
	if p > hi {
		return hi
	}
	return p
}

func (m *listModel) ins(s string, p int) {
	p = clip(p, 0, len(m.l))
	n := append([]string{}, m.l[:p]...)
	n = append(n, s)
	m.l = append(n, m.l[p:]...)
}

func (m *listModel) rem(p int) string {
	if len(m.l) == 0 {
		return ""
	}
	p = clip(p, 0, len(m.l)-1)
	r := m.l[p]
	n := append([]string{}, m.l[:p]...)
	m.l = append(n, m.l[p+1:]...)
	return r
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC07(c *pbt.C, raw json.RawMessage) {
	var cs c07Case
	pbt.Decode(raw, &cs)
	initial := []string{}
	for i := 0; i < cs.Initial; i++ {
		initial = append(initial, fmt.Sprintf("init-%d", i))
	}
	m := &listModel{append([]string{}, initial...)}
	pl := playback.NewPlaylist(4, append([]string{}, initial...), 0)
	type snap struct{ got, want []string }
	var snaps []snap
	edits := 0
	for i, o := range cs.Ops {
		names := []string{o.name(i, 0)}
		for j := 1; j < o.N; j++ {
			names = append(names, o.name(i, j))
		}
		if o.As > 0 {
			c.Class("songs that were added before")
		}
		switch o.Op {
		case "add":
			if x, ok := interface{}(pl).(interface{ AddSongs([]string) }); ok && o.N > 0 {
				x.AddSongs(names)
			} else {
				for _, name := range names {
					pl.AddSong(name)
				}
			}
			for _, name := range names {
				m.ins(name, len(m.l))
			}
			edits++
		case "ins":
			p := clip(o.Pos, 0, len(m.l))
			if x, ok := interface{}(pl).(interface{ InsertSongs([]string, int) }); ok && o.N > 0 {
				x.InsertSongs(names, o.Pos)
			} else {
				pl.InsertSong(names[0], o.Pos)
				for j, name := range names[1:] {
					pl.InsertSong(name, p+1+j)
				}
			}
			if p != o.Pos {
				c.Class("clipped insert")
			}
			for j, name := range names {
				m.ins(name, p+j)
			}
			edits++
		case "rem":
			if o.Pos == len(m.l) {
				c.Class("remove at length")
			}
			want := m.rem(o.Pos)
			if got := pl.RemoveSong(o.Pos); got != want {
				c.Failf("remove", "op %d: remove(%d) returned %q, the list has %q there", i, o.Pos, got, want)
			}
			edits++
		}
		got := pl.Songs()
		if !sameStrings(got, m.l) {
			c.Failf("list", "after op %d %+v the playlist is %q, expected %q", i, o, got, m.l)
		}
		if p := pl.Pos(); p < 0 || (len(m.l) > 0 && p >= len(m.l)) {
			c.Failf("pos", "after op %d the position is %d of %d", i, p, len(m.l))
		}
		if o.Op == "songs" {
			snaps = append(snaps, snap{got, append([]string{}, m.l...)})
			for j := range got {
				_ = j
			}
		}
	}
	for i, s := range snaps {
		if !sameStrings(s.got, s.want) {
			c.Failf("snapshot", "listing %d changed after it was taken: %q, was %q", i, s.got, s.want)
		}
		for j := range s.got {
			s.got[j] = "overwritten"
		}
	}
	if got := pl.Songs(); !sameStrings(got, m.l) {
		c.Failf("snapshot", "writing to a listing changed the playlist: %q, expected %q", got, m.l)
	}
	if edits >= 2 {
		c.NonTrivial()
	}
}

type c07Conc struct {
	Initial int        `json:"initial"`
	Threads [][]editOp `json:"threads"`
}

// Concurrent edits: multiset of the result and of everything removed.
func runC07Conc(c *pbt.C, raw json.RawMessage) {
	var cs c07Conc
	pbt.Decode(raw, &cs)
	initial := []string{}
	for i := 0; i < cs.Initial; i++ {
		initial = append(initial, fmt.Sprintf("init-%03d", i))
	}
	for rep := 0; rep < 4; rep++ {
		pl := playback.NewPlaylist(4, append([]string{}, initial...), 0)
		added := append([]string{}, initial...)
		var mu sync.Mutex
		var removed []string
		var wg sync.WaitGroup
		start := make(chan bool)
		n := 0
		for ti, ops := range cs.Threads {
			for i, o := range ops {
				if o.Op == "add" || o.Op == "ins" {
					added = append(added, fmt.Sprintf("t%d-%03d", ti, i))
				}
				n++
			}
			wg.Add(1)
			go func(ti int, ops []editOp) {
				defer wg.Done()
				<-start
				for i, o := range ops {
					switch o.Op {
					case "add":
						pl.AddSong(fmt.Sprintf("t%d-%03d", ti, i))
					case "ins":
						pl.InsertSong(fmt.Sprintf("t%d-%03d", ti, i), o.Pos)
					case "rem":
						if s := pl.RemoveSong(o.Pos); s != "" {
							mu.Lock()
							removed = append(removed, s)
							mu.Unlock()
						}
					default:
						for _, s := range pl.Songs() {
							if s == "" {
								c.Errorf("torn", "a listing during edits holds an empty entry")
							}
						}
						pl.Pos()
					}
				}
			}(ti, ops)
		}
		close(start)
		wg.Wait()
		all := append(append([]string{}, removed...), pl.Songs()...)
		sort.Strings(all)
		sort.Strings(added)
		if !sameStrings(all, added) {
			c.Failf("lost", "entries left and removed: %q; added: %q", all, added)
		}
		// appended songs of one thread keep their order when nothing else can move them
		onlyAdd := true
		for _, ops := range cs.Threads {
			for _, o := range ops {
				onlyAdd = onlyAdd && o.Op != "ins"
			}
		}
		if onlyAdd {
			last := map[byte]string{}
			for _, s := range pl.Songs() {
				if s[0] == 't' {
					if last[s[1]] > s {
						c.Failf("order", "songs appended by one session changed order: %s after %s", s, last[s[1]])
					}
					last[s[1]] = s
				}
			}
		}
		if n >= 4 && len(cs.Threads) > 1 {
			c.NonTrivial()
		}
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C07", Targets: []pbt.Target{
		{Name: "playlist-edits", Mode: pbt.Pure, Quick: 24000, Thorough: 2000000,
			Rule: "sequences of add/insert/remove/list with positions around all boundaries against a list model; non-trivial: at least two edits",
			Gen: func(t *rapid.T) interface{} {
				n := rapid.IntRange(0, 6).Draw(t, "n")
				return c07Case{n, genEdits(t, n, 25)}
			}, Run: runC07},
		{Name: "playlist-concurrent", Mode: pbt.Pure, Quick: 3000, Thorough: 200000,
			Rule: "concurrent edit sequences from several sessions, conservation of entries; non-trivial: several sessions and at least four operations",
			Gen: func(t *rapid.T) interface{} {
				cs := c07Conc{Initial: rapid.IntRange(0, 8).Draw(t, "n")}
				k := rapid.IntRange(2, 5).Draw(t, "threads")
				for i := 0; i < k; i++ {
					cs.Threads = append(cs.Threads, genEdits(t, cs.Initial, 20))
				}
				return cs
			}, Run: runC07Conc},
	}})
}
