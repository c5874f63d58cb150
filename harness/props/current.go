package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/pbt"
)

// What the playlist command says, at any moment of playback, against the stream
// that is played: the list, the playing state and the song being streamed.

type currentCase struct {
	Sim  simCase `json:"sim"`
	Asks []int   `json:"asks_ms"`
}

func genCurrent(t *rapid.T) interface{} {
	pl := simPlan{appends: true, maxOps: 12}
	for _, b := range []*bool{&pl.pauses, &pl.jumps, &pl.edits, &pl.bad} {
		*b = rapid.IntRange(0, 2).Draw(t, "plan") > 0
	}
	cs := currentCase{Sim: genSim(t, pl)}
	f := cs.Sim.Flags
	first := (noSong-f.Rate)*1000/f.Rate + f.StartDelay
	for i := rapid.IntRange(1, 12).Draw(t, "asks"); i > 0; i-- {
		at := rapid.OneOf(rapid.IntRange(first, cs.Sim.End), rapid.IntRange(60, cs.Sim.End)).Draw(t, "ask")
		cs.Asks = append(cs.Asks, at)
	}
	if rapid.Bool().Draw(t, "run dry") {
		// every song is removed while the last one plays
		at := rapid.IntRange(first, cs.Sim.End).Draw(t, "dry")
		for i := 0; i < 20; i++ {
			cs.Sim.Ops = append(cs.Sim.Ops, simOp{At: at + 7*i, Op: "clear"})
		}
		cs.Sim.End = at + rapid.IntRange(2500, 12000).Draw(t, "after")
		for i := rapid.IntRange(1, 5).Draw(t, "asks"); i > 0; i-- {
			cs.Asks = append(cs.Asks, rapid.IntRange(at, cs.Sim.End).Draw(t, "ask"))
		}
	}
	return cs
}

type currentAsk struct {
	at, now int64
	out     string
	ops     int
}

func runCurrent(c *pbt.C, raw json.RawMessage) {
	var cs currentCase
	pbt.Decode(raw, &cs)
	r := simServe(c, cs.Sim)
	defer r.w.Close()
	type ev struct {
		at  int
		ask bool
		op  simOp
	}
	var evs []ev
	for _, o := range cs.Sim.Ops {
		evs = append(evs, ev{at: o.At, op: o})
	}
	for _, a := range cs.Asks {
		evs = append(evs, ev{at: a, ask: true})
	}
	for i := range evs {
		for j := i; j > 0 && evs[j].at < evs[j-1].at; j-- {
			evs[j], evs[j-1] = evs[j-1], evs[j]
		}
	}
	var asks []currentAsk
	size := func() int {
		pl, _ := r.playlistAt(r.w.now()+r.w.T0, 0)
		return len(pl)
	}
	for _, e := range evs {
		if e.at > cs.Sim.End {
			break
		}
		r.w.sleepUntil(e.at)
		time.Sleep(377123 * time.Nanosecond)
		if e.ask {
			at := r.w.now() + r.w.T0
			out := strings.TrimRight(r.adm.cmd("playlist"), "\n")
			asks = append(asks, currentAsk{at, r.w.now() + r.w.T0, out, len(r.applied)})
			continue
		}
		if e.op.Op == "clear" {
			if size() == 0 {
				continue
			}
			e.op.Op = "remove"
		}
		if e.op.Op == "remove" && size() == 0 {
			continue
		}
		r.do(e.op)
	}
	r.w.sleepUntil(cs.Sim.End)
	time.Sleep(501 * time.Microsecond)
	r.collect()
	decided := 0
	for _, a := range asks {
		pl, _ := r.playlistAt(a.at, 0)
		state := "Paused"
		if r.playingAt(a.at) {
			state = "Playing"
		}
		want := "Current Playlist (" + state + "): "
		if len(pl) == 0 {
			want += "Empty"
		}
		for i, s := range pl {
			want += fmt.Sprintf("\n  [%0*d] %s", len(fmt.Sprint(len(pl)-1)), i, cs.Sim.Songs[s].Name)
		}
		i := strings.LastIndex(a.out, "\nCurrent Song: ")
		if i < 0 || a.out[:i] != want {
			r.failf("list", "%v after the start the playlist is shown as %q, should begin %q", time.Duration(a.at-r.w.T0), a.out, want)
		}
		got := a.out[i+len("\nCurrent Song: "):]
		allowed, ok := r.currentSongs(a.at, a.now)
		if !ok {
			continue
		}
		if !allowed[got] {
			lo, hi := r.writing(a.at), r.writing(a.now)
			r.failf("current-song", "%v after the start, when samples %d to %d are put into the stream, the current song is shown as %q, should be one of %v", time.Duration(a.at-r.w.T0), lo, hi, got, keysOf(allowed))
		}
		if len(allowed) == 1 {
			decided++
			if allowed["None"] {
				c.Count("no song", 1)
			}
		}
	}
	c.Count("asked", len(asks))
	c.Count("decided", decided)
	if decided > 1 && len(r.songs) > 1 {
		c.NonTrivial()
	}
}

func keysOf(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	return
}

// writing is the stream index the playlist has reached at raw time t.
func (r *simRun) writing(t int64) int { return r.readIndex(t) + r.cs.Flags.Rate }

// currentSongs gives the songs that may be called current between from and to;
// false: the recording does not tell.
func (r *simRun) currentSongs(from, to int64) (map[string]bool, bool) {
	const slack = 16
	lo, hi := r.writing(from-2e6)-slack, r.writing(to+2e6)+slack
	if hi >= len(r.id) || len(r.chunks) == 0 {
		return nil, false
	}
	allowed := map[string]bool{}
	// which song samples lo..hi belong to
	n := -1
	for n+1 < len(r.songs) && int(r.songs[n+1].FirstSampleOfSongIndex) < lo {
		n++
	}
	for ; ; n++ {
		start, end := 0, len(r.id)
		if n >= 0 {
			start = int(r.songs[n].FirstSampleOfSongIndex)
		}
		if n+1 < len(r.songs) && int(r.songs[n+1].FirstSampleOfSongIndex) < end {
			end = int(r.songs[n+1].FirstSampleOfSongIndex)
		}
		if n >= 0 && start > hi {
			break
		}
		if n < 0 {
			allowed["None"] = true
		} else {
			name := r.songs[n].SongFileName
			last := -1
			for i := start; i < end; i++ {
				if r.id[i] != 0 {
					last = i
				}
			}
			over := last + 1 + r.cs.Flags.Nan // the break is over unless the song was paused at its end
			paused, change := false, false
			for _, p := range r.pauses {
				if k := int(p.ToggleSampleIndex); k <= last+1 {
					paused = !p.Playing
				} else if k <= end {
					change = true
				}
			}
			switch {
			case last < 0 || (hi > over-slack && (paused || change)):
				allowed[name], allowed["None"] = true, true
			case hi < over-slack:
				allowed[name] = true
			case lo > over+slack && lo >= start:
				allowed["None"] = true
			default:
				allowed[name], allowed["None"] = true, true
			}
		}
		if n+1 >= len(r.songs) {
			break
		}
	}
	return allowed, true
}

func init() {
	pbt.Register(pbt.Property{ID: "C20", Targets: []pbt.Target{
		{Name: "current-song", Mode: pbt.Fake, Gen: genCurrent, Run: runCurrent, Quick: 500, Thorough: 60000, Timeout: 60 * time.Second,
			Rule: "the real server in virtual time plays while songs are queued, inserted, removed, jumped to, paused, resumed, unplayable or all removed, and the playlist command is asked at any moment; list and playing state are exactly those of the commands so far, the current song is the one whose samples (or the break after it) are put into the stream, None before the first song and while there is nothing to play; non-trivial: more than one answer about the current song was decided and two songs began"},
	}})
}
