package props

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"pgregory.net/rapid"
	"verif/pbt"
)

// Clients that stop reading, read slowly or vanish, while others are served.

type c13Bad struct {
	At    int    `json:"at_ms"`
	Kind  string `json:"kind"` // stall, slow
	Cap   int    `json:"cap"`  // bytes the network holds for it
	Ch    []int  `json:"channels"`
	Rate  int    `json:"rate"`     // bytes per 10 ms (slow)
	Leave int    `json:"leave_ms"` // when it vanishes (0: at the end)
	Sub   int    `json:"sub_ms"`   // how long after connecting it subscribes
}

type c13Case struct {
	Sim  simCase  `json:"sim"`
	Vol  []simOp  `json:"volumes"` // At, P: percent
	Bad  []c13Bad `json:"bad"`
	Join []int    `json:"joins_ms"` // good display and audio clients
	Long bool     `json:"long"`
}

func genC13(t *rapid.T) interface{} {
	cs := c13Case{}
	rate := rapid.SampledFrom([]int{2000, 4000}).Draw(t, "rate")
	f := ServerFlags{Rate: rate, ChunkSize: rapid.IntRange(rate/8, rate).Draw(t, "chunk"), Nan: rapid.IntRange(0, rate/2).Draw(t, "nan"),
		StartDelay: rapid.IntRange(0, 300).Draw(t, "start"), Delay: rapid.IntRange(1000, 3000).Draw(t, "delay")}
	s := simCase{Flags: f}
	n := rapid.IntRange(1, 3).Draw(t, "songs")
	for i := 0; i < n; i++ {
		s.Songs = append(s.Songs, Song{Name: fmt.Sprintf("s%d.mp3", i), ID: i + 1, N: rapid.IntRange(rate/2, 3*rate).Draw(t, "len")})
		s.Ops = append(s.Ops, simOp{At: 10 * (i + 1), Op: "queue", S: i})
	}
	s.Ops = append(s.Ops, simOp{At: 50, Op: "resume"})
	s.End = rapid.IntRange(3000, 12000+noSong*1000/rate).Draw(t, "end")
	cs.Long = rapid.IntRange(0, 9).Draw(t, "long") == 0
	at := 60
	for i := rapid.IntRange(0, 8).Draw(t, "ops"); i > 0; i-- {
		at += rapid.IntRange(7, s.End/4).Draw(t, "gap")
		o := simOp{At: at, Op: rapid.SampledFrom([]string{"pause", "resume", "queue", "jump", "insert", "remove", "volume"}).Draw(t, "op")}
		switch o.Op {
		case "insert", "remove", "jump":
			o.P = rapid.IntRange(-1, 4).Draw(t, "pos")
		case "volume":
			o.P = rapid.IntRange(0, 100).Draw(t, "vol")
		}
		if o.At < s.End-10 {
			s.Ops = append(s.Ops, o)
		}
		if o.Op == "volume" {
			at += 1300
		}
	}
	k := rapid.IntRange(1, 6).Draw(t, "bads")
	if rapid.IntRange(0, 5).Draw(t, "many") == 0 {
		k = rapid.IntRange(7, 70).Draw(t, "bads")
	}
	for i := 0; i < k; i++ {
		b := c13Bad{At: rapid.OneOf(rapid.IntRange(20, 100), rapid.IntRange(20, s.End)).Draw(t, "at"),
			Kind: rapid.SampledFrom([]string{"stall", "stall", "slow"}).Draw(t, "kind"),
			Cap:  rapid.OneOf(rapid.IntRange(1, 64), rapid.IntRange(1, 200000)).Draw(t, "cap"),
			Rate: rapid.IntRange(1, 400).Draw(t, "rate")}
		b.Ch = rapid.SliceOfN(rapid.IntRange(0, 1), 0, 3).Draw(t, "ch")
		if rapid.Bool().Draw(t, "late sub") {
			b.Sub = rapid.IntRange(0, 500).Draw(t, "sub")
		}
		if rapid.Bool().Draw(t, "leaves") {
			b.Leave = b.At + rapid.IntRange(0, s.End).Draw(t, "stay")
		}
		cs.Bad = append(cs.Bad, b)
	}
	for i := rapid.IntRange(0, 3).Draw(t, "joins"); i > 0; i-- {
		cs.Join = append(cs.Join, rapid.IntRange(100, s.End).Draw(t, "join"))
	}
	if cs.Long {
		s.End += 250_000
		s.Flags.ChunkSize = 2 * rate
		s.Flags.Delay = 5000
	}
	cs.Sim = s
	return cs
}

func runC13(c *pbt.C, raw json.RawMessage) {
	var cs c13Case
	pbt.Decode(raw, &cs)
	r := simServe(c, cs.Sim)
	defer r.w.Close()
	before := runtime.NumGoroutine()
	type ev struct {
		at int
		f  func()
	}
	var evs []ev
	conns := make([]net.Conn, len(cs.Bad))
	for i, b := range cs.Bad {
		i, b := i, b
		evs = append(evs, ev{b.At, func() {
			conns[i] = r.w.dialQuiet(b.Cap)
			if b.Kind == "slow" {
				go func(c net.Conn) {
					buf := make([]byte, b.Rate)
					for {
						if _, err := c.Read(buf); err != nil {
							return
						}
						time.Sleep(10 * time.Millisecond)
					}
				}(conns[i])
			}
		}})
		evs = append(evs, ev{b.At + b.Sub, func() {
			for _, ch := range b.Ch {
				conns[i].Write(encodeFrame(&comm.SubscribeChannelRequest{Channel: comm.Channel(ch)}))
			}
		}})
		if b.Leave > 0 && b.Leave > b.At+b.Sub {
			evs = append(evs, ev{b.Leave, func() { conns[i].Close() }})
		}
	}
	type joiner struct {
		at int64
		rc *rawClient
	}
	joiners := make([]joiner, len(cs.Join))
	for i, at := range cs.Join {
		i := i
		evs = append(evs, ev{at, func() {
			joiners[i] = joiner{r.w.now(), r.w.dial(comm.Channel_AUDIO, comm.Channel_META)}
		}})
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	go func() {
		for _, e := range evs {
			if e.at >= cs.Sim.End {
				break
			}
			r.w.sleepUntil(e.at)
			time.Sleep(523 * time.Microsecond)
			e.f()
		}
	}()
	// the commands; a volume command may wait a second for clients, but no more
	vol := 0.1
	type volAt struct {
		at int64
		v  float64
	}
	vols := []volAt{{0, vol}}
	for _, o := range cs.Sim.Ops {
		r.w.sleepUntil(o.At)
		time.Sleep(377123 * time.Nanosecond)
		if o.Op != "volume" {
			r.do(o)
			continue
		}
		vols = append(vols, volAt{r.w.now(), float64(o.P) / 100})
		out := r.adm.cmd(fmt.Sprintf("volume %v", float64(o.P)/100))
		for i := 0; i < 12 && !strings.Contains(out, "volume to"); i++ {
			time.Sleep(100 * time.Millisecond)
			out += cleanTerminal(r.adm.take(), "")
		}
		if !strings.Contains(out, "volume to") {
			c.Failf("command", "volume at %d ms does not answer within 1.2 s but %q", o.At, out)
		}
	}
	r.w.sleepUntil(cs.Sim.End)
	time.Sleep(501 * time.Microsecond)
	// the clients from the start got everything on time
	r.collect()
	r.follow()
	for _, rc := range []*rawClient{r.audio, r.meta} {
		k := 0 // volumes received; a repetition of the current one does no harm
		for _, m := range rc.messages() {
			if v, ok := m.Msg.(*comm.SetVolumeRequest); ok {
				at := m.At - r.w.T0
				switch {
				case k < len(vols) && v.Volume == vols[k].v && at >= vols[k].at-1e6:
					if d := at - vols[k].at; k > 0 && d > 50e6 {
						c.Failf("volume-late", "volume %v was received %v after the command", v.Volume, time.Duration(d))
					}
					k++
				case k > 0 && v.Volume == vols[k-1].v:
				default:
					c.Failf("volume", "volume %v received at %v, history %v", v.Volume, time.Duration(at), vols)
				}
			}
		}
		if k != len(vols) {
			c.Failf("volume-lost", "%d of %d volumes were received", k, len(vols))
		}
	}
	for i, j := range joiners {
		if j.rc == nil || r.w.now()-j.at < 50e6 {
			continue
		}
		ok := false
		for _, m := range j.rc.messages() {
			if _, is := m.Msg.(*comm.SetVolumeRequest); is && m.At-r.w.T0-j.at < 20e6 {
				ok = true
			}
		}
		if !ok {
			c.Failf("join", "joiner %d is not sent the volume within 20 ms", i)
		}
		// and the newest song and pause announced before
		var song *comm.NewSongInfo
		var pause *comm.PauseInfo
		for _, m := range r.meta.messages() {
			if m.At-r.w.T0 > j.at-50e6 {
				break
			}
			switch x := m.Msg.(type) {
			case *comm.NewSongInfo:
				if song == nil || song.FirstSampleOfSongIndex < x.FirstSampleOfSongIndex {
					song = x
				}
			case *comm.PauseInfo:
				if pause == nil || pause.ToggleSampleIndex < x.ToggleSampleIndex {
					pause = x
				}
			}
		}
		for _, m := range j.rc.messages() {
			if m.At-r.w.T0-j.at > 20e6 {
				break
			}
			switch x := m.Msg.(type) {
			case *comm.NewSongInfo:
				if song != nil && song.FirstSampleOfSongIndex <= x.FirstSampleOfSongIndex {
					song = nil
				}
			case *comm.PauseInfo:
				if pause != nil && pause.ToggleSampleIndex <= x.ToggleSampleIndex {
					pause = nil
				}
			}
		}
		if song != nil || pause != nil {
			c.Failf("join-state", "joiner %d, %v after the start, is not sent the newest song (%v) or pause (%v) within 20 ms", i, time.Duration(j.at), song, pause)
		}
		k := 0
		for _, m := range j.rc.messages() {
			if q, is := m.Msg.(*comm.QueueChunkRequest); is {
				if k == 0 {
					k = int(q.ChunkId)
				}
				if q.ChunkId != int64(k) {
					c.Failf("join-chunks", "joiner %d got chunk %d after %d", i, q.ChunkId, k-1)
				}
				if at := m.At - r.tick(k+1); at > 20e6 {
					c.Failf("join-late", "joiner %d got chunk %d %v late", i, k, time.Duration(at))
				}
				k++
			}
		}
		if k > 0 && k < len(r.chunks)-1 {
			c.Failf("join-chunks", "joiner %d got chunks until %d, there are %d", i, k-1, len(r.chunks))
		}
	}
	stalled := 0
	for i, b := range cs.Bad {
		if conns[i] != nil && b.Kind == "stall" && (b.Leave == 0 || b.Leave >= cs.Sim.End) && len(b.Ch) > 0 {
			stalled++
			if cs.Long && cs.Sim.End-b.At-b.Sub > 240_000 && contains3(b.Ch, 0) && b.Cap < 1000 {
				// it has not read for four minutes: its place is given up
				done := make(chan error, 1)
				go func() {
					_, err := io.Copy(io.Discard, conns[i])
					done <- err
				}()
				time.Sleep(20 * time.Millisecond)
				select {
				case <-done:
				default:
					c.Failf("kept", "a client that has not read anything for four minutes, with %d bytes in flight, is still being sent messages", b.Cap)
				}
				c.Class("given up")
			}
		}
	}
	// nothing is left of clients that are gone
	for _, cn := range conns {
		if cn != nil {
			cn.Close()
		}
	}
	for _, j := range joiners {
		if j.rc != nil {
			j.rc.conn.Close()
		}
	}
	time.Sleep(3 * time.Second)
	if n := runtime.NumGoroutine(); n > before+4 {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		c.Failf("leak", "%d goroutines before the clients came, %d after they are gone: %.3000s", before, n, buf)
	}
	if stalled > 0 && len(r.chunks) > 1 {
		c.NonTrivial()
	}
	c.Count("stalled clients", stalled)
}

func contains3(l []int, x int) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}

func init() {
	pbt.Register(pbt.Property{ID: "C13", Targets: []pbt.Target{
		{Name: "bad-clients", Mode: pbt.Fake, Gen: genC13, Run: runC13, Quick: 1000, Thorough: 50000, Timeout: 60 * time.Second,
			Rule: "the real server in virtual time with 1-6 clients that stop reading (with 1 byte to 200 kB in flight), read slowly, subscribe late, or vanish, and well-behaved ones from the start and joining: everyone else's chunks, announcements and volume on time, commands answer, dead clients leave nothing behind and are given up after minutes; non-trivial: a stalled subscriber and at least two chunks"},
	}})
}
