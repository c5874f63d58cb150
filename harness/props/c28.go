package props

import (
	"encoding/json"
	"net"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/faiface/beep/mp3"
	"github.com/golang/protobuf/proto"
	"github.com/hajimehoshi/oto"
	"pgregory.net/rapid"
	"verif/pbt"
)

// The real server and a real player (or display) in virtual time, with a
// network between them that delays messages and sets the server's clock apart
// from the client's. The stream that a client on the server's own clock gets
// is what has to be heard (seen).

// c28Net is the network and how far the server's clock is ahead.
type c28Net struct {
	Skew   int64 `json:"skew"`
	Up     int   `json:"up_us"`
	Down   int   `json:"down_us"`
	Jitter int   `json:"jitter_us"` // up to this much more, message by message
	Seed   int   `json:"seed"`
}

type c28Case struct {
	Sim      simCase `json:"sim"`
	Net      c28Net  `json:"net"`
	Join     int     `json:"join_ms"` // when the client starts
	Cycles   int     `json:"cycles"`
	CycleMs  int     `json:"cycle_ms"`
	Interval int     `json:"interval_ms"` // between time syncs
	OpenMs   int     `json:"open_ms"`     // time the sound card takes to open
	W        int     `json:"w,omitempty"` // terminal size (display)
	H        int     `json:"h,omitempty"`
}

// bounds is how far early and late things may be for want of knowing the delays apart.
func (n c28Net) bounds() (early, late int64) {
	return int64(n.Down-n.Up-n.Jitter) * 500, int64(n.Down+n.Jitter-n.Up) * 500
}

func genC28(player bool) func(t *rapid.T) interface{} {
	return func(t *rapid.T) interface{} {
		sim := genSim(t, simPlan{pauses: rapid.Bool().Draw(t, "pauses"), jumps: rapid.Bool().Draw(t, "jumps"), appends: true, maxOps: 8})
		cs := c28Case{Sim: sim}
		n := &cs.Net
		n.Seed = rapid.IntRange(0, 1<<20).Draw(t, "seed")
		n.Skew = rapid.OneOf(rapid.Int64Range(-2e10, 2e10), rapid.Int64Range(-1e9, 1e9), rapid.Int64Range(-1e15, 1e15)).Draw(t, "skew")
		if rapid.IntRange(0, 9).Draw(t, "sameClock") == 0 {
			n.Skew = 0
		}
		n.Up = rapid.OneOf(rapid.IntRange(0, 3000), rapid.IntRange(0, 300_000)).Draw(t, "up")
		n.Down = n.Up
		if rapid.IntRange(0, 2).Draw(t, "asymmetric") == 0 {
			n.Down = rapid.IntRange(0, 300_000).Draw(t, "down")
		}
		if rapid.Bool().Draw(t, "jitters") {
			n.Jitter = rapid.OneOf(rapid.IntRange(1, 5000), rapid.IntRange(1, 100_000)).Draw(t, "jitter")
		}
		f := &cs.Sim.Flags
		e, l := n.bounds()
		need := (n.Down+n.Jitter)/1000 + int(max(l, -e)/1e6) + 260
		f.Delay = f.ChunkSize*1000/f.Rate + need + rapid.IntRange(0, 4000).Draw(t, "lead")
		cs.Cycles = rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 500)).Draw(t, "cycles")
		cs.CycleMs = rapid.IntRange(1, 10).Draw(t, "cycleMs")
		cs.Interval = rapid.OneOf(rapid.Just(600_000), rapid.IntRange(cs.Cycles*cs.CycleMs+700, 20_000)).Draw(t, "interval")
		cs.Join = f.StartDelay + 20
		if rapid.Bool().Draw(t, "late") {
			cs.Join += rapid.IntRange(0, cs.Sim.End).Draw(t, "join")
		}
		if player {
			if rapid.IntRange(0, 3).Draw(t, "slowopen") == 0 {
				cs.OpenMs = rapid.IntRange(1, 700).Draw(t, "open")
			}
		} else {
			longest := 0
			for i := range cs.Sim.Songs { // long enough to be looked at
				s := &cs.Sim.Songs[i]
				s.N = rapid.IntRange(f.Rate, min(9*f.Rate, 200_000)).Draw(t, "longer")
				longest = max(longest, s.N)
			}
			cs.Sim.End = min(60000, cs.Sim.End+rapid.IntRange(0, 3000+longest*1000/f.Rate).Draw(t, "more"))
			cs.W, cs.H = rapid.IntRange(40, 120).Draw(t, "w"), rapid.IntRange(7, 30).Draw(t, "h")
		}
		return cs
	}
}

// netProxy stands between the client and the server.
type netProxy struct {
	c    *pbt.C
	w    *World
	n    c28Net
	l    net.Listener
	mu   sync.Mutex
	got  []stamped // what the client received, in the server's time stamps
	subs map[comm.Channel]int64
}

func newNetProxy(c *pbt.C, w *World, n c28Net) *netProxy {
	l, err := net.Listen("tcp", procIP()+":0")
	if err != nil {
		c.Harnessf("%v", err)
	}
	p := &netProxy{c: c, w: w, n: n, l: l, subs: map[comm.Channel]int64{}}
	go func() {
		for {
			cl, err := l.Accept()
			if err != nil {
				return
			}
			srv, err := net.Dial("tcp", w.Addr)
			if err != nil {
				cl.Close()
				continue
			}
			go p.relay(cl, srv, n.Up, 1, func(m proto.Message, arrived int64) {
				if s, ok := m.(*comm.SubscribeChannelRequest); ok {
					p.mu.Lock()
					p.subs[s.Channel] = arrived
					p.mu.Unlock()
				}
			})
			go p.relay(srv, cl, n.Down, 2, func(m proto.Message, arrived int64) {
				p.mu.Lock()
				p.got = append(p.got, stamped{arrived, proto.Clone(m)})
				p.mu.Unlock()
				switch x := m.(type) {
				case *comm.TimeSyncResponse:
					x.ServerRecvTime += n.Skew
					x.ServerSendTime += n.Skew
				case *comm.QueueChunkRequest:
					x.StartTime += n.Skew
				case *comm.ChunkInfo:
					x.StartTime += n.Skew
				}
			})
		}
	}()
	return p
}

func (p *netProxy) port() int { return p.l.Addr().(*net.TCPAddr).Port }

// relay passes on messages in order, each after its delay.
func (p *netProxy) relay(from, to net.Conn, delay, salt int, see func(proto.Message, int64)) {
	type item struct {
		due int64
		m   proto.Message
	}
	q := make(chan item, 1<<16)
	go func() {
		for i := range q {
			if d := i.due - timing.GetRawTime(); d > 0 {
				time.Sleep(time.Duration(d))
			}
			see(i.m, timing.GetRawTime())
			to.Write(encodeFrame(i.m))
		}
		to.Close()
	}()
	x := uint64(p.n.Seed)*2654435761 + uint64(salt)
	for {
		m, err := decodeFrame(from)
		if err != nil {
			close(q)
			return
		}
		d := int64(delay) * 1000
		if p.n.Jitter > 0 {
			x = x*6364136223846793005 + 1442695040888963407
			d += int64(x>>33) % (int64(p.n.Jitter) * 1000)
		}
		q <- item{timing.GetRawTime() + d, m}
	}
}

// subscribed is when the subscription reached the server, if it did.
func (p *netProxy) subscribed(ch comm.Channel) (int64, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	t, ok := p.subs[ch]
	return t, ok
}

func (p *netProxy) messages() []stamped {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]stamped{}, p.got...)
}

// startC28 starts the server and runs the history, with start called when the client joins;
// look is called from then on every so often. The stream is followed to its end.
func startC28(c *pbt.C, cs *c28Case, start func(p *netProxy), look func(r *simRun)) (*simRun, *netProxy) {
	quietLogs()
	r := simServe(c, cs.Sim)
	// the client's; the server's flags would set them, too
	schedule.TimeSyncCycles = cs.Cycles
	schedule.TimeSyncCycleDelay = time.Duration(cs.CycleMs) * time.Millisecond
	schedule.TimeSyncInterval = time.Duration(cs.Interval) * time.Millisecond
	oto.OpenDelay = time.Duration(cs.OpenMs) * time.Millisecond
	p := newNetProxy(c, r.w, cs.Net)
	r.adm.cmd("volume 1")
	next := 0
	joined := false
	end := cs.Sim.End
	if e := cs.Join + 2500; e > end { // time to hear something
		end = e
	}
	end += cs.Sim.Flags.Delay + cs.Cycles*cs.CycleMs
	for lookAt := cs.Join + 137; ; {
		at, what := end, 0
		if next < len(cs.Sim.Ops) && cs.Sim.Ops[next].At < at {
			at, what = cs.Sim.Ops[next].At, 1
		}
		if !joined && cs.Join < at {
			at, what = cs.Join, 2
		}
		if look != nil && lookAt < at {
			at, what = lookAt, 3
		}
		r.w.sleepUntil(at)
		switch what {
		case 0:
			time.Sleep(501 * time.Microsecond)
			r.collect()
			r.follow()
			return r, p
		case 1:
			time.Sleep(377123 * time.Nanosecond)
			r.do(cs.Sim.Ops[next])
			next++
		case 2:
			start(p)
			joined = true
		case 3:
			time.Sleep(11 * time.Microsecond)
			look(r)
			lookAt += 171 + lookAt%97
		}
	}
}

// due is when stream sample i is due (raw time of the server).
func (r *simRun) due(i int) int64 {
	f := r.cs.Flags
	k := i / f.ChunkSize
	return r.chunks[k].Msg.(*comm.QueueChunkRequest).StartTime + int64(i%f.ChunkSize)*int64(time.Second)/int64(f.Rate)
}

// indexAt is the stream sample that is due at or before t.
func (r *simRun) indexAt(t int64) int {
	f := r.cs.Flags
	start := r.chunks[0].Msg.(*comm.QueueChunkRequest).StartTime
	if t < start {
		return -1
	}
	k := int((t - start) / r.chunkT)
	in := int((t - start - int64(k)*r.chunkT) * int64(f.Rate) / 1e9)
	return k*f.ChunkSize + min(in, f.ChunkSize-1)
}

func runC28Player(c *pbt.C, raw json.RawMessage) {
	var cs c28Case
	pbt.Decode(raw, &cs)
	f := cs.Sim.Flags
	dev := startDevice(f.Rate, timing.GetRawTime)
	r, p := startC28(c, &cs, func(p *netProxy) { startPlayer(procIP(), p.port(), f.Rate) }, nil)
	defer r.w.Close()
	early, lateBy := cs.Net.bounds()
	period := int64(time.Second) / int64(f.Rate)
	heard := make([]bool, len(r.id))
	last, total := -1, 0
	rel := func(t int64) time.Duration { return time.Duration(t - r.w.T0) }
	var lastWrite int64
	for _, w := range dev.snapshot() {
		lastWrite = w.at
		for j := 0; j+3 < len(w.buf); j += 4 {
			lo := int16(uint16(w.buf[j]) | uint16(w.buf[j+1])<<8)
			hi := int16(uint16(w.buf[j+2]) | uint16(w.buf[j+3])<<8)
			if lo == 0 && hi == 0 {
				continue
			}
			at := w.at + int64(j/4)*int64(time.Second)/int64(f.Rate)
			id, pos := mp3.SynIdent([2]float64{float64(lo) / 32768, float64(hi) / 32768})
			from, to := r.indexAt(at-lateBy-period-2000), r.indexAt(at-early+period+2000)+1
			found := -1
			for i := max(from, last+1, 0); i <= to && i < len(r.id); i++ {
				if r.id[i] == id && r.pos[i] == pos {
					found = i
					break
				}
			}
			if found < 0 {
				i := r.indexAt(at)
				c.Failf("wrong-sample", "%v after the server's start the player outputs sample %d of song %d; the stream has %s there (sample %d; allowed %v to %v off; last heard was stream sample %d; subscribed at %v)",
					rel(at), pos, id, r.state(max(i, 0)), i, time.Duration(early), time.Duration(lateBy), last, rel(p.subs[comm.Channel_AUDIO]))
				return
			}
			last = found
			heard[found] = true
			total++
		}
	}
	// what was received in time has to be heard
	must := 0
	lead := int64(205e6) + lateBy - early
	slack := (lateBy-early)/period + 2 // a change of the offset after silence
	sub, ok := p.subscribed(comm.Channel_AUDIO)
	if limit := r.w.T0 + int64(cs.Join+cs.Cycles*cs.CycleMs+cs.OpenMs)*1e6 + int64(cs.Net.Up+cs.Net.Jitter)*1000 + 100e6; !ok || sub > limit {
		c.Failf("no-subscription", "the player, started %d ms after the server, did not subscribe until %v", cs.Join, rel(limit))
		return
	}
	got := 0
	for _, m := range p.messages() {
		q, isChunk := m.Msg.(*comm.QueueChunkRequest)
		if !isChunk {
			continue
		}
		got++
		k := int(q.FirstSampleIndex)
		for i := k; i < k+f.ChunkSize && i < len(r.id); i++ {
			if r.id[i] == 0 || heard[i] || r.due(i)-m.At < lead || r.due(i)+lateBy+period+2000 > lastWrite {
				continue
			}
			run := 0
			for i-run-1 >= k && r.id[i-run-1] != 0 && int64(run) <= slack {
				run++
			}
			if int64(run) <= slack && lateBy > early {
				continue
			}
			c.Failf("dropped", "stream sample %d (%s), due at %v, reached the player at %v and was not played (last heard %d)", i, r.state(i), rel(r.due(i)), rel(m.At), last)
			return
		}
		for i := k; i < k+f.ChunkSize && i < len(r.id); i++ {
			if r.id[i] != 0 && heard[i] {
				must++
			}
		}
	}
	// the chunks sent after the subscription all came
	want := 0
	for _, m := range r.chunks {
		if m.At > sub+1e6 && m.At+int64(cs.Net.Down+cs.Net.Jitter)*1000+1e6 < r.w.T0+r.w.now() {
			want++
		}
	}
	if got < want {
		c.Failf("chunks", "%d chunks were sent since the player's subscription, %d reached it", want, got)
	}
	if must > f.Rate/2 {
		c.NonTrivial()
	}
	if cs.Join > f.StartDelay+1000 {
		c.Class("joined late")
	}
	if early != lateBy {
		c.Class("jitter")
	}
	if cs.Interval < 600_000 {
		c.Class("synced again")
	}
	c.Count("samples heard", total)
}

func runC28Display(c *pbt.C, raw json.RawMessage) {
	var cs c28Case
	pbt.Decode(raw, &cs)
	f := cs.Sim.Flags
	type look struct {
		at int64
		s  shown
	}
	var looks []look
	var scrShow func() (shown, string, string)
	r, p := startC28(c, &cs, func(p *netProxy) {
		scr := startInfoer(procIP(), p.port(), f.Rate, cs.W, cs.H, 0)
		scrShow = func() (shown, string, string) {
			s, problem := readScreen(scr, 0)
			return s, problem, dump(scr)
		}
	}, func(r *simRun) {
		if r.w.now() < int64(cs.Join+300)*1e6 {
			return
		}
		s, problem, d := scrShow()
		if problem != "" {
			c.Failf("screen", "%s\n%s", problem, d)
			return
		}
		looks = append(looks, look{timing.GetRawTime(), s})
	})
	defer r.w.Close()
	rel := func(t int64) time.Duration { return time.Duration(t - r.w.T0) }
	sub, ok := p.subscribed(comm.Channel_META)
	if limit := r.w.T0 + int64(cs.Join+cs.Cycles*cs.CycleMs)*1e6 + int64(cs.Net.Up+cs.Net.Jitter)*1000 + 100e6; !ok || sub > limit {
		c.Failf("no-subscription", "the display, started %d ms after the server, did not subscribe until %v", cs.Join, rel(limit))
		return
	}
	// it knows the stream from the first chunk announcement on, and the songs from the newest at its subscription
	known := int64(-1)
	for _, m := range p.messages() {
		if _, ok := m.Msg.(*comm.ChunkInfo); ok {
			known = m.At
			break
		}
	}
	firstSong := 0
	for _, m := range r.meta.messages() {
		if x, ok := m.Msg.(*comm.NewSongInfo); ok && m.At < sub+2e6 && int(x.FirstSampleOfSongIndex) > firstSong {
			firstSong = int(x.FirstSampleOfSongIndex)
		}
	}
	if known < 0 {
		return
	}
	early, lateBy := cs.Net.bounds()
	ref := &c23Case{Rate: f.Rate, Songs: nil}
	for _, s := range cs.Sim.Songs {
		ref.Songs = append(ref.Songs, dispSong{Name: s.Name, Len: int64(s.N)})
		ref.Tags = append(ref.Tags, dispTags{})
	}
	// next audible sample at or after i, and the last before
	nextOf := make([]int, len(r.id)+1)
	nextOf[len(r.id)] = len(r.id)
	for i := len(r.id) - 1; i >= 0; i-- {
		nextOf[i] = nextOf[i+1]
		if r.id[i] != 0 {
			nextOf[i] = i
		}
	}
	prevOf := make([]int, len(r.id))
	for i, prev := 0, -1; i < len(r.id); i++ {
		if r.id[i] != 0 {
			prev = i
		}
		prevOf[i] = prev
	}
	compared, paused := 0, 0
	for _, l := range looks {
		if l.at < known+250e6 {
			continue
		}
		lo, hi := r.indexAt(l.at-lateBy-202e6)-2, r.indexAt(l.at-early)+2
		if lo < firstSong || hi >= len(r.id) {
			continue
		}
		// all of it one song, heard or paused?
		a, b := prevOf[lo], nextOf[hi]
		if b == len(r.id) || a < firstSong {
			continue
		}
		one := true
		for i := a; i <= b; i++ {
			if r.id[i] != 0 && (r.id[i] != r.id[a] || i > a && r.pos[i] != r.pos[prevOf[i-1]]+1) {
				one = false
			}
		}
		if !one || r.pos[b] == 0 {
			continue
		}
		ok, diff := false, ""
		for i := hi; i >= lo && !ok; i-- {
			d := dispState{Song: r.id[a] - 1, Playing: r.id[i] != 0}
			d.In = int64(r.pos[nextOf[i]])
			diff = ref.against(l.s, d, 1)
			ok = diff == ""
		}
		if !ok {
			c.Failf("display", "%v after the server's start, while stream samples %d to %d (%s to %s) are heard, the display is wrong: %s (%+v)", rel(l.at), lo, hi, r.state(lo), r.state(hi), diff, l.s)
			return
		}
		compared++
		if r.id[hi] == 0 {
			paused++
		}
	}
	c.Count("screens compared", compared)
	c.Count("paused", paused)
	if compared > 3 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C28", Targets: []pbt.Target{
		{Name: "end-to-end-player", Mode: pbt.Fake, Gen: genC28(true), Run: runC28Player, Quick: 400, Thorough: 30000,
			Rule: "the real server with 1-6 songs and up to 8 commands (appending, pauses, jumps), and the real player behind a network with any delay up to 0.3 s (also asymmetric or jittering), any clock difference, joining at any time, with any number of time exchanges, syncing again, and a slow sound card: every sample output is the one the stream has at that server time (within one period, plus what the asymmetry of the delays hides), in order, and everything that reached it 0.2 s ahead is output; non-trivial: more than half a second was heard"},
		{Name: "end-to-end-display", Mode: pbt.Fake, Gen: genC28(false), Run: runC28Display, Quick: 150, Thorough: 12000,
			Rule: "the same with the real display: while a song is heard, or paused, the screen names it, with the position heard, its length and the playing state; non-trivial: more than three screens compared"},
	}})
}
