package props

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"
	xssh "golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
	"verif/pbt"
)

// What a display or player that joins at any moment knows in the end,
// compared with clients that have been there all along.

type c15Join struct {
	At  int   `json:"at_us"`
	Ch  []int `json:"channels"`
	Gap int   `json:"gap_us"` // between the subscriptions
	Cap int   `json:"cap"`    // bytes the network holds for it (0: any)
	Kbs int   `json:"kbs"`    // kB it reads per second (with Cap)
}

type c15Case struct {
	Sim    simCase   `json:"sim"`
	Lyrics []int     `json:"lyrics"` // lines of lyrics per song
	Joins  []c15Join `json:"joins"`
}

func genC15(t *rapid.T) interface{} {
	cs := c15Case{}
	rate := rapid.SampledFrom([]int{8000, 16000, 32000}).Draw(t, "rate")
	f := ServerFlags{Rate: rate, ChunkSize: rapid.IntRange(rate/8, rate).Draw(t, "chunk"), Nan: rapid.IntRange(0, rate/2).Draw(t, "nan"),
		StartDelay: rapid.IntRange(0, 200).Draw(t, "start"), Delay: rapid.IntRange(1000, 3000).Draw(t, "delay")}
	s := simCase{Flags: f}
	n := rapid.IntRange(1, 3).Draw(t, "songs")
	for i := 0; i < n; i++ {
		s.Songs = append(s.Songs, Song{Name: fmt.Sprintf("s%d.mp3", i), ID: i + 1, N: rapid.IntRange(rate/2, 4*rate).Draw(t, "len")})
		s.Ops = append(s.Ops, simOp{At: 10 * (i + 1), Op: "queue", S: i})
		cs.Lyrics = append(cs.Lyrics, rapid.SampledFrom([]int{0, 1, 100}).Draw(t, "lyrics"))
	}
	at := 50
	if rapid.IntRange(0, 3).Draw(t, "resumed") > 0 {
		s.Ops = append(s.Ops, simOp{At: at, Op: "resume"})
	}
	first := (noSong-rate)*1000/rate + f.StartDelay
	if rapid.IntRange(0, 3).Draw(t, "skip") > 0 {
		at = first
	}
	var times []int // instants worth joining at
	for i := rapid.IntRange(1, 10).Draw(t, "ops"); i > 0; i-- {
		at += rapid.OneOf(rapid.IntRange(7, 30), rapid.IntRange(7, 2500)).Draw(t, "gap")
		o := simOp{At: at, Op: rapid.SampledFrom([]string{"pause", "resume", "pause", "resume", "jump", "volume", "volume", "queue"}).Draw(t, "op")}
		switch o.Op {
		case "jump":
			o.P = rapid.IntRange(-1, 4).Draw(t, "pos")
		case "volume":
			o.P = rapid.IntRange(0, 100).Draw(t, "vol")
		}
		s.Ops = append(s.Ops, o)
		times = append(times, at*1000+377)
	}
	s.End = at + rapid.IntRange(100, 2500).Draw(t, "tail")
	times = append(times, first*1000, first*1000+f.ChunkSize*1000000/rate)
	for i := rapid.IntRange(1, 10).Draw(t, "joins"); i > 0; i-- {
		j := c15Join{Ch: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1}), 1, 3).Draw(t, "ch")}
		j.At = rapid.OneOf(rapid.IntRange(1000, s.End*1000), rapid.Custom(func(t *rapid.T) int {
			return rapid.SampledFrom(times).Draw(t, "near") + rapid.OneOf(rapid.IntRange(-300, 300), rapid.IntRange(-20000, 20000)).Draw(t, "off")
		})).Draw(t, "at")
		j.Gap = rapid.SampledFrom([]int{0, 0, 1, 100, 3000, 400000}).Draw(t, "sub gap")
		if rapid.Bool().Draw(t, "slow") {
			j.Cap = rapid.OneOf(rapid.IntRange(20, 100), rapid.IntRange(20, 4000)).Draw(t, "cap")
			j.Kbs = rapid.SampledFrom([]int{40, 100, 1000}).Draw(t, "kbs")
			for _, ch := range j.Ch {
				if ch == 0 && j.Kbs < 1000 { // audio needs up to 16 kB/s * 32
					j.Kbs = 1000
					j.Cap += 8000
				}
			}
		}
		cs.Joins = append(cs.Joins, j)
	}
	cs.Sim = s
	return cs
}

// slowConn is read at a limited speed.
type slowConn struct {
	net.Conn
	kbs int
}

func (s slowConn) Read(b []byte) (int, error) {
	if max := 1 + s.kbs/4; len(b) > max {
		b = b[:max]
	}
	n, err := s.Conn.Read(b)
	time.Sleep(time.Duration(n) * time.Millisecond / time.Duration(s.kbs))
	return n, err
}

// known is what a client concludes from the messages it got.
type known struct {
	vol  []float64
	song *comm.NewSongInfo
	hist []toggle
	tags map[string]int
}

func knows(ms []stamped) (k known) {
	k.tags = map[string]int{}
	for _, m := range ms {
		switch x := m.Msg.(type) {
		case *comm.SetVolumeRequest:
			k.vol = append(k.vol, x.Volume)
		case *comm.NewSongInfo:
			if k.song == nil || x.FirstSampleOfSongIndex >= k.song.FirstSampleOfSongIndex {
				k.song = x
			}
		case *comm.PauseInfo:
			k.hist = append(k.hist, toggle{x.ToggleSampleIndex, x.Playing})
		}
		k.tags[tagOf(m.Msg)]++
	}
	return
}

func before(ms []stamped, t int64) []stamped {
	for i, m := range ms {
		if m.At > t {
			return ms[:i]
		}
	}
	return ms
}

func writeLyrics(dir, song string, lines int) {
	type atom struct {
		Timestamp int64  `json:"timestamp"`
		Caption   string `json:"caption"`
	}
	var l [][]atom
	for i := 0; i < lines; i++ {
		// incompressible enough to take some time on the wire
		l = append(l, []atom{{int64(i*i*7919 + i), fmt.Sprintf("%x ", uint64(i+1)*0x9E3779B97F4A7C15)}, {int64(i*i*7919 + i + 100), fmt.Sprintf("%x", uint64(i+7)*0xC2B2AE3D27D4EB4F)}})
	}
	b, _ := json.Marshal(l)
	os.WriteFile(filepath.Join(dir, song+".json"), b, 0o644)
}

func has(l []int, x int) bool { return contains3(l, x) }

func runC15(c *pbt.C, raw json.RawMessage) {
	var cs c15Case
	pbt.Decode(raw, &cs)
	dirReady := func(w *World) {
		for i, n := range cs.Lyrics {
			if n > 0 && i < len(cs.Sim.Songs) {
				writeLyrics(w.Audio, cs.Sim.Songs[i].Name, n)
			}
		}
	}
	r := simServe(c, cs.Sim)
	defer r.w.Close()
	dirReady(r.w)
	type joiner struct {
		subMeta, subAudio int64 // when it subscribed first (0: not)
		rc                *rawClient
		ready             bool
	}
	js := make([]joiner, len(cs.Joins))
	var mu sync.Mutex
	for i, j := range cs.Joins {
		i, j := i, j
		go func() {
			if d := int64(j.At)*1000 + 123 - r.w.now(); d > 0 {
				time.Sleep(time.Duration(d))
			}
			if r.w.now() >= int64(cs.Sim.End)*1e6 {
				return
			}
			conn := r.w.dialQuiet(j.Cap)
			if j.Cap > 0 {
				conn = slowConn{conn, j.Kbs}
			}
			rc := newRawClient(conn)
			var x joiner
			x.rc = rc
			for k, ch := range j.Ch {
				if k > 0 {
					time.Sleep(time.Duration(j.Gap) * time.Microsecond)
				}
				if ch == 1 && x.subMeta == 0 {
					x.subMeta = r.w.now() + r.w.T0
				}
				if ch == 0 && x.subAudio == 0 {
					x.subAudio = r.w.now() + r.w.T0
				}
				rc.send(&comm.SubscribeChannelRequest{Channel: comm.Channel(ch)})
			}
			mu.Lock()
			x.ready = true
			js[i] = x
			mu.Unlock()
		}()
	}
	vol := 0.1
	for _, o := range cs.Sim.Ops {
		r.w.sleepUntil(o.At)
		time.Sleep(377123 * time.Nanosecond)
		if o.Op != "volume" {
			r.do(o)
			continue
		}
		vol = float64(o.P) / 100
		out := r.adm.cmd(fmt.Sprintf("volume %v", vol))
		for n := 0; n < 12 && !contains(out, "volume to"); n++ { // it waits for slow clients
			time.Sleep(100 * time.Millisecond)
			out += cleanTerminal(r.adm.take(), "")
		}
		if !contains(out, "setting volume to") {
			c.Failf("command", "volume at %d ms answers %q", o.At, out)
		}
	}
	r.w.sleepUntil(cs.Sim.End)
	// nothing new from now on but what is in flight
	end := r.w.now() + r.w.T0
	cut := before(r.meta.messages(), end)
	time.Sleep(3 * time.Second)
	ref := knows(cut)
	if len(ref.vol) == 0 || ref.vol[len(ref.vol)-1] != vol {
		c.Failf("volume", "after all commands the volume is %v, a display from the start got %v", vol, ref.vol)
	}
	song := func(s *comm.NewSongInfo) string {
		if s == nil {
			return "none"
		}
		return fmt.Sprintf("%s@%d", s.SongFileName, s.FirstSampleOfSongIndex)
	}
	for i := range js {
		j := js[i]
		if !j.ready {
			continue
		}
		spec := cs.Joins[i]
		ms := j.rc.messages()
		k := knows(ms)
		if done, err := j.rc.closed(); done {
			c.Failf("closed", "joiner %d lost its connection: %v", i, err)
		}
		if len(k.vol) == 0 {
			c.Failf("volume", "joiner %d (%v) is sent no volume", i, spec)
		}
		if v := k.vol[len(k.vol)-1]; v != vol {
			c.Failf("volume", "joiner %d (%v) ends with volume %v, the others with %v; it got %v", i, spec, v, vol, k.vol)
		}
		if j.subMeta == 0 {
			if k.song != nil || len(k.hist) > 0 {
				c.Failf("player", "joiner %d, a player, got song and pause announcements", i)
			}
			if j.subAudio == 0 {
				continue
			}
		}
		if j.subAudio != 0 {
			// every chunk broadcast after the subscription
			for _, m := range before(r.audio.messages(), end) {
				if m.At > j.subAudio+1e6 && k.tags[tagOf(m.Msg)] == 0 {
					c.Failf("missed", "joiner %d misses %s, broadcast %v after it subscribed", i, tagOf(m.Msg), time.Duration(m.At-j.subAudio))
				}
			}
		}
		if j.subMeta == 0 {
			continue
		}
		// what was broadcast on the channel after the subscription
		for _, m := range cut {
			if _, isVol := m.Msg.(*comm.SetVolumeRequest); !isVol && m.At > j.subMeta+1e6 && k.tags[tagOf(m.Msg)] == 0 {
				c.Failf("missed", "joiner %d misses %s, broadcast %v after it subscribed", i, tagOf(m.Msg), time.Duration(m.At-j.subMeta))
			}
		}
		// the song
		old := knows(before(cut, j.subMeta-1e6))
		if ref.song != nil && (k.song == nil || k.song.FirstSampleOfSongIndex < ref.song.FirstSampleOfSongIndex) {
			c.Failf("song", "joiner %d (%v), subscribed at %v, ends with song %s, the others with %s", i, spec, time.Duration(j.subMeta-r.w.T0), song(k.song), song(ref.song))
		}
		if ref.song != nil && k.song.FirstSampleOfSongIndex == ref.song.FirstSampleOfSongIndex && !proto.Equal(k.song, ref.song) {
			c.Failf("song-differs", "joiner %d got another announcement of song %s than the others: %v and %v", i, song(ref.song), k.song, ref.song)
		}
		start := uint64(0)
		if ref.song != nil {
			start = ref.song.FirstSampleOfSongIndex
		}
		if spec.Cap == 0 && old.song != nil {
			// a fast one is told at once
			soon := knows(before(ms, j.subMeta+2e6))
			if soon.song == nil || soon.song.FirstSampleOfSongIndex < old.song.FirstSampleOfSongIndex {
				c.Failf("song-late", "joiner %d knows %s 2 ms after subscribing, others knew %s before", i, song(soon.song), song(old.song))
			}
			start = soon.song.FirstSampleOfSongIndex
			if m := sameHistory(old.hist, knows(before(append([]stamped{}, ms...), j.subMeta+2e6)).hist, start); m != "" && sameUntil(cut, j.subMeta-1e6, j.subMeta+3e6) {
				c.Failf("history-late", "joiner %d, 2 ms after subscribing: %s", i, m)
			}
		}
		full := ref.hist
		var mine []toggle
		for _, m := range ms {
			if p, ok := m.Msg.(*comm.PauseInfo); ok && ref.tags[tagOf(p)] > 0 {
				mine = append(mine, toggle{p.ToggleSampleIndex, p.Playing})
			}
		}
		if m := sameHistory(full, mine, start); m != "" {
			c.Failf("history", "joiner %d (%v), subscribed at %v: %s (complete %v, joiner %v)", i, spec, time.Duration(j.subMeta-r.w.T0), m, full, mine)
		}
		if old.song != nil || len(old.hist) > 0 {
			c.NonTrivial()
		}
		c.Count("displays joined", 1)
	}
}

// sameUntil: nothing but chunks was announced in (a, b].
func sameUntil(ms []stamped, a, b int64) bool {
	for _, m := range ms {
		if _, ok := m.Msg.(*comm.ChunkInfo); !ok && m.At > a && m.At <= b {
			return false
		}
	}
	return true
}

// ---- in real time, on all cores

type c15Race struct {
	Threads [][]c15Cmd `json:"threads"` // administrators
	Joins   int        `json:"joiners"`
	Every   int        `json:"every_us"`
	Early   int        `json:"early"` // displays connecting while the server starts
	Idle    bool       `json:"idle"`  // nothing is played
}

type c15Cmd struct {
	Cmd string `json:"cmd"`
	Gap int    `json:"gap_us"`
}

func genC15Race(t *rapid.T) interface{} {
	cs := c15Race{Joins: rapid.IntRange(4, 60).Draw(t, "joins"), Every: rapid.SampledFrom([]int{0, 20, 200, 2000}).Draw(t, "every")}
	cs.Early = rapid.IntRange(0, 4).Draw(t, "early")
	if cs.Idle = rapid.IntRange(0, 3).Draw(t, "idle") == 0; cs.Idle {
		cs.Early++
		cs.Joins /= 8
	}
	for i := rapid.IntRange(1, 3).Draw(t, "threads") - b2i(cs.Idle); i > 0; i-- {
		cs.Threads = append(cs.Threads, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c15Cmd {
			return c15Cmd{rapid.SampledFrom([]string{"pause", "resume", "jump 0", "jump 1", "volume", "volume", "volume"}).Draw(t, "cmd"), rapid.SampledFrom([]int{0, 10, 300, 3000}).Draw(t, "gap")}
		}), 3, 40).Draw(t, "cmds"))
	}
	return cs
}

func runC15Race(c *pbt.C, raw json.RawMessage) {
	var cs c15Race
	pbt.Decode(raw, &cs)
	w := newWorld(c)
	defer w.Close()
	const rate = 400000
	for i := 0; i < 3; i++ {
		s := Song{Name: fmt.Sprintf("s%d.mp3", i), ID: i + 1, N: 20000 + 5000*i}
		w.writeSong(s)
		writeLyrics(w.Audio, s.Name, 5*i)
	}
	// displays that connect as soon as the server listens
	early := make(chan *rawClient, cs.Early)
	for i := 0; i < cs.Early; i++ {
		go func() {
			for n := 0; n < 1000000; n++ {
				if j, err := dialRaw(w.Addr); err == nil {
					j.send(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})
					early <- j
					return
				}
			}
			early <- nil
		}()
	}
	w.startServer(ServerFlags{Rate: rate, ChunkSize: 2000, Nan: 1000, StartDelay: 1, Delay: 50})
	ref := w.dial(comm.Channel_META)
	run := rtAdmin(w)
	if !cs.Idle {
		run("queue s*.mp3", "added to playlist")
		run("resume", "playback resumed")
	}
	for n := 0; !cs.Idle && knows(ref.messages()).song == nil; n++ {
		if n > 10000 {
			c.Timeoutf("start", "no song starts within 10 s")
			return
		}
		time.Sleep(time.Millisecond)
	}
	var wg sync.WaitGroup
	for ti, cmds := range cs.Threads {
		ti, cmds := ti, cmds
		wg.Add(1)
		run := rtAdmin(w)
		go func() {
			defer wg.Done()
			for i, k := range cmds {
				switch {
				case k.Cmd == "volume":
					run(fmt.Sprintf("volume 0.%d%03d", ti+1, i+1), "setting volume to")
				case cs.Idle:
				case k.Cmd == "pause":
					run("pause", "playback paused")
				case k.Cmd == "resume":
					run("resume", "playback resumed")
				default:
					run(k.Cmd, "jumped to")
				}
				time.Sleep(time.Duration(k.Gap) * time.Microsecond)
			}
		}()
	}
	var js []*rawClient
	for i := 0; i < cs.Joins; i++ {
		j, err := dialRaw(w.Addr)
		if err != nil {
			c.Failf("dial", "%v", err)
		}
		defer j.conn.Close()
		j.send(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})
		js = append(js, j)
		time.Sleep(time.Duration(cs.Every) * time.Microsecond)
	}
	wg.Wait()
	for i := 0; i < cs.Early; i++ {
		if j := <-early; j != nil {
			js = append(js, j)
		}
	}
	if !cs.Idle {
		run("resume", "playback resumed")
		run("pause", "playback paused")
	}
	// now everything comes to rest, and everyone knows the same
	var msg, sig string
	deadline := time.Now().Add(c.Limit(15 * time.Second))
	for {
		sig, msg = "", ""
		all := ref.messages()
		r := knows(all)
		if !cs.Idle && (len(r.hist) == 0 || r.lastState()) {
			sig, msg = "pause", fmt.Sprintf("paused at the end, but a display from the start knows %v", r.hist)
		}
		for i, j := range js {
			ms := j.messages()
			k := knows(ms)
			switch {
			case len(r.vol) == 0 || len(k.vol) == 0 || k.vol[len(k.vol)-1] != r.vol[len(r.vol)-1]:
				sig, msg = "volume", fmt.Sprintf("joiner %d ends with volumes %v, a display from the start with %v", i, k.vol, r.vol)
			case cs.Idle:
			case k.song == nil || !proto.Equal(k.song, r.song):
				sig, msg = "song", fmt.Sprintf("joiner %d ends with song %v, a display from the start with %v", i, k.song, r.song)
			default:
				if m := sameHistory(r.hist, k.hist, r.song.FirstSampleOfSongIndex); m != "" {
					sig, msg = "history", fmt.Sprintf("joiner %d: %s (complete %v, joiner %v)", i, m, r.hist, k.hist)
				}
			}
			if sig != "" {
				break
			}
		}
		if sig == "" || time.Now().After(deadline) {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if sig != "" {
		c.Failf(sig, "%s", msg)
	}
	c.Count("joiners", len(js))
	c.NonTrivial()
}

func (k known) lastState() bool {
	h := append([]toggle{}, k.hist...)
	sort.SliceStable(h, func(a, b int) bool { return h[a].I < h[b].I })
	return h[len(h)-1].P
}

func init() {
	pbt.Register(pbt.Property{ID: "C15", Targets: []pbt.Target{
		{Name: "join", Mode: pbt.Fake, Gen: genC15, Run: runC15, Quick: 900, Thorough: 60000, Timeout: 60 * time.Second,
			Rule: "the real server in virtual time with any history of pauses, jumps, songs and volumes, and up to 10 clients joining at any moment, preferably at and next to commands and song starts, subscribing in any order and repeatedly, some over slow connections on which every message takes a while; volume, song, pause history and everything broadcast later against a display from the start; non-trivial: a display joins after a song or pause"},
		{Name: "join-race", Mode: pbt.Fresh, Gen: genC15Race, Run: runC15Race, Quick: 160, Thorough: 8000, Timeout: 90 * time.Second,
			Rule: "the real server in real time on all cores, 1-3 threads of commands as fast as they go while 4-60 displays join; at rest, everyone knows the same volume, song, state and accumulated pause; non-trivial: every case"},
	}})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// rtAdmin is an ssh session in real time: it runs commands and waits for their answers.
func rtAdmin(w *World) func(line, answer string) {
	var a *admin
	var err error
	for i := 0; i < 500; i++ { // the server may not be ready yet
		if a, err = w.dialAdmin(adminUser, xssh.Password(adminPass)); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		w.c.Failf("ssh", "admin cannot log in: %v", err)
	}
	return func(line, answer string) {
		a.take()
		a.in.Write([]byte(line + "\r"))
		out := ""
		for end := time.Now().Add(w.c.Limit(15 * time.Second)); !contains(out, answer); {
			if time.Now().After(end) {
				w.c.Errorf("command", "%s does not answer %q within 15 s but %q", line, answer, out)
				return
			}
			time.Sleep(50 * time.Microsecond)
			out += cleanTerminal(a.take(), line)
		}
	}
}
