package props

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

// badPiece is something a client sends.
type badPiece struct {
	Kind string `json:"kind"` // msg, len, env, type, zlib, zcut, inner, raw, flip, cut, bomb
	Msg  Msg    `json:"msg"`
	N    uint64 `json:"n,omitempty"`
	Pos  []int  `json:"pos,omitempty"`
	B    []byte `json:"b,omitempty"`
	S    string `json:"s,omitempty"`
	Frag int    `json:"frag"` // write size
	Gap  int    `json:"gap_us"`
}

var badKinds = []string{"len", "len", "env", "type", "zlib", "zcut", "inner", "raw", "flip", "flip", "cut"}

var badTypes = []string{"", "Envelope", "comm.Envelope", "nope", "comm.", ".", "NewSongInfo.SongMetadata", "comm.NewSongInfo.SongMetadata",
	"google.protobuf.Any", "QueueChunkRequest", "comm.QueueChunkRequest ", "COMM.PINGMESSAGE", "[]byte", "int"}

// genBadPiece draws one; kind "" draws the kind as well.
func genBadPiece(t *rapid.T, valid bool) badPiece {
	p := badPiece{Frag: rapid.SampledFrom([]int{1 << 30, 1 << 30, 1 << 30, 1, 7, 8, 9, 50}).Draw(t, "frag"), Gap: rapid.SampledFrom([]int{0, 0, 1, 100, 5000, 300000}).Draw(t, "gap")}
	p.Msg = genMsg(t, msgTypes, 60)
	if valid {
		p.Kind = "msg"
		if rapid.Bool().Draw(t, "time") {
			p.Msg = Msg{T: "tsreq", I: []int64{genI64(t, "client time")}}
		}
		return p
	}
	p.Kind = rapid.SampledFrom(badKinds).Draw(t, "kind")
	rawBytes := func() []byte {
		return rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 0xff, 0x7f, 0x80, 8, 10, 18, 0x78})), 0, 60).Draw(t, "bytes")
	}
	switch p.Kind {
	case "len":
		p.N = rapid.OneOf(rapid.Custom(func(t *rapid.T) uint64 {
			return uint64(1)<<rapid.IntRange(0, 63).Draw(t, "bit") + uint64(rapid.IntRange(-1, 1).Draw(t, "d"))
		}), rapid.Uint64(), rapid.Uint64Range(0, 40)).Draw(t, "n")
		p.B = rawBytes()
	case "env", "raw", "zlib", "inner":
		p.B = rawBytes()
	case "type":
		p.S = rapid.OneOf(rapid.SampledFrom(badTypes), rapid.StringN(0, 8, -1)).Draw(t, "type")
	case "flip":
		p.Pos = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 200), rapid.IntRange(0, 5000)), 1, 6).Draw(t, "pos")
	case "cut", "zcut":
		p.N = uint64(rapid.IntRange(0, 1000).Draw(t, "per mille"))
	}
	return p
}

func zlibOf(b []byte) []byte { return zlibLevel(b, 5) }

func withLen(env []byte) []byte {
	out := make([]byte, 8+len(env))
	binary.LittleEndian.PutUint64(out, uint64(len(env)))
	copy(out[8:], env)
	return out
}

// bytes builds what is sent.
func (p badPiece) bytes() []byte {
	m := p.Msg.Proto()
	name := proto.MessageName(m)
	inner, _ := proto.Marshal(m)
	frame := encodeFrame(m)
	switch p.Kind {
	case "msg":
		return frame
	case "len":
		out := make([]byte, 8, 80)
		binary.LittleEndian.PutUint64(out, p.N)
		return append(out, p.B...)
	case "env":
		return withLen(p.B)
	case "type":
		return encodeEnvelope(strings.ToValidUTF8(p.S, "?"), zlibOf(inner))
	case "zlib":
		return encodeEnvelope(name, p.B)
	case "zcut":
		z := zlibOf(inner)
		return encodeEnvelope(name, z[:len(z)*int(p.N)/1001])
	case "inner":
		return encodeEnvelope(name, zlibOf(p.B))
	case "raw":
		return p.B
	case "flip":
		out := append([]byte{}, frame...)
		for _, x := range p.Pos {
			out[x%len(out)] ^= 1 << (x / len(out) % 8)
		}
		return out
	case "cut":
		return frame[:len(frame)*int(p.N)/1001]
	}
	panic("harness: bad piece " + p.Kind)
}

func writeFrags(conn net.Conn, b []byte, frag int, pause time.Duration) error {
	for len(b) > 0 {
		n := frag
		if n > len(b) {
			n = len(b)
		}
		if _, err := conn.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if pause > 0 && len(b) > 0 {
			time.Sleep(pause)
		}
	}
	return nil
}

// ---- the whole server in virtual time

type c11Bad struct {
	At     int        `json:"at_ms"`
	Ch     []int      `json:"channels"`
	Pieces []badPiece `json:"pieces"`
	End    string     `json:"end"` // close, stay, half, reset
	Again  int        `json:"again"`
}

type c11Case struct {
	Sim  simCase  `json:"sim"`
	Bad  []c11Bad `json:"bad"`
	Join []int    `json:"joins_ms"`
}

func genC11Bad(t *rapid.T, end int) c11Bad {
	b := c11Bad{At: rapid.OneOf(rapid.IntRange(20, 100), rapid.IntRange(20, end)).Draw(t, "at"),
		Ch:  rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 0, 1, 2, -1, 1 << 30}), 0, 3).Draw(t, "ch"),
		End: rapid.SampledFrom([]string{"close", "stay", "half", "stay", "reset"}).Draw(t, "end"), Again: rapid.SampledFrom([]int{0, 0, 0, 1, 30}).Draw(t, "again")}
	for i := rapid.IntRange(0, 3).Draw(t, "good"); i > 0; i-- {
		b.Pieces = append(b.Pieces, genBadPiece(t, true))
	}
	for i := rapid.IntRange(0, 4).Draw(t, "bad"); i > 0; i-- {
		b.Pieces = append(b.Pieces, genBadPiece(t, rapid.IntRange(0, 4).Draw(t, "valid") == 0))
	}
	return b
}

func genC11(t *rapid.T) interface{} {
	cs := c11Case{}
	rate := rapid.SampledFrom([]int{2000, 4000}).Draw(t, "rate")
	f := ServerFlags{Rate: rate, ChunkSize: rapid.IntRange(rate/8, rate).Draw(t, "chunk"), Nan: rapid.IntRange(0, rate/2).Draw(t, "nan"),
		StartDelay: rapid.IntRange(0, 300).Draw(t, "start"), Delay: rapid.IntRange(1000, 3000).Draw(t, "delay")}
	s := simCase{Flags: f}
	for i := 0; i < 2; i++ {
		s.Songs = append(s.Songs, Song{Name: fmt.Sprintf("s%d.mp3", i), ID: i + 1, N: rapid.IntRange(rate/2, 3*rate).Draw(t, "len")})
		s.Ops = append(s.Ops, simOp{At: 10 * (i + 1), Op: "queue", S: i})
	}
	s.Ops = append(s.Ops, simOp{At: 50, Op: "resume"})
	s.End = rapid.IntRange(1500, 6000).Draw(t, "end")
	if rapid.IntRange(0, 2).Draw(t, "music") == 0 {
		s.End += noSong * 1000 / rate
	}
	at := 60
	for i := rapid.IntRange(0, 4).Draw(t, "ops"); i > 0; i-- {
		at += rapid.IntRange(7, s.End/3).Draw(t, "gap")
		if at < s.End-10 {
			s.Ops = append(s.Ops, simOp{At: at, Op: rapid.SampledFrom([]string{"pause", "resume", "queue", "jump"}).Draw(t, "op"), P: 1})
		}
	}
	cs.Sim = s
	for i := rapid.IntRange(1, 6).Draw(t, "bads"); i > 0; i-- {
		cs.Bad = append(cs.Bad, genC11Bad(t, s.End))
	}
	for i := rapid.IntRange(0, 2).Draw(t, "joins"); i > 0; i-- {
		cs.Join = append(cs.Join, rapid.IntRange(100, s.End).Draw(t, "join"))
	}
	return cs
}

func runC11(c *pbt.C, raw json.RawMessage) {
	var cs c11Case
	pbt.Decode(raw, &cs)
	r := simServe(c, cs.Sim)
	defer r.w.Close()
	before := runtime.NumGoroutine()
	var mu sync.Mutex
	malformed := 0
	var conns []net.Conn
	for i, b := range cs.Bad {
		for again := 0; again <= b.Again; again++ {
			i, b, again := i, b, again
			go func() {
				r.w.sleepUntil(b.At + 3*again)
				time.Sleep(time.Duration(523+i) * time.Microsecond)
				if r.w.now() >= int64(cs.Sim.End)*1e6 {
					return
				}
				conn := r.w.dialQuiet(0)
				mu.Lock()
				conns = append(conns, conn)
				mu.Unlock()
				rc := newRawClient(conn)
				for _, ch := range b.Ch {
					conn.Write(encodeFrame(&comm.SubscribeChannelRequest{Channel: comm.Channel(ch)}))
				}
				ok := true
				want := 0
				lastAsk := int64(0)
				for _, p := range b.Pieces {
					time.Sleep(time.Duration(p.Gap) * time.Microsecond)
					if ok && p.Kind != "msg" {
						// what was asked (a little) before must have been answered
						if now := r.w.now(); now-lastAsk >= 1000 {
							c11Answers(c, rc, want, i)
						}
						ok = false
					}
					if p.Kind != "msg" {
						mu.Lock()
						malformed++
						mu.Unlock()
					} else if ok && (p.Msg.T == "tsreq" || p.Msg.T == "ping") {
						want++
					}
					pause := time.Duration(0)
					if p.Frag < 100 && p.Gap%2 == 1 {
						pause = time.Microsecond
					}
					if writeFrags(conn, p.bytes(), p.Frag, pause) != nil {
						break
					}
					lastAsk = r.w.now()
				}
				switch b.End {
				case "close", "reset":
					time.Sleep(100 * time.Microsecond)
					conn.Close()
				case "half":
					time.Sleep(100 * time.Microsecond)
					conn.(interface{ CloseWrite() error }).CloseWrite()
				}
				if ok {
					time.Sleep(5 * time.Millisecond)
					if b.End == "stay" {
						c11Answers(c, rc, want, i)
					}
				}
			}()
		}
	}
	type joiner struct {
		at int64
		rc *rawClient
	}
	joiners := make([]joiner, len(cs.Join))
	for i, at := range cs.Join {
		i, at := i, at
		go func() {
			r.w.sleepUntil(at)
			time.Sleep(700 * time.Microsecond)
			rc := r.w.dial(comm.Channel_AUDIO, comm.Channel_META)
			mu.Lock()
			joiners[i] = joiner{r.w.now(), rc}
			mu.Unlock()
		}()
	}
	for _, o := range cs.Sim.Ops {
		r.w.sleepUntil(o.At)
		time.Sleep(377123 * time.Nanosecond)
		r.do(o)
	}
	r.w.sleepUntil(cs.Sim.End)
	time.Sleep(501 * time.Microsecond)
	r.collect()
	for i, j := range joiners {
		if j.rc == nil || r.w.now()-j.at < 50e6 {
			continue
		}
		vol := false
		k := -1
		for _, m := range j.rc.messages() {
			switch x := m.Msg.(type) {
			case *comm.SetVolumeRequest:
				vol = vol || m.At-r.w.T0-j.at < 20e6
			case *comm.QueueChunkRequest:
				if k >= 0 && int(x.ChunkId) != k+1 {
					c.Failf("join-chunks", "joiner %d got chunk %d after %d", i, x.ChunkId, k)
				}
				k = int(x.ChunkId)
				if at := m.At - r.tick(k+1); at > 20e6 {
					c.Failf("join-late", "joiner %d got chunk %d %v late", i, k, time.Duration(at))
				}
			}
		}
		if !vol {
			c.Failf("join", "joiner %d is not sent the volume within 20 ms", i)
		}
		if k < len(r.chunks)-1 && r.w.now()-j.at > 2*int64(cs.Sim.Flags.chunkDur()) {
			c.Failf("join-chunks", "joiner %d got chunks until %d, there are %d", i, k, len(r.chunks))
		}
	}
	// a new client is served, too
	last := r.w.dial(comm.Channel_AUDIO)
	last.send(&comm.TimeSyncRequest{ClientSend: 5})
	time.Sleep(50 * time.Millisecond)
	if n := len(last.messages()); n < 2 {
		c.Failf("new-client", "a client that connects after all that gets %d messages instead of the volume and its time answer within 50 ms", n)
	}
	last.conn.Close()
	for _, cn := range conns {
		cn.Close()
	}
	for _, j := range joiners {
		if j.rc != nil {
			j.rc.conn.Close()
		}
	}
	time.Sleep(3 * time.Second)
	if n := runtime.NumGoroutine(); n > before+4 {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		c.Failf("leak", "%d goroutines before the clients came, %d after they are gone: %.3000s", before, n, buf)
	}
	c.Count("malformed", malformed)
	if malformed > 0 && len(r.chunks) > 1 {
		c.NonTrivial()
	}
}

// c11Answers fails if fewer than want time answers and pongs have come.
func c11Answers(c *pbt.C, rc *rawClient, want, i int) {
	n := 0
	for _, m := range rc.messages() {
		switch m.Msg.(type) {
		case *comm.TimeSyncResponse, *comm.PongMessage:
			n++
		}
	}
	if n != want {
		c.Errorf("answers", "client %d sent %d time requests and pings before anything malformed and got %d answers", i, want, n)
	}
}

// ---- many connections at once on all cores

type c11Real struct {
	Bad   []c11Bad `json:"bad"`
	Sends []int    `json:"sends"` // kinds of messages
}

func genC11Real(t *rapid.T) interface{} {
	cs := c11Real{Sends: rapid.SliceOfN(rapid.IntRange(0, 5), 1, 20).Draw(t, "sends")}
	for i := rapid.IntRange(1, 5).Draw(t, "bads"); i > 0; i-- {
		cs.Bad = append(cs.Bad, genC11Bad(t, 100))
	}
	return cs
}

func runC11Real(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c11Real
	pbt.Decode(raw, &cs)
	m := comm.VerifNewMulti()
	l := newMemListener()
	defer l.Close()
	comm.NewClientHandler = func(ch comm.Channel, s comm.MessageSender) {
		if ch == 0 || ch == 1 {
			s.SendMessage(&comm.PongMessage{})
		}
	}
	go comm.VerifAccept(m, l)
	good := func(name string) *rawClient {
		a, b := memPair(name, 0)
		l.ch <- a
		rc := newRawClient(b)
		rc.send(&comm.SubscribeChannelRequest{Channel: 0})
		rc.send(&comm.SubscribeChannelRequest{Channel: 1})
		for n := 0; len(rc.messages()) < 2; n++ {
			if n > 25000 {
				c.Timeoutf("served", "%s is not served within 5 s", name)
			}
			time.Sleep(200 * time.Microsecond)
		}
		return rc
	}
	g := good("good")
	defer g.conn.Close()
	var wg sync.WaitGroup
	malformed := 0
	for i, b := range cs.Bad {
		for again := 0; again <= b.Again; again++ {
			for _, p := range b.Pieces {
				if p.Kind != "msg" {
					malformed++
				}
			}
			wg.Add(1)
			i, b := i, b
			go func() {
				defer wg.Done()
				x, y := memPair(fmt.Sprint("bad", i), 0)
				l.ch <- x
				rc := newRawClient(y)
				defer func() {
					if b.End == "reset" {
						y.Reset()
					}
					y.Close()
					// the connection is over: the server gives up its end, too
					if b.End == "stay" {
						return
					}
					for n := 0; !x.isClosed(); n++ {
						if n > 25000 {
							c.Errorf("not-closed", "5 s after a client is gone (%s) its connection is still open", b.End)
							return
						}
						time.Sleep(200 * time.Microsecond)
					}
				}()
				for _, ch := range b.Ch {
					y.Write(encodeFrame(&comm.SubscribeChannelRequest{Channel: comm.Channel(ch)}))
				}
				for _, p := range b.Pieces {
					if writeFrags(y, p.bytes(), p.Frag, 0) != nil {
						break
					}
				}
				if b.End == "stay" {
					time.Sleep(2 * time.Millisecond)
				}
				_ = rc
			}()
		}
	}
	var want []string
	for i, k := range cs.Sends {
		msg, _ := kindMsg(k, i)
		want = append(want, tagOf(msg))
		m.SendMessage(msg)
		time.Sleep(time.Duration(i%4) * 50 * time.Microsecond)
	}
	wg.Wait()
	for n := 0; len(g.messages()) < len(want)+2 && n < 5000; n++ {
		time.Sleep(time.Millisecond)
	}
	var got []string
	for _, s := range g.messages() {
		if _, ok := s.Msg.(*comm.PongMessage); !ok {
			got = append(got, tagOf(s.Msg))
		}
	}
	if strings.Join(got, ",") != strings.Join(want, ",") {
		c.Failf("stable", "a client subscribed throughout got %v instead of %v", got, want)
	}
	n := good("new")
	m.SendMessage(&comm.SetVolumeRequest{Volume: 0.25})
	for k := 0; len(n.messages()) < 3; k++ {
		if k > 25000 {
			c.Timeoutf("new", "a new client does not get a broadcast within 5 s")
		}
		time.Sleep(200 * time.Microsecond)
	}
	n.conn.Close()
	if malformed > 0 {
		c.NonTrivial()
	}
	c.Count("malformed", malformed)
}

// ---- small messages that grow when they are unpacked

type c11Bomb struct {
	GB    int    `json:"gb"`
	Type  string `json:"type"`
	Conns int    `json:"conns"`
}

func genC11Bomb(t *rapid.T) interface{} {
	return c11Bomb{rapid.IntRange(1, 6).Draw(t, "gb"), rapid.SampledFrom([]string{"QueueChunkRequest", "PingMessage", "TimeSyncRequest", "NewSongInfo"}).Draw(t, "type"), rapid.IntRange(1, 2).Draw(t, "conns")}
}

func bombData(gb int) []byte {
	zero := make([]byte, 1<<20)
	for i := 0; i+10 <= len(zero); i += 2 {
		zero[i], zero[i+1] = 8, 0
	}
	var b bytes.Buffer
	w, _ := flate.NewWriter(&b, 9)
	w.Write(zero)
	w.Flush() // ends on a byte boundary: it can be repeated
	return append([]byte{0x78, 0xda}, bytes.Repeat(b.Bytes(), gb<<10)...)
}

func runC11Bomb(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c11Bomb
	pbt.Decode(raw, &cs)
	m := comm.VerifNewMulti()
	l := newMemListener()
	defer l.Close()
	comm.NewClientHandler = func(comm.Channel, comm.MessageSender) {}
	go comm.VerifAccept(m, l)
	a, b := memPair("good", 0)
	l.ch <- a
	g := newRawClient(b)
	g.send(&comm.SubscribeChannelRequest{Channel: 0})
	frame := encodeEnvelope("comm."+cs.Type, bombData(cs.GB))
	if err := syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}); err != nil {
		c.Harnessf("%v", err)
	}
	for i := 0; i < cs.Conns; i++ {
		x, y := memPair(fmt.Sprint("bomb", i), 0)
		l.ch <- x
		newRawClient(y)
		y.Write(frame)
		end := time.Now().Add(c.Limit(20 * time.Second))
		for !x.isClosed() && time.Now().Before(end) {
			time.Sleep(10 * time.Millisecond)
			m.SendMessage(&comm.SetVolumeRequest{Volume: 0.5})
			if len(g.messages()) > 2000 {
				break
			}
		}
	}
	k := len(g.messages())
	m.SendMessage(&comm.SetVolumeRequest{Volume: 0.75})
	for n := 0; len(g.messages()) == k && n < 1000; n++ {
		time.Sleep(time.Millisecond)
	}
	if len(g.messages()) == k {
		c.Failf("not-served", "after a message of %d bytes that unpacks to %d GB others are not served", len(frame), cs.GB)
	}
	c.NonTrivial()
}

func init() {
	pbt.Register(pbt.Property{ID: "C11", Targets: []pbt.Target{
		{Name: "bad-input-server", Mode: pbt.Fake, Gen: genC11, Run: runC11, Quick: 600, Thorough: 50000, Timeout: 60 * time.Second,
			Rule: "the real server in virtual time while 1-6 clients (some 31 times over) subscribe, send valid messages of all kinds and then malformed ones (wrong lengths of any size, broken envelopes, types, compression, contents, flipped bits, cut frames, garbage; in one piece or byte by byte), then close, half-close or stay: the others' chunks, announcements and commands on time, new clients served, valid requests before the malformed one answered, nothing left behind; non-trivial: something malformed was sent and there were chunks"},
		{Name: "bad-input-many", Mode: pbt.Pure, Gen: genC11Real, Run: runC11Real, Quick: 1500, Thorough: 200000, Timeout: 60 * time.Second,
			Rule: "the same input on all cores, many connections at once, during broadcasts; who is subscribed throughout gets each message once, in order, and a new client is served; non-trivial: something malformed was sent"},
		{Name: "bomb", Mode: pbt.Fresh, Gen: genC11Bomb, Run: runC11Bomb, Quick: 6, Thorough: 60, Timeout: 120 * time.Second,
			Rule: "messages of a few MB that unpack to 1-6 GB, with 3 GB of memory; the server survives and serves the others; non-trivial: every case"},
	}})
}
