package props

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

type logHandler struct {
	mu  sync.Mutex
	got []proto.Message
	bad string
	c   net.Conn
}

func (h *logHandler) Handle(m proto.Message, sender net.Conn) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.got = append(h.got, m)
	if sender != h.c {
		h.bad = "the handler was called with another connection"
	}
}

// frags draws sizes of successive fragments; small ones and ones at frame structure boundaries matter most.
func genFrags(t *rapid.T, label string) []int {
	return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 9), rapid.SampledFrom([]int{1, 7, 8, 9, 16, 4096, 1 << 20}), rapid.IntRange(1, 300)), 1, 12).Draw(t, label)
}

func cycler(l []int) func() int {
	i := -1
	return func() int {
		i++
		return l[i%len(l)]
	}
}

// ---- sending: what sendWire puts on the wire, under short writes

type c10Send struct {
	Msgs  []Msg `json:"msgs"`
	Frags []int `json:"frags"`
}

func genC10Send(t *rapid.T) interface{} {
	return c10Send{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Msg { return genSized(t, 4000) }), 1, 5).Draw(t, "msgs"), genFrags(t, "frags")}
}

func runC10Send(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c10Send
	pbt.Decode(raw, &cs)
	a, b := memPair("wire", 0)
	next := cycler(cs.Frags)
	a.onWrite = func(int, []byte) (time.Duration, int, error) { return 0, next(), nil }
	var want []proto.Message
	for i, d := range cs.Msgs {
		m := d.Proto()
		want = append(want, m)
		var err error
		if i%2 == 0 {
			err = comm.VerifSendWire(m, a)
		} else {
			err = comm.VerifSingleSender(a).SendMessage(m)
		}
		if err != nil {
			c.Failf("send-error", "sending %s failed: %v", d.T, err)
		}
		c.Class(d.T)
	}
	a.Close()
	all, _ := io.ReadAll(b)
	rest := bytes.NewReader(all)
	for i, m := range want {
		start := len(all) - rest.Len()
		got, err := decodeFrame(rest)
		if err != nil {
			c.Failf("wire-format", "message %d (%s): the bytes on the wire do not decode: %v", i, cs.Msgs[i].T, err)
		}
		if canon(got) != canon(m) {
			c.Failf("wire-content", "message %d: sent %v, on the wire %v", i, m, got)
		}
		n := binary.LittleEndian.Uint64(all[start:])
		env := &comm.Envelope{}
		if err := proto.Unmarshal(all[start+8:start+8+int(n)], env); err != nil {
			c.Failf("wire-format", "message %d: no envelope after the length: %v", i, err)
		}
		if env.Type != proto.MessageName(m) {
			c.Failf("wire-type", "message %d: type %q on the wire, want %q", i, env.Type, proto.MessageName(m))
		}
	}
	if rest.Len() != 0 {
		c.Failf("wire-rest", "%d bytes too many on the wire", rest.Len())
	}
	if len(want) > 1 && len(all) > 100 {
		c.NonTrivial()
	}
}

// ---- receiving: any split of the byte stream, any zlib level

type c10Recv struct {
	Msgs   []Msg `json:"msgs"`
	Levels []int `json:"levels"`
	Frags  []int `json:"frags"` // read sizes
	Cut    int   `json:"cut"`   // >=0: the stream ends after Cut per mille of it
	Split  []int `json:"split"` // zlib flushes
}

func genC10Recv(t *rapid.T) interface{} {
	cut := -1
	if rapid.Bool().Draw(t, "cut?") {
		cut = rapid.IntRange(0, 1000).Draw(t, "cut")
	}
	return c10Recv{
		Msgs:   rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Msg { return genSized(t, 3000) }), 0, 6).Draw(t, "msgs"),
		Levels: rapid.SliceOfN(rapid.IntRange(-2, 9), 1, 3).Draw(t, "levels"),
		Frags:  genFrags(t, "frags"),
		Cut:    cut,
	}
}

func zlibLevel(b []byte, level int) []byte {
	var z bytes.Buffer
	w, err := zlib.NewWriterLevel(&z, level)
	if err != nil {
		panic("harness: " + err.Error())
	}
	w.Write(b[:len(b)/2])
	if len(b)%2 == 1 {
		w.Flush()
	}
	w.Write(b[len(b)/2:])
	w.Close()
	return z.Bytes()
}

func runC10Recv(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c10Recv
	pbt.Decode(raw, &cs)
	var stream []byte
	var ends []int
	var want []proto.Message
	for i, d := range cs.Msgs {
		m := d.Proto()
		inner, _ := proto.Marshal(m)
		stream = append(stream, encodeEnvelope(proto.MessageName(m), zlibLevel(inner, cs.Levels[i%len(cs.Levels)]))...)
		ends = append(ends, len(stream))
		want = append(want, m)
	}
	n := len(stream)
	if cs.Cut >= 0 {
		n = len(stream) * cs.Cut / 1000
	}
	complete := 0
	for complete < len(ends) && ends[complete] <= n {
		complete++
	}
	a, b := memPair("wire", 0)
	a.maxRead = cycler(cs.Frags)
	b.Write(stream[:n])
	b.Close()
	h := &logHandler{c: a}
	done := make(chan struct{})
	go func() {
		comm.VerifHandleConnection(a, h)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(c.Limit(10 * time.Second)):
		c.Timeoutf("recv-hang", "the connection ended but is still being read")
	}
	if !a.isClosed() {
		c.Failf("not-closed", "a connection that ended was not closed")
	}
	if h.bad != "" {
		c.Failf("wrong-conn", "%s", h.bad)
	}
	for i := range h.got {
		if i >= complete {
			c.Failf("invented", "message %d was recognised although only %d arrived completely: %v", i, complete, h.got[i])
		}
		if canon(h.got[i]) != canon(want[i]) {
			c.Failf("recv-content", "message %d: sent %v, received %v", i, want[i], h.got[i])
		}
	}
	if len(h.got) != complete {
		c.Failf("lost", "%d messages arrived completely, %d were recognised", complete, len(h.got))
	}
	if complete >= 2 {
		c.NonTrivial()
	}
	if cs.Cut >= 0 && complete < len(ends) {
		c.Class("cut inside a message")
	}
	c.Class(fmt.Sprintf("%d messages", complete))
}

// ---- both ends of the real code over a real TCP connection

type c10TCP struct {
	Msgs  []Msg `json:"msgs"`
	Frags []int `json:"frags"`
	Buf   int   `json:"buf"`
}

func runC10TCP(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c10TCP
	pbt.Decode(raw, &cs)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Harnessf("%v", err)
	}
	defer l.Close()
	type acc struct {
		c   net.Conn
		err error
	}
	ch := make(chan acc, 1)
	go func() { x, err := l.Accept(); ch <- acc{x, err} }()
	a, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		c.Harnessf("%v", err)
	}
	ac := <-ch
	if ac.err != nil {
		c.Harnessf("%v", ac.err)
	}
	if cs.Buf > 0 {
		a.(*net.TCPConn).SetWriteBuffer(cs.Buf)
		ac.c.(*net.TCPConn).SetReadBuffer(cs.Buf)
	}
	// a relay of the harness splits the stream into arbitrary packets
	relayA, relayB := memPair("relay", 0)
	for _, m := range cs.Msgs {
		if len(m.I) == 4 {
			for i := range cs.Frags {
				cs.Frags[i] = cs.Frags[i]*331 + 7
			}
			break
		}
	}
	next := cycler(cs.Frags)
	relayB.maxRead = next
	go func() {
		io.CopyBuffer(struct{ io.Writer }{relayA}, ac.c, make([]byte, 1+cs.Frags[0]))
		relayA.Close()
	}()
	h := &logHandler{c: relayB}
	done := make(chan struct{})
	go func() { comm.VerifHandleConnection(relayB, h); close(done) }()
	for _, d := range cs.Msgs {
		if err := comm.VerifSendWire(d.Proto(), a); err != nil {
			c.Failf("send-error", "sending %s failed: %v", d.T, err)
		}
	}
	a.Close()
	select {
	case <-done:
	case <-time.After(c.Limit(15 * time.Second)):
		c.Timeoutf("tcp-hang", "messages did not arrive")
	}
	ac.c.Close()
	if len(h.got) != len(cs.Msgs) {
		c.Failf("lost", "%d messages sent, %d received", len(cs.Msgs), len(h.got))
	}
	for i, d := range cs.Msgs {
		if canon(h.got[i]) != canon(d.Proto()) {
			c.Failf("recv-content", "message %d: sent %v, received %v", i, d.Proto(), h.got[i])
		}
	}
	if len(cs.Msgs) > 1 {
		c.NonTrivial()
	}
}

// ---- many connections at the same time, on real threads

type c10Crowd struct {
	Conns  int   `json:"conns"`
	Rounds int   `json:"rounds"`
	Msgs   []Msg `json:"msgs"`
	Fat    int   `json:"fat"` // length of the file name of the song message that connections differ by
	Frags  []int `json:"frags"`
}

func runC10Crowd(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c10Crowd
	pbt.Decode(raw, &cs)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < cs.Conns; g++ {
		var want []proto.Message
		for r := 0; r < cs.Rounds; r++ {
			want = append(want, &comm.NewSongInfo{FirstSampleOfSongIndex: uint64(g*1000 + r), SongLength: int64(g * r),
				SongFileName: string(bytes.Repeat([]byte{byte('a' + g)}, 1+(cs.Fat*(g+1)+r*37)%2000))})
			want = append(want, cs.Msgs[(g+r)%len(cs.Msgs)].Proto())
		}
		a, b := memPair("wire", 0)
		if g%2 == 0 {
			b.maxRead = cycler(cs.Frags)
		}
		h := &logHandler{c: b}
		read := make(chan struct{})
		go func() {
			comm.VerifHandleConnection(b, h)
			close(read)
		}()
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, m := range want {
				if err := comm.VerifSendWire(m, a); err != nil {
					c.Errorf("send-error", "connection %d: sending %s failed: %v", g, proto.MessageName(m), err)
				}
			}
			a.Close()
			<-read
			for i, m := range h.got {
				if i >= len(want) || canon(m) != canon(want[i]) {
					c.Errorf("recv-content", "connection %d: message %d: received %v, should be %v", g, i, m, want[min(i, len(want)-1)])
					return
				}
			}
			if len(h.got) != len(want) {
				c.Errorf("lost", "connection %d: %d messages sent, %d received", g, len(want), len(h.got))
			}
		}(g)
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(c.Limit(20 * time.Second)):
		c.Timeoutf("crowd-hang", "messages did not arrive")
	}
	if cs.Conns > 3 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C10", Targets: []pbt.Target{
		{Name: "wire-send", Mode: pbt.Pure, Gen: genC10Send, Run: runC10Send, Quick: 6000, Thorough: 600000,
			Rule: "1-5 messages of all 10 types with arbitrary field values (NaN payloads, extreme numbers, Unicode, empty) are sent through short writes; an independent decoder must read back exactly these from the bytes, with the documented framing; non-trivial: at least two messages and over 100 bytes"},
		{Name: "wire-recv", Mode: pbt.Pure, Gen: genC10Recv, Run: runC10Recv, Quick: 12000, Thorough: 1200000,
			Rule: "0-6 messages from an independent encoder (any zlib level and flushes) arrive in arbitrary fragments, half of the streams cut at an arbitrary byte: the handler must get exactly the complete messages, equal and in order, and the connection must be closed at the end; non-trivial: at least two complete messages"},
		{Name: "wire-crowd", Mode: pbt.Pure, Quick: 300, Thorough: 20000, Run: runC10Crowd,
			Gen: func(t *rapid.T) interface{} {
				return c10Crowd{rapid.IntRange(2, 24).Draw(t, "conns"), rapid.IntRange(1, 20).Draw(t, "rounds"),
					rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Msg { return genMsg(t, msgTypes, 400) }), 1, 5).Draw(t, "msgs"),
					rapid.IntRange(0, 500).Draw(t, "fat"), genFrags(t, "frags")}
			},
			Rule: "2-24 connections on real threads, each with its own sender and receiver of the real code and 2-40 messages of its own, all at the same time: every receiver must get exactly the messages sent on its connection; non-trivial: more than three connections"},
		{Name: "wire-tcp", Mode: pbt.Pure, Quick: 1600, Thorough: 100000, Run: runC10TCP,
			Gen: func(t *rapid.T) interface{} {
				return c10TCP{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Msg { return genMsg(t, msgTypes, 12000) }), 1, 6).Draw(t, "msgs"),
					genFrags(t, "frags"), rapid.SampledFrom([]int{0, 4096, 65536}).Draw(t, "buf")}
			},
			Rule: "sender and receiver of the real code joined by a TCP connection with small buffers and a relay that re-fragments; messages up to 12000 samples; non-trivial: more than one message"},
	}})
}
