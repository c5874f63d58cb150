package props

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

// C14: many goroutines send to the same connections at the same time. Every
// Write on a connection is atomic but takes (virtual) time, so that senders
// which do not send a frame with one Write, or without mutual exclusion, mix.

type c14Send struct {
	At   int `json:"at"` // microseconds
	Kind int `json:"k"`  // which way
	Conn int `json:"c"`
	Msg  Msg `json:"m"`
}

type c14Case struct {
	Conns  int       `json:"conns"`
	Delays []int     `json:"delays"` // write durations in microseconds
	Sends  []c14Send `json:"sends"`
	Subs   int       `json:"subs"` // messages sent on subscription
}

// genSized is genMsg with some chunks of the size the server really sends.
func genSized(t *rapid.T, maxSamples int) Msg {
	if rapid.IntRange(0, 11).Draw(t, "big") == 0 {
		return Msg{T: "chunk", U: genU64(t, "first"), I: []int64{genI64(t, "i"), genI64(t, "i"),
			int64(rapid.SampledFrom([]int{2500, 6000, 9000, 17000, 35000, 70000, 140000}).Draw(t, "samples")), genI64(t, "seed")}}
	}
	return genMsg(t, msgTypes, maxSamples)
}

func genC14(t *rapid.T) interface{} {
	cs := c14Case{Conns: rapid.IntRange(1, 3).Draw(t, "conns"), Subs: rapid.IntRange(0, 4).Draw(t, "subs")}
	cs.Delays = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 5, 10, 30, 100}), 1, 8).Draw(t, "delays")
	cs.Sends = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c14Send {
		s := c14Send{At: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 10, 50, 100}).Draw(t, "at"), Kind: rapid.IntRange(0, 5).Draw(t, "kind"), Conn: rapid.IntRange(0, cs.Conns-1).Draw(t, "conn")}
		if s.Kind <= 1 {
			s.Msg = genSized(t, 400)
		}
		return s
	}), 2, 24).Draw(t, "sends")
	return cs
}

func runC14(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	keepAlive()
	var cs c14Case
	pbt.Decode(raw, &cs)
	m := comm.VerifNewMulti()
	l := newMemListener()
	subMsgs := make([]proto.Message, cs.Subs)
	for i := range subMsgs {
		subMsgs[i] = &comm.PauseInfo{Playing: i%2 == 0, ToggleSampleIndex: uint64(1000 + i)}
	}
	comm.NewClientHandler = func(ch comm.Channel, s comm.MessageSender) {
		if ch == 77 {
			for _, x := range subMsgs {
				s.SendMessage(x)
			}
		}
	}
	go comm.VerifAccept(m, l)
	var srv, cl []*memConn
	var rc []*rawClient
	upDelay := func() func(int, []byte) (time.Duration, int, error) {
		var mu sync.Mutex
		n := cycler(cs.Delays)
		return func(int, []byte) (time.Duration, int, error) {
			mu.Lock()
			defer mu.Unlock()
			return time.Duration(n()) * time.Microsecond, 0, nil
		}
	}
	for i := 0; i < cs.Conns; i++ {
		a, b := memPair(fmt.Sprint("c", i), 0)
		a.onWrite, b.onWrite = upDelay(), upDelay()
		srv, cl = append(srv, a), append(cl, b)
		rc = append(rc, newRawClient(b))
		l.ch <- a
	}
	time.Sleep(time.Microsecond)
	for i := range cl { // everybody subscribes to all channels
		cl[i].out.write(append(encodeFrame(&comm.SubscribeChannelRequest{Channel: 0}), encodeFrame(&comm.SubscribeChannelRequest{Channel: 1})...))
	}
	time.Sleep(time.Microsecond)
	want := make([]map[string]int, cs.Conns)
	for i := range want {
		want[i] = map[string]int{}
	}
	upWant := make([]map[string]int, cs.Conns)
	for i := range upWant {
		upWant[i] = map[string]int{}
	}
	var wg sync.WaitGroup
	const seq0 = 7654321098765
	seq := int64(seq0)
	start := time.Now()
	for _, s := range cs.Sends {
		s := s
		var f func()
		switch s.Kind {
		case 0: // broadcast
			p := s.Msg.Proto()
			for i := range want {
				want[i][canon(p)]++
			}
			f = func() {
				if err := m.SendMessage(p); err != nil {
					c.Errorf("send-error", "broadcast failed: %v", err)
				}
			}
		case 1: // to one client
			p := s.Msg.Proto()
			want[s.Conn][canon(p)]++
			f = func() {
				if err := comm.VerifSingleSender(srv[s.Conn]).SendMessage(p); err != nil {
					c.Errorf("send-error", "sending failed: %v", err)
				}
			}
		case 2: // ping
			want[s.Conn][canon(&comm.PongMessage{})]++
			f = func() { comm.VerifSingleSender(cl[s.Conn]).SendMessage(&comm.PingMessage{}) }
		case 3: // time request; the answer is recognised by its ClientSendTime
			seq++
			id := seq
			want[s.Conn][fmt.Sprint("tsres ", id)]++
			f = func() { comm.VerifSingleSender(cl[s.Conn]).SendMessage(&comm.TimeSyncRequest{ClientSend: id}) }
		case 4: // subscription with welcome messages
			for _, x := range subMsgs {
				want[s.Conn][canon(x)]++
			}
			f = func() { comm.VerifSingleSender(cl[s.Conn]).SendMessage(&comm.SubscribeChannelRequest{Channel: 77}) }
		case 5: // PingHandler used directly, as by clients
			want[s.Conn][canon(&comm.PongMessage{})]++
			f = func() { comm.PingHandler(srv[s.Conn]) }
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(s.At)*time.Microsecond - time.Since(start))
			f()
		}()
	}
	wg.Wait()
	time.Sleep(time.Second)
	for i := range rc {
		if cls, err := rc[i].closed(); cls {
			c.Failf("torn", "connection %d: the byte stream from the server is broken: %v", i, err)
		}
		got := map[string]int{}
		for _, s := range rc[i].messages() {
			if r, ok := s.Msg.(*comm.TimeSyncResponse); ok && r.ClientSendTime > seq0 && r.ClientSendTime <= seq && want[i][fmt.Sprint("tsres ", r.ClientSendTime)] > 0 {
				got[fmt.Sprint("tsres ", r.ClientSendTime)]++
				continue
			}
			got[canon(s.Msg)]++
		}
		for k, n := range want[i] {
			if got[k] != n {
				c.Failf("count", "connection %d: message %q arrived %d times, sent %d times", i, k, got[k], n)
			}
		}
		for k, n := range got {
			if want[i][k] == 0 {
				c.Failf("alien", "connection %d: message %q arrived %d times and was never sent", i, k, n)
			}
		}
	}
	at := map[int]int{}
	for _, s := range cs.Sends {
		at[s.At]++
		c.Class([]string{"broadcast", "single", "ping", "time", "subscribe", "pong"}[s.Kind])
	}
	for _, n := range at {
		if n >= 3 {
			c.NonTrivial()
		}
	}
}

// ---- real threads over TCP

type c14TCP struct {
	Senders int   `json:"senders"`
	Msgs    []Msg `json:"msgs"`
	Buf     int   `json:"buf"`
}

func runC14TCP(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c14TCP
	pbt.Decode(raw, &cs)
	a, b, err := tcpPair()
	if err != nil {
		c.Harnessf("%v", err)
	}
	defer a.Close()
	defer b.Close()
	if cs.Buf > 0 {
		a.SetWriteBuffer(cs.Buf)
		b.SetReadBuffer(cs.Buf)
	}
	rc := newRawClient(b)
	want := map[string]int{}
	var ps []proto.Message
	for _, m := range cs.Msgs {
		ps = append(ps, m.Proto())
	}
	for i := 0; i < cs.Senders; i++ {
		for _, p := range ps {
			want[canon(p)]++
		}
	}
	var wg sync.WaitGroup
	goC := make(chan struct{})
	for i := 0; i < cs.Senders; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-goC
			for k := range ps {
				if err := comm.VerifSingleSender(a).SendMessage(ps[(k+i)%len(ps)]); err != nil {
					c.Errorf("send-error", "sending failed: %v", err)
				}
			}
		}(i)
	}
	close(goC)
	wg.Wait()
	a.CloseWrite()
	select {
	case <-rc.done:
	case <-time.After(c.Limit(15 * time.Second)):
		c.Timeoutf("tcp-hang", "messages did not arrive")
	}
	if _, err := rc.closed(); err == nil || err.Error() != "EOF" {
		c.Failf("torn", "the byte stream is broken: %v", err)
	}
	got := map[string]int{}
	for _, s := range rc.messages() {
		got[canon(s.Msg)]++
	}
	for k, n := range want {
		if got[k] != n {
			c.Failf("count", "message %q arrived %d times, sent %d times", k, got[k], n)
		}
		delete(got, k)
	}
	for k := range got {
		c.Failf("alien", "message %q arrived and was never sent", k)
	}
	if cs.Senders > 1 && len(ps) > 1 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C14", Targets: []pbt.Target{
		{Name: "frames-virtual", Mode: pbt.Fake, Gen: genC14, Run: runC14, Quick: 3000, Thorough: 300000,
			Rule: "1-3 clients on connections whose writes are atomic but take time; 2-24 broadcasts, single sends, pings, time requests, subscriptions with welcome messages at (nearly) the same time: every client must decode exactly the expected multiset; non-trivial: at least three at the same instant"},
		{Name: "frames-threads", Mode: pbt.Pure, Run: runC14TCP, Quick: 1200, Thorough: 100000,
			Gen: func(t *rapid.T) interface{} {
				cs := c14TCP{Senders: rapid.IntRange(2, 8).Draw(t, "senders"), Buf: rapid.SampledFrom([]int{0, 0, 4096, 65536}).Draw(t, "buf")}
				if cs.Buf == 0 && rapid.IntRange(0, 3).Draw(t, "large") == 0 { // tiny buffers make large messages very slow
					cs.Msgs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Msg { return genSized(t, 2500) }), 1, 3).Draw(t, "msgs")
				} else {
					cs.Msgs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Msg { return genMsg(t, msgTypes, 2500) }), 1, 6).Draw(t, "msgs")
				}
				return cs
			},
			Rule: "2-8 real threads send 1-6 messages each over one TCP connection with small buffers; the reader must decode exactly these; non-trivial: more than one sender and message"},
	}})
}
