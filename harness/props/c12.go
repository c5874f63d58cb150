package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

// ---- histories in virtual time

type c12Op struct {
	Kind string `json:"kind"` // connect, subscribe, leave, send, reset
	I    int    `json:"i"`    // client; send: kind of message
	Ch   int    `json:"ch"`
	Gap  int    `json:"gap_us"`       // time since the operation before
	As   int    `json:"as,omitempty"` // send: the same message as this operation (0: another one)
}

type c12Case struct {
	N     int     `json:"n"`
	Slow  []int   `json:"slow_ms"` // how long a write to the client takes (-1: for ever)
	Ops   []c12Op `json:"ops"`
	Chunk int     `json:"samples"` // size of audio chunks
}

func genC12(t *rapid.T) interface{} {
	cs := c12Case{N: rapid.IntRange(1, 8).Draw(t, "n"), Chunk: rapid.SampledFrom([]int{1, 100, 5000}).Draw(t, "samples")}
	for i := 0; i < cs.N; i++ {
		cs.Slow = append(cs.Slow, rapid.SampledFrom([]int{0, 0, 0, 0, 1, 50, 3000, -1}).Draw(t, "slow"))
	}
	state := make([]int, cs.N) // 0 not connected, 1 connected, 2 left
	n := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 60)).Draw(t, "ops")
	for i := 0; i < n; i++ {
		o := c12Op{I: rapid.IntRange(0, cs.N-1).Draw(t, "i"), Gap: rapid.SampledFrom([]int{1, 1, 10, 1000, 20000, 500000}).Draw(t, "gap")}
		switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
		case k < 4:
			o.Kind, o.I = "send", rapid.IntRange(0, 5).Draw(t, "msg")
		case state[o.I] == 0:
			o.Kind = "connect"
			state[o.I] = 1
		case k < 8 && state[o.I] == 1:
			o.Kind, o.Ch = "subscribe", rapid.SampledFrom([]int{0, 0, 1, 1, 2, -1}).Draw(t, "ch")
		case k == 9 && state[o.I] == 1:
			o.Kind = rapid.SampledFrom([]string{"leave", "leave", "garbage"}).Draw(t, "how")
			state[o.I] = 2
		default:
			o.Kind, o.I = "send", rapid.IntRange(0, 5).Draw(t, "msg")
		}
		if n := len(cs.Ops); o.Kind == "send" && n > 0 && rapid.IntRange(0, 2).Draw(t, "again") == 0 {
			// the same once more, mostly the last one
			k := n - 1
			if rapid.Bool().Draw(t, "older") {
				k = rapid.IntRange(0, n-1).Draw(t, "which")
			}
			if p := cs.Ops[k]; p.Kind == "send" && k > 0 {
				o.I, o.As = p.I, k
				if p.As > 0 {
					o.As = p.As
				}
			}
		}
		cs.Ops = append(cs.Ops, o)
	}
	return cs
}

// tagOf tells messages of kindMsg apart.
func tagOf(m proto.Message) string {
	switch m := m.(type) {
	case *comm.QueueChunkRequest:
		return fmt.Sprint("audio ", m.ChunkId)
	case *comm.SetVolumeRequest:
		return fmt.Sprint("volume ", m.Volume)
	case *comm.ChunkInfo:
		return fmt.Sprint("chunk ", m.StartTime)
	case *comm.NewSongInfo:
		return fmt.Sprint("song ", m.FirstSampleOfSongIndex)
	case *comm.PauseInfo:
		return fmt.Sprint("pause ", m.ToggleSampleIndex)
	case *comm.TimeSyncRequest:
		return fmt.Sprint("all ", m.ClientSend)
	}
	return fmt.Sprintf("%T", m)
}

func runC12(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	keepAlive()
	var cs c12Case
	pbt.Decode(raw, &cs)
	m := comm.VerifNewMulti()
	l := newMemListener()
	comm.NewClientHandler = func(comm.Channel, comm.MessageSender) {}
	go comm.VerifAccept(m, l)
	cl := make([]*rawClient, cs.N)
	subs := make([][]int, cs.N)
	on := make([]bool, cs.N)
	type exp struct {
		tag string
		at  int64
	}
	want := make([][]exp, cs.N)
	t0 := timing.GetRawTime()
	sends, reach := 0, 0
	for i, o := range cs.Ops {
		time.Sleep(time.Duration(o.Gap) * time.Microsecond)
		switch o.Kind {
		case "connect":
			a, b := memPair(fmt.Sprint("c", o.I), 0)
			slow := cs.Slow[o.I]
			if slow != 0 {
				a.onWrite = func(int, []byte) (time.Duration, int, error) {
					if slow < 0 {
						return time.Hour, 0, nil
					}
					return time.Duration(slow) * time.Millisecond, 0, nil
				}
			}
			l.ch <- a
			cl[o.I] = newRawClient(b)
			on[o.I] = true
		case "subscribe":
			cl[o.I].send(&comm.SubscribeChannelRequest{Channel: comm.Channel(o.Ch)})
			subs[o.I] = append(subs[o.I], o.Ch)
		case "leave":
			cl[o.I].conn.Close()
			on[o.I] = false
		case "garbage":
			cl[o.I].conn.Write([]byte(strings.Repeat("\xff", 40)))
			on[o.I] = false
		case "send":
			no := i
			if o.As > 0 {
				no = o.As
				c.Class("the same message again")
			}
			msg, chs := kindMsg(o.I, no)
			if q, ok := msg.(*comm.QueueChunkRequest); ok {
				for len(q.SampleLow) < cs.Chunk {
					q.SampleLow, q.SampleHigh = append(q.SampleLow, 0.5), append(q.SampleHigh, 0.25)
				}
			}
			for k := range cl {
				if on[k] && wants(chs, subs[k]) {
					want[k] = append(want[k], exp{tagOf(msg), timing.GetRawTime() - t0})
					reach++
				}
			}
			sends++
			go m.SendMessage(msg)
		}
		time.Sleep(500 * time.Nanosecond)
	}
	time.Sleep(2 * time.Minute)
	for k := range cl {
		if cl[k] == nil {
			continue
		}
		var got []exp
		for _, s := range cl[k].messages() {
			got = append(got, exp{tagOf(s.Msg), s.At - t0})
		}
		if cs.Slow[k] < 0 {
			if len(got) > 0 {
				c.Harnessf("a blocked client received %v", got)
			}
			continue
		}
		if cs.Slow[k] > 0 {
			// what waits to be written is lost with the connection; else everything comes, in any order
			have := map[string]int{}
			for _, g := range got {
				have[g.tag]++
			}
			for _, w := range want[k] {
				have[w.tag]--
				if have[w.tag] < 0 && on[k] && !tooSlow(cs, k, len(want[k])) {
					c.Failf("lost", "slow client %d did not get %s", k, w.tag)
				}
			}
			for tag, n := range have {
				if n > 0 {
					c.Failf("extra", "client %d (subscribed to %v) got %s %d times too often", k, subs[k], tag, n)
				}
			}
			continue
		}
		for i := 0; i < len(got) || i < len(want[k]); i++ {
			switch {
			case i >= len(got):
				c.Failf("lost", "client %d (subscribed to %v) did not get %s; got %v", k, subs[k], want[k][i].tag, got)
			case i >= len(want[k]):
				c.Failf("extra", "client %d (subscribed to %v) got %s; expected %v", k, subs[k], got[i].tag, want[k])
			case got[i].tag != want[k][i].tag:
				c.Failf("differs", "client %d (subscribed to %v): message %d is %s, expected %s; got %v, expected %v", k, subs[k], i, got[i].tag, want[k][i].tag, got, want[k])
			case got[i].at-want[k][i].at > 1000:
				c.Failf("late", "client %d got %s %v after it was broadcast", k, got[i].tag, time.Duration(got[i].at-want[k][i].at))
			default:
				continue
			}
			return
		}
	}
	c.Count("deliveries", reach)
	if sends > 1 && reach > 1 {
		c.NonTrivial()
	}
}

// tooSlow: would all its messages take so long that it may be given up?
func tooSlow(cs c12Case, k, n int) bool { return cs.Slow[k]*n > 10000 }

// ---- churn, in real time on all cores

type c12Stress struct {
	Stable [][]int `json:"stable"` // subscriptions
	Churn  int     `json:"churn"`
	Rounds int     `json:"rounds"`
	Kinds  [][]int `json:"kinds"` // what each broadcaster sends
}

func genC12Stress(t *rapid.T) interface{} {
	cs := c12Stress{Churn: rapid.IntRange(0, 6).Draw(t, "churn"), Rounds: rapid.IntRange(1, 12).Draw(t, "rounds")}
	cs.Stable = rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 1), 0, 3), 1, 6).Draw(t, "stable")
	cs.Kinds = rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 5), 1, 15), 1, 4).Draw(t, "kinds")
	return cs
}

func runC12Stress(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c12Stress
	pbt.Decode(raw, &cs)
	m := comm.VerifNewMulti()
	l := newMemListener()
	defer l.Close()
	comm.NewClientHandler = func(ch comm.Channel, s comm.MessageSender) {
		if ch >= 0 { // subscribed
			s.SendMessage(&comm.PongMessage{})
		}
	}
	go comm.VerifAccept(m, l)
	cl := make([]*rawClient, len(cs.Stable))
	for i, subs := range cs.Stable {
		a, b := memPair(fmt.Sprint("s", i), 0)
		l.ch <- a
		cl[i] = newRawClient(b)
		defer b.Close()
		for _, s := range subs {
			cl[i].send(&comm.SubscribeChannelRequest{Channel: comm.Channel(s)})
		}
		cl[i].send(&comm.PingMessage{}) // connected, also without a subscription
		for n := 0; len(cl[i].messages()) < len(subs)+1; n++ {
			if n > 25000 {
				c.Timeoutf("subscribe", "subscriptions are not handled within 5s")
				return
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < cs.Churn; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for r := 0; r < cs.Rounds; r++ {
				a, b := memPair(fmt.Sprint("x", g, r), 0)
				l.ch <- a
				x := newRawClient(b)
				x.send(&comm.SubscribeChannelRequest{Channel: comm.Channel((g + r) % 2)})
				if r%3 == 0 {
					x.send(&comm.SubscribeChannelRequest{Channel: comm.Channel((g + r) % 2)})
				}
				time.Sleep(time.Duration(g*r%7) * 10 * time.Microsecond)
				if r%4 == 1 {
					b.Write([]byte{1})
				}
				b.Close()
				seen := map[string]int{}
				for _, s := range x.messages() {
					tag := tagOf(s.Msg)
					if _, ok := s.Msg.(*comm.PongMessage); ok {
						continue
					}
					if seen[tag]++; seen[tag] > 1 {
						c.Errorf("twice", "a client that came and went got %s twice", tag)
					}
					if ch := (g + r) % 2; ch == 0 && !strings.HasPrefix(tag, "audio") && !strings.HasPrefix(tag, "volume") && !strings.HasPrefix(tag, "all") || ch == 1 && strings.HasPrefix(tag, "audio") {
						c.Errorf("wrong-channel", "a client subscribed to channel %d got %s", ch, tag)
					}
				}
			}
		}(g)
	}
	type sent struct {
		tag string
		chs []comm.Channel
	}
	var all []sent
	for g, kinds := range cs.Kinds {
		for i, k := range kinds {
			msg, chs := kindMsg(k, g*1000+i)
			all = append(all, sent{tagOf(msg), chs})
		}
		wg.Add(1)
		go func(g int, kinds []int) {
			defer wg.Done()
			for i, k := range kinds {
				msg, _ := kindMsg(k, g*1000+i)
				m.SendMessage(msg)
				time.Sleep(time.Duration(i%3) * 5 * time.Microsecond)
			}
		}(g, kinds)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		c.Timeoutf("hang", "broadcasting and joining do not end within 10s")
		return
	}
	for i, subs := range cs.Stable {
		var want []string
		for _, s := range all {
			if wants(s.chs, subs) {
				want = append(want, s.tag)
			}
		}
		for range append([]int{0}, subs...) {
			want = append(want, "*comm.PongMessage")
		}
		for n := 0; len(cl[i].messages()) < len(want) && n < 3000; n++ {
			time.Sleep(time.Millisecond)
		}
		var got []string
		for _, s := range cl[i].messages() {
			got = append(got, tagOf(s.Msg))
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, ",") != strings.Join(want, ",") {
			c.Failf("stable", "client %d, subscribed to %v throughout, got %v instead of %v", i, subs, got, want)
			return
		}
	}
	if cs.Churn > 0 && len(all) > 2 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C12", Targets: []pbt.Target{
		{Name: "history", Mode: pbt.Fake, Gen: genC12, Run: runC12, Quick: 6000, Thorough: 600000, Timeout: 60 * time.Second,
			Rule: "up to 60 connections, subscriptions (repeated, of several, of unknown channels), departures (closing, garbage) and broadcasts of 6 kinds (some repeating an earlier message) in virtual time, microseconds to seconds apart, with up to 8 clients of which some take long or for ever to write to; each client's messages, in order and time, against a model; non-trivial: several broadcasts and deliveries"},
		{Name: "crowd", Mode: pbt.Pure, Gen: genC12Crowd, Run: runC12Crowd, Quick: 300, Thorough: 60000, Timeout: 60 * time.Second,
			Rule: "2-16 clients connect, subscribe and leave in the same instant on real threads, up to 40 rounds, with broadcasts in between; non-trivial: more than three clients"},
		{Name: "churn", Mode: pbt.Pure, Gen: genC12Stress, Run: runC12Stress, Quick: 3000, Thorough: 400000, Timeout: 60 * time.Second,
			Rule: "1-6 clients with subscriptions, up to 4 broadcasters of up to 15 messages, and up to 6 others that come, subscribe and go all the time, on all cores; who stays gets each message of its channels exactly once, who goes none twice; non-trivial: there are others and more than two messages"},
	}})
}

// ---- many at once

type c12Crowd struct {
	Subs   [][]int `json:"subs"`
	Leave  []bool  `json:"leave"`
	Rounds int     `json:"rounds"`
}

func genC12Crowd(t *rapid.T) interface{} {
	cs := c12Crowd{Subs: rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 1), 0, 3), 2, 16).Draw(t, "subs"), Rounds: rapid.IntRange(1, 40).Draw(t, "rounds")}
	if rapid.IntRange(0, 9).Draw(t, "big") == 0 { // a big crowd
		for n := rapid.IntRange(20, 300).Draw(t, "n"); len(cs.Subs) < n; {
			cs.Subs = append(cs.Subs, cs.Subs[len(cs.Subs)*7%11%len(cs.Subs)])
		}
		cs.Rounds = 1
	}
	for range cs.Subs {
		cs.Leave = append(cs.Leave, rapid.Bool().Draw(t, "leave"))
	}
	return cs
}

func runC12Crowd(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c12Crowd
	pbt.Decode(raw, &cs)
	atOnce := func(f func(i int)) {
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range cs.Subs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				f(i)
			}(i)
		}
		close(start)
		wg.Wait()
	}
	for r := 0; r < cs.Rounds; r++ {
		m := comm.VerifNewMulti()
		conns := make([]*memConn, len(cs.Subs))
		cl := make([]*rawClient, len(cs.Subs))
		want := make([][]string, len(cs.Subs))
		for i := range cl {
			a, b := memPair(fmt.Sprint("c", i), 0)
			conns[i], cl[i] = a, newRawClient(b)
		}
		send := func(n int, left func(i int) bool) {
			for k := 0; k < 3; k++ {
				msg, chs := kindMsg(k*2+n%2, n*10+k)
				for i, subs := range cs.Subs {
					if !left(i) && wants(chs, subs) {
						want[i] = append(want[i], tagOf(msg))
					}
				}
				m.SendMessage(msg)
			}
		}
		atOnce(func(i int) { m.Add(conns[i]) })
		atOnce(func(i int) {
			for _, s := range cs.Subs[i] {
				m.Subscribe(conns[i], comm.Channel(s))
			}
		})
		send(0, func(int) bool { return false })
		atOnce(func(i int) {
			if cs.Leave[i] {
				m.Del(conns[i])
			}
		})
		send(1, func(i int) bool { return cs.Leave[i] })
		check := func(i int) bool {
			for n := 0; len(cl[i].messages()) < len(want[i]) && n < 3000; n++ {
				time.Sleep(time.Millisecond)
			}
			var got []string
			for _, s := range cl[i].messages() {
				got = append(got, tagOf(s.Msg))
			}
			if strings.Join(got, ",") != strings.Join(want[i], ",") {
				c.Failf("crowd", "client %d of %d that come (and go) at once, subscribed to %v, leaving=%v, got %v instead of %v", i, len(cl), cs.Subs[i], cs.Leave[i], got, want[i])
				return false
			}
			cl[i].conn.Close()
			return true
		}
		// others come in their place, while those that stayed leave
		gone := append([]*memConn{}, conns...)
		for i := range cl {
			if cs.Leave[i] {
				if !check(i) {
					return
				}
				a, b := memPair(fmt.Sprint("d", i), 0)
				conns[i], cl[i], want[i] = a, newRawClient(b), nil
			}
		}
		atOnce(func(i int) {
			if !cs.Leave[i] {
				m.Del(gone[i])
				return
			}
			m.Add(conns[i])
			for _, s := range cs.Subs[i] {
				m.Subscribe(conns[i], comm.Channel(s))
			}
		})
		send(2, func(i int) bool { return !cs.Leave[i] })
		for i := range cl {
			if !check(i) {
				return
			}
		}
	}
	if len(cs.Subs) > 3 {
		c.NonTrivial()
	}
}
