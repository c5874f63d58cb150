package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

type c02Series struct {
	Skew  int64   `json:"skew"`
	Local int64   `json:"local"`
	Fwd   []int64 `json:"fwd"`
	Back  []int64 `json:"back"`
	Proc  []int64 `json:"proc"`
	Conc  bool    `json:"conc"`
}

type c02Case struct {
	Series []c02Series `json:"series"`
}

func genSkew(t *rapid.T) int64 {
	return rapid.OneOf(rapid.Int64Range(-1000, 1000), rapid.Int64Range(-1e12, 1e12), rapid.Int64Range(-1<<58, 1<<58)).Draw(t, "skew")
}

func genC02(t *rapid.T) interface{} {
	var cs c02Case
	n := rapid.IntRange(1, 5).Draw(t, "series")
	for i := 0; i < n; i++ {
		s := c02Series{Skew: genSkew(t), Local: rapid.Int64Range(0, 1<<58).Draw(t, "local"), Conc: rapid.Bool().Draw(t, "conc")}
		k := rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 40)).Draw(t, "k")
		d := rapid.SampledFrom([]int64{0, 10, 1e6, 1e9, 1e13, 1 << 50}).Draw(t, "maxdelay")
		for j := 0; j < k; j++ {
			s.Fwd = append(s.Fwd, rapid.Int64Range(0, d).Draw(t, "fwd"))
			s.Back = append(s.Back, rapid.Int64Range(0, d).Draw(t, "back"))
			s.Proc = append(s.Proc, rapid.Int64Range(0, d/4).Draw(t, "proc"))
		}
		cs.Series = append(cs.Series, s)
	}
	return cs
}

// offset reads the adopted offset; exact in virtual time, else an interval.
func offsetNow() (lo, hi int64) {
	for i := 0; i < 20; i++ {
		a := timing.GetRawTime()
		s := timing.GetSyncedTime()
		b := timing.GetRawTime()
		if i == 0 || s-b > lo {
			lo = s - b
		}
		if i == 0 || s-a < hi {
			hi = s - a
		}
	}
	return
}

// meanNear says whether v is within tol of the mean of l.
func meanNear(v int64, l []int64, tol int64) bool {
	sum := new(big.Int)
	for _, x := range l {
		sum.Add(sum, big.NewInt(x))
	}
	// |v*2n - sum| <= tol*2n, l holds doubled estimates
	n := big.NewInt(int64(2 * len(l)))
	d := new(big.Int).Mul(big.NewInt(v), n)
	d.Sub(d, sum)
	d.Abs(d)
	return d.Cmp(new(big.Int).Mul(big.NewInt(tol), n)) <= 0
}

func runC02(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c02Case
	pbt.Decode(raw, &cs)
	prev, _ := offsetNow()
	for si, s := range cs.Series {
		k := len(s.Fwd)
		timing.ResetOffsets(k)
		var dbl []int64 // doubled estimates
		maxAsym := int64(0)
		loc := s.Local
		call := func(j int) {
			cSend := s.Local + int64(j)*1000
			sRecv := cSend + s.Fwd[j] + s.Skew
			sSend := sRecv + s.Proc[j]
			cRecv := sSend - s.Skew + s.Back[j]
			timing.UpdateOffset(cSend, sRecv, sSend, cRecv)
		}
		_ = loc
		for j := range s.Fwd {
			dbl = append(dbl, 2*s.Skew+s.Fwd[j]-s.Back[j])
			a := s.Fwd[j] - s.Back[j]
			if a < 0 {
				a = -a
			}
			if a > maxAsym {
				maxAsym = a
			}
		}
		if s.Conc {
			var wg sync.WaitGroup
			for j := 0; j < k; j++ {
				wg.Add(1)
				go func(j int) { defer wg.Done(); call(j) }(j)
			}
			wg.Wait()
		} else {
			for j := 0; j < k; j++ {
				if o, _ := offsetNow(); o != prev {
					c.Failf("early", "series %d: after %d of %d exchanges the offset changed from %d to %d", si, j, k, prev, o)
				}
				call(j)
			}
		}
		o, _ := offsetNow()
		if !meanNear(o, dbl, 2) {
			c.Failf("not-mean", "series %d: offset %d is not the mean of the estimates %v/2 (previous offset %d)", si, o, dbl, prev)
		}
		if d := o - s.Skew; d > maxAsym/2+2 || -d > maxAsym/2+2 {
			c.Failf("not-converged", "series %d: offset %d, clocks differ by %d, largest asymmetry %d", si, o, s.Skew, maxAsym)
		}
		prev = o
		if k > 1 && maxAsym > 0 {
			c.NonTrivial()
		}
	}
}

// ---- real threads

func runC02Threads(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c02Case
	pbt.Decode(raw, &cs)
	for si, s := range cs.Series {
		k := len(s.Fwd)
		timing.ResetOffsets(k)
		var wg sync.WaitGroup
		var dbl []int64
		ready := make(chan struct{})
		for j := 0; j < k; j++ {
			dbl = append(dbl, 2*s.Skew+s.Fwd[j]-s.Back[j])
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				<-ready
				cSend := s.Local + int64(j)*1000
				sRecv := cSend + s.Fwd[j] + s.Skew
				sSend := sRecv + s.Proc[j]
				timing.UpdateOffset(cSend, sRecv, sSend, sSend-s.Skew+s.Back[j])
			}(j)
		}
		close(ready)
		wg.Wait()
		lo, hi := offsetNow()
		mid := lo + (hi-lo)/2
		if !meanNear(mid, dbl, (hi-lo)/2+3) {
			c.Failf("not-mean", "series %d: offset between %d and %d is not the mean of the estimates %v/2", si, lo, hi, dbl)
		}
		if k > 2 {
			c.NonTrivial()
		}
	}
}

// ---- the real client programs against a server with another clock

type c02Sync struct {
	Infoer   bool    `json:"infoer"`
	Skew     []int64 `json:"skew"` // per series
	Cycles   int     `json:"cycles"`
	Cycle    int     `json:"cycle_us"`
	Interval int     `json:"interval_ms"`
	Fwd      []int   `json:"fwd_us"`
	Back     []int   `json:"back_us"`
	Proc     []int   `json:"proc_us"`
}

func genC02Sync(t *rapid.T) interface{} {
	cs := c02Sync{Infoer: rapid.Bool().Draw(t, "infoer"), Cycles: rapid.IntRange(1, 30).Draw(t, "cycles"), Cycle: rapid.IntRange(100, 20000).Draw(t, "cycle")}
	d := rapid.SampledFrom([]int{0, 100, 5000, 200000}).Draw(t, "d")
	us := func(l string, d int) []int { return rapid.SliceOfN(rapid.IntRange(0, d), 1, 7).Draw(t, l) }
	cs.Fwd, cs.Back, cs.Proc = us("fwd", d), us("back", d), us("proc", d/4)
	cs.Interval = cs.Cycles*cs.Cycle/1000 + 3*d/1000 + rapid.IntRange(50, 3000).Draw(t, "interval")
	n := rapid.IntRange(1, 3).Draw(t, "series")
	for i := 0; i < n; i++ {
		cs.Skew = append(cs.Skew, genSkew(t))
	}
	return cs
}

func runC02Sync(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	keepAlive()
	var cs c02Sync
	pbt.Decode(raw, &cs)
	schedule.TimeSyncCycles = cs.Cycles
	schedule.TimeSyncCycleDelay = time.Duration(cs.Cycle) * time.Microsecond
	schedule.TimeSyncInterval = time.Duration(cs.Interval) * time.Millisecond
	var mu sync.Mutex
	n := 0
	type answered struct{ at, dbl, asym int64 }
	var answers []answered
	dbg := func(l []int, i int) time.Duration { return time.Duration(l[i%len(l)]) * time.Microsecond }
	fs := newFakeServer(c, func(fc *fsConn, m proto.Message) {
		r, ok := m.(*comm.TimeSyncRequest)
		if !ok {
			return
		}
		now := timing.GetRawTime()
		mu.Lock()
		i := n
		n++
		mu.Unlock()
		if r.ClientSend != now {
			c.Errorf("request", "request %d was sent at %d and says %d", i, now, r.ClientSend)
		}
		series := i / cs.Cycles
		skew := cs.Skew[series%len(cs.Skew)]
		time.Sleep(dbg(cs.Fwd, i))
		recv := timing.GetRawTime() + skew
		time.Sleep(dbg(cs.Proc, i))
		sent := timing.GetRawTime() + skew
		time.Sleep(dbg(cs.Back, i))
		asym := int64(dbg(cs.Fwd, i) - dbg(cs.Back, i))
		mu.Lock()
		answers = append(answers, answered{timing.GetRawTime(), 2*skew + asym, asym})
		mu.Unlock()
		fc.send(&comm.TimeSyncResponse{ClientSendTime: r.ClientSend, ServerRecvTime: recv, ServerSendTime: sent})
	})
	if cs.Infoer {
		startInfoer(procIP(), fs.port(), 44100, 60, 20, 3)
	} else {
		startDevice(44100, timing.GetRawTime)
		startPlayer(procIP(), fs.port(), 44100)
	}
	t0 := timing.GetRawTime()
	time.Sleep(333 * time.Nanosecond)
	end := int64(len(cs.Skew)) * (int64(cs.Cycles)*int64(cs.Cycle)*1000 + int64(cs.Interval)*1e6)
	cur := int64(0)
	adopted := 0
	for timing.GetRawTime()-t0 < end && adopted < len(cs.Skew) {
		mu.Lock()
		k := len(answers)
		var dbl []int64
		var mx int64
		if k/cs.Cycles > adopted {
			adopted = k / cs.Cycles
			for _, a := range answers[(adopted-1)*cs.Cycles : adopted*cs.Cycles] {
				dbl = append(dbl, a.dbl)
				if a.asym > mx {
					mx = a.asym
				}
				if -a.asym > mx {
					mx = -a.asym
				}
			}
		}
		mu.Unlock()
		o, _ := offsetNow()
		if dbl != nil {
			if !meanNear(o, dbl, 2) {
				c.Failf("not-mean", "after series %d the offset is %d, the estimates are %v/2", adopted-1, o, dbl)
			}
			if d := o - cs.Skew[(adopted-1)%len(cs.Skew)]; d > mx/2+2 || -d > mx/2+2 {
				c.Failf("not-converged", "after series %d the offset is %d, the clocks differ by %d, largest asymmetry %d", adopted-1, o, cs.Skew[(adopted-1)%len(cs.Skew)], mx)
			}
			cur = o
		} else if o != cur {
			c.Failf("early", "offset changed from %d to %d after %d answers (%d per series)", cur, o, k, cs.Cycles)
		}
		if c.Failed() {
			return
		}
		time.Sleep(time.Millisecond)
	}
	if adopted < len(cs.Skew) {
		c.Failf("no-sync", "%d series of exchanges were completed in %v, expected %d (one each %d ms)", adopted, time.Duration(end), len(cs.Skew), cs.Interval)
	}
	if cs.Cycles > 1 {
		c.NonTrivial()
	}
	c.Class(fmt.Sprintf("%d series", len(cs.Skew)))
}

// ---- the real server's answers

type c02Answer struct {
	Reqs []struct {
		At   int   `json:"at_us"`
		Send int64 `json:"send"`
		Conn int   `json:"conn"`
	} `json:"reqs"`
}

func runC02Answer(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	keepAlive()
	var cs c02Answer
	pbt.Decode(raw, &cs)
	m := comm.VerifNewMulti()
	l := newMemListener()
	comm.NewClientHandler = func(comm.Channel, comm.MessageSender) {}
	go comm.VerifAccept(m, l)
	var cl []*rawClient
	for i := 0; i < 3; i++ {
		a, b := memPair(fmt.Sprint("c", i), 0)
		l.ch <- a
		cl = append(cl, newRawClient(b))
	}
	var wg sync.WaitGroup
	type key struct {
		conn int
		send int64
	}
	sentAt := map[key][]int64{}
	t0 := time.Now()
	var mu sync.Mutex
	for _, r := range cs.Reqs {
		r := r
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(r.At)*time.Microsecond - time.Since(t0))
			mu.Lock()
			k := key{r.Conn, r.Send}
			sentAt[k] = append(sentAt[k], timing.GetRawTime())
			mu.Unlock()
			cl[r.Conn].send(&comm.TimeSyncRequest{ClientSend: r.Send})
		}()
	}
	wg.Wait()
	time.Sleep(10 * time.Millisecond)
	total := 0
	for i := range cl {
		for _, s := range cl[i].messages() {
			r, ok := s.Msg.(*comm.TimeSyncResponse)
			if !ok {
				c.Failf("answer", "unexpected message %v", s.Msg)
			}
			total++
			k := key{i, r.ClientSendTime}
			found := false
			for j, at := range sentAt[k] {
				if at == r.ServerRecvTime && r.ServerSendTime == s.At && at <= s.At {
					sentAt[k] = append(sentAt[k][:j], sentAt[k][j+1:]...)
					found = true
					break
				}
			}
			if !found {
				c.Failf("answer", "client %d: answer %v at server time %d matches no request (sent at %v)", i, r, s.At, sentAt[k])
			}
		}
	}
	if total != len(cs.Reqs) {
		c.Failf("answer-count", "%d requests, %d answers", len(cs.Reqs), total)
	}
	if len(cs.Reqs) > 2 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C02", Targets: []pbt.Target{
		{Name: "offset-series", Mode: pbt.Fake, Gen: genC02, Run: runC02, Quick: 4000, Thorough: 400000,
			Rule: "1-5 series of 1-40 exchanges with arbitrary clock difference (up to 2^58 ns), one-way delays and processing times, in order or concurrently; the offset, read exactly in virtual time, must stay until the series is complete and then be the exact mean; non-trivial: several exchanges with asymmetric delays"},
		{Name: "offset-threads", Mode: pbt.Pure, Gen: genC02, Run: runC02Threads, Quick: 4000, Thorough: 400000,
			Rule: "the same with real threads delivering the exchanges of a series at once; non-trivial: more than two"},
		{Name: "clock-sync", Mode: pbt.Fake, Gen: genC02Sync, Run: runC02Sync, Quick: 900, Thorough: 60000,
			Rule: "the real player or display program against a server with another clock and per-message delays, 1-3 series; checked every millisecond; non-trivial: more than one exchange per series"},
		{Name: "server-answers", Mode: pbt.Fake, Run: runC02Answer, Quick: 1200, Thorough: 60000,
			Gen: func(t *rapid.T) interface{} {
				var cs c02Answer
				n := rapid.IntRange(1, 12).Draw(t, "n")
				for i := 0; i < n; i++ {
					cs.Reqs = append(cs.Reqs, struct {
						At   int   `json:"at_us"`
						Send int64 `json:"send"`
						Conn int   `json:"conn"`
					}{rapid.IntRange(0, 40).Draw(t, "at") * 10, genI64(t, "send"), rapid.IntRange(0, 2).Draw(t, "conn")})
				}
				return cs
			},
			Rule: "1-12 time requests of three clients at arbitrary, also equal, instants: each gets one answer that echoes its send time and states the server clock at receipt and at answering, exact in virtual time; non-trivial: more than two requests"},
	}})
}
