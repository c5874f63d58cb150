package props

import (
	"encoding/json"
	"sync"
	"sync/atomic"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	"pgregory.net/rapid"
	"verif/pbt"
)

// ---- model based, in virtual time: what blocks and what does not is exact.

type queueOp struct {
	Op string `json:"op"` // add, remove, peek, len
}

type c08Case struct {
	Cap int      `json:"cap"`
	Ops []string `json:"ops"`
}

type qpend struct {
	kind string
	done chan [3]float64
	val  [3]float64
	got  bool
}

func (p *qpend) finished() bool {
	if p.got {
		return true
	}
	select {
	case p.val = <-p.done:
		p.got = true
		return true
	default:
		return false
	}
}

func qsample(i int) ([2]float64, int64) {
	return [2]float64{float64(i), -float64(i) - 0.5}, int64(i)*1000 + 7
}

func runC08(c *pbt.C, raw json.RawMessage) {
	var cs c08Case
	pbt.Decode(raw, &cs)
	keepAlive()
	q := playback.VerifNewQueue(cs.Cap)
	if q.Cap() != cs.Cap {
		c.Failf("cap", "capacity is %d, asked for %d", q.Cap(), cs.Cap)
	}
	next := 0          // next sample to add
	var model []int    // in queue
	var adds []*qpend  // waiting adders, in order of samples
	var addVals []int  // their samples
	var rems []*qpend  // waiting removers
	var peeks []*qpend // waiting peekers
	removed := 0
	start := func(kind string, f func() [3]float64) *qpend {
		p := &qpend{kind: kind, done: make(chan [3]float64, 1)}
		go func() { p.done <- f() }()
		time.Sleep(time.Microsecond) // everybody runs until blocked
		return p
	}
	// check that nothing that may proceed is waiting, and nothing proceeded that may not
	for i, op := range cs.Ops {
		switch op {
		case "add":
			s, tm := qsample(next)
			p := start("add", func() [3]float64 { q.Add(s, tm); return [3]float64{} })
			adds = append(adds, p)
			addVals = append(addVals, next)
			next++
		case "remove":
			if len(rems) >= 2 {
				continue
			}
			rems = append(rems, start("remove", func() [3]float64 {
				s, tm := q.Remove()
				return [3]float64{s[0], s[1], float64(tm)}
			}))
		case "peek":
			if len(rems) > 0 { // a peek next to a waiting remover may see either sample
				continue
			}
			p := start("peek", func() [3]float64 {
				s, tm := q.Peek()
				return [3]float64{s[0], s[1], float64(tm)}
			})
			if len(model) > 0 {
				if !p.finished() {
					c.Failf("peek-blocked", "op %d: looking at the first of %d samples blocks (%d adders waiting)", i, len(model), len(adds))
				}
				s, tm := qsample(model[0])
				if p.val != [3]float64{s[0], s[1], float64(tm)} {
					c.Failf("peek", "op %d: peek gave %v, first is sample %d", i, p.val, model[0])
				}
			} else {
				if p.finished() {
					c.Failf("peek-early", "op %d: peek on an empty queue returned %v", i, p.val)
				}
				peeks = append(peeks, p)
			}
		case "len":
			if len(rems) > 0 || len(peeks) > 0 {
				c.Class("len while readers wait")
			}
			var n int
			p := start("len", func() [3]float64 { n = q.Len(); return [3]float64{} })
			if !p.finished() {
				c.Failf("len-blocked", "op %d: asking for the length blocks (%d in queue, %d adders, %d removers, %d peekers waiting)", i, len(model), len(adds), len(rems), len(peeks))
			}
			if n != len(model) {
				c.Failf("len", "op %d: length is %d, %d samples in queue", i, n, len(model))
			}
		}
		// settle the model
		time.Sleep(time.Microsecond)
		for {
			progress := false
			if len(addVals) > 0 && len(model) < cs.Cap {
				if !adds[0].finished() {
					// adders are served one at a time in any order that keeps samples FIFO: with
					// several adders waiting the order among them is free, so only one waits at a time
					c.Failf("add-stuck", "op %d: an add does not finish although only %d of %d places are taken", i, len(model), cs.Cap)
				}
				model = append(model, addVals[0])
				adds, addVals = adds[1:], addVals[1:]
				progress = true
			}
			if len(model) > 0 && len(rems) > 0 {
				k := -1
				for j, r := range rems {
					if r.finished() {
						k = j
						break
					}
				}
				if k < 0 {
					c.Failf("remove-stuck", "op %d: a remover stays asleep although %d samples are there", i, len(model))
				}
				s, tm := qsample(model[0])
				if rems[k].val != [3]float64{s[0], s[1], float64(tm)} {
					// two removers may have finished in the same step
					o := -1
					for j, r := range rems {
						if r.finished() && r.val == [3]float64{s[0], s[1], float64(tm)} {
							o = j
						}
					}
					if o < 0 {
						c.Failf("fifo", "op %d: removed %v, the first sample is %d", i, rems[k].val, model[0])
					}
					k = o
				}
				rems = append(rems[:k:k], rems[k+1:]...)
				model = model[1:]
				removed++
				progress = true
			}
			if len(model) > 0 && len(peeks) > 0 {
				for _, p := range peeks {
					if !p.finished() {
						c.Failf("peek-stuck", "op %d: a peek stays asleep although %d samples are there", i, len(model))
					}
				}
				peeks = nil
				progress = true
			}
			if !progress {
				break
			}
		}
		for _, a := range adds {
			if a.finished() {
				c.Failf("overfull", "op %d: an add finished although all %d places are taken", i, cs.Cap)
			}
		}
		for _, r := range rems {
			if r.finished() {
				c.Failf("underflow", "op %d: a remove returned %v from an empty queue", i, r.val)
			}
		}
		if len(adds) > 0 {
			c.Class("add waits")
		}
		if len(rems) > 0 {
			c.Class("remove waits")
		}
	}
	if removed > 0 && next > cs.Cap {
		c.NonTrivial()
	}
}

// genQueueOps keeps at most one adder and the allowed readers waiting.
func genQueueOps(t *rapid.T) c08Case {
	cp := rapid.IntRange(1, 6).Draw(t, "cap")
	k := rapid.IntRange(1, 60).Draw(t, "k")
	bias := rapid.SampledFrom([][]string{
		{"add", "add", "add", "remove", "len", "peek"},
		{"add", "remove", "remove", "len", "peek"},
		{"add", "remove", "len", "peek"},
	}).Draw(t, "bias")
	n := 0 // added minus removed
	var ops []string
	for i := 0; i < k; i++ {
		o := rapid.SampledFrom(bias).Draw(t, "op")
		switch o {
		case "add":
			if n > cp {
				continue
			}
			n++
		case "remove":
			if n < -1 {
				continue
			}
			n--
		}
		ops = append(ops, o)
	}
	return c08Case{cp, ops}
}

// ---- any number of adders and removers, in virtual time.

type c08Crowd struct {
	Cap   int   `json:"cap"`
	Steps []int `json:"steps"` // n>0: that many adders at once, n<0: that many removers at once
}

func runC08Crowd(c *pbt.C, raw json.RawMessage) {
	var cs c08Crowd
	pbt.Decode(raw, &cs)
	keepAlive()
	q := playback.VerifNewQueue(cs.Cap)
	type added struct{ start, done, removed int } // steps, -1: not yet
	var items []*added
	var adds []*qpend
	var rems []*qpend
	nAdded, nRemoved := 0, 0
	removedAt := map[int]int{}
	var waitA, waitR bool
	for i, n := range cs.Steps {
		for ; n > 0; n-- {
			s, tm := qsample(len(items))
			items = append(items, &added{i, -1, -1})
			p := &qpend{done: make(chan [3]float64, 1)}
			go func() { q.Add(s, tm); p.done <- [3]float64{} }()
			adds = append(adds, p)
		}
		for ; n < 0; n++ {
			p := &qpend{done: make(chan [3]float64, 1)}
			go func() {
				s, tm := q.Remove()
				p.done <- [3]float64{s[0], s[1], float64(tm)}
			}()
			rems = append(rems, p)
		}
		time.Sleep(time.Microsecond) // everybody runs until blocked
		for k, a := range adds {
			if items[k].done < 0 && a.finished() {
				items[k].done = i
				nAdded++
			}
		}
		var left []*qpend
		for _, r := range rems {
			if !r.finished() {
				left = append(left, r)
				continue
			}
			nRemoved++
			k := int(r.val[0])
			if k < 0 || k >= len(items) {
				c.Failf("alien", "step %d: removed %v, which was never added", i, r.val)
			}
			if s, tm := qsample(k); r.val != [3]float64{s[0], s[1], float64(tm)} {
				c.Failf("torn", "step %d: removed %v, sample %d is %v with time %d", i, r.val, k, s, tm)
			}
			if _, twice := removedAt[k]; twice {
				c.Failf("twice", "step %d: sample %d was removed twice", i, k)
			}
			removedAt[k] = i
			items[k].removed = i
		}
		rems = left
		n := nAdded - nRemoved
		if n < 0 || n > cs.Cap {
			c.Failf("overfull", "step %d: %d adds and %d removes have finished, capacity is %d", i, nAdded, nRemoved, cs.Cap)
		}
		if nAdded < len(adds) && n < cs.Cap {
			c.Failf("add-stuck", "step %d: %d adds wait although only %d of %d places are taken", i, len(adds)-nAdded, n, cs.Cap)
		}
		if len(rems) > 0 && n > 0 {
			c.Failf("remove-stuck", "step %d: %d removes wait although %d samples are there", i, len(rems), n)
		}
		if l := q.Len(); l != n {
			c.Failf("len", "step %d: length is %d, %d samples in queue", i, l, n)
		}
		waitA, waitR = waitA || len(adds)-nAdded > 1, waitR || len(rems) > 1
		// what was added before another add began also leaves before it
		for a, x := range items {
			for b, y := range items {
				if x.done >= 0 && x.done < y.start && y.removed >= 0 && (x.removed < 0 || x.removed > y.removed) {
					c.Failf("fifo", "step %d: sample %d was added before sample %d, which has left the queue before it", i, a, b)
				}
			}
		}
	}
	if waitA {
		c.Class("several adders wait")
	}
	if waitR {
		c.Class("several removers wait")
	}
	if nRemoved > 0 && (waitA || waitR) {
		c.NonTrivial()
	}
}

// ---- real threads: order and wake-ups under contention.

type c08Race struct {
	Cap   int   `json:"cap"`
	N     int   `json:"n"`
	Yield []int `json:"yield"` // spin counts, cyclic, for the adder and remover
	Peek  bool  `json:"peek"`
	Len   bool  `json:"len"`
}

func runC08Race(c *pbt.C, raw json.RawMessage) {
	var cs c08Race
	pbt.Decode(raw, &cs)
	q := playback.VerifNewQueue(cs.Cap)
	var stop int32
	spin := func(n int) {
		for i := 0; i < n && atomic.LoadInt32(&stop) >= 0; i++ {
		}
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < cs.N; i++ {
			s, tm := qsample(i)
			q.Add(s, tm)
			spin(cs.Yield[i%len(cs.Yield)])
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < cs.N; i++ {
			es, et := qsample(i)
			if cs.Peek && i%3 == 0 {
				if s, tm := q.Peek(); s != es || tm != et {
					c.Errorf("peek", "peek gave %v at %d, first is %d", s, tm, i)
				}
			}
			if s, tm := q.Remove(); s != es || tm != et {
				c.Errorf("fifo", "removed %v with time %d instead of sample %d", s, tm, i)
			}
			spin(cs.Yield[(i*7+3)%len(cs.Yield)])
		}
	}()
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	if cs.Len {
		go func() {
			for atomic.LoadInt32(&stop) == 0 {
				if n := q.Len(); n < 0 || n > cs.Cap {
					c.Errorf("len", "length %d of capacity %d", n, cs.Cap)
				}
				time.Sleep(time.Microsecond)
			}
		}()
	}
	select {
	case <-done:
	case <-time.After(c.Limit(4 * time.Second)):
		c.Timeoutf("asleep", "one adder and one remover of %d samples through a queue of %d do not finish: somebody sleeps for ever", cs.N, cs.Cap)
	}
	atomic.StoreInt32(&stop, 1)
	if q.Len() != 0 && !c.Failed() {
		c.Failf("len", "length %d when empty", q.Len())
	}
	if cs.N > 2*cs.Cap {
		c.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C08", Targets: []pbt.Target{
		{Name: "queue-model", Mode: pbt.Fake, Quick: 6000, Thorough: 300000,
			Rule: "operation sequences with blocked adders, removers and peekers against a queue model in virtual time; non-trivial: more samples added than the capacity and some removed",
			Gen:  func(t *rapid.T) interface{} { return genQueueOps(t) }, Run: runC08},
		{Name: "queue-crowd", Mode: pbt.Fake, Quick: 4000, Thorough: 200000,
			Rule: "groups of 1-4 adders or removers started at once, any number of them waiting, in virtual time: finished adds and removes fit the capacity, nobody waits without reason, samples leave in the order in which their adds finished; non-trivial: several adders or several removers waited and samples were removed",
			Gen: func(t *rapid.T) interface{} {
				return c08Crowd{rapid.IntRange(1, 5).Draw(t, "cap"),
					rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(-4, -1)), 1, 24).Draw(t, "steps")}
			}, Run: runC08Crowd},
		{Name: "queue-threads", Mode: pbt.Pure, Quick: 2400, Thorough: 100000, Timeout: 30 * time.Second,
			Rule: "one adder against one remover (with peeks and length queries) on real threads with generated spin patterns; non-trivial: more than two times the capacity moved",
			Gen: func(t *rapid.T) interface{} {
				return c08Race{rapid.IntRange(1, 5).Draw(t, "cap"), rapid.IntRange(1, 3000).Draw(t, "n"),
					rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 10, 100, 1000, 5000}), 1, 8).Draw(t, "yield"),
					rapid.Bool().Draw(t, "peek"), rapid.Bool().Draw(t, "len")}
			}, Run: runC08Race},
	}})
}
