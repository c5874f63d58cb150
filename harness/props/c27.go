package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/util"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/pbt"
)

// ---- the collector alone

type c27Collect struct {
	Phases [][]int `json:"phases"` // how many errors each goroutine adds, per phase
	Base   string  `json:"base"`
	Texts  int     `json:"texts"` // how many different texts there are, 0: all differ
}

func genC27Collect(t *rapid.T) interface{} {
	return c27Collect{Phases: rapid.SliceOfN(rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 20)), 0, 8), 1, 5).Draw(t, "phases"),
		Base:  rapid.SampledFrom([]string{"base", "", "failed: %d", "a; b"}).Draw(t, "base"),
		Texts: rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(t, "texts")}
}

// holdsExactly says in what err differs from an error that names each of want once.
func holdsExactly(err error, want []string) string {
	if len(want) == 0 {
		if err != nil {
			return fmt.Sprintf("nothing failed and the error is %q", err)
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("%d deliveries failed and there is no error", len(want))
	}
	var me util.MultiError
	if errors.As(err, &me) && len(me.Errors) != len(want) {
		return fmt.Sprintf("%d failures and %d errors: %v", len(want), len(me.Errors), err)
	}
	times := map[string]int{}
	for _, w := range want {
		times[w]++
	}
	for w, k := range times {
		if n := strings.Count(err.Error(), w); n != k {
			return fmt.Sprintf("failure %q happened %d times and is named %d times in %q", w, k, n, err)
		}
	}
	return ""
}

func runC27Collect(c *pbt.C, raw json.RawMessage) {
	var cs c27Collect
	pbt.Decode(raw, &cs)
	var ec util.ErrorCollector
	text := func(p, g, i int) string {
		if cs.Texts > 0 { // several clients fail in the same way
			return fmt.Sprintf("<error %d>", (p+g+i)%cs.Texts)
		}
		return fmt.Sprintf("<error %d/%d/%d>", p, g, i)
	}
	if err := ec.Err(cs.Base); err != nil {
		c.Failf("empty", "a new collector has the error %v", err)
	}
	var all []string
	type old struct {
		err  error
		text string
		want []string
	}
	var olds []old
	for p, ph := range cs.Phases {
		var wg sync.WaitGroup
		start := make(chan bool)
		for g, n := range ph {
			for i := 0; i < n; i++ {
				all = append(all, text(p, g, i))
			}
			wg.Add(1)
			go func(g, n int) {
				defer wg.Done()
				<-start
				for i := 0; i < n; i++ {
					ec.Add(errors.New(text(p, g, i)))
				}
			}(g, n)
		}
		close(start)
		wg.Wait()
		err := ec.Err(cs.Base)
		if d := holdsExactly(err, all); d != "" {
			c.Failf("collected", "phase %d: %s", p, d)
			return
		}
		if err != nil {
			if !strings.Contains(err.Error(), cs.Base) {
				c.Failf("base", "the text %q lacks the base message %q", err, cs.Base)
			}
			olds = append(olds, old{err, err.Error(), append([]string{}, all...)})
		}
	}
	for _, o := range olds {
		if o.err.Error() != o.text {
			c.Failf("changed", "an error read earlier changed from %q to %q", o.text, o.err)
			return
		}
	}
	if len(all) > 1 && len(cs.Phases) > 1 {
		c.NonTrivial()
	}
}

// ---- broadcasts

type c27Conn struct {
	Subs []int `json:"subs"`
	Fail int   `json:"fail"` // -1: no; n: the write fails after n-1 bytes
}

type c27Case struct {
	Conns []c27Conn `json:"conns"`
	Sends []int     `json:"sends"`           // kinds of messages, one after the other
	Par   bool      `json:"par"`             // all at the same time
	Alike bool      `json:"alike"`           // all failures have the same text
	Known bool      `json:"known,omitempty"` // the failures are those of real connections
}

func genC27(t *rapid.T) interface{} {
	cs := c27Case{Par: rapid.IntRange(0, 2).Draw(t, "par") == 0, Alike: rapid.IntRange(0, 3).Draw(t, "alike") == 0, Known: rapid.IntRange(0, 3).Draw(t, "known") == 0}
	n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 24)).Draw(t, "conns")
	rate := rapid.IntRange(0, 3).Draw(t, "rate")
	for i := 0; i < n; i++ {
		k := c27Conn{Subs: rapid.SliceOfN(rapid.IntRange(0, 1), 0, 3).Draw(t, "subs"), Fail: -1}
		if rapid.IntRange(0, 3).Draw(t, "fails") < rate {
			k.Fail = rapid.SampledFrom([]int{1, 1, 2, 9, 20}).Draw(t, "fail")
		}
		cs.Conns = append(cs.Conns, k)
	}
	cs.Sends = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "sends")
	return cs
}

// kindMsg makes a message of a kind that can be told from others, and says
// which channels it belongs to (nil: everyone).
func kindMsg(kind, i int) (proto.Message, []comm.Channel) {
	switch kind {
	case 0:
		return &comm.QueueChunkRequest{ChunkId: int64(i + 1), SampleLow: []float64{1}, SampleHigh: []float64{2}}, []comm.Channel{comm.Channel_AUDIO}
	case 1:
		return &comm.SetVolumeRequest{Volume: float64(i + 1)}, []comm.Channel{comm.Channel_AUDIO, comm.Channel_META}
	case 2:
		return &comm.ChunkInfo{StartTime: int64(i + 1), ChunkSize: 4}, []comm.Channel{comm.Channel_META}
	case 3:
		return &comm.NewSongInfo{FirstSampleOfSongIndex: uint64(i + 1), SongFileName: "s.mp3"}, []comm.Channel{comm.Channel_META}
	case 4:
		return &comm.PauseInfo{ToggleSampleIndex: uint64(i + 1)}, []comm.Channel{comm.Channel_META}
	}
	return &comm.TimeSyncRequest{ClientSend: int64(i + 1)}, nil
}

func wants(chs []comm.Channel, subs []int) bool {
	if chs == nil {
		return true
	}
	for _, s := range subs {
		for _, ch := range chs {
			if int(ch) == s {
				return true
			}
		}
	}
	return false
}

func runC27(c *pbt.C, raw json.RawMessage) {
	quietLogs()
	var cs c27Case
	pbt.Decode(raw, &cs)
	m := comm.VerifNewMulti()
	var mu sync.Mutex
	failureErr := func(i int) error {
		switch {
		case cs.Known: // errors connections really fail with
			known := []error{io.EOF, io.ErrClosedPipe, net.ErrClosed, syscall.EPIPE, syscall.ECONNRESET, os.ErrDeadlineExceeded}
			return known[i%len(known)]
		case cs.Alike:
			return errors.New("<failure>")
		}
		return fmt.Errorf("<failure of %d>", i)
	}
	failure := func(i int) string { return failureErr(i).Error() }
	waiting, expect := 0, 0
	gate := make(chan bool)
	meet := func() { // all failures of a broadcast happen at the same moment
		mu.Lock()
		waiting++
		g := gate
		if waiting >= expect {
			close(gate)
			gate, waiting = make(chan bool), 0
		}
		mu.Unlock()
		select {
		case <-g:
		case <-time.After(20 * time.Millisecond):
		}
	}
	cl := make([]*rawClient, len(cs.Conns))
	for i, k := range cs.Conns {
		a, b := memPair(fmt.Sprint("c", i), 0)
		i, k := i, k
		switch {
		case k.Fail >= 0:
			left := k.Fail - 1
			a.onWrite = func(_ int, buf []byte) (time.Duration, int, error) {
				if left > 0 {
					n := min(left, len(buf))
					left -= n
					return 0, n, nil
				}
				meet()
				return 0, 0, failureErr(i)
			}
		}
		cl[i] = newRawClient(b)
		m.Add(a)
		for _, s := range k.Subs {
			m.Subscribe(a, comm.Channel(s))
		}
	}
	check := func(n, kind int, err error) {
		_, chs := kindMsg(kind, n)
		var want []string
		for i, k := range cs.Conns {
			if k.Fail >= 0 && wants(chs, k.Subs) {
				want = append(want, failure(i))
			}
		}
		if d := holdsExactly(err, want); d != "" {
			c.Errorf("error", "message %d, kind %d, %d clients: %s", n, kind, len(cs.Conns), d)
		}
		if err != nil && strings.Contains(err.Error(), "%") {
			c.Errorf("placeholder", "the error's text has an unfilled placeholder: %q", err)
		}
		if len(want) > 0 {
			c.NonTrivial()
		}
		if len(want) > 3 {
			c.Class("many failures")
		}
	}
	failing := func(kind int) (n int) {
		_, chs := kindMsg(kind, 0)
		for _, k := range cs.Conns {
			if k.Fail >= 0 && wants(chs, k.Subs) {
				n++
			}
		}
		return
	}
	if cs.Par {
		var wg sync.WaitGroup
		for n, kind := range cs.Sends {
			expect += failing(kind)
			wg.Add(1)
			go func(n, kind int) {
				defer wg.Done()
				msg, _ := kindMsg(kind, n)
				check(n, kind, m.SendMessage(msg))
			}(n, kind)
		}
		wg.Wait()
	} else {
		for n, kind := range cs.Sends {
			mu.Lock()
			expect, waiting = failing(kind), 0
			mu.Unlock()
			msg, _ := kindMsg(kind, n)
			check(n, kind, m.SendMessage(msg))
		}
	}
	// whoever can be reached got everything
	want := make([]int, len(cs.Conns))
	for i, k := range cs.Conns {
		for _, kind := range cs.Sends {
			if _, chs := kindMsg(kind, 0); k.Fail < 0 && wants(chs, k.Subs) {
				want[i]++
			}
		}
	}
	deadline := time.Now().Add(3 * time.Second)
	for i, k := range cs.Conns {
		if k.Fail >= 0 {
			continue
		}
		for len(cl[i].messages()) < want[i] && time.Now().Before(deadline) {
			time.Sleep(time.Millisecond)
		}
		if got := len(cl[i].messages()); got != want[i] {
			c.Failf("not-tried", "client %d, %+v, was sent %d of %d messages", i, k, got, want[i])
			return
		}
	}
}

func init() {
	pbt.Register(pbt.Property{ID: "C27", Targets: []pbt.Target{
		{Name: "collect", Mode: pbt.Pure, Gen: genC27Collect, Run: runC27Collect, Quick: 20000, Thorough: 3000000, Timeout: 30 * time.Second,
			Rule: "1-5 phases of up to 8 goroutines adding up to 20 errors each at the same time; after each phase the collected error holds exactly all so far, and those read before stay as they were; non-trivial: several errors and phases"},
		{Name: "broadcast", Mode: pbt.Pure, Gen: genC27, Run: runC27, Quick: 12000, Thorough: 1000000, Timeout: 30 * time.Second,
			Rule: "0-24 clients with any subscriptions, of which any may fail, at the first or a later byte, all at the same moment; 1-6 broadcasts of all kinds, one after the other or at once; the returned error names each failure once and nothing else, and all other clients get the message; non-trivial: a delivery fails"},
	}})
}
