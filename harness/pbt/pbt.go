// Package pbt is the small property-based-testing runtime of this harness.
//
// A Target couples a rapid generator of JSON-serialisable cases with a Run
// function holding the oracle. Generation and shrinking happen in "shard"
// processes; every case is executed in a separate "worker" process, so that a
// crash, an os.Exit or a hang of the code under test is an ordinary failing
// case that rapid can shrink and that is saved as a replay file.
package pbt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Mode says how cases of a target are executed.
type Mode int

const (
	// Pure targets share one long-lived worker process per shard.
	Pure Mode = iota
	// Fresh targets get a new worker process for each case (real time).
	Fresh
	// Fake targets get a new worker process for each case, built with the Go
	// runtime's faketime tag: virtual time, which only advances when every
	// goroutine is blocked.
	Fake
)

// Target is one executable check of a property.
type Target struct {
	Name string
	Mode Mode
	Gen  func(t *rapid.T) interface{}
	Run  func(c *C, raw json.RawMessage)
	// Quick and Thorough are the total numbers of cases over all shards.
	Quick, Thorough int
	// Timeout is the wall clock limit for one case (default 20s).
	Timeout time.Duration
	// MaxShards limits parallelism (default 8).
	MaxShards int
	// Procs is GOMAXPROCS of the worker (default: 1 for Fake, else runtime default).
	Procs int
	// Rule documents generation and non-triviality.
	Rule string
}

// Property is one entry of properties.jsonl together with its targets.
type Property struct {
	ID          string
	Targets     []Target
	Assumptions []string
}

// Registry holds all properties.
var Registry []Property

// Register adds a property.
func Register(p Property) {
	for _, t := range p.Targets {
		if FindTarget(t.Name) != nil {
			panic("two targets are called " + t.Name)
		}
	}
	if q := Find(p.ID); q != nil {
		q.Targets = append(q.Targets, p.Targets...)
		return
	}
	Registry = append(Registry, p)
}

// Find returns the property with the id.
func Find(id string) *Property {
	for i := range Registry {
		if Registry[i].ID == id {
			return &Registry[i]
		}
	}
	return nil
}

// FindTarget returns a target of any property.
func FindTarget(name string) *Target {
	for i := range Registry {
		for j := range Registry[i].Targets {
			if Registry[i].Targets[j].Name == name {
				return &Registry[i].Targets[j]
			}
		}
	}
	return nil
}

// Result is what a worker reports for one case.
type Result struct {
	Fail       string         `json:"fail,omitempty"`
	Sig        string         `json:"sig,omitempty"`
	Kind       string         `json:"kind,omitempty"` // "", "timeout", "crash", "hang"
	HarnessErr string         `json:"harness_err,omitempty"`
	NonTrivial bool           `json:"nontrivial,omitempty"`
	Classes    map[string]int `json:"classes,omitempty"`
}

// C is handed to Run.
type C struct {
	mu  sync.Mutex
	res Result
	// Slow multiplies real-time limits when a timeout is being re-confirmed.
	Slow int
}

type stop struct{}

func (c *C) fail(kind, sig, format string, a []interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.res.Fail == "" {
		c.res.Fail = fmt.Sprintf(format, a...)
		c.res.Sig = sig
		c.res.Kind = kind
	}
}

// Errorf records a failure (the first one wins) and goes on; usable from any goroutine.
func (c *C) Errorf(sig, format string, a ...interface{}) { c.fail("", sig, format, a) }

// Failf records a failure and ends the case; only from the goroutine of Run.
func (c *C) Failf(sig, format string, a ...interface{}) {
	c.fail("", sig, format, a)
	panic(stop{})
}

// Timeoutf is Failf for a real-time limit that passed: it is re-confirmed
// with larger limits before it counts.
func (c *C) Timeoutf(sig, format string, a ...interface{}) {
	c.fail("timeout", sig, format, a)
	panic(stop{})
}

// Harnessf reports that the harness itself could not do its job.
func (c *C) Harnessf(format string, a ...interface{}) {
	c.mu.Lock()
	c.res.HarnessErr = fmt.Sprintf(format, a...)
	c.mu.Unlock()
	panic(stop{})
}

// Failed says whether a failure was recorded.
func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.res.Fail != ""
}

// NonTrivial marks the case as non-trivial.
func (c *C) NonTrivial() {
	c.mu.Lock()
	c.res.NonTrivial = true
	c.mu.Unlock()
}

// Class counts a label for the distribution report.
func (c *C) Class(s string) { c.Count(s, 1) }

// Count adds n to a label.
func (c *C) Count(s string, n int) {
	c.mu.Lock()
	if c.res.Classes == nil {
		c.res.Classes = map[string]int{}
	}
	c.res.Classes[s] += n
	c.mu.Unlock()
}

// Limit scales a real-time limit.
func (c *C) Limit(d time.Duration) time.Duration { return d * time.Duration(c.Slow) }

// Decode unmarshals the case.
func Decode(raw json.RawMessage, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic(fmt.Sprintf("harness: bad case: %v", err))
	}
}

// Execute runs one case in this process.
func Execute(t *Target, raw json.RawMessage) (res Result) {
	c := &C{Slow: 1}
	if s := os.Getenv("PBT_SLOW"); s != "" {
		c.Slow, _ = strconv.Atoi(s)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				if re, ok := r.(runtime.Error); ok {
					c.fail("crash", "panic", "panic: %v\n%s", []interface{}{re, trimStack(debug.Stack())})
				} else {
					c.fail("crash", "panic", "panic: %v\n%s", []interface{}{r, trimStack(debug.Stack())})
				}
			}
		}
		c.mu.Lock()
		res = c.res
		c.mu.Unlock()
	}()
	t.Run(c, raw)
	return
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}
