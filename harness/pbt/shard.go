package pbt

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Known is one entry of the known-findings file.
type Known struct {
	Property, Target, Sig, What string
}

// TargetStats is what a shard reports for one target.
type TargetStats struct {
	Target     string         `json:"target"`
	Cases      int            `json:"cases"`
	NonTrivial int            `json:"nontrivial"`
	Hashes     []string       `json:"hashes"`
	Classes    map[string]int `json:"classes"`
	Samples    []string       `json:"samples"`
	Slow       int            `json:"slow_unconfirmed"`
	KnownHits  map[string]int `json:"known_hits"`
	WallS      float64        `json:"wall_s"`
	Stopped    bool           `json:"stopped_by_time"`
}

// Failure is a failing case, minimised.
type Failure struct {
	Property string            `json:"property"`
	Target   string            `json:"target"`
	Cases    []json.RawMessage `json:"cases"`
	Error    string            `json:"error"`
	Sig      string            `json:"sig"`
	Kind     string            `json:"kind"`
	Seed     uint64            `json:"seed"`
	Note     string            `json:"note,omitempty"`
}

// ShardReport is the output of a shard.
type ShardReport struct {
	Stats      []TargetStats `json:"stats"`
	Failures   []Failure     `json:"failures"`
	HarnessErr string        `json:"harness_err,omitempty"`
}

type fakeTB struct {
	name   string
	failed bool
	log    []string
}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return f.name }
func (f *fakeTB) Logf(s string, a ...any)   { f.log = append(f.log, fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.log = append(f.log, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(s string, a ...any)  { runtime.Goexit() }
func (f *fakeTB) Skip(a ...any)             { runtime.Goexit() }
func (f *fakeTB) SkipNow()                  { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; f.Logf(s, a...) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.Log(a...) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.failed = true; f.Logf(s, a...); runtime.Goexit() }
func (f *fakeTB) Fatal(a ...any)            { f.failed = true; f.Log(a...); runtime.Goexit() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// ShardOptions configure RunShard.
type ShardOptions struct {
	Property, Tier, Only string
	Seed                 uint64
	Shard, Shards        int
	RealExe, FakeExe     string
	Known                []Known
	Scale                float64
	Deadline             time.Time
}

// RunShard runs this shard's part of every target of the property.
func RunShard(o ShardOptions) (rep ShardReport) {
	p := Find(o.Property)
	if p == nil {
		rep.HarnessErr = "no property " + o.Property
		return
	}
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")
	if os.Getenv("VERIF_NOSHRINK") != "" { // for trying many changes
		flag.Set("rapid.shrinktime", "1ms")
	}
	for i := range p.Targets {
		t := &p.Targets[i]
		if o.Only != "" && o.Only != t.Name {
			continue
		}
		total := t.Quick
		if o.Tier == "thorough" {
			total = t.Thorough
		}
		total = int(float64(total) * o.Scale)
		shards := o.Shards
		if t.MaxShards > 0 && t.MaxShards < shards {
			shards = t.MaxShards
		}
		if o.Shard >= shards || total == 0 {
			continue
		}
		n := (total + shards - 1) / shards
		st, fl, herr := runTarget(o, p, t, n, i)
		rep.Stats = append(rep.Stats, st)
		if herr != "" {
			rep.HarnessErr = herr
			return
		}
		if fl != nil {
			rep.Failures = append(rep.Failures, *fl)
			return
		}
	}
	return
}

func runTarget(o ShardOptions, p *Property, t *Target, n, idx int) (st TargetStats, fl *Failure, herr string) {
	start := time.Now()
	st.Target = t.Name
	st.Classes = map[string]int{}
	st.KnownHits = map[string]int{}
	seed := o.Seed*1000003 + uint64(o.Shard)*7919 + uint64(idx)*104729 + 1
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.checks", fmt.Sprint(n))
	r := &Runner{RealExe: o.RealExe, FakeExe: o.FakeExe, Slow: 1}
	defer r.Close()
	seen := map[string]bool{}
	sampleLen := 0
	var failedAt time.Time

	prop := func(rt *rapid.T) {
		if fl == nil && (herr != "" || time.Now().After(o.Deadline)) {
			st.Stopped = true
			return
		}
		cs := t.Gen(rt)
		raw, err := json.Marshal(cs)
		if err != nil {
			herr = "marshal: " + err.Error()
			return
		}
		if fl != nil && failedAt.IsZero() {
			failedAt = time.Now()
		}
		if fl != nil && string(raw) == string(fl.Cases[len(fl.Cases)-1]) {
			rt.Fatalf("%s", "property failed") // it did
		}
		if fl != nil && fl.Kind == "hang" && time.Since(failedAt) > 45*time.Second {
			return // enough shrinking
		}
		res := r.Run(t, raw)
		if res.HarnessErr != "" {
			// once more, alone
			r.Close()
			res = r.Run(t, raw)
			if res.HarnessErr != "" {
				herr = res.HarnessErr
				return
			}
		}
		note := ""
		hist := append([]json.RawMessage{}, r.history...)
		if res.Fail != "" && (res.Kind == "timeout" || res.Kind == "hang") {
			// A passed time limit only counts when it passes again, alone, with more time.
			again := []int{2, 4}
			if res.Kind == "hang" {
				again = []int{3}
			}
			if fl != nil { // shrinking
				again = nil
			}
			for _, slow := range again {
				r2 := &Runner{RealExe: o.RealExe, FakeExe: o.FakeExe, Slow: slow}
				res2 := r2.Run(t, raw)
				r2.Close()
				if res2.Fail == "" || res2.HarnessErr != "" {
					st.Slow++
					res = res2
					break
				}
				res = res2
			}
		}
		if res.Fail != "" && t.Mode == Pure && res.Kind == "crash" {
			r2 := &Runner{RealExe: o.RealExe, FakeExe: o.FakeExe, Slow: 1}
			res2 := r2.Run(t, raw)
			r2.Close()
			if res2.Fail == "" {
				note = "the crash came while or after earlier cases ran in the same process; they are included"
			}
		}
		if fl == nil {
			st.Cases++
			for k, v := range res.Classes {
				st.Classes[k] += v
			}
			if res.NonTrivial {
				st.NonTrivial++
				h := sha256.Sum256(raw)
				k := hex.EncodeToString(h[:6])
				if !seen[k] && len(seen) < 300000 {
					seen[k] = true
					st.Hashes = append(st.Hashes, k)
				}
				if len(st.Samples) < 2 && (len(st.Samples) == 0 || len(raw) > sampleLen) {
					s := string(raw)
					if len(s) > 700 {
						s = s[:700] + "...(cut)"
					}
					st.Samples = append(st.Samples, s)
					sampleLen = len(raw)
				}
			}
		}
		if res.Fail == "" {
			return
		}
		for _, k := range o.Known {
			if k.Property == p.ID && k.Target == t.Name && k.Sig == res.Sig {
				st.KnownHits[k.Sig]++
				return
			}
		}
		fl = &Failure{Property: p.ID, Target: t.Name, Cases: []json.RawMessage{raw}, Error: res.Fail,
			Sig: res.Sig, Kind: res.Kind, Seed: o.Seed, Note: note}
		if note != "" {
			fl.Cases = hist
		}
		rt.Fatalf("%s", "property failed")
	}

	tb := &fakeTB{name: t.Name}
	done := make(chan string, 1)
	go func() {
		ok := false
		defer func() {
			if !ok && !tb.failed {
				if r := recover(); r != nil {
					done <- fmt.Sprintf("panic in generator: %v", r)
					return
				}
			}
			done <- ""
		}()
		rapid.Check(tb, prop)
		ok = true
	}()
	if e := <-done; e != "" && herr == "" {
		herr = e
	}
	if tb.failed && fl == nil && herr == "" {
		herr = "generator trouble: " + strings.Join(tb.log, " | ")
	}
	st.WallS = time.Since(start).Seconds()
	return
}

// WriteJSON writes v to path.
func WriteJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
