package pbt

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// DriverOptions configure Drive.
type DriverOptions struct {
	Property, Tier, Only string
	Seed                 uint64
	Shards               int
	RealExe, FakeExe     string
	EvidenceDir          string
	KnownFile            string
	Scale                float64
	Budget               time.Duration
	StartedAt            time.Time
}

// LoadKnown reads the known-findings file. Lines:
//
//	known: property=<id> target=<target> sig=<sig> <what fails>
//	fixed: property=<id> <commit> <what failed>
func LoadKnown(path string) (k []Known) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var e Known
		rest := []string{}
		for _, w := range strings.Fields(l[len("known:"):]) {
			switch {
			case strings.HasPrefix(w, "property="):
				e.Property = w[9:]
			case strings.HasPrefix(w, "target="):
				e.Target = w[7:]
			case strings.HasPrefix(w, "sig="):
				e.Sig = w[4:]
			default:
				rest = append(rest, w)
			}
		}
		e.What = strings.Join(rest, " ")
		k = append(k, e)
	}
	return
}

// Drive runs all shards, writes evidence and replay files and returns the exit code.
func Drive(o DriverOptions) int {
	p := Find(o.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", o.Property)
		return 3
	}
	tmp, err := os.MkdirTemp("", "vrun-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	reports := make([]ShardReport, o.Shards)
	var wg sync.WaitGroup
	for i := 0; i < o.Shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("shard%d.json", i))
			dir := filepath.Join(tmp, fmt.Sprintf("work%d", i))
			os.MkdirAll(dir, 0o755)
			cmd := exec.Command(o.RealExe, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(o.Shards),
				"-prop", o.Property, "-tier", o.Tier, "-seed", fmt.Sprint(o.Seed), "-out", out,
				"-fake", o.FakeExe, "-known", o.KnownFile, "-scale", fmt.Sprint(o.Scale), "-only", o.Only,
				"-budget", o.Budget.String())
			cmd.Env = append(os.Environ(), "TMPDIR="+dir)
			cmd.Stderr = os.Stderr
			err := cmd.Run()
			b, rerr := os.ReadFile(out)
			if rerr != nil || json.Unmarshal(b, &reports[i]) != nil {
				reports[i].HarnessErr = fmt.Sprintf("shard %d gave no report: %v", i, err)
			}
		}(i)
	}
	wg.Wait()

	// merge
	merged := map[string]*TargetStats{}
	distinct := map[string]map[string]bool{}
	knownHits := map[string]int{}
	var order []string
	var failures []Failure
	var harness []string
	for _, r := range reports {
		if r.HarnessErr != "" {
			harness = append(harness, r.HarnessErr)
		}
		failures = append(failures, r.Failures...)
		for _, s := range r.Stats {
			m := merged[s.Target]
			if m == nil {
				m = &TargetStats{Target: s.Target, Classes: map[string]int{}}
				merged[s.Target] = m
				distinct[s.Target] = map[string]bool{}
				order = append(order, s.Target)
			}
			m.Cases += s.Cases
			m.NonTrivial += s.NonTrivial
			m.Slow += s.Slow
			m.Stopped = m.Stopped || s.Stopped
			for k, v := range s.Classes {
				m.Classes[k] += v
			}
			for k, v := range s.KnownHits {
				knownHits[s.Target+" "+k] += v
			}
			for _, h := range s.Hashes {
				distinct[s.Target][h] = true
			}
			if len(m.Samples) < 3 {
				m.Samples = append(m.Samples, s.Samples...)
			}
			if s.WallS > m.WallS {
				m.WallS = s.WallS
			}
		}
	}
	sort.Strings(order)
	eval, dist := 0, 0
	rules := []string{}
	samples := []interface{}{}
	targets := map[string]interface{}{}
	for _, n := range order {
		m := merged[n]
		eval += m.Cases
		dist += len(distinct[n])
		t := FindTarget(n)
		rules = append(rules, n+": "+t.Rule)
		for i, s := range m.Samples {
			if i < 3 {
				samples = append(samples, map[string]string{"target": n, "case": s})
			}
		}
		targets[n] = map[string]interface{}{
			"cases": m.Cases, "nontrivial": m.NonTrivial, "distinct_nontrivial": len(distinct[n]),
			"classes": m.Classes, "limits_passed_but_not_confirmed": m.Slow, "wall_s": m.WallS, "stopped_by_time": m.Stopped,
		}
		fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %.1fs\n", p.ID, n, m.Cases, len(distinct[n]), m.WallS)
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": o.Tier, "seed": o.Seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": eval, "distinct_nontrivial": dist,
			"rule": strings.Join(rules, " || "), "samples": samples, "targets": targets,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(o.StartedAt).Seconds(),
		"violations":  len(failures),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(o.EvidenceDir, 0o755)
	if err := WriteJSON(filepath.Join(o.EvidenceDir, p.ID+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, k := range LoadKnown(o.KnownFile) {
		if k.Property == p.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		}
	}
	if len(failures) > 0 {
		// the shortest reproduction first
		sort.SliceStable(failures, func(i, j int) bool { return caseLen(failures[i]) < caseLen(failures[j]) })
		f := failures[0]
		dir := filepath.Join(o.EvidenceDir, "replays")
		os.MkdirAll(dir, 0o755)
		b, _ := json.Marshal(f.Cases)
		h := sha256.Sum256(b)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", p.ID, f.Target, hex.EncodeToString(h[:4])))
		WriteJSON(path, f)
		msg := f.Error
		if len(msg) > 2500 {
			msg = msg[:2500] + "..."
		}
		cs := string(f.Cases[len(f.Cases)-1])
		if len(cs) > 1500 {
			cs = cs[:1500] + "..."
		}
		fmt.Printf("target %s, case %s\n%s\n", f.Target, cs, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if len(harness) > 0 {
		fmt.Fprintln(os.Stderr, "harness error:", harness[0])
		return 3
	}
	return 0
}

func caseLen(f Failure) int {
	n := 0
	for _, c := range f.Cases {
		n += len(c)
	}
	return n
}

// Replay runs the cases of a replay file and returns the exit code.
func Replay(path, real, fake string, times int) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	t := FindTarget(f.Target)
	if t == nil {
		fmt.Fprintln(os.Stderr, "no target", f.Target)
		return 3
	}
	bad := 0
	for i := 0; i < times; i++ {
		r := &Runner{RealExe: real, FakeExe: fake, Slow: 1}
		for _, c := range f.Cases {
			res := r.Run(t, c)
			if res.HarnessErr != "" {
				fmt.Fprintln(os.Stderr, "harness error:", res.HarnessErr)
				r.Close()
				return 3
			}
			if res.Fail != "" {
				fmt.Printf("run %d: %s\n", i, res.Fail)
				bad++
				break
			}
		}
		r.Close()
	}
	fmt.Printf("%d of %d runs failed\n", bad, times)
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	return 0
}
