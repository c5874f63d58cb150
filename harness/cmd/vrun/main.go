// Command vrun drives the checks: see pbt.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"syscall"
	"testing"
	"time"

	"verif/pbt"
	_ "verif/props"
)

func main() {
	// a program under test may suspend itself and its parent
	signal.Ignore(syscall.SIGTSTP)
	if len(os.Args) > 1 && os.Args[1] == "-worker" {
		pbt.WorkerMain()
		return
	}
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "seed")
		shard    = flag.Int("shard", -1, "")
		shards   = flag.Int("shards", 8, "")
		out      = flag.String("out", "", "")
		fake     = flag.String("fake", "", "faketime build of this program")
		known    = flag.String("known", "", "known findings file")
		evidence = flag.String("evidence", "", "evidence directory")
		scale    = flag.Float64("scale", 1, "multiply case counts")
		only     = flag.String("only", "", "only this target")
		budget   = flag.Duration("budget", 0, "time budget")
		replay   = flag.String("replay", "", "replay file")
		times    = flag.Int("times", 3, "replay repetitions")
		needFake = flag.Bool("needfake", false, "print whether the property needs the faketime build")
		started  = flag.Int64("started", 0, "unix time the check started")
		list     = flag.Bool("list", false, "list properties")
	)
	testing.Init()
	flag.Parse()
	real, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *budget == 0 {
		*budget = 240 * time.Second
		if *tier == "thorough" {
			*budget = 3 * time.Hour
		}
	}
	switch {
	case *list:
		for _, p := range pbt.Registry {
			fmt.Println(p.ID)
			for _, t := range p.Targets {
				fmt.Println("   ", t.Name, []string{"pure", "fresh", "fake"}[t.Mode], t.Quick, t.Thorough)
			}
		}
	case *needFake:
		p := pbt.Find(*prop)
		if p != nil {
			for _, t := range p.Targets {
				if t.Mode == pbt.Fake {
					fmt.Println("yes")
					return
				}
			}
		}
		fmt.Println("no")
	case *replay != "":
		os.Exit(pbt.Replay(*replay, real, *fake, *times))
	case *shard >= 0:
		rep := pbt.RunShard(pbt.ShardOptions{Property: *prop, Tier: *tier, Seed: *seed, Shard: *shard, Shards: *shards,
			RealExe: real, FakeExe: *fake, Known: pbt.LoadKnown(*known), Scale: *scale, Only: *only,
			Deadline: time.Now().Add(*budget)})
		if err := pbt.WriteJSON(*out, rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	default:
		st := time.Now()
		if *started > 0 {
			st = time.Unix(*started, 0)
		}
		os.Exit(pbt.Drive(pbt.DriverOptions{Property: *prop, Tier: *tier, Seed: *seed, Shards: *shards, RealExe: real,
			FakeExe: *fake, EvidenceDir: *evidence, KnownFile: *known, Scale: *scale, Only: *only, Budget: *budget, StartedAt: st}))
	}
}
