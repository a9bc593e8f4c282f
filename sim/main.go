//go:build go1.21

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

const (
	exitHeld      = 0
	exitViolation = 1
	exitTrouble   = 3 // of the check itself: no verdict
)

func main() {
	quiet()
	pinned = pinRand()
	claimGlobals()
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "pinned", pinned, "fastG", fastG)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	if len(os.Args) < 2 {
		usage()
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(args))
	case "worker":
		os.Exit(cmdWorker(args))
	case "minimise":
		os.Exit(cmdMinimise(args))
	case "replay":
		os.Exit(cmdReplay(args))
	case "run":
		os.Exit(cmdRun(args))
	case "selftest":
		os.Exit(cmdSelftest(args))
	case "any":
		os.Exit(cmdAny(args))
	}
	usage()
}

var pinned bool

func usage() {
	fmt.Fprintln(os.Stderr, "usage: sim check|replay|run|selftest …")
	os.Exit(exitTrouble)
}

// cmdRun runs seeds and prints every violation: for working on the simulator.
func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	sc := fs.String("scenario", "chain", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1, "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	prof := fs.String("prof", "", "")
	trace := fs.Bool("trace", false, "")
	dump := fs.Bool("plan", false, "")
	quietStats := fs.Bool("q", false, "")
	_ = fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	stats := map[string]int64{}
	bad := 0
	for i := 0; i < *n; i++ {
		p := plan(*sc, *seed+uint64(i), &Profile{Prop: *prop, Tier: *tier})
		if *dump {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(b))
		}
		c := execute(p, "", *trace)
		for _, l := range c.trace {
			fmt.Println(l)
		}
		for _, v := range c.Viol {
			fmt.Printf("seed %d step %d %s [%s] %s\n", p.Seed, v.Step, v.Prop, v.Kind, v.Detail)
			bad++
		}
		for k, v := range c.Stats {
			stats[k] += v
		}
	}
	if !*quietStats {
		for _, k := range sortedKeys(stats) {
			fmt.Fprintf(os.Stderr, "%8d %s\n", stats[k], k)
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}

// cmdAny runs seeds of all properties until one of them is violated: for working on the simulator.
func cmdAny(args []string) int {
	fs := flag.NewFlagSet("any", flag.ExitOnError)
	seed := fs.Uint64("seed", 1, "")
	budget := fs.Duration("budget", 30*time.Second, "")
	_ = fs.Parse(args)
	t0 := time.Now()
	props := sortedKeys(mixes)
	for i := 0; time.Since(t0) < *budget; i++ {
		prop := props[i%len(props)]
		sc, sd := nth(prop, *seed, i/len(props))
		c := execute(plan(sc, sd, &Profile{Prop: prop, Tier: "quick"}), "", false)
		for _, v := range c.Viol {
			fmt.Printf("after %d runs (%s for %s, seed %d): %s [%s] %s\n", i+1, sc, prop, sd, v.Prop, v.Kind, clip(v.Detail, 200))
		}
		if len(c.Viol) > 0 {
			return 1
		}
	}
	return 0
}

// Replay is what a replay file holds.
type Replay struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Log       string    `json:"event_log_hash"`
	Note      string    `json:"note"`
	Plan      *Plan     `json:"plan"`
}

// cmdReplay executes a replay file and reports the violation if it occurs again.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	trace := fs.Bool("trace", false, "print what happens")
	tries := fs.Int("tries", 20, "")
	known := fs.String("known", "", "")
	_ = fs.Parse(args)
	if fs.NArg() != 1 {
		usage()
	}
	if *known != "" {
		_ = loadKnown(*known)
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil || r.Plan == nil || scenarios[r.Plan.Scenario].Run == nil {
		fmt.Fprintln(os.Stderr, "not a replay file", err)
		return exitTrouble
	}
	for i := 0; i < *tries; i++ {
		c := execute(r.Plan, r.Property, *trace)
		for _, l := range c.trace {
			fmt.Println(l)
		}
		v := c.First(r.Property)
		if v == nil || (r.Violation.Kind != "" && v.Kind != r.Violation.Kind) {
			continue
		}
		same := "same event log"
		if fmt.Sprintf("%x", c.logh) != r.Log {
			same = "event log differs"
		}
		fmt.Printf("reproduced in attempt %d (%s): step %d [%s] %s\n", i+1, same, v.Step, v.Kind, v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
		return exitViolation
	}
	fmt.Println("not reproduced")
	return exitHeld
}

// cmdMinimise looks for a smaller plan with the same violation.
func cmdMinimise(args []string) int {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	prop := fs.String("prop", "", "")
	kind := fs.String("kind", "", "")
	budget := fs.Duration("budget", time.Minute, "")
	known := fs.String("known", "", "")
	_ = fs.Parse(args)
	if *known != "" {
		_ = loadKnown(*known)
	}
	b, err := os.ReadFile(*in)
	if err != nil {
		return exitTrouble
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		return exitTrouble
	}
	deadline := time.Now().Add(*budget)
	runs := 0
	var last *Ctx
	fails := func(q *Plan) bool {
		runs++
		c := execute(q, *prop, false)
		for i := range c.Viol {
			if c.Viol[i].Prop == *prop && c.Viol[i].Kind == *kind {
				last = c
				last.Viol = []Violation{c.Viol[i]}
				return true
			}
		}
		return false
	}
	if !fails(&p) && !fails(&p) && !fails(&p) {
		return exitHeld
	}
	best := minimise(&p, fails, func() bool { return time.Now().After(deadline) })
	for i := 0; i < 5 && !fails(best); i++ {
	}
	r := Replay{Property: *prop, Violation: last.Viol[0], Log: fmt.Sprintf("%x", last.logh), Plan: best,
		Note: fmt.Sprintf("minimised from %d to %d operations in %d runs; replay with tools/replay.sh FILE", len(p.Ops), len(best.Ops), runs)}
	j, _ := json.MarshalIndent(r, "", " ")
	if os.WriteFile(*out, j, 0o644) != nil {
		return exitTrouble
	}
	return exitViolation
}

// cmdSelftest runs the same seeds in several processes and compares their event logs.
func cmdSelftest(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Int("n", 5, "runs per property")
	props := fs.String("props", "", "")
	procs := fs.Int("procs", 4, "")
	_ = fs.Parse(args)
	list := sortedKeys(mixes)
	if *props != "" {
		list = strings.Split(*props, ",")
	}
	bad, total := 0, 0
	for _, prop := range list {
		logs := map[int]map[string]bool{}
		for q := 0; q < *procs; q++ {
			// every process runs the seeds with a different number of workers
			res := collect(prop, "quick", 1, *n, 1+q*2, time.Now().Add(20*time.Minute), func(m workerMsg) bool {
				if m.T == "end" {
					if logs[m.I] == nil {
						logs[m.I] = map[string]bool{}
					}
					logs[m.I][m.Log] = true
				}
				return true
			})
			if res.trouble != "" {
				fmt.Println(prop, res.trouble)
				bad++
			}
		}
		for i, l := range logs {
			total++
			if len(l) != 1 {
				sc, seed := nth(prop, 1, i)
				fmt.Printf("%s run %d (%s seed %d): %d different event logs\n", prop, i, sc, seed, len(l))
				bad++
			}
		}
	}
	fmt.Printf("%d runs repeated %d times, %d diverged\n", total, *procs, bad)
	if bad > 0 {
		return exitTrouble
	}
	return 0
}
