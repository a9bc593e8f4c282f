//go:build go1.21

package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// workerMsg is what a worker tells its parent.
type workerMsg struct {
	T      string           `json:"t"` // start, end, died
	I      int              `json:"i"`
	Viol   []Violation      `json:"v,omitempty"`
	Known  []Violation      `json:"known,omitempty"`
	Stats  map[string]int64 `json:"s,omitempty"`
	States []uint64         `json:"st,omitempty"`
	Log    string           `json:"log,omitempty"`
	Sim    int64            `json:"sim,omitempty"`
	Err    string           `json:"err,omitempty"`
}

// cmdWorker runs every of-th run of a check.
func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	n := fs.Int("n", 1, "")
	known := fs.String("known", "", "")
	_ = fs.Parse(args)
	if *known != "" {
		_ = loadKnown(*known)
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for i := *from; i < *n; i += *step {
		_ = enc.Encode(workerMsg{T: "start", I: i})
		if out.Flush() != nil {
			return exitTrouble // the parent is gone
		}
		sc, s := nth(*prop, *seed, i)
		c := execute(plan(sc, s, &Profile{Prop: *prop, Tier: *tier}), *prop, false)
		m := workerMsg{T: "end", I: i, Viol: c.Viol, Known: c.Known, Stats: c.Stats, Log: fmt.Sprintf("%x", c.logh), Sim: c.SimSec}
		for h := range c.States {
			m.States = append(m.States, h)
		}
		_ = enc.Encode(m)
		if out.Flush() != nil {
			return exitTrouble
		}
	}
	return 0
}

type collected struct {
	trouble string
	done    int
}

var knownFile string

// collect runs the first n runs of a check in worker processes until the deadline, or until
// see returns false.
func collect(prop, tier string, seed uint64, n, workers int, deadline time.Time, see func(workerMsg) bool) collected {
	self, err := os.Executable()
	if err != nil {
		return collected{trouble: err.Error()}
	}
	type event struct {
		w   int
		m   workerMsg
		eof bool
		err string
	}
	events := make(chan event, 64)
	cmds := make([]*osexec.Cmd, workers)
	var wg sync.WaitGroup
	start := func(w, from int) error {
		cmd := osexec.Command(self, "worker", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-step", fmt.Sprint(workers), "-n", fmt.Sprint(n), "-known", knownFile)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		var errOut tail
		cmd.Stderr = &errOut
		if err := cmd.Start(); err != nil {
			return err
		}
		cmds[w] = cmd
		wg.Add(1)
		go func() {
			defer wg.Done()
			dec := json.NewDecoder(bufio.NewReaderSize(pipe, 1<<20))
			for {
				var m workerMsg
				if err := dec.Decode(&m); err != nil {
					break
				}
				events <- event{w: w, m: m}
			}
			e := ""
			if err := cmd.Wait(); err != nil {
				e = err.Error() + ": " + errOut.String()
			}
			events <- event{w: w, eof: true, err: e}
		}()
		return nil
	}
	res := collected{}
	alive := 0
	current := make([]int, workers)
	since := make([]time.Time, workers)
	for w := 0; w < workers && w < n; w++ {
		if err := start(w, w); err != nil {
			res.trouble = err.Error()
			break
		}
		current[w], since[w] = -1, time.Now()
		alive++
	}
	stopping := false
	stop := func() {
		stopping = true
		for _, c := range cmds {
			if c != nil {
				_ = c.Process.Kill()
			}
		}
	}
	if res.trouble != "" {
		stop()
	}
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	deaths := 0
	for alive > 0 {
		select {
		case <-tick.C:
			if stopping {
				continue
			}
			if time.Now().After(deadline) {
				stop()
				continue
			}
			for w := range cmds {
				if cmds[w] != nil && current[w] >= 0 && time.Since(since[w]) > 6*time.Minute {
					res.trouble = fmt.Sprintf("run %d does not end", current[w])
					stop()
				}
			}
		case e := <-events:
			if !e.eof {
				if stopping {
					continue
				}
				since[e.w] = time.Now()
				if e.m.T == "start" {
					current[e.w] = e.m.I
				} else {
					current[e.w] = -1
					res.done++
				}
				if !see(e.m) {
					stop()
				}
				continue
			}
			cmds[e.w] = nil
			if e.err != "" && !stopping {
				i := current[e.w]
				if i < 0 {
					res.trouble = "worker failed: " + e.err
					stop()
				} else {
					deaths++
					if !see(workerMsg{T: "died", I: i, Err: e.err}) {
						stop()
					} else if deaths > 40 {
						res.trouble = "workers keep dying: " + e.err
						stop()
					} else if i+workers < n {
						if err := start(e.w, i+workers); err == nil {
							current[e.w], since[e.w] = -1, time.Now()
							continue
						}
					}
				}
			}
			alive--
		}
	}
	wg.Wait()
	return res
}

// tail keeps the beginning of what a process says.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return clip(string(t.b), 1200) }

// cmdCheck decides a property.
func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "", "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	runs := fs.Int("n", 0, "")
	limit := fs.Duration("limit", 0, "")
	_ = fs.Parse(args)
	fmt.Printf("check %s tier=%s seed=%d\n", *prop, *tier, *seed)
	if _, ok := mixes[*prop]; !ok {
		fmt.Fprintln(os.Stderr, "no such property")
		return exitTrouble
	}
	if *runs == 0 {
		*runs = 1_000_000
	}
	if *limit == 0 {
		*limit = 75 * time.Second
		if *tier == "thorough" {
			*limit = 10 * time.Minute
		}
	}
	if *workers < 2 {
		*workers = 2
	}
	knownFile = filepath.Join(*verif, "known_findings.txt")
	if err := loadKnown(knownFile); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	for _, k := range knownFindings {
		if k.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, k.kind, k.match)
		}
	}
	begin := time.Now()
	deadline := begin.Add(*limit)
	agg := newAggregate(*prop)
	unconfirmed := map[string]int{}
	from := 0
	verdict, replayFile := exitHeld, ""
	var seen *Violation
	var seenAt int
	offset := *seed
	for {
		seen = nil
		res := collect(*prop, *tier, offset, *runs-from, *workers, deadline, func(m workerMsg) bool {
			switch m.T {
			case "end":
				agg.add(m)
				for i := range m.Viol {
					if m.Viol[i].Prop == *prop {
						seen, seenAt = &m.Viol[i], m.I
						return false
					}
				}
			case "died":
				agg.died++
				if *prop == "P03" {
					seen, seenAt = &Violation{Prop: "P03", Kind: "process dies", Detail: m.Err}, m.I
					return false
				}
			}
			return true
		})
		if res.trouble != "" && seen == nil {
			fmt.Fprintln(os.Stderr, "trouble:", res.trouble)
			return exitTrouble
		}
		if seen == nil {
			break
		}
		file, ok := report(*prop, *tier, offset, seenAt, *seen, *verif)
		if !ok {
			unconfirmed[seen.Kind]++
			agg.stats["violations which did not occur again"]++
			fmt.Printf("not confirmed: run %d: [%s] %s\n", seenAt, seen.Kind, seen.Detail)
			ok = unconfirmed[seen.Kind] >= 3
		}
		if ok {
			verdict, replayFile = exitViolation, file
			break
		}
		// go on with other seeds
		offset = mix(offset + 77)
		if time.Now().After(deadline) {
			break
		}
	}
	wall := time.Since(begin).Seconds()
	if err := agg.write(*verif, *tier, *seed, wall, verdict == exitViolation, *workers); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	if verdict == exitViolation {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayFile)
		return exitViolation
	}
	if agg.runs == 0 || agg.nontrivial == 0 {
		fmt.Fprintln(os.Stderr, "trouble: nothing was explored")
		return exitTrouble
	}
	fmt.Printf("held: %d runs (%d distinct and relevant), %d states, %.0f simulated hours, %.0f s\n", agg.runs, len(agg.logs), len(agg.states), float64(agg.sim)/3600, wall)
	return exitHeld
}

// report confirms a violation in a fresh process, minimises it and writes the replay file.
func report(prop, tier string, seed uint64, i int, v Violation, verif string) (string, bool) {
	sc, s := nth(prop, seed, i)
	p := plan(sc, s, &Profile{Prop: prop, Tier: tier})
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, p.Seed))
	self, _ := os.Executable()
	r := Replay{Property: prop, Violation: v, Plan: p, Note: "not minimised; replay with tools/replay.sh FILE"}
	write := func() {
		b, _ := json.MarshalIndent(r, "", " ")
		_ = os.WriteFile(file, b, 0o644)
	}
	fmt.Printf("run %d (%s, seed %d) step %d: [%s] %s\n", i, sc, p.Seed, v.Step, v.Kind, v.Detail)
	write()
	if v.Kind == "process dies" {
		for t := 0; t < 3; t++ {
			cmd := osexec.Command(self, "replay", "-known", knownFile, file)
			_ = cmd.Run()
			if c := cmd.ProcessState.ExitCode(); c != exitHeld && c != exitViolation {
				return file, true
			}
		}
		return file, false
	}
	in := file + ".in"
	b, _ := json.Marshal(p)
	_ = os.WriteFile(in, b, 0o644)
	defer os.Remove(in)
	small := file + ".min"
	defer os.Remove(small)
	budget := 45 * time.Second
	if tier == "thorough" {
		budget = 4 * time.Minute
	}
	cmd := osexec.Command(self, "minimise", "-in", in, "-out", small, "-prop", prop, "-kind", v.Kind, "-budget", budget.String(), "-known", knownFile)
	cmd.Stderr = os.Stderr
	_ = cmd.Run()
	if cmd.ProcessState.ExitCode() == exitViolation {
		if b, err := os.ReadFile(small); err == nil {
			_ = os.WriteFile(file, b, 0o644)
			if replays(self, file, 5) {
				var m Replay
				_ = json.Unmarshal(b, &m)
				fmt.Printf("%s: step %d [%s] %s\n", m.Note, m.Violation.Step, m.Violation.Kind, m.Violation.Detail)
				for k, o := range m.Plan.Ops {
					if k < 25 {
						fmt.Printf("  %d: %s\n", k, clip(js(o), 300))
					}
				}
				return file, true
			}
			write()
		}
	}
	return file, replays(self, file, 5)
}

func replays(self, file string, times int) bool {
	for t := 0; t < times; t++ {
		cmd := osexec.Command(self, "replay", "-tries", "10", "-known", knownFile, file)
		_ = cmd.Run()
		if cmd.ProcessState.ExitCode() == exitViolation {
			return true
		}
	}
	return false
}

// aggregate is what a check covered.
type aggregate struct {
	prop       string
	runs, died int
	nontrivial int
	stats      map[string]int64
	states     map[uint64]struct{}
	logs       map[string]struct{}
	sim        int64
	scen       map[string]int
	samples    []interface{}
	others     map[string]int
	first      []int
}

func newAggregate(prop string) *aggregate {
	return &aggregate{prop: prop, stats: map[string]int64{}, states: map[uint64]struct{}{}, logs: map[string]struct{}{}, scen: map[string]int{}, others: map[string]int{}}
}

func (a *aggregate) add(m workerMsg) {
	a.runs++
	for k, v := range m.Stats {
		a.stats[k] += v
	}
	for _, h := range m.States {
		a.states[h] = struct{}{}
	}
	a.sim += m.Sim
	if relevantRun(a.prop, m.Stats) {
		a.nontrivial++
		a.logs[m.Log] = struct{}{}
	}
	sc, _ := nth(a.prop, 1, m.I)
	a.scen[sc]++
	for _, v := range m.Viol {
		if v.Prop != a.prop {
			a.others[v.Prop+" "+v.Kind]++
		}
	}
	if len(a.first) < 3 {
		a.first = append(a.first, m.I)
	}
}

func (a *aggregate) write(verif, tier string, seed uint64, wall float64, violated bool, workers int) error {
	faults, probes := map[string]int64{}, map[string]int64{}
	for k, v := range a.stats {
		if strings.HasPrefix(k, "fault: ") {
			faults[k[7:]] = v
		} else {
			probes[k] = v
		}
	}
	for _, i := range a.first {
		sc, s := nth(a.prop, seed, i)
		p := plan(sc, s, &Profile{Prop: a.prop, Tier: tier})
		ops := p.Ops
		if len(ops) > 12 {
			ops = ops[:12]
		}
		var short []string
		for _, o := range ops {
			short = append(short, clip(js(o), 260))
		}
		a.samples = append(a.samples, map[string]interface{}{"scenario": sc, "seed": strconv.FormatUint(s, 10), "operations": len(p.Ops), "first_operations": short})
	}
	v := 0
	if violated {
		v = 1
	}
	ev := map[string]interface{}{
		"property": a.prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": v,
		"coverage": map[string]interface{}{
			"evaluations":         a.runs,
			"distinct_nontrivial": len(a.logs),
			"rule": "one evaluation is one simulated run: a plan (configuration, workload, schedule and faults) derived from one seed and executed against the real code. " +
				"Counted as distinct and non-trivial: runs with different event logs in which the property was put to the test at least once (" + strings.Join(relevant[a.prop], ", ") + ")",
			"samples":                             a.samples,
			"runs_per_hour":                       int(float64(a.runs) / wall * 3600),
			"seeds_per_hour":                      int(float64(a.runs) / wall * 3600),
			"simulated_seconds":                   a.sim,
			"runs_by_scenario":                    a.scen,
			"faults_injected":                     faults,
			"distinct_states":                     len(a.states),
			"state_measure":                       "distinct hashes of abstract states: application state at block boundaries, transaction verdict classes, orders of storage operations of concurrent requests, consensus and mempool situations, as recorded by the scenarios",
			"probes":                              probes,
			"workers":                             workers,
			"runtime_randomness":                  pinnedNote(),
			"worker_process_dying":                a.died,
			"violations_of_other_properties_seen": a.others,
			"real_components":                     components(a.scen, true),
			"stubbed_components":                  components(a.scen, false),
		},
		"assumptions": assumptions[a.prop],
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, a.prop+".json"), append(b, '\n'), 0o644)
}

func pinnedNote() string {
	if pinned {
		return "decided by the seed (runtime.rand replaced)"
	}
	return "not controlled on this platform"
}
