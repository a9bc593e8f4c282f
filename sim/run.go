//go:build go1.21

package main

import (
	"bufio"
	"os"
	"strings"
	"time"

	"github.com/fdymylja/tmos/verifsim/simtime"
)

// Cfg is the configuration of a run.
type Cfg struct {
	App      *AppCfg           `json:"app,omitempty"`
	RT       *RTCfg            `json:"rt,omitempty"`
	Replicas int               `json:"replicas,omitempty"`
	N        int64             `json:"n,omitempty"`
	M        int64             `json:"m,omitempty"`
	L        []string          `json:"l,omitempty"`
	Flags    map[string]int64  `json:"flags,omitempty"`
	Opts     map[string]string `json:"opts,omitempty"`
}

// Profile tells what the runs are for.
type Profile struct {
	Prop string // property under check
	Tier string
}

var scenarios = map[string]Scenario{}

func register(s Scenario) { scenarios[s.Name] = s }

// share says which scenarios decide a property, and how often each is run.
type share struct {
	name   string
	weight int
}

var mixes = map[string][]share{
	"P01": {{"chain", 1}},
	"P02": {{"chain", 1}},
	"P03": {{"chain", 1}},
	"P04": {{"chain", 1}},
	"P05": {{"chain", 1}},
	"P06": {{"chain", 1}},
	"P07": {{"chain", 1}},
	"P08": {{"runtime", 2}, {"chain", 1}},
	"P09": {{"chain", 3}, {"runtime", 1}},
	"P10": {{"chain", 4}, {"runtime", 1}},
	"P11": {{"orm", 2}, {"chain", 1}},
	"P12": {{"orm", 2}, {"chain", 1}},
	"P13": {{"chain", 2}, {"orm", 1}},
	"P14": {{"chain", 1}},
	"P15": {{"chain", 1}},
	"P16": {{"chain", 1}},
	"P17": {{"chain", 1}},
	"P18": {{"runtime", 2}, {"chain", 1}},
	"P19": {{"kv", 1}},
}

// nth is the scenario and the seed of the n-th run of a check.
func nth(prop string, seed uint64, n int) (string, uint64) {
	m := mixes[prop]
	t := 0
	for _, s := range m {
		t += s.weight
	}
	k := n % t
	for _, s := range m {
		if k < s.weight {
			h := mix(seed)
			for _, c := range prop {
				h = mix(h ^ uint64(c))
			}
			return s.name, mix(h^uint64(n)) >> 1
		}
		k -= s.weight
	}
	panic("unreachable")
}

// plan derives the plan of a seed.
func plan(scenario string, seed uint64, prof *Profile) *Plan {
	p := &Plan{Scenario: scenario, Seed: seed, Prop: prof.Prop, Tier: prof.Tier}
	p.Cfg, p.Ops = scenarios[scenario].Gen(NewRNG(seed), prof)
	return p
}

// execute runs a plan.
func execute(p *Plan, want string, trace bool) *Ctx {
	c := NewCtx(p, want)
	c.Trace = trace
	seedRand(mix(p.Seed))
	newProcess().enter()
	boots = 0
	time.Local, simtime.Local = time.UTC, time.UTC
	scenarios[p.Scenario].Run(p, c)
	return c
}

// knownFinding is a violation which is described in DESIGN.md and not reported again:
//
//	known: property=<id> kind=<kind> match=<part of the detail>
type knownFinding struct{ prop, kind, match string }

var knownFindings []knownFinding

func loadKnown(path string) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	for sc := bufio.NewScanner(f); sc.Scan(); {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i, j := strings.Index(l, " kind="), strings.Index(l, " match=")
		if i < 0 || j < i {
			continue
		}
		knownFindings = append(knownFindings, knownFinding{l[:i], l[i+6 : j], l[j+7:]})
	}
	return nil
}

func isKnown(v Violation) bool {
	for _, k := range knownFindings {
		if k.prop == v.Prop && k.kind == v.Kind && strings.Contains(v.Detail, k.match) {
			return true
		}
	}
	return false
}
