//go:build go1.21

package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
)

// Violation is a failed oracle.
type Violation struct {
	Prop   string `json:"prop"`
	Kind   string `json:"kind"`   // class of the violation, stable under minimisation
	Detail string `json:"detail"` // what exactly failed
	Step   int    `json:"step"`   // index of the operation during which it was found
}

// Op is one step of a schedule. Which fields are used depends on K and the scenario.
type Op struct {
	K  string   `json:"k"`
	R  int      `json:"r,omitempty"`  // replica / client / iterator / thread
	ID int      `json:"id,omitempty"` // transaction / object
	N  int64    `json:"n,omitempty"`
	M  int64    `json:"m,omitempty"`
	S  string   `json:"s,omitempty"`
	T  string   `json:"t,omitempty"`
	B  []byte   `json:"b,omitempty"`
	L  []string `json:"l,omitempty"`
	I  []int64  `json:"i,omitempty"`
	Tx *TxSpec  `json:"tx,omitempty"`

	Sub []Op `json:"sub,omitempty"`
}

// Plan is everything which decides a run: the same plan against the same code is the
// same execution.
type Plan struct {
	Scenario string `json:"scenario"`
	Seed     uint64 `json:"seed"`
	Prop     string `json:"prop,omitempty"` // profile it was generated for
	Tier     string `json:"tier,omitempty"`
	Cfg      Cfg    `json:"cfg"`
	Ops      []Op   `json:"ops"`
}

// Scenario generates and executes plans.
type Scenario struct {
	Name string
	Gen  func(r *RNG, prof *Profile) (Cfg, []Op)
	Run  func(p *Plan, c *Ctx)
}

// Ctx collects what happens during a run.
type Ctx struct {
	Plan   *Plan
	Want   string // property under check, empty: all
	Step   int
	Viol   []Violation
	Known  []Violation
	Stats  map[string]int64
	States map[uint64]struct{}
	SimSec int64 // simulated seconds covered
	trace  []string
	Trace  bool
	logh   [32]byte // rolling hash of everything observed: the event log used for determinism checks
	done   bool
}

func NewCtx(p *Plan, want string) *Ctx {
	return &Ctx{Plan: p, Want: want, Stats: map[string]int64{}, States: map[uint64]struct{}{}}
}

// Hit counts that something happened.
func (c *Ctx) Hit(k string) { c.Stats[k]++ }

// HitN counts that something happened n times.
func (c *Ctx) HitN(k string, n int64) { c.Stats[k] += n }

// Log appends an observation to the event log.
func (c *Ctx) Log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	h := sha256.New()
	h.Write(c.logh[:])
	h.Write([]byte(s))
	copy(c.logh[:], h.Sum(nil))
	if c.Trace {
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		c.trace = append(c.trace, fmt.Sprintf("[%d] %s", c.Step, s))
	}
}

// State records an abstract state reached.
func (c *Ctx) State(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.States[h.Sum64()] = struct{}{}
}

// Violate reports a failed oracle of the property.
func (c *Ctx) Violate(prop, kind, format string, a ...interface{}) {
	if len(c.Viol) > 40 {
		return
	}
	d := fmt.Sprintf(format, a...)
	if len(d) > 1500 {
		d = d[:1500] + "…"
	}
	c.Log("VIOLATION %s %s %s", prop, kind, d)
	v := Violation{Prop: prop, Kind: kind, Detail: d, Step: c.Step}
	if isKnown(v) {
		c.Known = append(c.Known, v)
		return
	}
	c.Viol = append(c.Viol, v)
	if c.Want == prop {
		c.done = true
	}
}

// Done tells that the run found what it was looking for.
func (c *Ctx) Done() bool { return c.done }

// First returns the first violation of the property.
func (c *Ctx) First(prop string) *Violation {
	for i := range c.Viol {
		if c.Viol[i].Prop == prop {
			return &c.Viol[i]
		}
	}
	return nil
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func short(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	s := sha256.Sum256(b)
	return fmt.Sprintf("%x", s[:5])
}

func clip(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%s…(%d bytes)", s[:n], len(s))
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func firstDiff(a, b map[string]string) string {
	var out []string
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			out = append(out, fmt.Sprintf("-%q", clip(k, 80)))
		} else if v != a[k] {
			out = append(out, fmt.Sprintf("%q: %q -> %q", clip(k, 80), clip(a[k], 120), clip(v, 120)))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("+%q=%q", clip(k, 80), clip(b[k], 120)))
		}
	}
	if len(out) > 6 {
		out = append(out[:6], fmt.Sprintf("… %d more", len(out)-6))
	}
	return strings.Join(out, "; ")
}

func base64Raw(b []byte) string { return base64.RawStdEncoding.EncodeToString(b) }
