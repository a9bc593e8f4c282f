//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/fdymylja/tmos/runtime/kv"
)

// The kv scenario: threads work on one store and keep iterators open meanwhile. The order
// of their operations is the schedule.

func init() { register(Scenario{Name: "kv", Gen: genKV, Run: runKV}) }

// expr is a string expression of plans: #500x is x 500 times, q"…" a quoted string.
func expr(e string) string {
	if strings.HasPrefix(e, "q\"") {
		if s, err := strconv.Unquote(e[1:]); err == nil {
			return s
		}
	}
	if strings.HasPrefix(e, "@") {
		return e
	}
	return name(e)
}

func quoteExpr(s string) string { return "q" + strconv.QuoteToASCII(s) }

type kvIterState struct {
	it     kv.Iterator
	keys   []string // expected, as of the moment it was opened
	vals   []string
	strip  int
	pos    int
	what   string
	opened int
	wrote  bool
}

type kvSim struct {
	c     *Ctx
	db    kv.KV
	kv    kv.KV
	model map[string]string
	iters map[int]*kvIterState
	held  []heldValue
	undo  map[string]string // state at the begin of the transaction
	j     *kv.Journal
}

type heldValue struct {
	key       string
	got, copy []byte
	step      int
}

func runKV(p *Plan, c *Ctx) {
	was := memTable
	memTable = p.Cfg.M
	defer func() { memTable = was }()
	s := &kvSim{c: c, model: map[string]string{}, iters: map[int]*kvIterState{}}
	o := guard(func() {
		s.db = kv.NewBadger()
		s.j = kv.NewJournal(s.db)
		s.kv = s.db
		if p.Cfg.N == 1 {
			s.kv = s.j
		}
		defer func() {
			for _, i := range s.iters {
				i.it.Close()
			}
			for _, db := range databases(reflect.ValueOf(s.db), 6) {
				_ = db.Close()
			}
		}()
		for i := range p.Ops {
			c.Step = i
			s.op(&p.Ops[i])
			if c.Done() {
				return
			}
		}
		c.Step = len(p.Ops)
		s.settle()
	})
	if !o.ok() {
		c.Violate("P19", "store does not survive", "%s", o)
	}
}

func (s *kvSim) op(op *Op) {
	c := s.c
	key := expr(op.S)
	switch op.K {
	case "set":
		k, v := []byte(key), []byte(expr(op.T))
		s.kv.Set(k, v)
		s.model[key] = string(v)
		if op.N == 1 {
			// the caller uses its buffers for something else
			for i := range k {
				k[i] = 'Z'
			}
			for i := range v {
				v[i] = 'Z'
			}
		}
		s.dirty()
		c.Hit("kv: sets")
	case "get":
		k := []byte(key)
		v, ok := s.kv.Get(k)
		want, exists := s.model[key]
		c.Log("get %q %v %s", clip(key, 40), ok, short(v))
		if ok != exists || (ok && string(v) != want) {
			c.Violate("P19", "read is wrong", "Get(%q) is %v %q instead of %v %q", clip(key, 60), ok, clip(string(v), 60), exists, clip(want, 60))
		}
		if string(k) != key {
			c.Violate("P19", "key changed", "Get(%q) overwrote the key", clip(key, 60))
		}
		if ok {
			s.hold(key, v)
		}
		c.Hit("kv: gets")
	case "has":
		ok := s.kv.Has([]byte(key))
		_, exists := s.model[key]
		c.Log("has %q %v", clip(key, 40), ok)
		if ok != exists {
			c.Violate("P19", "read is wrong", "Has(%q) is %v instead of %v", clip(key, 60), ok, exists)
		}
		c.Hit("kv: has")
	case "delete":
		ok := s.kv.Delete([]byte(key))
		_, exists := s.model[key]
		c.Log("delete %q %v", clip(key, 40), ok)
		if ok != exists {
			c.Violate("P19", "deletion reports the wrong thing", "Delete(%q) is %v, the key existed: %v", clip(key, 60), ok, exists)
		}
		delete(s.model, key)
		s.dirty()
		c.Hit("kv: deletes")
	case "range", "prefix":
		if len(s.iters) >= 6 && s.iters[op.R] == nil {
			return
		}
		s.close(op.R)
		it := &kvIterState{opened: c.Step}
		end := expr(op.T)
		if op.K == "range" {
			it.what = fmt.Sprintf("Iterate(%q,%q)", clip(key, 40), clip(end, 40))
			it.it = s.kv.Iterate([]byte(key), []byte(end))
		} else {
			it.what = fmt.Sprintf("IteratePrefix(%q)", clip(key, 40))
			it.it = s.kv.IteratePrefix([]byte(key))
			it.strip = len(key)
		}
		for k := range s.model {
			in := strings.HasPrefix(k, key)
			if op.K == "range" {
				in = k >= key && (end == "" || k <= end)
			}
			if in {
				it.keys = append(it.keys, k)
			}
		}
		sort.Strings(it.keys)
		for _, k := range it.keys {
			it.vals = append(it.vals, s.model[k])
		}
		s.iters[op.R] = it
		c.Hit("kv: iterators")
		s.visit(it)
	case "next":
		it := s.iters[op.R]
		for n := op.N; it != nil && n >= 0; n-- {
			if it.pos >= len(it.keys) {
				break
			}
			it.it.Next()
			it.pos++
			s.visit(it)
			c.Hit("kv: steps of iterators")
			if it.wrote {
				c.Hit("kv: steps of iterators after writes")
			}
		}
	case "close":
		s.close(op.R)
	case "begin":
		if s.undo == nil {
			s.undo = map[string]string{}
			for k, v := range s.model {
				s.undo[k] = v
			}
			s.j.Begin()
			s.kv = s.j
		}
	case "commit":
		if s.undo != nil {
			s.j.Commit()
			s.undo = nil
			c.Hit("kv: commits")
		}
	case "rollback":
		if s.undo != nil {
			s.j.Rollback()
			s.model, s.undo = s.undo, nil
			s.dirty()
			s.whole()
			c.Hit("fault: rollback")
		}
	case "whole":
		s.whole()
	}
	for _, h := range s.held {
		if !bytes.Equal(h.got, h.copy) {
			c.Violate("P19", "value changed after it was read", "the value of %q read in step %d", clip(h.key, 60), h.step)
		}
	}
}

// hold keeps a value which was read: it must not change any more.
func (s *kvSim) hold(key string, v []byte) {
	s.held = append(s.held, heldValue{key, v, append([]byte(nil), v...), s.c.Step})
	if len(s.held) > 30 {
		s.held = s.held[1:]
	}
}

func (s *kvSim) dirty() {
	for _, i := range s.iters {
		i.wrote = true
	}
}

// visit checks where an iterator is.
func (s *kvSim) visit(it *kvIterState) {
	c := s.c
	valid := it.it.Valid()
	if want := it.pos < len(it.keys); valid != want {
		k := ""
		if valid {
			k = fmt.Sprintf(" at %q", clip(string(it.it.Key()), 60))
		} else {
			k = fmt.Sprintf(", %q is missing", clip(it.keys[it.pos], 60))
		}
		c.Violate("P19", "iteration is wrong", "%s, opened in step %d, has %d elements, after %d it is valid: %v%s", it.what, it.opened, len(it.keys), it.pos, valid, k)
		it.pos = len(it.keys)
		return
	}
	if !valid {
		return
	}
	raw := it.it.Value()
	k, v := string(it.it.Key()), string(raw)
	s.hold(it.keys[it.pos], raw)
	c.Log("iter %q %s", clip(k, 40), short([]byte(v)))
	if want := it.keys[it.pos][it.strip:]; k != want {
		c.Violate("P19", "iteration is wrong", "%s, opened in step %d: key %d is %q instead of %q", it.what, it.opened, it.pos, clip(k, 60), clip(want, 60))
	}
	if v != it.vals[it.pos] {
		c.Violate("P19", "iteration is wrong", "%s, opened in step %d: value of %q is %q instead of %q", it.what, it.opened, clip(it.keys[it.pos], 60), clip(v, 60), clip(it.vals[it.pos], 60))
	}
}

func (s *kvSim) close(i int) {
	if it := s.iters[i]; it != nil {
		it.it.Close()
		delete(s.iters, i)
	}
}

// whole compares the whole store with the model.
func (s *kvSim) whole() {
	it := &kvIterState{it: s.kv.IteratePrefix(nil), what: "IteratePrefix(nil)", opened: s.c.Step}
	it.keys = sortedKeys(s.model)
	for _, k := range it.keys {
		it.vals = append(it.vals, s.model[k])
	}
	s.visit(it)
	for it.pos < len(it.keys) && !s.c.Done() {
		it.it.Next()
		it.pos++
		s.visit(it)
	}
	it.it.Close()
	for k, v := range s.model {
		if got, ok := s.kv.Get([]byte(k)); !ok || string(got) != v {
			s.c.Violate("P19", "read is wrong", "Get(%q) is %v %q instead of %q", clip(k, 60), ok, clip(string(got), 60), clip(v, 60))
		}
	}
	s.c.State("kv", fmt.Sprint(len(s.model)), strings.Join(it.keys, "\x00"))
}

func (s *kvSim) settle() {
	if s.undo != nil {
		s.j.Rollback()
		s.model, s.undo = s.undo, nil
	}
	for _, i := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
		if it := s.iters[i]; it != nil {
			for it.pos < len(it.keys) && !s.c.Done() {
				it.it.Next()
				it.pos++
				s.visit(it)
			}
		}
	}
	s.whole()
}

func genKV(r *RNG, prof *Profile) (Cfg, []Op) {
	cfg := Cfg{N: int64(r.N(2)), M: pick(r, []int64{64 << 10, 256 << 10, 1 << 20, 8 << 20})}
	// keys which are close to each other
	alphabet := pick(r, []string{"ab", "a\x00", "ab\xff", "a/", "\x00\x01\xff", "abc"})
	maxLen := r.In(1, 4)
	var pool []string
	word := func() string {
		n := r.In(1, maxLen)
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[r.N(len(alphabet))]
		}
		return string(b)
	}
	for i := r.In(3, 20); i > 0; i-- {
		w := word()
		if r.P(1, 12) {
			n := pick(r, []int{64, 127, 1000, 10000})
			if cfg.M < 1<<20 && n > 127 {
				n = 128
			}
			w = strings.Repeat(w, n)
		}
		pool = append(pool, quoteExpr(w))
	}
	some := func() string {
		switch r.N(8) {
		case 0:
			return quoteExpr("")
		case 1:
			return quoteExpr(word())
		}
		return pick(r, pool)
	}
	large := r.P(1, 3)       // values which fill the memory tables
	limit := int(cfg.M / 10) // the store takes 15 % of a table at once
	if cfg.M >= 1<<20 {
		limit -= 41000 // size of the key
	} else {
		limit -= 600
	}
	n := r.In(20, 200)
	if prof.Tier == "thorough" {
		n = r.In(20, 800)
	}
	w := []int{12, 8, 4, 6, 3, 4, 30, 2, 1, 1, 1, 1}
	for i := range w {
		if i != 0 && i != 6 && r.P(1, 5) {
			w[i] = 0
		}
	}
	var ops []Op
	for i := 0; i < n; i++ {
		var op Op
		switch r.W(w...) {
		case 0:
			v := fmt.Sprintf("v%d", i)
			if large && r.P(1, 2) {
				v = fmt.Sprintf("#%dv%d.", r.N(limit)/7, i)
			} else if r.P(1, 8) {
				v = ""
			}
			op = Op{K: "set", S: pick(r, pool), T: v, N: int64(r.N(2))}
		case 1:
			op = Op{K: "get", S: pick(r, pool)}
		case 2:
			op = Op{K: "has", S: pick(r, pool)}
		case 3:
			op = Op{K: "delete", S: pick(r, pool)}
		case 4:
			op = Op{K: "range", R: r.N(6), S: some(), T: some()}
		case 5:
			op = Op{K: "prefix", R: r.N(6), S: some()}
		case 6:
			op = Op{K: "next", R: r.N(6), N: int64(r.N(3))}
		case 7:
			op = Op{K: "close", R: r.N(6)}
		case 8:
			op = Op{K: "begin"}
		case 9:
			op = Op{K: "commit"}
		case 10:
			op = Op{K: "rollback"}
		case 11:
			op = Op{K: "whole"}
		}
		ops = append(ops, op)
	}
	return cfg, ops
}
