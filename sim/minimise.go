//go:build go1.21

package main

import "encoding/json"

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// minimise drops and simplifies operations as long as the plan fails in the same way.
func minimise(p *Plan, fails func(*Plan) bool, over func() bool) *Plan {
	best := clonePlan(p)
	try := func(q *Plan) bool {
		if over() {
			return false
		}
		if fails(clonePlan(q)) {
			best = q
			return true
		}
		return false
	}
	for round := 0; round < 3 && !over(); round++ {
		before := js(best)
		// operations
		for size := (len(best.Ops) + 1) / 2; size >= 1; size /= 2 {
			for from := len(best.Ops) - size; from > -size; from -= size {
				a := from
				if a < 0 {
					a = 0
				}
				if over() || len(best.Ops) == 0 || a >= len(best.Ops) {
					break
				}
				q := clonePlan(best)
				b := a + size
				if b > len(q.Ops) {
					b = len(q.Ops)
				}
				q.Ops = append(q.Ops[:a], q.Ops[b:]...)
				try(q)
			}
		}
		// configuration
		for best.Cfg.Replicas > 1 {
			q := clonePlan(best)
			q.Cfg.Replicas--
			if !try(q) {
				break
			}
		}
		if best.Cfg.App != nil {
			for i := len(best.Cfg.App.Vals) - 1; i >= 0; i-- {
				q := clonePlan(best)
				q.Cfg.App.Vals = append(q.Cfg.App.Vals[:i], q.Cfg.App.Vals[i+1:]...)
				try(q)
			}
			for n := len(best.Cfg.App.Genesis) / 2; n > 1; n /= 2 {
				for i := 0; i+n <= len(best.Cfg.App.Genesis); i += n {
					q := clonePlan(best)
					q.Cfg.App.Genesis = append(q.Cfg.App.Genesis[:i], q.Cfg.App.Genesis[i+n:]...)
					try(q)
				}
			}
			for i := len(best.Cfg.App.Genesis) - 1; i >= 0; i-- {
				q := clonePlan(best)
				q.Cfg.App.Genesis = append(q.Cfg.App.Genesis[:i], q.Cfg.App.Genesis[i+1:]...)
				try(q)
			}
		}
		// arguments
		for i := range best.Ops {
			for n := best.Ops[i].N / 2; best.Ops[i].K == "burst" && n > 0; n /= 2 {
				q := clonePlan(best)
				q.Ops[i].N -= n
				try(q)
			}
			for _, f := range []func(*Op) bool{
				func(o *Op) bool { r := o.R != 0; o.R = 0; return r },
				func(o *Op) bool { r := o.N != 0; o.N = 0; return r },
				func(o *Op) bool { r := o.M != 0; o.M = 0; return r },
				func(o *Op) bool { r := len(o.B) > 0; o.B = nil; return r },
				func(o *Op) bool { r := len(o.L) > 0; o.L = nil; return r },
			} {
				q := clonePlan(best)
				if f(&q.Ops[i]) {
					try(q)
				}
			}
			for j := len(best.Ops[i].Sub) - 1; j >= 0; j-- {
				q := clonePlan(best)
				q.Ops[i].Sub = append(q.Ops[i].Sub[:j], q.Ops[i].Sub[j+1:]...)
				try(q)
			}
			if best.Ops[i].Tx == nil {
				continue
			}
			for j := len(best.Ops[i].Tx.Msgs) - 1; j >= 0; j-- {
				q := clonePlan(best)
				t := q.Ops[i].Tx
				t.Msgs = append(t.Msgs[:j], t.Msgs[j+1:]...)
				try(q)
			}
			for j := len(best.Ops[i].Tx.Signers) - 1; j >= 0; j-- {
				q := clonePlan(best)
				t := q.Ops[i].Tx
				t.Signers = append(t.Signers[:j], t.Signers[j+1:]...)
				try(q)
			}
			for _, f := range []func(*TxSpec) bool{
				func(t *TxSpec) bool { r := t.Memo != ""; t.Memo = ""; return r },
				func(t *TxSpec) bool { r := t.Payer != ""; t.Payer = ""; return r },
				func(t *TxSpec) bool { r := t.Timeout != 0; t.Timeout = 0; return r },
				func(t *TxSpec) bool { r := t.RelTime != 0; t.RelTime = 0; return r },
			} {
				q := clonePlan(best)
				if f(q.Ops[i].Tx) {
					try(q)
				}
			}
		}
		if js(best) == before {
			break
		}
	}
	return best
}
