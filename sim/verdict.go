//go:build go1.21

package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
)

// reason is why something must not happen, and which property says so.
type reason struct{ Prop, Why string }

// verdict is what the properties say about the admission of a transaction in a state.
type verdict struct {
	Reject []reason // it must be refused
	Free   string   // whether it is admitted is not specified
}

func (v *verdict) reject(p, format string, a ...interface{}) {
	v.Reject = append(v.Reject, reason{p, fmt.Sprintf(format, a...)})
}

func (v *verdict) mustAccept() bool { return len(v.Reject) == 0 && v.Free == "" }

func (t *RefTx) signedBy(a string) bool {
	for _, s := range t.Signers {
		if s.Addr == a {
			return true
		}
	}
	return false
}

// admission decides whether the transaction must be, must not be or may be admitted.
func admission(t *RefTx, st *State, chainID string, height int64) (v verdict) {
	if t.Bad != "" {
		v.reject("P05", "%s", t.Bad)
		return
	}
	v.Free = t.Odd
	seen := map[string]bool{}
	for _, s := range t.Signers {
		if seen[s.Addr] {
			v.Free = "listed twice as signer"
		}
		seen[s.Addr] = true
		acc, ok := st.Accs[s.Addr]
		if !ok {
			v.reject("P05", "signer %s has no account", s.Addr)
			continue
		}
		if acc.Seq != s.Seq {
			v.reject("P04", "sequence %d of %s is not its current one %d", s.Seq, s.Addr, acc.Seq)
		}
		if !t.signedFor(s, chainID, acc.Num) {
			v.reject("P05", "signature of %s is not genuine for this transaction, chain and account number", s.Addr)
		}
		if acc.Pub != "" && acc.Pub != hex.EncodeToString(s.Pub) {
			v.Free = "another public key is recorded for the signer"
		}
	}
	if !t.signedBy(t.Payer) {
		v.reject("P06", "the payer %q did not sign", clip(t.Payer, 60))
	}
	fee, plain, big := amounts(t.Fee)
	switch {
	case big:
		v.reject("P06", "the payer can not afford the fee")
	case fractional(t.Fee):
		v.reject("P07", "fee is not a whole number")
	case !plain:
		v.Free = "fee in unusual form"
	default:
		for d, a := range fee {
			have := st.Bals[t.Payer][d]
			if have == nil || have.Cmp(a) < 0 {
				v.reject("P06", "the payer can not afford the fee of %s%s", a, d)
			}
		}
	}
	if t.Timeout != 0 && (height < 0 || uint64(height) > t.Timeout) {
		v.reject("P14", "timed out at height %d, it is %d", t.Timeout, height)
	}
	if len(t.Memo) > 250 {
		v.Free = "long memo"
	}
	if len(t.Signers) > 6 {
		v.Free = "many signers"
	}
	for _, m := range t.Msgs {
		if w := staticMsg(m, t); w.Why != "" {
			v.Free = w.Why // refused at admission or when it is executed
		}
	}
	return
}

func fractional(cs []*sdkCoin) bool {
	for _, c := range cs {
		if fractionRE.MatchString(c.Amount) {
			return true
		}
	}
	return false
}

// staticMsg tells why a message can never be executed successfully.
func staticMsg(m RefMsg, t *RefTx) reason {
	switch {
	case !m.Known:
		return reason{"P08", fmt.Sprintf("%q is not a transition which external accounts may deliver", clip(m.Name, 80))}
	case m.Send != nil && !t.signedBy(m.Send.FromAddress):
		return reason{"P06", fmt.Sprintf("%q did not sign", clip(m.Send.FromAddress, 60))}
	case m.Acct != nil:
		a := m.Acct.Account
		if a == nil || a.Address == "" {
			return reason{"P17", "no account to be created"}
		}
		if a.PubKey != nil && !pubOK(a.PubKey.TypeUrl, a.PubKey.Value) && !pubMaybe(a.PubKey.TypeUrl, a.PubKey.Value) {
			return reason{"P17", "public key of the account is unusable"}
		}
	case m.Post != nil && !t.signedBy(m.Post.Creator):
		return reason{"P08", fmt.Sprintf("creator %q did not sign", clip(m.Post.Creator, 60))}
	case m.Post != nil && (m.Post.Title == "" || m.Post.Text == ""):
		return reason{"P09", "post is refused by its module"}
	}
	return reason{}
}

func pubOK(url string, val []byte) bool {
	return url == cosmosPubURL && len(val) == 35 && val[0] == 0x0a && val[1] == 33 && (val[2] == 2 || val[2] == 3)
}

// pubMaybe: keys which may be refused or recorded
func pubMaybe(url string, val []byte) bool {
	return (url == cosmosPubURL || url == tmosPubURL) && len(val) >= 35 && val[0] == 0x0a && val[1] == 33
}

// effect is what executing something is expected to do.
type effect struct {
	st       *State
	fail     *reason         // it must fail
	maybe    string          // whether it succeeds is not specified
	looseBal map[string]bool // balances about which only the general rules say something
	loosePub map[string]bool
}

func newEffect(st *State) *effect {
	return &effect{st: st.clone(), looseBal: map[string]bool{}, loosePub: map[string]bool{}}
}

func (e *effect) fails(p, format string, a ...interface{}) {
	if e.fail == nil {
		e.fail = &reason{p, fmt.Sprintf(format, a...)}
	}
}

// createAccount models explicit and implicit creation of an account.
func (e *effect) createAccount(a, pub string) {
	switch {
	case a == "" || len(a) > 60000:
		e.fails("P17", "an account with this address can not be stored")
		return
	case len(a) > 1000:
		e.maybe = "long address"
	}
	if _, ok := e.st.Accs[a]; ok {
		e.fails("P17", "account %s exists", clip(a, 60))
		return
	}
	if _, ok := e.st.Binds[a]; ok {
		e.fails("P08", "%s is already bound to a role", clip(a, 60))
		return
	}
	e.st.Accs[a] = Acc{Num: e.st.Next, Pub: pub}
	e.st.Next++
	e.st.Binds[a] = "external_account"
	if strings.HasPrefix(a, "noacc") {
		e.fails("P09", "a module refused the creation of the account")
	}
}

// send models a transfer of coins.
func (e *effect) send(from, to string, cs []*sdkCoin) {
	amt, plain, tooBig := amounts(cs)
	switch {
	case tooBig:
		e.fails("P07", "amount out of range")
		return
	case fractional(cs):
		e.fails("P07", "amount is not a whole number")
		return
	case !plain:
		e.maybe = "amount in unusual form"
		e.looseBal[from], e.looseBal[to] = true, true
		if _, ok := e.st.Accs[to]; !ok {
			e.createAccount(to, "")
		}
		e.hooks(from, to)
		return
	case len(cs) == 0:
		e.maybe = "nothing to be sent"
	}
	bal := e.st.Bals[from]
	if bal == nil {
		e.fails("P07", "%s has no balance", clip(from, 60))
		return
	}
	for d, a := range amt {
		if bal[d] == nil || bal[d].Cmp(a) < 0 {
			e.fails("P07", "%s has less than %s%s", clip(from, 60), a, d)
			return
		}
	}
	if _, ok := e.st.Accs[to]; !ok {
		e.createAccount(to, "")
		if e.fail != nil {
			return
		}
	}
	sub := map[string]*big.Int{}
	for d, v := range bal {
		sub[d] = v
		if amt[d] != nil {
			sub[d] = new(big.Int).Sub(v, amt[d])
		}
	}
	e.st.Bals[from] = sub
	add := map[string]*big.Int{}
	for d, v := range e.st.Bals[to] {
		add[d] = v
	}
	for d, a := range amt {
		if add[d] == nil {
			add[d] = a
		} else {
			add[d] = new(big.Int).Add(add[d], a)
		}
		if add[d].Cmp(maxAmount) >= 0 {
			e.fails("P07", "balance of %s would get out of range", clip(to, 60))
			return
		}
	}
	e.st.Bals[to] = add
	e.hooks(from, to)
}

// hooks models what simModule does after a transfer.
func (e *effect) hooks(from, to string) {
	if to == "fee_collector" || e.fail != nil {
		return
	}
	if strings.HasPrefix(to, "fail") {
		e.fails("P09", "a module refused the transfer")
		return
	}
	sp := strings.Split(to, ":")
	if len(sp) < 4 || sp[0] != "x" {
		return
	}
	id := sp[2]
	_, exists := e.st.Invs[id]
	switch sp[1] {
	case "c":
		if exists {
			e.fails("P11", "object %q exists", clip(id, 60))
			return
		}
		if id == "" || len(id) > 60000 {
			e.fails("P11", "object can not be stored")
			return
		}
		if len(id)+len(sp[3]) > 1000 {
			e.maybe = "long key"
		}
		e.st.Invs[id] = [2]string{from, sp[3]}
	case "u":
		if !exists {
			e.fails("P11", "object %q does not exist", clip(id, 60))
			return
		}
		e.st.Invs[id] = [2]string{from, sp[3]}
		if len(sp[3]) > 1000 {
			e.maybe = "long key"
		}
	case "d":
		if !exists {
			e.fails("P11", "object %q does not exist", clip(id, 60))
			return
		}
		delete(e.st.Invs, id)
	}
	if len(sp) > 4 && sp[4] == "fail" {
		e.fails("P09", "a module failed after it changed the object")
	}
}

// ante models what an admitted transaction does before its messages are executed.
func ante(t *RefTx, st *State) *effect {
	e := newEffect(st)
	e.send(t.Payer, "fee_collector", t.Fee)
	for _, s := range t.Signers {
		a, ok := e.st.Accs[s.Addr]
		if !ok {
			continue
		}
		if a.Pub == "" {
			a.Pub = hex.EncodeToString(s.Pub)
		}
		e.st.Accs[s.Addr] = a
	}
	seen := map[string]bool{}
	for _, s := range t.Signers {
		if seen[s.Addr] {
			continue
		}
		seen[s.Addr] = true
		if a, ok := e.st.Accs[s.Addr]; ok {
			a.Seq++
			e.st.Accs[s.Addr] = a
		}
	}
	return e
}

// exec models the messages.
func exec(t *RefTx, a *effect) *effect {
	e := newEffect(a.st)
	e.maybe = a.maybe
	for k := range a.looseBal {
		e.looseBal[k] = true
	}
	for _, m := range t.Msgs {
		if e.fail != nil {
			break
		}
		if w := staticMsg(m, t); w.Why != "" {
			e.fails(w.Prop, "%s", w.Why)
			break
		}
		if t.Odd == "message in unusual form" || t.Odd == "message with unknown fields" {
			e.maybe = t.Odd
		}
		switch {
		case m.Send != nil:
			var cs []*sdkCoin
			for _, c := range m.Send.Amount {
				cs = append(cs, &sdkCoin{c.GetDenom(), c.GetAmount()})
			}
			e.send(m.Send.FromAddress, m.Send.ToAddress, cs)
		case m.Acct != nil:
			pub := ""
			if p := m.Acct.Account.PubKey; p != nil {
				pub = pubString(p.TypeUrl, p.Value)
				if !pubOK(p.TypeUrl, p.Value) {
					e.maybe = "unusual public key"
					e.loosePub[m.Acct.Account.Address] = true
				}
			}
			e.createAccount(m.Acct.Account.Address, pub)
		case m.Post != nil:
			if _, ok := e.st.Posts["1"]; ok {
				e.fails("P11", "post exists")
				break
			}
			e.st.Posts["1"] = fmt.Sprintf("%q by %q: %q", m.Post.Title, m.Post.Creator, m.Post.Text)
		}
	}
	return e
}

// diffLabels says which properties the difference of an entry of the state concerns.
func diffLabels(key, want, got string) []string {
	switch {
	case strings.HasPrefix(key, "acc/"):
		var a, b Acc
		_, e1 := fmt.Sscanf(want, "num=%d seq=%d pub=", &a.Num, &a.Seq)
		_, e2 := fmt.Sscanf(got, "num=%d seq=%d pub=", &b.Num, &b.Seq)
		if want == "" || got == "" {
			return []string{"P17", "P09"}
		}
		_, _ = e1, e2
		if a.Num == b.Num && a.Seq != b.Seq {
			return []string{"P04", "P09"}
		}
		return []string{"P17", "P09"}
	case strings.HasPrefix(key, "bal/"):
		return []string{"P07", "P09"}
	case strings.HasPrefix(key, "bind/"):
		return []string{"P17", "P08", "P09"}
	case strings.HasPrefix(key, "inv/"), strings.HasPrefix(key, "post/"):
		return []string{"P09", "P11"}
	case key == "next":
		return []string{"P17"}
	case strings.HasPrefix(key, "BAD/bal"):
		return []string{"P07"}
	case strings.HasPrefix(key, "BAD/"):
		return []string{"P11", "P09"}
	case strings.HasPrefix(key, "single/ValidatorUpdates"):
		return []string{"P15", "P09"}
	case strings.HasPrefix(key, "single/"):
		return []string{"P14", "P09"}
	}
	return []string{"P09"}
}

// compareStates lists the entries in which the states differ.
func compareStates(want, got *State, looseBal, loosePub map[string]bool) (out []string, key []string, wants, gots []string) {
	w, g := want.render(), got.render()
	keys := map[string]bool{}
	for k := range w {
		keys[k] = true
	}
	for k := range g {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if w[k] == g[k] {
			continue
		}
		if strings.HasPrefix(k, "bal/") && (looseBal[k[4:]] || (w[k] == "" && g[k] == "")) {
			continue
		}
		if strings.HasPrefix(k, "acc/") && loosePub[k[4:]] && strings.SplitN(w[k], " pub=", 2)[0] == strings.SplitN(g[k], " pub=", 2)[0] {
			continue
		}
		out = append(out, fmt.Sprintf("%s is %q instead of %q", clip(k, 80), clip(g[k], 120), clip(w[k], 120)))
		key, wants, gots = append(key, k), append(wants, w[k]), append(gots, g[k])
	}
	return
}
