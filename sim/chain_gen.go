//go:build go1.21

package main

import (
	"fmt"
	"strings"
)

// weights says how often each kind of step is generated, by property under check.
// Every run uses a random subset of them, so rare combinations get their share.
var baseWeights = map[string]int{
	"send": 14, "create": 5, "post": 2, "multi": 5, "xop": 6, "failing": 4, "fresh": 5,
	"badsig": 5, "mutate": 6, "seq": 6, "fee": 5, "amounts": 6, "timeout": 4, "internal": 4, "garbage": 3, "odd": 4, "longkey": 2, "noaccount": 2, "lookalike": 4, "crew": 4, "steal": 3, "burst": 1,
	"mk": 6, "deliver": 10, "check": 10, "begin": 10, "end": 3, "commit": 6,
	"wait": 2, "skew": 2, "crash": 6, "restart": 2, "lag": 3, "catch": 4, "read": 10, "list": 6, "misc": 4, "race": 3,
}

var boosts = map[string][]string{
	"P01": {"race", "lag", "catch", "check", "read", "restart", "skew", "wait", "multi", "fee", "xop"},
	"P02": {"crash", "restart", "lag", "catch", "multi", "failing", "xop"},
	"P03": {"garbage", "mutate", "odd", "longkey", "misc", "amounts", "internal", "read"},
	"P04": {"burst", "crew", "seq", "deliver", "mk", "multi", "restart"},
	"P05": {"crew", "badsig", "mutate", "noaccount", "multi", "mk", "deliver"},
	"P06": {"steal", "crew", "lookalike", "fee", "multi", "amounts", "failing", "badsig"},
	"P07": {"lookalike", "amounts", "send", "fee", "failing", "fresh", "longkey"},
	"P08": {"internal", "xop", "create", "failing"},
	"P09": {"failing", "multi", "xop", "create", "amounts", "longkey", "fee"},
	"P10": {"crew", "race", "check", "read", "list", "misc", "mk", "deliver", "timeout"},
	"P11": {"lookalike", "xop", "create", "longkey", "read", "failing"},
	"P12": {"list", "xop", "create", "fresh", "list"},
	"P13": {"race", "race", "read", "list", "fresh", "xop", "longkey", "restart"},
	"P14": {"timeout", "begin", "commit", "read", "wait", "send"},
	"P15": {"begin", "end", "commit", "send", "internal"},
	"P16": {"burst", "crew", "fresh", "create", "crash", "lag", "multi", "send", "timeout", "fee"},
	"P17": {"lookalike", "create", "fresh", "failing", "multi", "badsig"},
	"P18": {"restart", "crash"},
}

var txKinds = []string{"send", "create", "post", "multi", "xop", "failing", "fresh", "badsig", "mutate", "seq", "fee", "amounts", "timeout", "internal", "garbage", "odd", "longkey", "noaccount", "lookalike", "crew", "steal"}

const users = 6 // keys which genesis may know

const crewBase = 40 // keys of those who sign together begin here

func genChain(r *RNG, prof *Profile) (Cfg, []Op) {
	g := &chainGen{r: r, w: map[string]int{}, prop: prof.Prop}
	boost := map[string]bool{}
	for _, b := range boosts[prof.Prop] {
		boost[b] = true
	}
	for _, k := range sortedKeys(baseWeights) {
		w := baseWeights[k]
		switch {
		case boost[k]:
			w *= 3
		case r.P(1, 3):
			w = 0 // not in this run
		}
		g.w[k] = w
	}
	g.w["send"] += 2
	g.w["begin"] += 2
	app := g.app()
	g.cfg = app
	cfg := Cfg{App: app, Replicas: 1 + r.W(1, 4, 3, 1)}
	switch prof.Prop {
	case "P01", "P02":
		if cfg.Replicas == 1 {
			cfg.Replicas = 2
		}
	}
	// clients read all the time
	racing := map[string]int{"P13": 8, "P10": 3, "P01": 3}[prof.Prop]
	if r.N(12) < racing {
		cfg.Replicas = 2
		for _, k := range []string{"crash", "restart", "lag", "mutate", "garbage", "badsig", "misc", "skew", "wait"} {
			g.w[k] = 0
		}
		var ops []Op
		for i, n := 0, 40+r.N(60); i < n; i++ {
			o := g.op(len(ops))
			if o.K == "tx" || o.K == "deliver" || o.K == "begin" || o.K == "commit" {
				ops = append(ops, g.race())
			}
			ops = append(ops, o)
		}
		return cfg, ops
	}
	n := 15 + r.N(60)
	if prof.Tier == "thorough" && r.P(1, 4) {
		n *= 3
	}
	var ops []Op
	for i := 0; i < n; i++ {
		ops = append(ops, g.op(i))
	}
	return cfg, ops
}

type chainGen struct {
	prop   string
	r      *RNG
	w      map[string]int
	cfg    *AppCfg
	known  []string // names transactions may have touched
	ntx    int
	invs   int
	holds  [users][]string // denominations users have at genesis
	rich   []int           // users who have coins at genesis
	denoms []string
	alike  string   // how lookalikes of this run look like
	crew   []int    // users who sign together
	made   []string // objects which may have been created
}

var denoms = []string{"atom", "photon", "x/y9"}

// moreDenoms are used by some runs, some of them resemble others.
var moreDenoms = []string{"atoms", "Atom", "ato", "uatom", "ATOM", "x/y", "zzz9999", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"}

func (g *chainGen) app() *AppCfg {
	r := g.r
	a := &AppCfg{ChainID: pick(r, []string{"test", "chain-1", "a", "ünï-chain", "Chain-A", " padded ", "tab\t", "x/y", strings.Repeat("c", 50)})}
	a.Order = append([]string{}, defaultOrder...)
	if r.P(1, 3) {
		a.Start = pick(r, []int64{7, 98, 126, 253, 65533, 1<<31 - 4, 1<<32 - 3, 1 << 40})
	}
	a.Initial = int64(r.N(4))
	switch r.N(4) {
	case 0:
		// modules are installed in any order in which what they need at genesis is there
		a.Order = []string{"rbac", "bank", "authn", "test", "distribution", "sim", "apiserver"}
	case 1:
		a.Order = []string{"distribution", "test", "authn", "bank", "rbac", "sim", "apiserver"}
	}
	g.denoms = denoms
	if r.P(1, 4) {
		g.denoms = append(append([]string(nil), denoms...), moreDenoms...)
	}
	if r.P(map[string]int{"P05": 3, "P17": 3}[g.prop]+1, 16) {
		// there are many others already
		for i, n := 0, pick(r, []int{126, 253, 258, 300}); i < n; i++ {
			a.Genesis = append(a.Genesis, GenAcc{Name: fmt.Sprintf("filler%d", i), Account: true})
		}
	}
	for i := 0; i < users; i++ {
		if i > 0 && r.P(1, 4) {
			continue
		}
		acc := GenAcc{Name: fmt.Sprintf("@%d", i), Account: true}
		if r.P(1, 2) {
			acc.Pub = i + 1
		}
		if i == 0 || r.P(4, 5) {
			acc.Balance = true
			for _, d := range g.denoms {
				if d == "atom" || r.P(1, 2) {
					acc.Coins = append(acc.Coins, CoinSpec{d, g.genesisAmount(i, d)})
					g.holds[i] = append(g.holds[i], d)
				}
			}
		}
		if acc.Balance {
			g.rich = append(g.rich, i)
		}
		a.Genesis = append(a.Genesis, acc)
		g.known = append(g.known, acc.Name)
	}
	if g.w["crew"] > 0 && r.P(1, 2) {
		for i := r.In(2, 14); i > 0; i-- {
			k := crewBase + i
			acc := GenAcc{Name: fmt.Sprintf("@%d", k), Account: true}
			if r.P(1, 2) {
				acc.Pub = k + 1
			}
			if r.P(1, 2) {
				acc.Balance, acc.Coins = true, []CoinSpec{{"atom", fmt.Sprint(100 + r.N(1000))}}
			}
			g.crew = append(g.crew, k)
			a.Genesis = append(a.Genesis, acc)
			g.known = append(g.known, acc.Name)
		}
	}
	if r.P(1, 4) {
		a.Genesis = append(a.Genesis, GenAcc{Name: "fee_collector", Account: r.P(1, 2), Balance: true, Coins: []CoinSpec{{"atom", "5"}}})
	}
	if r.P(1, 2) {
		for i := r.N(6); i > 0; i-- {
			v := ValAct{On: pick(r, []string{"genesis", "begin", "end", "end", "end", "send"}), H: a.Start + int64(1+r.N(6))}
			n := r.N(4)
			if r.P(1, 12) {
				n = r.N(150)
			}
			for j := n; j > 0; j-- {
				k := int64(r.N(6))
				if r.P(1, 4) {
					k += 100
				}
				v.Set = append(v.Set, [2]int64{k, pick(r, []int64{0, 1, int64(r.N(50)), 1 << 31, 1 << 32, 1<<60 - 1})})
			}
			a.Vals = append(a.Vals, v)
		}
	}
	return a
}

func (g *chainGen) genesisAmount(i int, denom string) string {
	r := g.r
	switch r.N(6) {
	case 0:
		return fmt.Sprint(3 + r.N(30))
	case 1:
		if denom != "atom" && i == 1 {
			// close to the maximum: 2^254 and something, only one account has it
			return "28948022309329048855892746252171976963317496166410141009864396001978282409984"
		}
	}
	return fmt.Sprint(1000 + r.N(100000))
}

// user is mostly one who can pay.
func (g *chainGen) user() int {
	switch {
	case g.r.P(1, 12):
		return users + g.r.N(4)
	case g.r.P(1, 10) || len(g.rich) == 0:
		return g.r.N(users)
	}
	return pick(g.r, g.rich)
}

func (g *chainGen) coin() CoinSpec {
	d := "atom"
	if g.r.P(1, 3) {
		d = pick(g.r, g.denoms)
	}
	return CoinSpec{d, fmt.Sprint(1 + g.r.N(60))}
}

func (g *chainGen) coins() []CoinSpec {
	cs := []CoinSpec{g.coin()}
	if g.r.P(1, 5) {
		o := g.coin()
		if o.D != cs[0].D {
			cs = append(cs, o)
		}
	}
	if len(g.denoms) > 3 && g.r.P(1, 3) {
		cs = nil
		for _, i := range g.r.Perm(len(g.denoms))[:2+g.r.N(len(g.denoms)-1)] {
			cs = append(cs, CoinSpec{g.denoms[i], fmt.Sprint(1 + g.r.N(9))})
		}
	}
	return cs
}

func (g *chainGen) fee() []CoinSpec { return []CoinSpec{{"atom", fmt.Sprint(1 + g.r.N(5))}} }

func (g *chainGen) recipient() string {
	r := g.r
	switch r.N(10) {
	case 0:
		return fmt.Sprintf("@%d", users+r.N(4))
	case 1:
		return pick(r, []string{"bob", "alice", "fee_collector", "Alice", "bo", "b/ob"})
	}
	return fmt.Sprintf("@%d", r.N(users))
}

// tx is a transaction of one user with these messages.
func (g *chainGen) tx(u int, msgs ...MsgSpec) *TxSpec {
	t := &TxSpec{Msgs: msgs, Signers: []SignerSpec{{Key: u}}, Fee: g.fee(), Gas: uint64(g.r.N(3))}
	if g.r.P(1, 6) {
		t.Memo = pick(g.r, []string{"hello", "#200m", "é"})
	}
	if g.r.P(1, 10) {
		t.Payer = fmt.Sprintf("@%d", u)
	}
	return t
}

func (g *chainGen) send(u int) MsgSpec {
	return MsgSpec{K: "send", A: fmt.Sprintf("@%d", u), B: g.recipient(), Coins: g.coins()}
}

var oddNames = []string{"a b", "..", "a/b", "%2F", "é", "a\x00b", "A", "\"quoted\"", "x?y=z", "a#b", "~", "unique", "Ω/..//", "1", "@", "#300q"}

func (g *chainGen) spec(kindName string) *TxSpec {
	r := g.r
	u := g.user()
	me := fmt.Sprintf("@%d", u)
	switch kindName {
	case "send":
		return g.tx(u, g.send(u))
	case "fresh":
		// coins go to an account which does not exist, maybe it spends them later
		k := users + r.N(4)
		m := MsgSpec{K: "send", A: me, B: fmt.Sprintf("@%d", k), Coins: []CoinSpec{{"atom", fmt.Sprint(5 + r.N(50))}}}
		if r.P(1, 2) {
			return g.tx(k, g.send(k))
		}
		return g.tx(u, m)
	case "create":
		m := MsgSpec{K: "create", A: fmt.Sprintf("@%d", users+r.N(5)), C: strings.Repeat("z", r.N(4))}
		switch r.N(8) {
		case 0:
			m.A = fmt.Sprintf("@%d", r.N(users))
		case 1:
			m.A = pick(r, oddNames)
		case 2:
			m.A = pick(r, []string{"bank", "noacc1", "", "fee_collector", "system:abci", "bob"})
		}
		if r.P(1, 2) {
			m.Pub = 1 + users + r.N(5)
			if strings.HasPrefix(m.A, "@") && r.P(3, 4) {
				fmt.Sscanf(m.A, "@%d", &m.Pub)
				m.Pub++
			}
			if r.P(1, 4) {
				m.PubT = pick(r, []string{"tmos", "short", "long", "empty", "zero", "badtype", "unknowntype", "multisig", "garbage", "unknownfield"})
			}
		}
		if r.P(1, 10) {
			m.K = "createnil"
		}
		return g.tx(u, m)
	case "post":
		m := MsgSpec{K: "post", A: me, B: pick(r, []string{"title", "", "t\x00"}), C: pick(r, []string{"text", "", "#5000t"})}
		if r.P(1, 4) {
			m.A = g.recipient()
		}
		return g.tx(u, m)
	case "multi":
		// several signers and messages
		t := g.tx(u, g.send(u))
		for i := r.N(3); i > 0; i-- {
			v := g.user()
			t.Signers = append(t.Signers, SignerSpec{Key: v})
			t.Msgs = append(t.Msgs, g.send(v))
		}
		for i := r.N(3); i > 0; i-- {
			t.Msgs = append(t.Msgs, g.send(t.Signers[r.N(len(t.Signers))].Key))
		}
		if r.P(1, 6) {
			// many messages, the odd one is late
			for i := r.N(pick(r, []int{30, 30, 90})); i > 0; i-- {
				m := g.send(t.Signers[r.N(len(t.Signers))].Key)
				m.Coins = []CoinSpec{{"atom", fmt.Sprint(1 + r.N(3))}}
				t.Msgs = append(t.Msgs, m)
			}
			if r.P(1, 2) {
				t.Msgs = append(t.Msgs, g.send(g.user()))
			}
		}
		if r.P(1, 3) {
			t.Payer = fmt.Sprintf("@%d", t.Signers[r.N(len(t.Signers))].Key)
		}
		if r.P(1, 6) {
			t.Signers = append(t.Signers, t.Signers[0])
		}
		return t
	case "xop":
		to := fmt.Sprintf("x:%s:%s:%s", pick(r, []string{"c", "c", "u", "d"}), g.inv(), pick(r, []string{"r1", "r2", "r3", "", "r/1", "é"}))
		if r.P(1, 6) {
			to += ":fail"
		}
		ms := []MsgSpec{{K: "send", A: me, B: to, Coins: []CoinSpec{{"atom", "1"}}}}
		if r.P(1, 3) {
			ms = append(ms, MsgSpec{K: "send", A: me, B: fmt.Sprintf("x:%s:%s:r2", pick(r, []string{"u", "d", "c"}), g.inv()), Coins: []CoinSpec{{"atom", "1"}}})
		}
		return g.tx(u, ms...)
	case "failing":
		// succeeding messages followed by one which fails
		t := g.tx(u, g.send(u))
		if r.P(1, 2) {
			t.Msgs = append(t.Msgs, MsgSpec{K: "create", A: fmt.Sprintf("@%d", users+r.N(5))})
		}
		if r.P(1, 2) {
			t.Msgs = append(t.Msgs, MsgSpec{K: "send", A: me, B: fmt.Sprintf("x:%s:%s:r1", pick(r, []string{"c", "u", "d"}), g.inv()), Coins: []CoinSpec{{"atom", "1"}}})
		}
		if r.P(1, 8) {
			// many things to undo
			for i := 20 + r.N(60); i > 0; i-- {
				t.Msgs = append(t.Msgs, MsgSpec{K: "send", A: me, B: g.recipient(), Coins: []CoinSpec{{"atom", "1"}}})
			}
		}
		var bad MsgSpec
		switch r.N(6) {
		case 0:
			bad = MsgSpec{K: "send", A: me, B: "fail1", Coins: g.coins()}
		case 1:
			bad = MsgSpec{K: "send", A: me, B: g.recipient(), Coins: []CoinSpec{{"atom", "99999999"}}}
		case 2:
			bad = MsgSpec{K: "create", A: "noacc2"}
		case 3:
			bad = MsgSpec{K: "send", A: me, B: fmt.Sprintf("x:c:%s:r1:fail", g.inv()), Coins: []CoinSpec{{"atom", "1"}}}
		case 4:
			bad = MsgSpec{K: "setbalance", A: me, Coins: []CoinSpec{{"atom", "77"}}}
		case 5:
			bad = MsgSpec{K: "send", A: me, B: pick(r, []string{"bank", "authn", "system:abci", "noacc3"}), Coins: g.coins()}
		}
		p := r.N(len(t.Msgs) + 1)
		t.Msgs = append(t.Msgs[:p], append([]MsgSpec{bad}, t.Msgs[p:]...)...)
		return t
	case "badsig":
		t := g.tx(u, g.send(u))
		if r.P(1, 3) {
			v := g.user()
			t.Signers = append(t.Signers, SignerSpec{Key: v})
		}
		s := &t.Signers[r.N(len(t.Signers))]
		switch r.N(6) {
		case 0:
			s.With = 1 + g.user()
		case 1:
			c := g.cfg.ChainID
			s.Chain = "=" + pick(r, []string{"other", "test", "tes", "", "test-2", c + " ", " " + c, c + "\x00", strings.ToUpper(c), strings.ToLower(c), strings.TrimSpace(c), strings.TrimSpace(c), strings.TrimSuffix(c, "\t"), c[:len(c)-1], string([]rune(c)[1:]), c + c, c + "-1", c + "x"})
		case 2:
			s.AccOff = pick(r, []int64{1, -1, 2, 100, -256, -256, 256})
		case 3:
			s.Sig = pick(r, []string{"flip", "empty", "short", "long", "zeros", "high", "none"})
		case 4:
			s.Pub = pick(r, []string{"tmos", "short", "long", "empty", "zero", "badtype", "unknowntype", "multisig", "garbage", "unknownfield", "nil"})
		case 5:
			s.Mode = pick(r, []int{1, 126, 900, 901, 902, -1})
		}
		return t
	case "mutate":
		t := g.tx(u, g.send(u))
		if r.P(1, 3) {
			t.Signers = append(t.Signers, SignerSpec{Key: g.user()})
		}
		m := Mut{Where: pick(r, []string{"body", "auth", "sig", "raw", "mix", "forge", "forge", "forge"}), Pos: r.N(400), Val: r.Bytes(1 + r.N(3))}
		switch m.Where {
		case "forge":
			m.Val = nil
			m.Kind = pick(r, []string{"amount", "amount", "to", "from", "memo", "timeout", "more", "less", "order", "gas", "payer", "granter", "fee", "sequence", "signer"})
		case "mix":
			m.Kind = pick(r, []string{"body", "auth", "sigs"})
		case "sig":
			m.Kind = pick(r, []string{"swap", "drop", "dup", "copysig", "flip", "cut"})
		default:
			m.Kind = pick(r, []string{"flip", "flip", "cut", "dup", "ins", "append", "drop"})
		}
		t.Mut = []Mut{m}
		return t
	case "seq":
		t := g.tx(u, g.send(u))
		if r.P(1, 3) {
			t.Signers = append(t.Signers, SignerSpec{Key: g.user()})
		}
		t.Signers[r.N(len(t.Signers))].SeqOff = pick(r, []int64{1, -1, 2, 5, -2, 1 << 40})
		return t
	case "fee":
		t := g.tx(u, g.send(u))
		switch r.N(11) {
		case 9, 10:
			// of everything there is
			if u < users {
				t.Fee = nil
				for _, i := range r.Perm(len(g.holds[u])) {
					if r.P(7, 8) {
						t.Fee = append(t.Fee, CoinSpec{g.holds[u][i], fmt.Sprint(1 + r.N(3))})
					}
				}
			}
			for i := r.N(4); i > 0; i-- {
				t.Msgs = append(t.Msgs, g.send(u))
			}
		case 0:
			t.Payer = fmt.Sprintf("@%d", g.user())
		case 1:
			t.Payer = pick(r, []string{"fee_collector", "bank", "nobody", "#3000p"})
		case 2:
			t.Fee = nil
		case 3:
			t.NoFee = true
		case 4:
			t.Fee = []CoinSpec{{"atom", fmt.Sprint(500 + r.N(200000))}}
		case 5:
			t.Fee = []CoinSpec{g.oddCoin()}
		case 6:
			t.Fee = []CoinSpec{{"atom", "1"}, {"photon", fmt.Sprint(1 + r.N(20))}}
		case 7:
			t.Granter = fmt.Sprintf("@%d", g.user())
		case 8:
			// the fee takes what the message wants to send
			t.Fee = []CoinSpec{{"atom", fmt.Sprint(1 + r.N(20))}}
			t.Msgs[0].Coins = []CoinSpec{{"atom", fmt.Sprint(1 + r.N(20))}}
		}
		return t
	case "amounts":
		m := g.send(u)
		switch r.N(5) {
		case 0:
			m.Coins = []CoinSpec{g.oddCoin()}
		case 1:
			m.Coins = []CoinSpec{g.coin(), g.oddCoin()}
		case 2:
			m.Coins = nil
		case 3:
			m.B = me // to itself
			if r.P(1, 3) {
				m.Coins = []CoinSpec{g.oddCoin()}
			}
		case 4:
			// maximum
			m.A, m.Coins = "@1", []CoinSpec{{"photon", "28948022309329048855892746252171976963317496166410141009864396001978282409984"}}
			return g.tx(1, m)
		}
		return g.tx(u, m)
	case "timeout":
		t := g.tx(u, g.send(u))
		if r.P(3, 4) {
			t.RelTime = 1000 + pick(r, []int64{0, 0, -1, -1, 1, 2, -3})
		} else {
			t.Timeout = pick(r, []int64{1, 2, 1 << 40, -1, -9223372036854775808})
		}
		return t
	case "internal":
		k := pick(r, []string{"setbalance", "bind", "role", "updateacc", "deleteacc", "vals", "chain", "begin", "endblock", "checktx", "delivertx", "modules", "object", "nested", "cosmossend"})
		m := MsgSpec{K: k, A: me, B: pick(r, []string{"bank-role", "external_account", "authn-role", "nope"}), Coins: g.coins()}
		if r.P(1, 3) {
			m.A = pick(r, []string{"newuser", "bank", fmt.Sprintf("@%d", g.user())})
		}
		if r.P(1, 3) {
			return g.tx(u, g.send(u), m)
		}
		return g.tx(u, m)
	case "garbage":
		if r.P(1, 3) {
			return &TxSpec{Raw: r.Bytes(r.N(60))}
		}
		t := g.tx(u, g.send(u))
		t.Msgs[0].URL = pick(r, []string{"", "/", "nope", "/no.such.Msg", "/tmos.x.bank.v1alpha1.Balance", "/google.protobuf.Any", "/tmos.x.bank.v1alpha1.MsgSendCoins/", "https://x/tmos.x.bank.v1alpha1.MsgSendCoins", "tmos.x.bank.v1alpha1.MsgSendCoins", "#4000u"})
		if r.P(1, 2) {
			t.Msgs[0].Raw = r.Bytes(1 + r.N(10))
		}
		if r.P(1, 4) {
			t.Msgs = nil
		}
		return t
	case "odd":
		t := g.tx(u, g.send(u))
		switch r.N(6) {
		case 0:
			t.Memo = pick(r, []string{"#300m", "#5000m", "\x00"})
		case 1:
			t.Gas = ^uint64(0)
		case 2:
			t.Ext = []string{"/no.such.Extension"}
		case 3:
			for i := 0; i < 8; i++ {
				t.Signers = append(t.Signers, SignerSpec{Key: i})
			}
		case 4:
			t.Signers = nil
		case 5:
			t.Msgs[0].B = pick(r, oddNames)
		}
		return t
	case "longkey":
		n := pick(r, []int{127, 128, 255, 256, 1000, 16000, 16384, 16385, 17000, 40000, 65000, 66000})
		long := fmt.Sprintf("#%dk", n)
		switch r.N(3) {
		case 0:
			return g.tx(u, MsgSpec{K: "send", A: me, B: long, Coins: g.coins()})
		case 1:
			return g.tx(u, MsgSpec{K: "create", A: long})
		}
		return g.tx(u, MsgSpec{K: "send", A: me, B: "x:c:" + strings.Repeat("k", n) + ":r1", Coins: []CoinSpec{{"atom", "1"}}})
	case "lookalike":
		// accounts whose names resemble those of the users, most of them of the same one
		if r.P(2, 3) && len(g.rich) > 0 {
			u = g.rich[0]
			me = fmt.Sprintf("@%d", u)
		}
		if g.alike == "" {
			g.alike = "~" + string(pick(r, []byte("uspx0nchbm/"))) + "@"
		}
		alike := g.alike + fmt.Sprint(u)
		if r.P(1, 4) {
			alike = "~" + string(pick(r, []byte("uspx0nchbm/"))) + me
		}
		switch t := g.tx(u, g.send(u)); r.N(8) {
		case 0, 1:
			t.Msgs[0].B, t.Msgs[0].Coins = alike, []CoinSpec{{"atom", fmt.Sprint(10 + r.N(40))}}
			return t
		case 2:
			return g.tx(u, MsgSpec{K: "create", A: alike})
		case 3:
			t.Msgs[0].A = alike
			return t
		case 4:
			t.Payer = alike
			return t
		case 5:
			t.Msgs[0].A, t.Msgs[0].B = alike, me
			return t
		case 6:
			t.Msgs = append(t.Msgs, MsgSpec{K: "post", A: alike, B: "title", C: "text"})
			return t
		default:
			t.Signers = append(t.Signers, SignerSpec{Key: g.user()})
			t.Payer = alike
			return t
		}
	case "crew":
		// many sign, maybe one of them should not have
		t := g.tx(u, g.send(u))
		if len(g.crew) > 0 {
			for _, i := range r.Perm(len(g.crew))[:1+r.N(len(g.crew))] {
				t.Signers = append(t.Signers, SignerSpec{Key: g.crew[i]})
			}
		} else {
			for _, i := range g.rich {
				t.Signers = append(t.Signers, SignerSpec{Key: i})
			}
		}
		if p := r.N(len(t.Signers)); r.P(1, 2) {
			t.Signers[0], t.Signers[p] = t.Signers[p], t.Signers[0]
		}
		last := func() int { return len(t.Signers) - 1 - r.N(1+r.N(len(t.Signers))) }
		switch r.N(8) {
		case 0:
			t.Signers[last()].SeqOff = pick(r, []int64{1, -1, 3})
		case 1:
			t.Signers[last()].Sig = pick(r, []string{"flip", "zeros"})
		case 2:
			t.Signers[last()].With = 1 + g.user()
		case 3:
			t.Signers[last()].AccOff = pick(r, []int64{1, -1, 256, -256})
		case 4:
			t.Msgs = append(t.Msgs, g.send(t.Signers[last()].Key))
		case 5:
			t.Payer = fmt.Sprintf("@%d", u)
			t.Msgs[0] = g.send(t.Signers[last()].Key)
		case 6:
			t.Signers[last()].Key = 20 + r.N(3)
		}
		return t
	case "steal":
		// coins of somebody who does not sign
		from := pick(r, []string{"fee_collector", "bank", "distribution", "authn", "external_account", "", "noacc1", fmt.Sprintf("@%d", g.user()), fmt.Sprintf("@%d", g.user()), fmt.Sprintf("@%d", g.user())})
		m := MsgSpec{K: "send", A: from, B: pick(r, []string{me, me, me, from, g.recipient()}), Coins: []CoinSpec{{"atom", fmt.Sprint(1 + r.N(3))}}}
		if r.P(1, 6) {
			m.Coins = nil
		}
		if r.P(1, 3) {
			return g.tx(u, g.send(u), m)
		}
		return g.tx(u, m)
	case "burst":
		t := g.tx(u, MsgSpec{K: "send", A: me, B: g.recipient(), Coins: []CoinSpec{{"atom", "1"}}})
		t.Fee = []CoinSpec{{"atom", "1"}}
		return t
	case "noaccount":
		u = 20 + r.N(3)
		t := g.tx(u, g.send(u))
		if r.P(1, 2) {
			t = g.tx(0, g.send(0))
			t.Signers = append(t.Signers, SignerSpec{Key: u})
			if r.P(1, 3) {
				t.Signers[0], t.Signers[1] = t.Signers[1], t.Signers[0]
			}
		}
		return t
	}
	panic(kindName)
}

func (g *chainGen) inv() string {
	if len(g.made) > 0 && g.r.P(1, 2) {
		return pick(g.r, g.made)
	}
	i := g.newInv()
	g.made = append(g.made, i)
	return i
}

func (g *chainGen) newInv() string {
	if g.r.P(1, 10) {
		return pick(g.r, []string{"", "a/b", "é", strings.Repeat("i", 200)})
	}
	return fmt.Sprintf("inv%d", g.r.N(7))
}

func (g *chainGen) oddCoin() CoinSpec {
	r := g.r
	return CoinSpec{pick(r, []string{"atom", "atom", "atom", "photon", "a", "ATOM!", "", "1atom", "#200d", "a om", "atom,5photon"}),
		pick(r, []string{"0", "007", "-5", "1.5", "1.0", "0.1", "", "1e3", "abc", " 5", "+5", "5 ", "99999999999", "1.000000000000000001", "0.5000000000000000000000001",
			"57896044618658097711785492504343953926634992332820282019728792003956564819967",
			"57896044618658097711785492504343953926634992332820282019728792003956564819968",
			"115792089237316195423570985008687907853269984665640564039457584007913129639936",
			"115792089237316195423570985008687907853269984665640564039457584007913129639941", "5,5photon", "1atom,2", "1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"})}
}

func (g *chainGen) op(i int) Op {
	r := g.r
	ks := sortedKeys(g.w)
	ws := make([]int, len(ks))
	for j, k := range ks {
		ws[j] = g.w[k]
	}
	k := ks[r.W(ws...)]
	switch k {
	case "mk":
		g.ntx++
		return Op{K: "mk", ID: i, Tx: g.spec(pick(r, txKinds))}
	case "deliver", "check":
		return Op{K: k, ID: r.N(i + 1), R: r.N(4), N: int64(r.N(2))}
	case "begin":
		return Op{K: k, N: int64(r.U64() >> 1), M: int64(r.N(20))}
	case "end", "commit":
		return Op{K: k}
	case "wait":
		return Op{K: k, N: pick(r, []int64{3600, 86400 * 365, -3600, 1 << 33})}
	case "skew":
		return Op{K: k, R: r.N(4), N: pick(r, []int64{1, -1, 86400, -86400 * 400, 1 << 32})}
	case "crash":
		n := int64(r.N(1 << uint(r.In(1, 11))))
		m := int64(0)
		if r.P(1, 4) {
			m = int64(1 + r.N(1<<uint(r.In(1, 12))))
		}
		return Op{K: k, R: r.N(4), N: n, M: m}
	case "restart", "lag", "catch":
		return Op{K: k, R: r.N(4)}
	case "read":
		return g.read()
	case "list":
		return g.list()
	case "race":
		return g.race()
	case "misc":
		o := Op{K: k, R: r.N(4), N: int64(r.N(6)), M: int64(r.N(6))}
		o.S = pick(r, []string{"http", "http", "http", "query", "query", "query", "checktx", "info", "setoption", "listsnapshots", "offer", "load", "apply"})
		switch o.S {
		case "http":
			o.T = pick(r, []string{"/", "/spec", "/nope", "/tmos.x.authn.v1alpha1/accounts", "/tmos.x.authn.v1alpha1/accounts?selectField=nope=1", "/tmos.x.authn.v1alpha1/accounts?selectField=accountNumber=abc",
				"/tmos.x.authn.v1alpha1/accounts?selectField=accountNumber", "/tmos.x.authn.v1alpha1/accounts?start=-1", "/tmos.x.authn.v1alpha1/accounts?selectField=accountNumber=1&start=9&end=2",
				"/tmos.x.authn.v1alpha1/accounts?selectField=accountNumber=99999999999999999999999", "/tmos.x.authn.v1alpha1/account/", "/tmos.x.authn.v1alpha1/account/%zz", "/tmos.x.authn.v1alpha1/account/a/b",
				"/tmos.core.rbac.v1alpha1/rolebindings?selectField=roleRef=external_account&start=18446744073709551615&end=18446744073709551615", "/tmos.core.rbac.v1alpha1/rolebindings?selectField=roleRef=external_account&end=18446744073709551615", "/tmos.core.rbac.v1alpha1/rolebindings?selectField==",
				"/tmos.x.authn.v1alpha1/account/%00", "/tmos.x.authn.v1alpha1/account/%ff", "//", "/tmos.x.authn.v1alpha1/params", "/tmos.runtime.v1alpha1/moduledescriptors"})
			if r.P(2, 3) {
				o.T = g.hostilePath(true)
			}
			if r.P(1, 4) {
				o.L = []string{pick(r, []string{"1", "0", "-1", "99", "abc", "18446744073709551616"})}
			}
		case "query":
			o.T = pick(r, []string{"", "/", "get", "get/", "get/a/b", "get/a/b/c", "get/tmos.x.authn.v1alpha1/Account/", "get/tmos.x.authn.v1alpha1/account/x", "get/tmos.abci.v1alpha1/CurrentBlock/zzz",
				"list", "list/tmos.x.authn.v1alpha1/Account", "api_resources", "api_resources/x", "nope", "get//Account/x", "get/tmos.x.authn.v1alpha1//x", "#70000q", "get/tmos.x.authn.v1alpha1/Account/#70000q", "p2p/filter/addr/1.2.3.4", "store/acc/key"})
			if r.P(1, 8) {
				o.T = "api_resources"
			} else if r.P(1, 2) {
				o.T = g.hostilePath(false)
			}
			o.B = r.Bytes(r.N(20))
		default:
			o.B = r.Bytes(r.N(40))
			o.T = pick(r, []string{"", "x", "é"})
		}
		return o
	}
	// a transaction
	g.ntx++
	o := Op{K: "tx", ID: i, Tx: g.spec(k), R: r.N(4), N: int64(r.N(8))}
	if k == "burst" {
		o = Op{K: k, ID: i, Tx: o.Tx, N: pick(r, []int64{6, 8, 10, 10, 20, 20, 40, 128, 130, 258})}
	}
	if (k == "mutate" || k == "badsig") && r.P(1, 2) {
		o.N |= pick(r, []int64{8, 16, 24})
	}
	return o
}

// hostilePath is the path of a query or an HTTP request which was right once.
func (g *chainGen) hostilePath(http bool) string {
	r := g.r
	k := kinds[pick(r, sortedKeys(kinds))]
	kd := k.kind
	if http {
		kd = strings.ToLower(kd)
	}
	parts := []string{"get", k.group, kd, pick(r, []string{"unique", "1", "bob", "inv0", "fee_collector", "a/b", "x"})}
	args := ""
	if http {
		parts[0] = ""
		if r.P(1, 2) {
			parts[2] += "s"
			parts = parts[:3]
			if r.P(3, 4) {
				var as []string
				for i := r.N(4); i >= 0; i-- {
					a := pick(r, []string{"selectField=accountNumber=", "selectField=roleRef=", "selectField=module=", "selectField=route=", "selectField=creator=", "selectField=", "start=", "end=", "selectField=address", "x="})
					as = append(as, a+pick(r, []string{"", "=", "1", "0", "-1", "a=b", "%00", "%ff", "18446744073709551615", "18446744073709551616", "external_account", "r1", strings.Repeat("9", 5000), "%F0%9F%98%80", "1e3", "0x1", "+1", "true", "&&", "%26", "%3D"}))
				}
				args = "?" + strings.Join(as, "&")
			}
		}
	}
	for n := r.N(3); n > 0; n-- {
		i := r.N(len(parts))
		switch r.N(7) {
		case 0, 1:
			parts = parts[:i+1]
		case 2:
			parts = append(parts[:i], parts[i+1:]...)
		case 3:
			parts = append(parts[:i+1], parts[i:]...)
		case 4:
			parts[i] = ""
		case 5:
			parts[i] = pick(r, []string{strings.ToUpper(parts[i]), strings.ToLower(parts[i]), parts[i] + "s", "." + parts[i], "%2F" + parts[i], "..", strings.Repeat("z", 9000)})
		default:
			parts = append(parts, "")
		}
		if len(parts) == 0 {
			parts = []string{""}
		}
	}
	p := strings.Join(parts, "/") + args
	if http && !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return p
}

func (g *chainGen) readName() string {
	r := g.r
	switch r.N(8) {
	case 0:
		return pick(r, oddNames)
	case 1, 4:
		if len(g.made) > 0 {
			return pick(r, g.made)
		}
		return fmt.Sprintf("inv%d", r.N(7))
	case 2:
		return pick(r, []string{"bank", "fee_collector", "1", "bob", "b/ob", "#16000k", "#128k", "", "inv0", "a/b"})
	case 3:
		return fmt.Sprintf("@%d", users+r.N(4))
	}
	return fmt.Sprintf("@%d", r.N(users))
}

func (g *chainGen) race() Op {
	r := g.r
	o := Op{K: "race", R: r.N(4), N: int64(r.U64() >> 1), M: int64(r.N(5))}
	for n := 1 + r.N(6); n > 0; n-- {
		switch r.N(4) {
		case 0:
			o.Sub = append(o.Sub, g.read())
		case 1:
			o.Sub = append(o.Sub, g.list())
		default:
			// something the call is going to change
			o.Sub = append(o.Sub, Op{K: "read", T: "*"})
		}
	}
	return o
}

func (g *chainGen) read() Op {
	r := g.r
	o := Op{K: "read", R: r.N(4), S: pick(r, []string{"account", "account", "balance", "balance", "binding", "post", "invariant", "invariant", "block", "begin", "chain"}), T: g.readName(), N: int64(r.N(2)), M: int64(r.N(5))}
	switch {
	case o.S == "post" && r.P(3, 4):
		o.T = "1"
	case o.S == "invariant" && len(g.made) > 0 && r.P(3, 4):
		o.T = pick(r, g.made)
	case o.S != "invariant" && len(g.rich) > 0 && r.P(1, 2):
		o.T = fmt.Sprintf("@%d", pick(r, g.rich))
	}
	return o
}

func (g *chainGen) list() Op {
	r := g.r
	o := Op{K: "list", R: r.N(4), S: "invariant", N: -1, M: -1}
	switch r.N(6) {
	case 0:
		o.S, o.L = "account", []string{fmt.Sprintf("accountNumber=%d", r.N(12))}
	case 1, 2:
		o.S, o.L = "binding", []string{"roleRef=" + pick(r, []string{"external_account", "external_account", "bank-role", "nope"})}
	case 3:
		o.L = []string{fmt.Sprintf("module=@%d", r.N(users)), "route=" + pick(r, []string{"r1", "r2", "r3"})}
	case 4:
		o.L = []string{"route=" + pick(r, []string{"r1", "r2", "r3", "", "r/1", "é"})}
	case 5:
		o.L = []string{fmt.Sprintf("module=@%d", r.N(users))}
	}
	if r.P(1, 3) {
		o.N = int64(r.N(6))
	}
	if r.P(1, 3) {
		o.M = int64(r.N(8))
	}
	if r.P(1, 8) {
		// far more than there is
		o.M = pick(r, []int64{101, 1000, 1 << 31, 1 << 33, 1 << 62, 1<<63 - 1})
		if r.P(1, 4) {
			o.N = pick(r, []int64{100, 1 << 31, 1 << 62, 1<<63 - 1})
		}
	}
	return o
}
