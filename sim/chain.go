//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/runtime/orm"
	crisisv1 "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/proto"
)

// The chain scenario: nodes running the whole application execute the same history of
// blocks, which is put together by an adversarial proposer, while faults are injected.

type logEntry struct {
	call abciCall
	res  string
	hash string // of the state after a commit
	race *Op    // clients read while node race.R executes it
	hot  []Op   // reads of what it changes
	noop bool   // a transaction which was refused without effect
}

type replica struct {
	n       *Node
	cursor  int
	lag     bool
	again   int64 // crash again after that many storage operations of the recovery
	crashed bool
	raced   bool // clients read while it executed
	gone    bool // does not work any more, reported already
}

type poolTx struct {
	bytes []byte
	spec  *TxSpec
	ref   *RefTx
}

type chainSim struct {
	c    *Ctx
	app  *AppCfg
	reps []*replica
	log  []logEntry
	pool map[int]*poolTx
	ids  []int
	u    *universe

	height   int64
	open     bool // a block is being executed
	ended    bool // EndBlock of it was called
	st       *State
	dump     map[string]string
	totals   map[string]*big.Int
	single   map[string]string // expected singletons
	pending  string            // validator changes accepted and not handed over
	executed map[string]int64  // content of executed transactions -> height
	acts     int
	now      time.Time
	wait     time.Duration
	armed    *Op // the next calls are executed while clients read
	races    int64
	unwedged bool // wedged was asked
	unanswer bool // unanswered was asked
}

func init() { register(Scenario{Name: "chain", Gen: genChain, Run: runChain}) }

func runChain(p *Plan, c *Ctx) {
	s := &chainSim{c: c, app: p.Cfg.App, pool: map[int]*poolTx{}, u: newUniverse(), executed: map[string]int64{}, single: map[string]string{}}
	s.now = simEpoch
	s.height = s.app.Start
	simNow = s.now
	defer func() {
		for _, r := range s.reps {
			r.n.close()
		}
		running = nil
	}()
	for _, g := range s.app.Genesis {
		s.u.name(name(g.Name))
	}
	if !s.boot(p.Cfg.Replicas) {
		return
	}
	for i := range p.Ops {
		c.Step = i
		s.op(&p.Ops[i])
		if c.Done() || s.reps[0].gone {
			return
		}
	}
	c.Step = len(p.Ops)
	s.settle()
}

// fault reports a node which did not survive a call.
func (s *chainSim) fault(r *replica, o outcome, what string) bool {
	if o.ok() {
		return false
	}
	r.gone = true
	s.c.Violate("P03", "node does not survive", "node %d, %s: %s", r.n.ID, what, o)
	switch {
	case strings.HasPrefix(what, "HTTP GET /tmos") || strings.HasPrefix(what, "query get/tmos") || strings.Contains(o.Panicked, "reader "):
		s.c.Violate("P13", "read is never answered", "node %d, %s: %s", r.n.ID, what, o)
	case !strings.HasPrefix(what, "HTTP") && !strings.HasPrefix(what, "query"):
		// it does so whenever the block is replayed
		s.c.Violate("P16", "node stops for good", "node %d, %s: %s", r.n.ID, what, o)
	}
	return true
}

func (s *chainSim) boot(replicas int) bool {
	for i := 0; i < replicas; i++ {
		n, o, err := newNode(i, s.app, 0)
		r := &replica{n: n}
		s.reps = append(s.reps, r)
		if err != nil || !o.ok() {
			s.c.Violate("P18", "node can not be built", "%v %s", err, o)
			return false
		}
	}
	s.log = append(s.log, logEntry{call: abciCall{Kind: "init"}})
	n := s.reps[0].n
	res, _, vals, o := n.do(&s.log[0].call)
	if !o.ok() {
		s.c.Violate("P18", "genesis fails", "%s", o)
		return false
	}
	if want := valString(s.app.initReq().Validators); len(vals) > 0 && valString(vals) != want {
		s.c.Violate("P15", "validator changes handed over", "at genesis consensus got %s instead of %s", valString(vals), want)
	}
	s.log[0].res = res
	s.reps[0].cursor = 1
	s.look()
	s.log[0].hash = dumpHash(s.dump)
	s.c.Log("genesis %s %s", res, s.log[0].hash)
	s.totals = sum(s.st)
	s.genesisChecks()
	s.sync()
	return !s.reps[0].gone
}

func sum(st *State) map[string]*big.Int {
	t := map[string]*big.Int{}
	for _, b := range st.Bals {
		for d, a := range b {
			if t[d] == nil {
				t[d] = new(big.Int)
			}
			t[d].Add(t[d], a)
		}
	}
	return t
}

// look reads the state of node 0.
func (s *chainSim) look() {
	s.dump = s.reps[0].n.dump()
	s.st = s.reps[0].n.state(s.u)
}

// know makes sure that the state of these names is known.
func (s *chainSim) know(t *RefTx) {
	n := len(s.u.names) + len(s.u.invs)
	for _, sg := range t.Signers {
		s.u.name(sg.Addr)
	}
	if t.Payer != "" {
		s.u.name(t.Payer)
	}
	for _, m := range t.Msgs {
		switch {
		case m.Send != nil:
			s.u.name(m.Send.FromAddress)
			s.u.name(m.Send.ToAddress)
		case m.Acct != nil:
			s.u.name(m.Acct.GetAccount().GetAddress())
		case m.Post != nil:
			s.u.name(m.Post.Creator)
		}
	}
	if len(s.u.names)+len(s.u.invs) != n {
		s.st = s.reps[0].n.state(s.u)
	}
}

func (s *chainSim) genesisChecks() {
	st := s.st
	want := map[string]Acc{}
	var next uint64
	for _, g := range s.app.Genesis {
		a := name(g.Name)
		if g.Account {
			acc := Acc{Num: next}
			if g.Pub > 0 {
				acc.Pub = fmt.Sprintf("%x", key(g.Pub-1).PubKey().Bytes())
			}
			want[a] = acc
			next++
		}
		if g.Balance {
			have := balString(st.Bals[a])
			var spec []string
			for _, c := range g.Coins {
				spec = append(spec, c.D+"="+c.A)
			}
			sort.Strings(spec)
			if exp := strings.Join(spec, ","); have != exp {
				s.c.Violate("P18", "genesis balance", "%s has %q instead of %q", a, have, exp)
			}
		}
	}
	if st.Next != next {
		s.c.Violate("P17", "next account number", "%d accounts at genesis, the next number is %d", next, st.Next)
	}
	for a, w := range want {
		if st.Accs[a] != w {
			s.c.Violate("P17", "genesis account", "%s is %+v instead of %+v", a, st.Accs[a], w)
		}
		if st.Binds[a] != "external_account" {
			s.c.Violate("P17", "genesis account", "%s is bound to %q", a, st.Binds[a])
		}
	}
	for _, m := range append([]string{"system:abci", "system:runtime"}, s.app.Order...) {
		if m == "system:runtime" {
			continue
		}
		if st.Binds[m] == "" {
			s.c.Violate("P18", "module not bound", "module %s is bound to no role", m)
		}
	}
	for k, v := range st.Single {
		s.single[k] = v
	}
	ici := canon(&abciv1.InitChainInfo{ChainId: s.app.ChainID})
	if st.Single["InitChainInfo"] != ici {
		s.c.Violate("P14", "chain id", "the chain id of genesis is not %q", s.app.ChainID)
	}
	s.single["InitChainInfo"] = ici
	s.single["CurrentBlock"] = canon(&abciv1.CurrentBlock{})
	s.single["BeginBlockState"] = canon(&abciv1.BeginBlockState{})
	s.readActs("genesis", 0)
	if len(s.pending) > 0 {
		s.single["ValidatorUpdates"] = st.Single["ValidatorUpdates"]
	} else {
		s.single["ValidatorUpdates"] = ""
	}
	s.services(s.reps[0].n)
	n := s.reps[0].n
	n.sim(func() { checkGenesis(s.c, n.rt, n.decl, contains(s.app.Order, "rbac")) })
	s.invariants(nil)
}

func (s *chainSim) services(n *Node) {
	has := false
	for _, m := range s.app.Order {
		has = has || m == "sim"
	}
	if !has {
		return
	}
	if n.svc.Starts != 1 {
		s.c.Violate("P18", "service starts", "node %d: the background service was started %d times", n.ID, n.svc.Starts)
	}
	for _, p := range n.svc.Problems {
		s.c.Violate("P18", "service "+strings.SplitN(p, ":", 2)[0], "node %d: %s", n.ID, p)
	}
}

// readActs judges what the modules of node 0 observed since the last call.
func (s *chainSim) readActs(stage string, h int64) {
	n := s.reps[0].n
	for ; s.acts < len(n.acts); s.acts++ {
		a := n.acts[s.acts]
		switch a.Kind {
		case "val":
			s.c.Hit("validator changes submitted: " + a.On)
			allowed := a.On == "genesis" || a.On == "end"
			if allowed && a.Err != "" {
				s.c.Violate("P15", "validator change refused", "a change submitted at %s of block %d was refused: %s", a.On, a.H, a.Err)
			}
			if !allowed && a.Err == "" {
				s.c.Violate("P15", "validator change accepted", "a change submitted at %s in block %d was accepted", a.On, a.H)
			}
			if a.Err == "" {
				s.pending = valSpecString(s.app.Vals[a.I].Set)
			}
		case "view":
			for _, k := range []string{"CurrentBlock", "BeginBlockState", "InitChainInfo"} {
				if a.View[k] != s.single[k] {
					s.c.Violate("P14", "what modules see", "at %s of block %d a module sees %s %s instead of %s", a.On, h, k, clip(a.View[k], 200), clip(s.single[k], 200))
				}
			}
			s.c.Hit("views of modules checked")
		}
	}
}

func valSpecString(set [][2]int64) string {
	var vs []types.ValidatorUpdate
	for _, u := range valUpdates(set) {
		var v types.ValidatorUpdate
		b, _ := proto.Marshal(u)
		if err := v.Unmarshal(b); err != nil {
			panic(err)
		}
		vs = append(vs, v)
	}
	return valString(vs)
}

// invariants hold in every state.
func (s *chainSim) invariants(before *State) {
	st := s.st
	for _, k := range sortedKeys(st.Bad) {
		p := "P11"
		if strings.HasPrefix(k, "bal/") {
			p = "P07"
		}
		s.c.Violate(p, "stored object is unreadable or invalid", "%s: %s", clip(k, 80), clip(st.Bad[k], 200))
	}
	tot := sum(st)
	for _, d := range sortedKeys(tot) {
		if s.totals[d] == nil || s.totals[d].Cmp(tot[d]) != 0 {
			s.c.Violate("P07", "coins are not conserved", "total of %s was %v at genesis and is %s", d, s.totals[d], tot[d])
		}
	}
	for _, d := range sortedKeys(s.totals) {
		if tot[d] == nil {
			s.c.Violate("P07", "coins are not conserved", "total of %s was %s at genesis and is 0", d, s.totals[d])
		}
	}
	nums := map[uint64]string{}
	for _, a := range sortedKeys(st.Accs) {
		n := st.Accs[a].Num
		if o, ok := nums[n]; ok {
			s.c.Violate("P17", "account number given twice", "%d to %s and %s", n, clip(o, 60), clip(a, 60))
		}
		nums[n] = a
		if n >= st.Next {
			s.c.Violate("P17", "account number", "%s has number %d, the next one is %d", clip(a, 60), n, st.Next)
		}
		if st.Binds[a] != "external_account" {
			s.c.Violate("P17", "account without role", "%s is bound to %q", clip(a, 60), st.Binds[a])
		}
	}
	if uint64(len(st.Accs)) != st.Next {
		s.c.Violate("P17", "next account number", "%d accounts exist, the next number is %d", len(st.Accs), st.Next)
	}
	if before == nil {
		return
	}
	for _, a := range sortedKeys(before.Accs) {
		b := before.Accs[a]
		n, ok := st.Accs[a]
		switch {
		case !ok:
			s.c.Violate("P17", "account vanished", "%s", clip(a, 60))
		case n.Num != b.Num:
			s.c.Violate("P17", "account number changed", "%s from %d to %d", clip(a, 60), b.Num, n.Num)
		case b.Pub != "" && n.Pub != b.Pub:
			s.c.Violate("P17", "public key changed", "%s from %s to %s", clip(a, 60), b.Pub, n.Pub)
		case n.Seq < b.Seq:
			s.c.Violate("P04", "sequence decreased", "%s from %d to %d", clip(a, 60), b.Seq, n.Seq)
		}
	}
}

// singletons checks what readers see of the block.
func (s *chainSim) singletons(what string) {
	for _, k := range sortedKeys(s.single) {
		if s.st.Single[k] != s.single[k] {
			p := "P14"
			switch k {
			case "ValidatorUpdates":
				p = "P15"
			case "AuthnParams", "TestParams":
				p = "P11"
			}
			s.c.Violate(p, "stored "+k, "after %s at height %d it is %s instead of %s", what, s.height, clip(s.st.Single[k], 300), clip(s.single[k], 300))
			s.single[k] = s.st.Single[k]
		}
	}
}

// call executes a request of consensus on node 0 and records it.
func (s *chainSim) call(call abciCall) (*types.ResponseDeliverTx, []types.ValidatorUpdate, bool) {
	r := s.reps[0]
	res, d, vals, o := r.n.do(&call)
	if s.fault(r, o, call.Kind+s.describe(call.Tx)) {
		return nil, nil, false
	}
	was := s.st
	s.look()
	e := logEntry{call: call, res: res}
	if call.Kind == "commit" {
		e.hash = dumpHash(s.dump)
	}
	if s.races > 0 {
		s.races--
		e.race, e.hot = s.armed, changedObjects(was, s.st)
	}
	s.log = append(s.log, e)
	r.cursor = len(s.log)
	s.c.Log("%s %s -> %s", call.Kind, short(call.Tx), res)
	s.c.Hit("calls executed: " + call.Kind)
	return d, vals, true
}

func (s *chainSim) describe(tx []byte) string {
	if tx == nil {
		return ""
	}
	t := refDecode(tx)
	out := " tx "
	if t.Bad != "" {
		return out + clip(t.Bad, 100)
	}
	for _, m := range t.Msgs {
		out += clip(m.Name, 60) + " "
	}
	return out
}

// sync lets the other nodes execute what they have not executed yet.
func (s *chainSim) sync() {
	for _, r := range s.reps[1:] {
		if !r.lag {
			s.advance(r)
		}
	}
}

func (s *chainSim) advance(r *replica) {
	for r.cursor < len(s.log) && !r.gone {
		e := &s.log[r.cursor]
		var res string
		var o outcome
		raced := e.race != nil && e.race.R%(len(s.reps)-1) == r.n.ID-1
		if raced {
			res, o = s.race(r, e)
			r.raced = true
		} else {
			res, _, _, o = r.n.do(&e.call)
		}
		if o.Crashed {
			s.c.Hit("fault: crash during " + e.call.Kind)
			s.recover(r)
			continue
		}
		if s.fault(r, o, e.call.Kind+s.describe(e.call.Tx)) {
			return
		}
		r.cursor++
		s.compare(r, e, res)
		if raced && r.cursor == len(s.log) {
			if d := firstDiff(s.dump, r.n.dump()); d != "" {
				s.c.Violate("P10", "reads changed the state", "node %d during %s: %s", r.n.ID, e.call.Kind, d)
			}
		}
		if raced && res != e.res {
			s.c.Violate("P10", "reads changed what happens", "%s on node %d: %s instead of %s", e.call.Kind, r.n.ID, clip(res, 300), clip(e.res, 300))
		}
		if e.call.Kind == "init" {
			s.services(r.n)
		}
	}
}

func (s *chainSim) compare(r *replica, e *logEntry, res string) {
	p := "P01"
	if r.crashed {
		p = "P02"
	}
	if res != e.res {
		s.c.Violate(p, "different result of "+e.call.Kind, "node %d answers %s instead of %s", r.n.ID, clip(res, 300), clip(e.res, 300))
	}
	if e.hash != "" {
		d := r.n.dump()
		if h := dumpHash(d); h != e.hash {
			diff := ""
			if r.cursor == len(s.log) {
				diff = firstDiff(s.dump, d)
			}
			s.c.Violate(p, "different state after "+e.call.Kind, "node %d: %s", r.n.ID, diff)
			if r.raced {
				s.c.Violate("P10", "reads changed the state", "node %d after %s: %s", r.n.ID, e.call.Kind, diff)
			}
		}
		s.c.Hit("states of replicas compared")
	}
}

// recover restarts a killed node: nothing survives, it replays the chain.
func (s *chainSim) recover(r *replica) {
	r.crashed, r.raced = true, false
	again := r.again
	r.again = 0
	id := r.n.ID
	for try := 0; ; try++ {
		r.n.close()
		n, o, err := newNode(id, s.app, again)
		again = 0
		r.n = n
		if o.Crashed {
			s.c.Hit("fault: crash during recovery")
			continue
		}
		if err != nil || !o.ok() {
			s.c.Violate("P02", "restart fails", "node %d: %v %s", id, err, o)
			r.gone = true
			return
		}
		ok := true
		var info types.ResponseInfo
		if o := n.call(func() { info = n.app.Info(types.RequestInfo{Version: "0.34"}) }); !o.ok() {
			if o.Crashed {
				s.c.Hit("fault: crash during recovery")
				continue
			}
			s.c.Violate("P02", "restart fails", "node %d, Info: %s", id, o)
			r.gone = true
			return
		}
		// consensus replays what the node says it does not have
		first := s.after(info.LastBlockHeight)
		if first < 0 {
			s.c.Violate("P02", "restart fails", "node %d claims to have executed block %d", id, info.LastBlockHeight)
			r.gone = true
			return
		}
		for i := first; i < r.cursor; i++ {
			e := &s.log[i]
			res, _, _, o := n.do(&e.call)
			if o.Crashed {
				s.c.Hit("fault: crash during recovery")
				ok = false
				break
			}
			if !o.ok() {
				s.c.Violate("P02", "replay fails", "node %d, %s: %s", id, e.call.Kind, o)
				r.gone = true
				return
			}
			s.compareReplay(n, e, res)
			if e.call.Kind == "init" {
				s.services(n)
			}
		}
		if ok {
			s.c.Hit("recoveries by replay")
			return
		}
	}
}

// after returns the first call which follows the commit of the block, -1 if there's no such block.
func (s *chainSim) after(height int64) int {
	if height == 0 {
		return 0
	}
	at := int64(0)
	for i := range s.log {
		switch c := &s.log[i].call; {
		case c.Kind == "begin":
			at = c.Begin.Header.Height
		case c.Kind == "commit" && at == height:
			return i + 1
		}
	}
	return -1
}

func (s *chainSim) compareReplay(n *Node, e *logEntry, res string) {
	if res != e.res {
		s.c.Violate("P02", "different result of "+e.call.Kind+" when replayed", "node %d answers %s instead of %s", n.ID, clip(res, 300), clip(e.res, 300))
	}
	if e.hash != "" && dumpHash(n.dump()) != e.hash {
		s.c.Violate("P02", "different state when replayed", "node %d after %s", n.ID, e.call.Kind)
	}
}

// beginReq builds what consensus tells about the next block.
func (s *chainSim) beginReq(op *Op) types.RequestBeginBlock {
	r := NewRNG(uint64(op.N))
	h := s.height + 1
	req := types.RequestBeginBlock{Hash: r.Bytes(32), Header: tmproto.Header{
		ChainID: s.app.ChainID, Height: h, Time: s.now, ProposerAddress: valKey(r.N(4))[:20],
		LastBlockId: tmproto.BlockID{Hash: r.Bytes(32), PartSetHeader: tmproto.PartSetHeader{Total: uint32(r.N(9)), Hash: r.Bytes(32)}},
		AppHash:     []byte("constant"), ValidatorsHash: r.Bytes(32), DataHash: r.Bytes(32), EvidenceHash: r.Bytes(r.N(2) * 32),
		NextValidatorsHash: r.Bytes(32), ConsensusHash: r.Bytes(32), LastResultsHash: r.Bytes(32), LastCommitHash: r.Bytes(32),
	}}
	req.Header.Version.Block = 11
	req.Header.Version.App = uint64(r.N(3))
	req.LastCommitInfo.Round = int32(r.N(4))
	many := 5
	if r.P(1, 12) {
		many = 200
	}
	for i := r.N(many); i > 0; i-- {
		req.LastCommitInfo.Votes = append(req.LastCommitInfo.Votes, types.VoteInfo{Validator: types.Validator{Address: valKey(i)[:20], Power: power(r)}, SignedLastBlock: r.P(3, 4)})
	}
	for i := r.W(5, 2, 1) * (1 + many/20); i > 0; i-- {
		req.ByzantineValidators = append(req.ByzantineValidators, types.Evidence{Type: types.EvidenceType(r.N(3)),
			Validator: types.Validator{Address: valKey(r.N(4))[:20], Power: power(r)}, Height: h - int64(r.N(int(h-s.app.Start)+1)), Time: s.now.Add(-time.Minute), TotalVotingPower: power(r)})
	}
	if r.P(1, 12) {
		req.Header.Time = pick(r, []time.Time{{}, time.Unix(0, 0).UTC(), time.Unix(0, 1).UTC(), time.Unix(-1, 0).UTC(), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), s.now.Add(-time.Hour)})
	}
	if r.P(1, 8) {
		req.Header.LastBlockId, req.Header.LastCommitHash, req.Header.EvidenceHash = tmproto.BlockID{}, nil, nil
	}
	return req
}

func power(r *RNG) int64 {
	return pick(r, []int64{0, 1, int64(r.N(100)), int64(r.N(100)), 1 << 31, 1<<32 + 5, 1<<60 - 1})
}

// begun is how the state describes the block.
func begun(req *types.RequestBeginBlock) string {
	b, err := req.Marshal()
	if err != nil {
		panic(err)
	}
	v := new(abci.RequestBeginBlock)
	if err := proto.Unmarshal(b, v); err != nil {
		panic(err)
	}
	return canon(&abciv1.BeginBlockState{BeginBlock: v})
}

func (s *chainSim) begin(op *Op) bool {
	s.commit()
	if s.reps[0].gone {
		return false
	}
	s.now = s.now.Add(time.Duration(1+op.M)*time.Second + s.wait + time.Duration(op.N%3)*123456789)
	s.c.SimSec += 1 + op.M
	s.wait = 0
	simNow = s.now
	req := s.beginReq(op)
	before := s.st
	s.single["BeginBlockState"] = begun(&req)
	s.single["CurrentBlock"] = canon(&abciv1.CurrentBlock{BlockNumber: uint64(req.Header.Height)})
	s.height = req.Header.Height
	if _, _, ok := s.call(abciCall{Kind: "begin", Begin: req}); !ok {
		return false
	}
	s.open, s.ended = true, false
	s.readActs("begin", s.height)
	s.unchangedBut(before, "BeginBlock")
	return true
}

// unchangedBut checks that a step changed nothing but singletons, which are checked on
// their own.
func (s *chainSim) unchangedBut(before *State, what string) {
	b := before.clone()
	b.Single = s.st.Single
	b.Bad = s.st.Bad
	diff, keys, w, g := compareStates(b, s.st, nil, nil)
	for i := range diff {
		for _, p := range diffLabels(keys[i], w[i], g[i]) {
			s.c.Violate(p, what+" changed the state", "%s", diff[i])
		}
	}
	s.singletons(what)
	s.invariants(before)
}

func (s *chainSim) end() bool {
	if !s.open || s.ended {
		return true
	}
	before := s.st
	_, vals, ok := s.call(abciCall{Kind: "end", Height: s.height})
	if !ok {
		return false
	}
	s.ended = true
	s.readActs("end", s.height)
	want := s.pending
	if want == "" {
		want = valString(nil)
	} else {
		s.c.Hit("validator changes handed over")
	}
	if have := valString(vals); have != want {
		s.c.Violate("P15", "validator changes handed over", "at the end of block %d consensus got %s instead of %s", s.height, have, want)
	}
	s.pending = ""
	s.single["ValidatorUpdates"] = ""
	s.single["EndBlockState"] = canon(&abciv1.EndBlockState{EndBlock: &abci.RequestEndBlock{Height: s.height}})
	s.unchangedBut(before, "EndBlock")
	return true
}

func (s *chainSim) commit() bool {
	if !s.open {
		return true
	}
	if !s.end() {
		return false
	}
	before, bd := s.st, s.dump
	if _, _, ok := s.call(abciCall{Kind: "commit"}); !ok {
		return false
	}
	s.open = false
	if d := firstDiff(bd, s.dump); d != "" {
		s.unchangedBut(before, "Commit")
	}
	s.c.State("block", s.log[len(s.log)-1].hash)
	return true
}

func (s *chainSim) ensureOpen(op *Op) bool {
	if s.open && s.ended && !s.commit() {
		return false
	}
	if !s.open {
		return s.begin(&Op{N: int64(mix(uint64(s.height)*31 + uint64(op.ID)))})
	}
	return true
}

func (s *chainSim) build(op *Op) *poolTx {
	next := s.height + 1
	if s.open && !s.ended {
		next = s.height
	}
	for _, sg := range op.Tx.Signers {
		s.u.name(addr(sg.Key))
	}
	s.st = s.reps[0].n.state(s.u)
	var others [][]byte
	for _, id := range s.ids {
		others = append(others, s.pool[id].bytes)
	}
	b := buildTx(op.Tx, s.app.ChainID, next, func(a string) (uint64, uint64) { return s.st.Accs[a].Num, s.st.Accs[a].Seq }, others)
	t := &poolTx{bytes: b, spec: op.Tx, ref: refDecode(b)}
	if s.pool[op.ID] == nil {
		s.ids = append(s.ids, op.ID)
	}
	s.pool[op.ID] = t
	s.know(t.ref)
	s.c.Log("built %d %s", op.ID, short(b))
	return t
}

// current is the height of the block which is or was executed last, zero before the first one.
func (s *chainSim) current() int64 {
	if s.height == s.app.Start {
		return 0
	}
	return s.height
}

// counterfactual tells whether the transaction would be accepted without its timeout.
func (s *chainSim) counterfactual(t *poolTx) bool {
	if t.spec == nil || len(t.spec.Mut) > 0 || t.spec.Raw != nil || t.ref.Timeout == 0 {
		return false
	}
	spec := *t.spec
	spec.Timeout, spec.RelTime = 0, 0
	b := buildTx(&spec, s.app.ChainID, 0, func(a string) (uint64, uint64) { return s.st.Accs[a].Num, s.st.Accs[a].Seq }, nil)
	code := uint32(1)
	o := s.reps[0].n.call(func() { code = s.reps[0].n.app.CheckTx(types.RequestCheckTx{Tx: b}).Code })
	return o.ok() && code == 0
}

// wedged is called when a node refuses a valid transaction: would it do so if nobody had
// ever sent anything else than what had an effect?
func (s *chainSim) wedged(t *poolTx) {
	if s.unwedged {
		return
	}
	s.unwedged = true
	n, o, err := newNode(7, s.app, 0)
	defer n.close()
	if err != nil || !o.ok() {
		return
	}
	for i := range s.log {
		if e := &s.log[i]; !e.noop {
			if _, _, _, o := n.do(&e.call); !o.ok() {
				return
			}
		}
	}
	var a uint32
	o = n.call(func() { a = n.app.CheckTx(types.RequestCheckTx{Tx: append([]byte(nil), t.bytes...)}).Code })
	if o.ok() && a == 0 {
		s.c.Violate("P03", "valid transaction refused because of earlier requests", "a node which got none of the refused transactions accepts it")
	}
}

// check offers a transaction to the mempool of a node.
func (s *chainSim) check(r *replica, t *poolTx, recheck bool, what string) (accepted, ok bool) {
	if r.gone {
		return false, false
	}
	before := r.n.dump()
	req := types.RequestCheckTx{Tx: append([]byte(nil), t.bytes...)}
	if recheck {
		req.Type = types.CheckTxType_Recheck
	}
	var res types.ResponseCheckTx
	o := r.n.call(func() { res = r.n.app.CheckTx(req) })
	if o.Crashed {
		s.recover(r)
		return false, false
	}
	if s.fault(r, o, "CheckTx"+s.describe(t.bytes)) {
		return false, false
	}
	s.c.Hit("mempool checks")
	s.c.Log("check %d %s -> %d", r.n.ID, short(t.bytes), res.Code)
	if d := firstDiff(before, r.n.dump()); d != "" {
		s.c.Violate("P10", "mempool check changed the state", "%s: %s", what, d)
	}
	accepted = res.Code == 0
	if r.cursor == len(s.log) {
		v := admission(t.ref, s.st, s.app.ChainID, s.current())
		if accepted {
			for _, x := range v.Reject {
				s.c.Violate("P10", "mempool accepts what a block must not admit", "%s", x.Why)
				if x.Prop == "P05" {
					s.c.Violate("P05", "mempool accepts", "%s", x.Why)
				}
			}
		} else if v.mustAccept() {
			s.c.Violate("P10", "mempool refuses a valid transaction", "%s", res.Log)
			s.c.Violate("P16", "mempool refuses a valid transaction", "%s", res.Log)
			s.wedged(t)
			if s.counterfactual(t) {
				s.c.Violate("P14", "refused for its timeout", "timeout %d, height %d", t.ref.Timeout, s.height)
			}
		}
	}
	return accepted, true
}

// deliver executes a transaction in the open block.
func (s *chainSim) deliver(t *poolTx, precheck bool) (code uint32, ok bool) {
	if !s.ensureOpen(&Op{}) {
		return 0, false
	}
	s.know(t.ref)
	var predicted, have bool
	if precheck {
		if predicted, have = s.check(s.reps[0], t, false, "before execution"); s.reps[0].gone {
			return 0, false
		}
	}
	before, bd := s.st, s.dump
	resp, _, ok := s.call(abciCall{Kind: "deliver", Tx: t.bytes})
	if !ok {
		return 0, false
	}
	s.readActs("deliver", s.height)
	v := admission(t.ref, before, s.app.ChainID, s.height)
	changed := firstDiff(bd, s.dump)
	admitted := resp.Code == 0 || changed != ""
	class := "refused"
	switch {
	case resp.Code == 0:
		class = "success"
	case changed != "":
		class = "failed"
	}
	s.c.Hit("transactions: " + class)
	if have && predicted != admitted {
		s.c.Violate("P10", "mempool check disagrees with block execution", "check accepts: %v, the block admits: %v (%s)", predicted, admitted, resp.Log)
	}
	if admitted {
		for _, x := range v.Reject {
			s.c.Violate(x.Prop, "admitted", "code %d: %s", resp.Code, x.Why)
			if resp.Code != 0 {
				s.c.Violate("P09", "refused transaction changed the state", "%s: %s", x.Why, changed)
			}
			s.c.Hit("must be refused: " + x.Prop)
		}
		if t.ref.Bad == "" {
			content := t.ref.content()
			if h, dup := s.executed[content]; dup {
				s.c.Violate("P04", "transaction takes effect twice", "at heights %d and %d", h, s.height)
			}
			s.executed[content] = s.height
		}
	} else {
		for _, x := range v.Reject {
			s.c.Hit("refused as it must: " + x.Prop)
		}
		if v.mustAccept() {
			s.c.Violate("P16", "valid transaction refused", "%s", resp.Log)
			s.wedged(t)
			if have && predicted {
				s.c.Violate("P04", "admissible transaction leaves the sequence numbers", "%s", resp.Log)
				s.c.Violate("P06", "admissible transaction leaves its fee with the payer", "%s", resp.Log)
			}
			if s.counterfactual(t) {
				s.c.Violate("P14", "refused for its timeout", "timeout %d, height %d", t.ref.Timeout, s.height)
			}
		}
	}
	// effects
	if t.ref.Bad == "" && admitted && len(v.Reject) == 0 {
		a := ante(t.ref, before)
		want := a
		e := exec(t.ref, a)
		if resp.Code == 0 {
			want = e
			if e.fail != nil {
				s.c.Violate(e.fail.Prop, "success reported", "%s", e.fail.Why)
				s.c.Violate("P09", "success reported", "%s", e.fail.Why)
			}
		} else if e.fail == nil && e.maybe == "" && v.Free == "" {
			s.c.Violate("P16", "valid transaction fails", "%s", resp.Log)
		}
		if resp.Code != 0 || e.fail == nil {
			diff, keys, w, g := compareStates(want.st, s.st, want.looseBal, want.loosePub)
			for i := range diff {
				for _, p := range diffLabels(keys[i], w[i], g[i]) {
					s.c.Violate(p, "effects of a transaction which "+class, "%s", diff[i])
				}
			}
			s.feeMoved(t.ref, want.st, want.looseBal)
		}
	}
	s.log[len(s.log)-1].noop = !admitted && changed == ""
	if !admitted && changed != "" {
		s.c.Violate("P09", "refused transaction changed the state", "%s", changed)
	}
	if admitted && resp.Code != 0 {
		s.findable(before)
	}
	// coins leave an account only with the signature of its owner
	for _, n := range sortedKeys(before.Bals) {
		for _, d := range sortedKeys(before.Bals[n]) {
			a, b := s.st.Bals[n][d], before.Bals[n][d]
			if a == nil {
				a = new(big.Int)
			}
			if a.Cmp(b) < 0 && (t.ref.Bad != "" || !t.ref.signedBy(n)) {
				s.c.Violate("P06", "coins taken", "%s of %s went from %s to %s without its signature", d, clip(n, 60), b, a)
			}
			if a.Cmp(b) < 0 && t.ref.Bad == "" {
				s.spent(t.ref, n, d, new(big.Int).Sub(b, a))
			}
		}
	}
	// nothing appeared which the simulator does not know about
	if grown := len(objectKeys(s.dump)) - len(objectKeys(bd)); grown != entries(s.st)-entries(before) {
		s.c.Violate("P09", "unexpected objects", "%d objects appeared, %d are expected: %s", grown, entries(s.st)-entries(before), changed)
	}
	s.singletons("DeliverTx")
	s.invariants(before)
	s.c.State("tx", class, fmt.Sprint(v.Reject), v.Free, msgNames(t.ref))
	return resp.Code, true
}

// feeMoved checks that the whole fee left the payer and reached the collector, as far as no
// transfer of the transaction touches these accounts too.
func (s *chainSim) feeMoved(t *RefTx, want *State, loose map[string]bool) {
	const collector = "fee_collector"
	for _, who := range []string{t.Payer, collector} {
		touched := loose[who]
		for _, m := range t.Msgs {
			touched = touched || m.Send != nil && (m.Send.ToAddress == who || m.Send.FromAddress == who && who == collector)
		}
		if touched {
			continue
		}
		ds := map[string]bool{}
		for _, b := range []map[string]*big.Int{want.Bals[who], s.st.Bals[who]} {
			for d := range b {
				ds[d] = true
			}
		}
		for _, d := range sortedKeys(ds) {
			w, g := want.Bals[who][d], s.st.Bals[who][d]
			if w == nil {
				w = new(big.Int)
			}
			if g == nil {
				g = new(big.Int)
			}
			if c := g.Cmp(w); c > 0 && who != collector {
				s.c.Violate("P06", "fee not taken from the payer", "%s has %s%s instead of %s", clip(who, 60), g, d, w)
			} else if c != 0 && who == collector {
				s.c.Violate("P06", "fee does not reach the collector", "which has %s%s instead of %s", g, d, w)
			}
		}
	}
}

// findable checks that what a failed transaction had changed is listed like before.
func (s *chainSim) findable(before *State) {
	n := s.reps[0].n
	sels := map[string]bool{}
	for _, st := range []*State{before, s.st} {
		for _, i := range st.Invs {
			sels["module="+i[0]], sels["route="+i[1]] = true, true
		}
	}
	if len(sels) > 24 {
		return
	}
	n.sim(func() {
		for _, sel := range sortedKeys(sels) {
			i := strings.IndexByte(sel, '=')
			want := s.matching(s.st, "invariant", []string{sel})
			var got []string
			it, err := n.rt.List(new(crisisv1.InvariantHandler), orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: sel[:i], Value: sel[i+1:]}}})
			for err == nil && it.Valid() {
				o := new(crisisv1.InvariantHandler)
				if err := it.Get(o); err != nil {
					got = append(got, err.Error())
				} else {
					key, val := entryOf(o)
					got = append(got, key+" "+val)
				}
				it.Next()
			}
			if err == nil {
				it.Close()
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				for _, p := range []string{"P09", "P12"} {
					s.c.Violate(p, "objects a failed transaction touched are listed wrongly", "%s: %q instead of %q (%v)", clip(sel, 80), got, want, err)
				}
			}
		}
	})
}

// spent checks an upper bound of what the transaction may take from a signer.
func (s *chainSim) spent(t *RefTx, who, denom string, taken *big.Int) {
	max := new(big.Int)
	add := func(cs []*sdkCoin) bool {
		for _, c := range cs {
			v, ok := new(big.Int).SetString(c.Amount, 10)
			if !ok || !denomOK(c.Denom) {
				return false
			}
			if c.Denom == denom && v.Sign() > 0 {
				max.Add(max, v)
			}
		}
		return true
	}
	if who == t.Payer && !add(t.Fee) {
		return
	}
	for _, m := range t.Msgs {
		if m.Send != nil && m.Send.FromAddress == who {
			var cs []*sdkCoin
			for _, c := range m.Send.Amount {
				cs = append(cs, &sdkCoin{c.GetDenom(), c.GetAmount()})
			}
			if !add(cs) {
				return
			}
		}
	}
	if taken.Cmp(max) > 0 {
		s.c.Violate("P06", "too many coins taken", "%s%s from %s, it allowed %s", taken, denom, clip(who, 60), max)
	}
}

func msgNames(t *RefTx) string {
	out := ""
	for _, m := range t.Msgs {
		out += m.Name + ","
	}
	return out
}

func objectKeys(d map[string]string) (ks []string) {
	for k := range d {
		if strings.HasPrefix(k, "objects|") {
			ks = append(ks, k)
		}
	}
	return
}

func entries(s *State) int {
	return len(s.Accs) + len(s.Bals) + len(s.Binds) + len(s.Posts) + len(s.Invs)
}

var _ = bytes.Equal
