//go:build go1.21

package main

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	coreabci "github.com/fdymylja/tmos/core/abci"
	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	pbcrypto "github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/apiserver"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	coreruntime "github.com/fdymylja/tmos/core/runtime"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	tmrt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	rterrors "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/fdymylja/tmos/testdata/testmodule"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	"github.com/fdymylja/tmos/verifsim/simpoint"
	"github.com/fdymylja/tmos/verifsim/simrand"
	"github.com/fdymylja/tmos/verifsim/simtime"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisisv1 "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// CoinSpec is an amount.
type CoinSpec struct {
	D string `json:"d"`
	A string `json:"a"`
}

func toCoins(cs []CoinSpec) []*coin.Coin {
	out := []*coin.Coin{}
	for _, c := range cs {
		out = append(out, &coin.Coin{Denom: c.D, Amount: name(c.A)})
	}
	return out
}

// GenAcc is what genesis sets up for one name.
type GenAcc struct {
	Name    string     `json:"name"`
	Account bool       `json:"acc,omitempty"`
	Pub     int        `json:"pub,omitempty"` // key recorded at genesis +1
	Balance bool       `json:"bal,omitempty"`
	Coins   []CoinSpec `json:"coins,omitempty"`
}

// ValAct is a change of validators submitted by a module.
type ValAct struct {
	On  string     `json:"on"` // genesis, begin, end, send
	H   int64      `json:"h,omitempty"`
	Set [][2]int64 `json:"set"` // (key, power)
}

// AppCfg is the composition of the simulated application.
type AppCfg struct {
	ChainID string   `json:"chain"`
	Order   []string `json:"order"` // modules besides the core ones, in order of installation
	Genesis []GenAcc `json:"genesis"`
	Vals    []ValAct `json:"vals,omitempty"`
	Start   int64    `json:"start,omitempty"`   // height before the first block
	Initial int64    `json:"initial,omitempty"` // number of validators at genesis
}

var simEpoch = time.Date(2021, 5, 1, 12, 0, 0, 0, time.UTC)

// initReq is the request for genesis.
func (a *AppCfg) initReq() types.RequestInitChain {
	r := types.RequestInitChain{ChainId: a.ChainID, InitialHeight: a.Start + 1, Time: simEpoch}
	for i := int64(0); i < a.Initial; i++ {
		r.Validators = append(r.Validators, types.Ed25519ValidatorUpdate(valKey(int(i)), 10+i))
	}
	return r
}

var defaultOrder = []string{"authn", "rbac", "bank", "distribution", "test", "sim", "apiserver"}

// simModule is a module of the application like any other: it installs the genesis of the
// simulation and reacts to transitions of other modules.
type simModule struct {
	node *Node
	c    module.Client
}

// actResult is what a module observed or got in reply while a node was executing.
type actResult struct {
	Kind string // val, view
	On   string
	H    int64
	I    int
	Err  string
	View map[string]string
}

func (m *simModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	b := module.NewDescriptorBuilder().
		Named("sim").
		OwnsStateObject(&crisisv1.InvariantHandler{}, crisisv1.InvariantHandlerSchema).
		NeedsStateTransition(&authnv1.MsgCreateAccount{}).
		NeedsStateTransition(&abciv1.MsgSetValidatorUpdates{}).
		WithPostStateTransitionHandler(&abciv1.MsgSetBeginBlockState{}, postExec(m.onBegin)).
		WithPostStateTransitionHandler(&abciv1.MsgSetEndBlockState{}, postExec(m.onEnd)).
		WithPostStateTransitionHandler(&bankv1.MsgSendCoins{}, postExec(m.onSend)).
		WithPostStateTransitionHandler(&authnv1.MsgCreateAccount{}, postExec(m.onCreateAccount)).
		WithExtensionService(&simService{node: m.node}).
		WithGenesis(m)
	return b.Build()
}

type postExec func(req statetransition.PostExecutionRequest) error

func (p postExec) PostExec(req statetransition.PostExecutionRequest) error { return p(req) }

func (m *simModule) Default() error {
	for i := range m.node.cfg.Genesis {
		g := m.node.cfg.Genesis[i]
		addr := name(g.Name)
		if g.Account {
			acc := &authnv1.Account{Address: addr}
			if g.Pub > 0 {
				acc.PubKey = pubAny(key(g.Pub-1).PubKey().Bytes(), "cosmos")
			}
			if err := m.c.Deliver(&authnv1.MsgCreateAccount{Account: acc}); err != nil {
				return fmt.Errorf("genesis account %s: %w", addr, err)
			}
		}
		if g.Balance {
			if err := m.c.Deliver(&bankv1.MsgSetBalance{Address: addr, Amount: toCoins(g.Coins)}); err != nil {
				return fmt.Errorf("genesis balance %s: %w", addr, err)
			}
		}
	}
	m.vals("genesis", 0)
	return nil
}
func (m *simModule) Import(json.RawMessage) error     { return nil }
func (m *simModule) Export() (json.RawMessage, error) { return nil, nil }

func (m *simModule) vals(on string, h int64) {
	for i, a := range m.node.cfg.Vals {
		if a.On != on || (a.H != h && on != "genesis") {
			continue
		}
		err := m.c.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: valUpdates(a.Set)})
		m.node.acts = append(m.node.acts, actResult{Kind: "val", On: on, H: h, I: i, Err: errString(err)})
	}
}

func errString(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if s == "" {
		s = "error"
	}
	return s
}

func valUpdates(set [][2]int64) []*abci.ValidatorUpdate {
	out := []*abci.ValidatorUpdate{}
	for _, s := range set {
		k := s[0]
		pk := &pbcrypto.PublicKey{Sum: &pbcrypto.PublicKey_Ed25519{Ed25519: valKey(int(k))}}
		if k >= 100 {
			pk = &pbcrypto.PublicKey{Sum: &pbcrypto.PublicKey_Secp256K1{Secp256K1: key(int(k)).PubKey().Bytes()}}
		}
		out = append(out, &abci.ValidatorUpdate{PubKey: pk, Power: s[1]})
	}
	return out
}

// view is what a module sees of the block being executed.
func (m *simModule) view() map[string]string {
	out := map[string]string{}
	for n, o := range map[string]meta.StateObject{
		"CurrentBlock": new(abciv1.CurrentBlock), "BeginBlockState": new(abciv1.BeginBlockState),
		"InitChainInfo": new(abciv1.InitChainInfo),
	} {
		if err := m.c.Get(meta.SingletonID, o); err != nil {
			out[n] = "error: " + err.Error()
			continue
		}
		out[n] = canon(o)
	}
	return out
}

func (m *simModule) note(on string) {
	m.node.acts = append(m.node.acts, actResult{Kind: "view", On: on, View: m.view()})
}

func (m *simModule) onBegin(req statetransition.PostExecutionRequest) error {
	h := req.Transition.(*abciv1.MsgSetBeginBlockState).BeginBlock.GetHeader().GetHeight()
	m.note("begin")
	m.vals("begin", h)
	return nil
}

func (m *simModule) onEnd(req statetransition.PostExecutionRequest) error {
	m.note("end")
	m.vals("end", req.Transition.(*abciv1.MsgSetEndBlockState).EndBlock.GetHeight())
	return nil
}

// onSend lets coins sent to special names have further effects, or fail:
//
//	x:<op>:<id>:<route>[:fail]  op c, u, d creates, updates, deletes the object id
//	fail…                       fails
func (m *simModule) onSend(req statetransition.PostExecutionRequest) error {
	msg := req.Transition.(*bankv1.MsgSendCoins)
	if msg.ToAddress == "fee_collector" {
		return nil
	}
	m.note("send")
	cb := new(abciv1.CurrentBlock)
	if err := m.c.Get(meta.SingletonID, cb); err == nil {
		m.vals("send", int64(cb.BlockNumber))
	}
	if strings.HasPrefix(msg.ToAddress, "fail") {
		return fmt.Errorf("simulated failure after %s", meta.Name(msg))
	}
	if sp := strings.Split(msg.ToAddress, ":"); len(sp) >= 4 && sp[0] == "x" {
		inv := &crisisv1.InvariantHandler{StateTransition: sp[2], Module: msg.FromAddress, Route: sp[3]}
		var err error
		switch sp[1] {
		case "c":
			err = m.c.Create(inv)
		case "u":
			err = m.c.Update(inv)
		case "d":
			err = m.c.Delete(inv)
		}
		if err != nil {
			return err
		}
		if len(sp) > 4 && sp[4] == "fail" {
			return fmt.Errorf("simulated failure after the operation")
		}
	}
	return nil
}

func (m *simModule) onCreateAccount(req statetransition.PostExecutionRequest) error {
	msg := req.Transition.(*authnv1.MsgCreateAccount)
	if strings.HasPrefix(msg.Account.GetAddress(), "noacc") {
		return fmt.Errorf("simulated failure after %s", meta.Name(msg))
	}
	return nil
}

// simService is a background service.
type simService struct {
	node *Node
	c    client.Client
	name string
}

func (s *simService) Name() string {
	if s.name != "" {
		return s.name
	}
	return "simservice"
}
func (s *simService) SetClient(c client.Client) { s.c = c }
func (s *simService) Start() error {
	r := &s.node.svc
	r.Starts++
	if s.c == nil {
		r.Problems = append(r.Problems, "started without a client")
		return nil
	}
	// state of genesis is there
	if err := s.c.Get(meta.SingletonID, new(runtimev1.ModuleDescriptors)); err != nil {
		r.Problems = append(r.Problems, "started before the module registry exists: "+err.Error())
	}
	if err := s.c.Get(meta.SingletonID, new(abciv1.Stage)); err != nil {
		r.Problems = append(r.Problems, "started before genesis state exists: "+err.Error())
	}
	for _, g := range s.node.cfg.Genesis {
		if g.Account {
			if err := s.c.Get(meta.NewStringID(name(g.Name)), new(authnv1.Account)); err != nil {
				r.Problems = append(r.Problems, "started before genesis accounts exist: "+err.Error())
			}
			break
		}
	}
	r.client = s.c
	return nil
}
func (s *simService) Stop() error { s.node.svc.Stops++; return nil }

type svcRec struct {
	Starts, Stops int
	Problems      []string
	client        client.Client
}

// Node is one node: its real application on simulated storage.
type Node struct {
	ID     int
	cfg    *AppCfg
	rt     *tmrt.Runtime
	app    tmrt.ABCIApplication
	http   http.Handler
	ctl    *kvCtl
	acts   []actResult
	decl   []*module.Descriptor // what the modules declared
	svc    svcRec
	serves int
	skew   time.Duration
	rnd    *rand.Rand
	calls  uint64
	proc   *process
	boot   int64                  // starts before
	around func(f func()) outcome // runs the next call instead of guard
}

// the node which is running: decides what the clock and the random numbers are
var running *Node
var simNow time.Time
var boots int64 // starts of nodes in this run

// machines differ
var zones = []*time.Location{time.UTC, time.FixedZone("", 19800), time.FixedZone("", -28800), time.FixedZone("", 46800), time.FixedZone("", -12600)}

func init() {
	simtime.Clock = func() time.Time {
		t := simNow
		if running != nil {
			// every look at the clock takes a little while, a different one on every node
			running.skew += time.Duration(running.ID+1) * 137 * time.Nanosecond
			t = t.Add(running.skew)
		}
		return t
	}
	simtime.Advance = func(d time.Duration) {
		if running != nil {
			running.skew += d
		}
	}
	crand.Reader = &nodeRandom{r: rand.New(rand.NewSource(11))}
	simrand.Node = func() *rand.Rand {
		if running == nil {
			return rand.New(rand.NewSource(7))
		}
		return running.rnd
	}
}

// nodeRandom is what a node gets instead of the randomness of the operating system.
type nodeRandom struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (x *nodeRandom) Read(p []byte) (int, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if n := running; n != nil {
		return n.rnd.Read(p)
	}
	return x.r.Read(p)
}

// newNode builds the application of a node. Genesis is done by InitChain.
func newNode(id int, cfg *AppCfg, crashAt int64) (*Node, outcome, error) {
	n := &Node{ID: id, cfg: cfg, ctl: &kvCtl{crashAt: crashAt, budget: callBudget}, rnd: rand.New(rand.NewSource(int64(id) + 99 + boots*7919)), proc: newProcess(), boot: boots}
	n.skew = time.Duration(id)*7*time.Minute + time.Duration(boots)*1234567*time.Microsecond
	boots++
	var err error
	n.run()
	apiserver.OnServe = func(h http.Handler) { n.http = h; n.serves++ }
	o := guard(func() {
		err = withKV(n.ctl, func() error {
			b := tmrt.NewBuilder()
			n.decl = builtin()
			add := func(m module.Module) { b.AddModule(declares{m, n}) }
			auth := authn.NewModule()
			for _, m := range cfg.Order {
				switch m {
				case "authn":
					add(auth)
					b.SetDecoder(auth.GetTxDecoder())
				case "rbac":
					add(rbac.NewModule())
				case "bank":
					add(bank.NewModule())
				case "distribution":
					add(distribution.NewModule())
				case "test":
					add(testmodule.Module{})
				case "sim":
					add(&simModule{node: n})
				case "apiserver":
					add(apiserver.Module{})
				}
			}
			rt, err := b.Build()
			if err != nil {
				return err
			}
			n.rt = rt
			n.app = tmrt.NewABCIApplication(rt)
			return nil
		})
	})
	return n, o, err
}

// declares remembers what a module declares.
type declares struct {
	m module.Module
	n *Node
}

func (y declares) Initialize(c module.Client) module.Descriptor {
	d := y.m.Initialize(c)
	y.n.decl = append(y.n.decl, &d)
	return d
}

// run makes n the node which runs, in its process on its machine.
func (n *Node) run() {
	running = n
	n.proc.enter()
	zone := zones[(int64(n.ID)+n.boot)%int64(len(zones))]
	time.Local, simtime.Local = zone, zone
	simpoint.Machine = n.ID + 1
	simpoint.Process = int(n.boot)*61 + 1000 + n.ID
}

// call runs f on the node.
func (n *Node) call(f func()) outcome {
	n.run()
	n.calls++
	seedRand(mix(uint64(n.ID)<<32 + n.calls))
	n.ctl.budget = callBudget
	apiserver.OnServe = func(h http.Handler) { n.http = h; n.serves++ }
	if n.around != nil {
		return n.around(f)
	}
	return guard(f)
}

// sim lets the simulator look into the node without disturbing it.
func (n *Node) sim(f func()) {
	n.proc.enter()
	n.ctl.inSim++
	defer func() { n.ctl.inSim-- }()
	f()
}

func (n *Node) close() {
	for _, s := range n.ctl.stores {
		s.close()
	}
	n.ctl.stores = nil
}

func (n *Node) dump() map[string]string {
	out := map[string]string{}
	n.sim(func() {
		for _, s := range n.ctl.stores {
			s.dump(out)
		}
	})
	return out
}

func dumpHash(d map[string]string) string {
	h := sha256.New()
	for _, k := range sortedKeys(d) {
		fmt.Fprintf(h, "%d|%d|", len(k), len(d[k]))
		h.Write([]byte(k))
		h.Write([]byte(d[k]))
	}
	return hex.EncodeToString(h.Sum(nil)[:16])
}

var detOpts = proto.MarshalOptions{Deterministic: true}

// canon is a canonical form of a message.
func canon(m proto.Message) string {
	b, err := detOpts.Marshal(m)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return hex.EncodeToString(b)
}

// ---- typed state ----

type Acc struct {
	Num, Seq uint64
	Pub      string // type url | hex
}

type State struct {
	Accs   map[string]Acc
	Bals   map[string]map[string]*big.Int
	Binds  map[string]string
	Posts  map[string]string
	Invs   map[string][2]string // module, route
	Next   uint64
	Single map[string]string
	Bad    map[string]string // what could not be read
	Roles  map[string]*rbacv1.Role
}

func newState() *State {
	return &State{Accs: map[string]Acc{}, Bals: map[string]map[string]*big.Int{}, Binds: map[string]string{}, Posts: map[string]string{},
		Invs: map[string][2]string{}, Single: map[string]string{}, Bad: map[string]string{}}
}

func (s *State) clone() *State {
	c := newState()
	for k, v := range s.Accs {
		c.Accs[k] = v
	}
	for k, v := range s.Bals {
		m := map[string]*big.Int{}
		for d, a := range v {
			m[d] = a
		}
		c.Bals[k] = m
	}
	for k, v := range s.Binds {
		c.Binds[k] = v
	}
	for k, v := range s.Posts {
		c.Posts[k] = v
	}
	for k, v := range s.Invs {
		c.Invs[k] = v
	}
	for k, v := range s.Single {
		c.Single[k] = v
	}
	c.Next = s.Next
	c.Roles = s.Roles
	return c
}

func balString(m map[string]*big.Int) string {
	var out []string
	for d, a := range m {
		if a.Sign() != 0 {
			out = append(out, d+"="+a.String())
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// render turns the state into comparable entries.
func (s *State) render() map[string]string {
	out := map[string]string{}
	for k, v := range s.Accs {
		out["acc/"+k] = fmt.Sprintf("num=%d seq=%d pub=%s", v.Num, v.Seq, v.Pub)
	}
	for k, v := range s.Bals {
		out["bal/"+k] = balString(v)
	}
	for k, v := range s.Binds {
		out["bind/"+k] = v
	}
	for k, v := range s.Posts {
		out["post/"+k] = v
	}
	for k, v := range s.Invs {
		out["inv/"+k] = v[0] + "|" + v[1]
	}
	out["next"] = fmt.Sprint(s.Next)
	for k, v := range s.Single {
		out["single/"+k] = v
	}
	for k, v := range s.Bad {
		out["BAD/"+k] = v
	}
	return out
}

// universe is the set of identifiers which a run can touch.
type universe struct {
	names map[string]bool
	posts map[string]bool
	invs  map[string]bool
}

func newUniverse() *universe {
	u := &universe{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	for _, m := range []string{"fee_collector", "authn", "rbac", "bank", "distribution", "test", "sim", "apiserver", "system:abci", "system:runtime"} {
		u.names[m] = true
	}
	for i := 0; i < 4; i++ {
		u.posts[fmt.Sprint(i)] = true
	}
	return u
}

func (u *universe) name(n string) {
	u.names[n] = true
	if sp := strings.Split(n, ":"); len(sp) >= 4 && sp[0] == "x" {
		u.invs[sp[2]] = true
	}
}

func notFound(err error) bool {
	return errors.Is(err, rterrors.ErrNotFound) || errors.Is(err, orm.ErrNotFound)
}

var singles = map[string]func() meta.StateObject{
	"CurrentBlock":     func() meta.StateObject { return new(abciv1.CurrentBlock) },
	"BeginBlockState":  func() meta.StateObject { return new(abciv1.BeginBlockState) },
	"InitChainInfo":    func() meta.StateObject { return new(abciv1.InitChainInfo) },
	"EndBlockState":    func() meta.StateObject { return new(abciv1.EndBlockState) },
	"ValidatorUpdates": func() meta.StateObject { return new(abciv1.ValidatorUpdates) },
	"AuthnParams":      func() meta.StateObject { return new(authnv1.Params) },
	"TestParams":       func() meta.StateObject { return new(testv1.Params) },
}

var roleIDs = []string{"external_account", "authn-role", "rbac-role", "bank-role", "distribution-role", "test-role", "sim-role", "apiserver-role", "system:abci-role", "system:runtime-role"}

// state reads the typed state of the node through its own API.
func (n *Node) state(u *universe) *State {
	s := newState()
	n.sim(func() {
		o := guard(func() { n.readState(u, s) })
		if !o.ok() {
			s.Bad["state"] = o.String()
		}
	})
	return s
}

func (n *Node) readState(u *universe, s *State) {
	for _, a := range sortedKeys(u.names) {
		if a == "" || len(a) > 60000 {
			continue
		}
		acc := new(authnv1.Account)
		err := n.rt.Get(meta.NewStringID(a), acc)
		switch {
		case err == nil:
			if acc.Address != a {
				s.Bad["acc/"+a] = "holds " + acc.Address
			}
			s.Accs[a] = Acc{acc.AccountNumber, acc.Sequence, anyString(acc.PubKey)}
		case !notFound(err):
			s.Bad["acc/"+a] = err.Error()
		}
		bal := new(bankv1.Balance)
		err = n.rt.Get(meta.NewStringID(a), bal)
		switch {
		case err == nil:
			m := map[string]*big.Int{}
			for _, c := range bal.Balance {
				v, ok := new(big.Int).SetString(c.Amount, 10)
				if !ok || v.Sign() < 0 || m[c.Denom] != nil || v.BitLen() > 255 || !denomOK(c.Denom) {
					s.Bad["bal/"+a] = fmt.Sprintf("amount %q of %q", clip(c.Amount, 90), c.Denom)
					continue
				}
				m[c.Denom] = v
			}
			if bal.Address != a {
				s.Bad["bal/"+a] = "holds " + bal.Address
			}
			s.Bals[a] = m
		case !notFound(err):
			s.Bad["bal/"+a] = err.Error()
		}
		bind := new(rbacv1.RoleBinding)
		err = n.rt.Get(meta.NewStringID(a), bind)
		switch {
		case err == nil:
			s.Binds[a] = bind.RoleRef
		case !notFound(err):
			s.Bad["bind/"+a] = err.Error()
		}
	}
	for _, id := range sortedKeys(u.posts) {
		p := new(testv1.Post)
		err := n.rt.Get(meta.NewStringID(id), p)
		switch {
		case err == nil:
			s.Posts[id] = postString(p)
		case !notFound(err):
			s.Bad["post/"+id] = err.Error()
		}
	}
	for _, id := range sortedKeys(u.invs) {
		if id == "" {
			continue
		}
		p := new(crisisv1.InvariantHandler)
		err := n.rt.Get(meta.NewStringID(id), p)
		switch {
		case err == nil:
			s.Invs[id] = [2]string{p.Module, p.Route}
		case !notFound(err):
			s.Bad["inv/"+id] = err.Error()
		}
	}
	can := new(authnv1.CurrentAccountNumber)
	if err := n.rt.Get(meta.SingletonID, can); err != nil {
		s.Bad["next"] = err.Error()
	}
	s.Next = can.Number
	for _, k := range sortedKeys(singles) {
		o := singles[k]()
		if err := n.rt.Get(meta.SingletonID, o); err != nil {
			s.Bad["single/"+k] = err.Error()
			continue
		}
		s.Single[k] = canon(o)
	}
}

func (n *Node) roles() map[string]*rbacv1.Role {
	out := map[string]*rbacv1.Role{}
	n.sim(func() {
		for _, id := range roleIDs {
			r := new(rbacv1.Role)
			if err := n.rt.Get(meta.NewStringID(id), r); err == nil {
				out[id] = r
			}
		}
	})
	return out
}

func postString(p *testv1.Post) string {
	return fmt.Sprintf("%q by %q: %q", p.Title, p.Creator, p.Text)
}

func anyString(a *anypb.Any) string {
	if a == nil {
		return ""
	}
	return pubString(a.TypeUrl, a.Value)
}

// pubString is a public key independent of the form it's stored in.
func pubString(url string, val []byte) string {
	if url == cosmosPubURL || url == tmosPubURL {
		var key []byte
		for b := val; len(b) > 0; {
			num, typ, n := protowire.ConsumeTag(b)
			if n < 0 {
				return url + "|" + hex.EncodeToString(val)
			}
			m := protowire.ConsumeFieldValue(num, typ, b[n:])
			if m < 0 {
				return url + "|" + hex.EncodeToString(val)
			}
			if num == 1 && typ == protowire.BytesType {
				key, _ = protowire.ConsumeBytes(b[n:])
			}
			b = b[n+m:]
		}
		if len(key) == 33 {
			return hex.EncodeToString(key)
		}
	}
	return url + "|" + hex.EncodeToString(val)
}

// ---- requests of the outside world ----

type httpResp struct {
	Code int
	Body []byte
}

// get performs an HTTP request against the API server of the node.
func (n *Node) get(path string, height string) (httpResp, outcome, error) {
	u, err := url.ParseRequestURI(path)
	if err != nil {
		return httpResp{}, outcome{}, err
	}
	req := &http.Request{Method: http.MethodGet, URL: u, RequestURI: path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody, Host: "sim"}
	if height != "" {
		req.Header.Set("X-Starport-Framework-Height", height)
	}
	w := httptest.NewRecorder()
	o := n.call(func() { n.http.ServeHTTP(w, req) })
	return httpResp{w.Code, w.Body.Bytes()}, o, nil
}

// abciCall is a request of consensus, part of the history which every node executes.
type abciCall struct {
	Kind   string // init, begin, deliver, end, commit
	Begin  types.RequestBeginBlock
	Tx     []byte
	Height int64
}

// do executes a request of consensus, the result is what consensus gets to see.
func (n *Node) do(c *abciCall) (res string, deliver *types.ResponseDeliverTx, vals []types.ValidatorUpdate, o outcome) {
	o = n.call(func() {
		switch c.Kind {
		case "init":
			r := n.app.InitChain(n.cfg.initReq())
			vals = r.Validators
			res = js(r)
		case "begin":
			r := n.app.BeginBlock(c.Begin)
			res = js(r.Events)
		case "deliver":
			r := n.app.DeliverTx(types.RequestDeliverTx{Tx: append([]byte(nil), c.Tx...)})
			deliver = &r
			res = fmt.Sprintf("code=%d space=%s data=%x gas=%d/%d events=%s", r.Code, r.Codespace, r.Data, r.GasWanted, r.GasUsed, js(r.Events))
		case "end":
			r := n.app.EndBlock(types.RequestEndBlock{Height: c.Height})
			vals = r.ValidatorUpdates
			res = valString(r.ValidatorUpdates) + js(r.ConsensusParamUpdates) + js(r.Events)
		case "commit":
			r := n.app.Commit()
			res = fmt.Sprintf("%x %d", r.Data, r.RetainHeight)
		}
	})
	return
}

func valString(vs []types.ValidatorUpdate) string {
	var out []string
	for _, v := range vs {
		out = append(out, fmt.Sprintf("%x:%d", v.PubKey.GetEd25519(), v.Power)+fmt.Sprintf("/%x", v.PubKey.GetSecp256K1()))
	}
	return "[" + strings.Join(out, " ") + "]"
}

func runtimeModule() module.Descriptor { return coreruntime.NewModule().Initialize(nil) }
func abciModule() module.Descriptor    { return coreabci.NewModule().Initialize(nil) }
