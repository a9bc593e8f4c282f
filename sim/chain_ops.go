//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisisv1 "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func (s *chainSim) rep(i int) *replica {
	if i < 0 {
		i = -i
	}
	return s.reps[i%len(s.reps)]
}

func (s *chainSim) op(op *Op) {
	switch op.K {
	case "tx":
		var first *poolTx
		if op.N&24 != 0 {
			// somebody tampers with a transaction the nodes know already
			o := *op
			o.ID, o.Tx = op.ID+1<<20, op.Tx.genuine()
			first = s.build(&o)
			for _, r := range s.reps {
				if r.n.ID == op.R || op.N&8 != 0 {
					s.check(r, first, false, "offered")
				}
			}
		}
		t := s.build(op)
		if op.N&2 != 0 {
			s.check(s.rep(op.R), t, false, "offered")
		}
		s.deliver(t, op.N&1 != 0)
		if op.N&4 != 0 && !s.reps[0].gone {
			s.sync()
			s.check(s.rep(op.R), t, true, "rechecked")
		}
		if op.N&16 != 0 && !s.reps[0].gone {
			s.sync()
			s.deliver(first, false)
		}
	case "burst":
		// many transactions of one kind, one after the other
		for i := int64(0); i < op.N && !s.reps[0].gone; i++ {
			o := *op
			o.ID = op.ID + int(i+2)<<20
			s.deliver(s.build(&o), false)
		}
	case "mk":
		s.build(op)
	case "deliver":
		if t := s.from(op.ID); t != nil {
			s.deliver(t, op.N&1 != 0)
		}
	case "check":
		if t := s.from(op.ID); t != nil {
			s.know(t.ref)
			s.check(s.rep(op.R), t, op.N&1 != 0, "offered")
		}
	case "begin":
		s.begin(op)
	case "end":
		s.end()
	case "commit":
		s.commit()
	case "wait":
		s.wait = time.Duration(op.N) * time.Second
		s.c.Hit("fault: clock jump")
	case "skew":
		s.rep(op.R).n.skew += time.Duration(op.N) * time.Second
		s.c.Hit("fault: clock skew")
	case "crash":
		if len(s.reps) > 1 {
			r := s.reps[1+op.R%(len(s.reps)-1)]
			if !r.gone {
				r.n.ctl.crashAt = r.n.ctl.ops + 1 + op.N
				r.again = op.M
			}
		}
	case "restart":
		s.restart(s.rep(op.R))
	case "lag":
		if len(s.reps) > 1 {
			s.reps[1+op.R%(len(s.reps)-1)].lag = true
			s.c.Hit("fault: stalled node")
		}
	case "catch":
		if len(s.reps) > 1 {
			s.reps[1+op.R%(len(s.reps)-1)].lag = false
		}
	case "read":
		s.read(s.rep(op.R), op)
	case "list":
		s.list(s.rep(op.R), op)
	case "misc":
		s.misc(s.rep(op.R), op)
	case "race":
		if len(s.reps) > 1 {
			s.armed, s.races = op, 1+op.M
		}
	default:
		panic("unknown operation " + op.K)
	}
	if s.c.Done() || s.reps[0].gone {
		return
	}
	s.sync()
}

func (s *chainSim) from(id int) *poolTx {
	if len(s.ids) == 0 {
		return nil
	}
	if t := s.pool[id]; t != nil {
		return t
	}
	return s.pool[s.ids[id%len(s.ids)]]
}

// restart stops a node in an orderly way and starts it again.
func (s *chainSim) restart(r *replica) {
	if r.gone {
		return
	}
	before := r.n.dump()
	r.again = 0
	was := r.crashed
	s.recover(r)
	r.crashed = was
	if r.gone {
		return
	}
	s.c.Hit("fault: restart")
	if r == s.reps[0] {
		s.acts = len(r.n.acts)
	}
	if d := firstDiff(before, r.n.dump()); d != "" {
		s.c.Violate("P02", "state lost or changed by a restart", "node %d: %s", r.n.ID, d)
	}
}

// ---- reading ----

type kind struct {
	group, kind string
	prefix      string // of the entries in State.render
	obj         func() meta.StateObject
}

var kinds = map[string]kind{
	"account":   {"tmos.x.authn.v1alpha1", "Account", "acc/", func() meta.StateObject { return new(authnv1.Account) }},
	"balance":   {"tmos.x.bank.v1alpha1", "Balance", "bal/", func() meta.StateObject { return new(bankv1.Balance) }},
	"binding":   {"tmos.core.rbac.v1alpha1", "RoleBinding", "bind/", func() meta.StateObject { return new(rbacv1.RoleBinding) }},
	"post":      {"testmodule.v1", "Post", "post/", func() meta.StateObject { return new(testv1.Post) }},
	"invariant": {"tmos.x.crisis.v1alpha1", "InvariantHandler", "inv/", func() meta.StateObject { return new(crisisv1.InvariantHandler) }},
	"block":     {"tmos.abci.v1alpha1", "CurrentBlock", "", func() meta.StateObject { return new(abciv1.CurrentBlock) }},
	"begin":     {"tmos.abci.v1alpha1", "BeginBlockState", "", func() meta.StateObject { return new(abciv1.BeginBlockState) }},
	"chain":     {"tmos.abci.v1alpha1", "InitChainInfo", "", func() meta.StateObject { return new(abciv1.InitChainInfo) }},
}

// entryOf is the entry of State.render of an object.
func entryOf(o proto.Message) (string, string) {
	switch x := o.(type) {
	case *authnv1.Account:
		return "acc/" + x.Address, fmt.Sprintf("num=%d seq=%d pub=%s", x.AccountNumber, x.Sequence, anyString(x.PubKey))
	case *bankv1.Balance:
		m := map[string]*big.Int{}
		for _, c := range x.Balance {
			v, ok := new(big.Int).SetString(c.Amount, 10)
			if !ok {
				return "bal/" + x.Address, "invalid"
			}
			m[c.Denom] = v
		}
		return "bal/" + x.Address, balString(m)
	case *rbacv1.RoleBinding:
		return "bind/" + x.Subject, x.RoleRef
	case *testv1.Post:
		return "post/" + x.Id, postString(x)
	case *crisisv1.InvariantHandler:
		return "inv/" + x.StateTransition, x.Module + "|" + x.Route
	}
	return "", ""
}

// read reads one object of a node, over HTTP or as query.
func (s *chainSim) read(r *replica, op *Op) {
	if r.gone {
		return
	}
	k, ok := kinds[op.S]
	if !ok {
		return
	}
	id := name(op.T)
	if !utf8.ValidString(id) {
		return
	}
	s.u.name(id)
	if k.prefix == "inv/" {
		s.u.invs[id] = true
	}
	viaHTTP := op.N&1 == 0
	before := r.n.dump()
	st := r.n.state(s.u)
	var body []byte
	found, odd := false, ""
	if viaHTTP {
		path := strings.ToLower("/" + k.group + "/" + k.kind)
		if k.prefix != "" {
			path += "/" + url.PathEscape(id)
		}
		resp, o, err := r.n.get(path, "")
		if err != nil {
			return
		}
		if s.ended_(r, o, "HTTP GET "+clip(path, 100)) {
			return
		}
		body = resp.Body
		switch resp.Code {
		case 200:
			found = true
		case 404:
		default:
			odd = fmt.Sprintf("status %d: %s", resp.Code, clip(string(body), 200))
			s.unanswered(r, path, resp.Code)
		}
		s.c.Log("http %d %s -> %d %s", r.n.ID, clip(path, 60), resp.Code, short(body))
	} else {
		path := "get/" + k.group + "/" + k.kind + "/" + id
		if k.prefix == "" {
			path = "get/" + k.group + "/" + k.kind + "/unique"
		}
		var resp types.ResponseQuery
		o := r.n.call(func() { resp = r.n.app.Query(types.RequestQuery{Path: path, Height: op.M}) })
		if s.ended_(r, o, "query "+clip(path, 100)) {
			return
		}
		found, body = resp.Code == 0, resp.Value
		s.c.Log("query %d %s -> %d %s", r.n.ID, clip(path, 60), resp.Code, short(body))
	}
	s.c.Hit("reads")
	if d := firstDiff(before, r.n.dump()); d != "" {
		s.c.Violate("P10", "read changed the state", "%s %s: %s", op.S, clip(id, 60), d)
	}
	what := fmt.Sprintf("%s %q of node %d", op.S, clip(id, 60), r.n.ID)
	if k.prefix == "" {
		obj := k.obj()
		if !found || protojson.Unmarshal(body, obj) != nil {
			s.c.Violate("P13", "read fails", "%s: %s %s", what, odd, clip(string(body), 100))
			return
		}
		want := st.Single[k.kind]
		if canon(obj) != want {
			s.c.Violate("P13", "read is wrong", "%s: %s instead of %s", what, clip(canon(obj), 200), clip(want, 200))
		}
		if r.cursor == len(s.log) && canon(obj) != s.single[k.kind] {
			s.c.Violate("P14", "what readers see", "%s: %s instead of %s", what, clip(canon(obj), 200), clip(s.single[k.kind], 200))
		}
		return
	}
	if id == "" || len(id) > 2000 || (viaHTTP && (id == "." || id == "..")) {
		return // only has to survive
	}
	if odd != "" {
		s.c.Violate("P13", "read fails", "%s: %s", what, odd)
		return
	}
	have := st.render()
	want, exists := have[k.prefix+id]
	if _, bad := have["BAD/"+k.prefix+id]; bad {
		return
	}
	switch {
	case found != exists:
		s.c.Violate("P13", "read is wrong", "%s: found %v, exists %v: %s", what, found, exists, clip(string(body), 100))
	case found:
		obj := k.obj()
		if err := protojson.Unmarshal(body, obj); err != nil {
			s.c.Violate("P13", "read is unreadable", "%s: %s", what, err)
			return
		}
		if key, val := entryOf(obj); key != k.prefix+id || val != want {
			s.c.Violate("P13", "read is wrong", "%s: %s is %q instead of %q", what, clip(key, 60), clip(val, 200), clip(want, 200))
		}
	}
	if found {
		s.c.Hit("reads: found")
	}
}

// unanswered is called when a node fails to answer a request: would it do so if nobody had
// ever sent requests which have no effect?
func (s *chainSim) unanswered(r *replica, path string, code int) {
	if s.unanswer || code == 200 || code == 404 || len(path) > 2000 {
		return
	}
	s.unanswer = true
	n, o, err := newNode(7, s.app, 0)
	defer n.close()
	if err != nil || !o.ok() {
		return
	}
	for i := range s.log[:r.cursor] {
		if e := &s.log[i]; !e.noop {
			if _, _, _, o := n.do(&e.call); !o.ok() {
				return
			}
		}
	}
	if resp, o, err := n.get(path, ""); err == nil && o.ok() && resp.Code == 200 {
		s.c.Violate("P03", "valid read refused because of earlier requests", "%s: status %d", clip(path, 100), code)
	}
}

// ended_ handles nodes which die while they are being read.
func (s *chainSim) ended_(r *replica, o outcome, what string) bool {
	if o.Crashed {
		s.c.Hit("fault: crash during a read")
		s.recover(r)
		return true
	}
	return s.fault(r, o, what)
}

// list lists objects of a node by field over HTTP.
func (s *chainSim) list(r *replica, op *Op) {
	k, ok := kinds[op.S]
	if r.gone || !ok || k.prefix == "" {
		return
	}
	// L: field=value selections
	q := url.Values{}
	for _, sel := range op.L {
		i := strings.IndexByte(sel, '=')
		q.Add("selectField", sel[:i+1]+name(sel[i+1:]))
	}
	if op.N >= 0 {
		q.Set("start", strconv.FormatInt(op.N, 10))
	}
	end := int64(100)
	if op.M >= 0 {
		end = op.M
		q.Set("end", strconv.FormatInt(op.M, 10))
	}
	start := op.N
	if start < 0 {
		start = 0
	}
	path := strings.ToLower("/"+k.group+"/"+k.kind+"s") + "?" + q.Encode()
	before := r.n.dump()
	resp, o, err := r.n.get(path, "")
	if err != nil {
		return
	}
	if s.ended_(r, o, "HTTP GET "+clip(path, 100)) {
		return
	}
	s.c.Hit("listings")
	s.c.Log("list %d %s -> %d %s", r.n.ID, clip(path, 100), resp.Code, short(resp.Body))
	if d := firstDiff(before, r.n.dump()); d != "" {
		s.c.Violate("P10", "listing changed the state", "%s: %s", path, d)
	}
	st := r.n.state(s.u)
	want := s.matching(st, op.S, op.L)
	if want == nil {
		return
	}
	want = window(want, start, end)
	if len(op.L) == 0 {
		return // not implemented, only has to survive
	}
	var got []string
	if resp.Code == 200 {
		var raw map[string][]json.RawMessage
		if err := json.Unmarshal(resp.Body, &raw); err != nil || len(raw) > 1 {
			s.c.Violate("P13", "listing is unreadable", "%s: %s", path, clip(string(resp.Body), 100))
			return
		}
		for _, l := range raw {
			for _, x := range l {
				obj := k.obj()
				if err := protojson.Unmarshal(x, obj); err != nil {
					s.c.Violate("P13", "listing is unreadable", "%s: %s", path, err)
					return
				}
				key, val := entryOf(obj)
				got = append(got, key+" "+val)
			}
		}
	}
	if len(want) == 0 && len(got) == 0 {
		return
	}
	if len(got) == 0 {
		s.unanswered(r, path, resp.Code)
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		for _, p := range []string{"P12", "P13"} {
			s.c.Violate(p, "listing is wrong", "%s (status %d): %d objects %s instead of %d %s", clip(path, 150), resp.Code, len(got), clip(strings.Join(got, "; "), 200), len(want), clip(strings.Join(want, "; "), 200))
		}
	}
	if len(want) > 0 {
		s.c.Hit("listings: not empty")
	}
}

func window(l []string, start, end int64) []string {
	if start > int64(len(l)) {
		start = int64(len(l))
	}
	if end == 0 || end > int64(len(l)) {
		end = int64(len(l))
	}
	if end < start {
		end = start
	}
	return l[start:end]
}

// matching lists the entries which match the selections, nil if that can not be told.
func (s *chainSim) matching(st *State, kindName string, sel []string) []string {
	type row struct {
		key    string
		fields map[string]string
	}
	var rows []row
	switch kindName {
	case "account":
		for k, a := range st.Accs {
			rows = append(rows, row{"acc/" + k, map[string]string{"accountNumber": fmt.Sprint(a.Num)}})
		}
	case "binding":
		for k, ref := range st.Binds {
			rows = append(rows, row{"bind/" + k, map[string]string{"roleRef": ref}})
		}
	case "invariant":
		for k, i := range st.Invs {
			rows = append(rows, row{"inv/" + k, map[string]string{"module": i[0], "route": i[1]}})
		}
	default:
		return nil
	}
	out := []string{}
	sort.Slice(rows, func(i, j int) bool { return rows[i].key < rows[j].key })
	r := st.render()
	for _, x := range rows {
		ok := true
		for _, f := range sel {
			i := strings.IndexByte(f, '=')
			v, known := x.fields[f[:i]]
			if !known {
				return nil
			}
			want := name(f[i+1:])
			if kindName == "account" {
				n, err := strconv.ParseUint(want, 10, 64)
				if err != nil {
					return nil
				}
				want = fmt.Sprint(n)
			}
			ok = ok && v == want
		}
		if ok {
			out = append(out, x.key+" "+r[x.key])
		}
	}
	return out
}

// misc sends a request of any kind which has to be survived and must not change anything.
func (s *chainSim) misc(r *replica, op *Op) {
	if r.gone {
		return
	}
	before := r.n.dump()
	var o outcome
	var res string
	app := r.n.app
	switch op.S {
	case "http":
		resp, out, err := r.n.get(op.T, strings.Join(op.L, ""))
		if err != nil {
			return
		}
		o, res = out, fmt.Sprint(resp.Code)
		if op.T == "/spec" && out.ok() && (resp.Code != 200 || len(resp.Body) == 0) {
			s.c.Violate("P13", "API description", "status %d", resp.Code)
		}
	case "query":
		o = r.n.call(func() {
			q := app.Query(types.RequestQuery{Path: name(op.T), Data: op.B, Height: op.M, Prove: op.N&1 == 1})
			res = fmt.Sprint(q.Code, len(q.Value)) // api_resources come in any order
			if op.T == "api_resources" {
				s.judgeResources(r.n, q)
			}
		})
	case "checktx":
		o = r.n.call(func() {
			q := app.CheckTx(types.RequestCheckTx{Tx: op.B, Type: types.CheckTxType(op.N)})
			res = fmt.Sprint(q.Code)
		})
	case "info":
		o = r.n.call(func() { res = js(app.Info(types.RequestInfo{Version: op.T, BlockVersion: uint64(op.N)})) })
	case "setoption":
		o = r.n.call(func() { res = js(app.SetOption(types.RequestSetOption{Key: op.T, Value: string(op.B)})) })
	case "listsnapshots":
		o = r.n.call(func() { res = js(app.ListSnapshots(types.RequestListSnapshots{})) })
	case "offer":
		req := types.RequestOfferSnapshot{AppHash: op.B}
		if op.N&1 == 1 {
			req.Snapshot = &types.Snapshot{Height: uint64(op.N), Format: 1, Chunks: 3, Hash: op.B}
		}
		o = r.n.call(func() { res = js(app.OfferSnapshot(req)) })
	case "load":
		o = r.n.call(func() {
			res = js(app.LoadSnapshotChunk(types.RequestLoadSnapshotChunk{Height: uint64(op.N), Chunk: uint32(op.M)}))
		})
	case "apply":
		o = r.n.call(func() {
			res = js(app.ApplySnapshotChunk(types.RequestApplySnapshotChunk{Index: uint32(op.N), Chunk: op.B, Sender: op.T}))
		})
	default:
		return
	}
	s.c.Hit("odd requests: " + op.S)
	if s.ended_(r, o, op.S+" "+clip(op.T, 100)) {
		return
	}
	s.c.Log("misc %d %s %s -> %s", r.n.ID, op.S, clip(op.T, 60), res)
	if d := firstDiff(before, r.n.dump()); d != "" {
		s.c.Violate("P10", "request changed the state", "%s %s: %s", op.S, clip(op.T, 60), d)
	}
}

// judgeResources compares the list of resources with what is installed.
func (s *chainSim) judgeResources(n *Node, q types.ResponseQuery) {
	var want, got []string
	for _, d := range n.decl {
		for _, o := range d.StateObjects {
			def := o.StateObject.APIDefinition()
			want = append(want, def.Group+" "+def.Kind)
		}
	}
	m := new(runtimev1.Resources)
	if err := protojson.Unmarshal(q.Value, m); q.Code != 0 || err != nil {
		s.c.Violate("P13", "resources can not be queried", "code %d: %s %v", q.Code, q.Log, err)
		return
	}
	for _, g := range m.ApiGroupResources {
		for _, k := range g.StateObjects {
			got = append(got, g.ApiGroup+" "+k)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	s.c.Hit("lists of resources")
	if a, b := strings.Join(want, ", "), strings.Join(got, ", "); a != b {
		s.c.Violate("P13", "resources", "listed are %s instead of %s", b, a)
	}
}

// settle is the end of a run: faults stop, everybody catches up and whoever can pay for it
// gets a transaction through.
func (s *chainSim) settle() {
	for _, r := range s.reps {
		r.n.ctl.crashAt, r.lag, r.again = 0, false, 0
	}
	if !s.commit() {
		return
	}
	s.sync()
	for _, r := range s.reps[1:] {
		if !r.gone && r.cursor != len(s.log) {
			s.c.Violate("P16", "node does not catch up", "node %d executed %d of %d calls", r.n.ID, r.cursor, len(s.log))
		}
	}
	s.st = s.reps[0].n.state(s.u)
	done := 0
	for i := 0; i < 12 && done < 5; i++ {
		a := addr(i)
		acc, ok := s.st.Accs[a]
		if !ok || (acc.Pub != "" && acc.Pub != fmt.Sprintf("%x", key(i).PubKey().Bytes())) {
			continue
		}
		denom := ""
		for _, d := range sortedKeys(s.st.Bals[a]) {
			if s.st.Bals[a][d].Cmp(big.NewInt(2)) >= 0 {
				denom = d
			}
		}
		if denom == "" {
			continue
		}
		done++
		op := &Op{ID: 1000000 + i, Tx: &TxSpec{Msgs: []MsgSpec{{K: "send", A: a, B: addr((i + 1) % 3), Coins: []CoinSpec{{denom, "1"}}}},
			Signers: []SignerSpec{{Key: i}}, Fee: []CoinSpec{{denom, "1"}}, Gas: 1}}
		t := s.build(op)
		if v := admission(t.ref, s.st, s.app.ChainID, s.height+1); !v.mustAccept() {
			continue
		}
		for _, r := range s.reps {
			if acc, ok := s.check(r, t, false, "after the faults"); ok && !acc {
				s.c.Violate("P16", "mempool refuses a valid transaction", "of %s on node %d", a, r.n.ID)
			}
		}
		code, ok := s.deliver(t, false)
		if !ok {
			return
		}
		e := exec(t.ref, ante(t.ref, s.st))
		if code != 0 && e.fail == nil {
			s.c.Violate("P16", "valid transaction refused", "of %s", a)
		}
		s.c.Hit("transactions after the faults stopped")
		if !s.commit() {
			return
		}
		s.sync()
	}
}
