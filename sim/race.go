//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	crisisv1 "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"google.golang.org/protobuf/encoding/protojson"
)

// HTTP readers which run while a node executes a request of consensus. The threads are
// interleaved before and after every storage operation, and every answer is compared with
// what was stored at some moment between request and response.

// memKV is a plain ordered map: storage whose contents the simulator chooses.
type memKV map[string]string

func (m memKV) Get(k []byte) ([]byte, bool) {
	v, ok := m[string(k)]
	if !ok {
		return nil, false
	}
	return []byte(v), true
}
func (m memKV) Has(k []byte) bool { _, ok := m[string(k)]; return ok }
func (m memKV) Set(k, v []byte)   { m[string(k)] = string(v) }
func (m memKV) Delete(k []byte) bool {
	_, ok := m[string(k)]
	delete(m, string(k))
	return ok
}

func (m memKV) Iterate(a, b []byte) kv.Iterator {
	it := &memIter{m: m}
	for k := range m {
		if k >= string(a) && (len(b) == 0 || k <= string(b)) {
			it.keys = append(it.keys, k)
		}
	}
	sort.Strings(it.keys)
	return it
}

func (m memKV) IteratePrefix(p []byte) kv.Iterator {
	it := &memIter{m: m, cut: len(p)}
	for k := range m {
		if strings.HasPrefix(k, string(p)) {
			it.keys = append(it.keys, k)
		}
	}
	sort.Strings(it.keys)
	return it
}

type memIter struct {
	m    memKV
	keys []string
	cut  int
}

func (i *memIter) Next()         { i.keys = i.keys[1:] }
func (i *memIter) Key() []byte   { return []byte(i.keys[0][i.cut:]) }
func (i *memIter) Value() []byte { return []byte(i.m[i.keys[0]]) }
func (i *memIter) Valid() bool   { return len(i.keys) > 0 }
func (i *memIter) Close()        {}

// history is what was stored at every moment of a call.
type history struct {
	n      *Node
	at     int
	before map[string]string
	writes []kvWrite
	stores map[string]memKV
	cache  map[string]held
}

func newHistory(n *Node, before map[string]string, writes []kvWrite) *history {
	h := &history{n: n, before: before, writes: writes, cache: map[string]held{}}
	h.reset()
	return h
}

func (h *history) reset() {
	h.at = 0
	h.stores = map[string]memKV{}
	for _, s := range h.n.ctl.stores {
		h.stores[s.role] = memKV{}
	}
	for k, v := range h.before {
		i := strings.IndexByte(k, '|')
		h.stores[k[:i]][k[i+1:]] = v
	}
}

// seek moves to the moment after p writes.
func (h *history) seek(p int) {
	if p < h.at {
		h.reset()
	}
	for ; h.at < p; h.at++ {
		w := h.writes[h.at]
		if w.del {
			delete(h.stores[w.role], w.key)
		} else {
			h.stores[w.role][w.key] = w.val
		}
	}
}

// get reads an object as of the moment after p writes.
func (h *history) get(p int, kindName, id string) held {
	k := kinds[kindName]
	// the last moment at which something other than an index changed
	for p > 0 && h.writes[p-1].role != "objects" {
		p--
	}
	ck := fmt.Sprintf("%d/%s/%s", p, kindName, id)
	if v, ok := h.cache[ck]; ok {
		return v
	}
	h.seek(p)
	v := held{}
	var o outcome
	read := func() {
		st := orm.NewStore(objects.NewStore(h.stores["objects"]), indexes.NewStore(h.stores["indexes"]))
		obj := k.obj()
		for _, d := range h.n.decl {
			for _, so := range d.StateObjects {
				if meta.Name(so.StateObject) == meta.Name(obj) {
					if err := st.RegisterObject(so.StateObject, so.SchemaDefinition); err != nil {
						panic(err)
					}
				}
			}
		}
		var mid meta.ID = meta.NewStringID(id)
		if k.prefix == "" {
			mid = meta.SingletonID
		}
		if st.Get(mid, obj) == nil {
			v = held{rendered(k, obj), fieldsOf(obj)}
		}
	}
	within(newProcess(), func() { o = guard(read) })
	if !o.ok() {
		v.s = "unreadable: " + o.String()
	}
	h.cache[ck] = v
	return v
}

func rendered(k kind, obj meta.StateObject) string {
	if k.prefix == "" {
		return k.kind + " " + canon(obj)
	}
	key, val := entryOf(obj)
	return key + " " + val
}

// moments are those between a and b at which something other than indexes changed, and a.
func (h *history) moments(a, b int) []int {
	ps := []int{a}
	for p := a + 1; p <= b; p++ {
		if h.writes[p-1].role == "objects" {
			ps = append(ps, p)
		}
	}
	return ps
}

// settled is the last moment up to p at which the indexes were those of the objects: objects
// are written first, or all of them together when they are rolled back.
func (h *history) settled(p int) int {
	n := p
	for n < len(h.writes) && h.writes[n].role == "objects" {
		n++
	}
	if n == len(h.writes) {
		return p
	}
	if n == p {
		for p > 0 && h.writes[p-1].role != "objects" {
			p--
		}
	}
	for p > 0 && h.writes[p-1].role == "objects" {
		p--
	}
	return p
}

// settles is the first moment from p on at which the objects are those of the indexes, in case
// these are written first.
func (h *history) settles(p int) int {
	if p == 0 || h.writes[p-1].role == "objects" {
		return p
	}
	for p < len(h.writes) && h.writes[p].role != "objects" {
		p++
	}
	for p < len(h.writes) && h.writes[p].role == "objects" {
		p++
	}
	return p
}

type raceReq struct {
	op         Op
	path       string
	from, to   int
	resp       httpResp
	start, end int64 // window of a listing
}

func (s *chainSim) raceRequest(op Op) *raceReq {
	k, ok := kinds[op.S]
	if !ok {
		return nil
	}
	q := &raceReq{op: op}
	switch op.K {
	case "read":
		id := name(op.T)
		q.op.T = id
		if !utf8.ValidString(id) || len(id) > 2000 || (k.prefix != "" && (id == "" || id == "." || id == "..")) {
			return nil
		}
		q.path = strings.ToLower("/" + k.group + "/" + k.kind)
		if k.prefix != "" {
			q.path += "/" + url.PathEscape(id)
		}
	case "list":
		if k.prefix == "" || len(op.L) == 0 {
			return nil
		}
		v := url.Values{}
		for _, sel := range op.L {
			i := strings.IndexByte(sel, '=')
			v.Add("selectField", sel[:i+1]+name(sel[i+1:]))
		}
		q.end = 100
		if op.N >= 0 {
			v.Set("start", strconv.FormatInt(op.N, 10))
			q.start = op.N
		}
		if op.M >= 0 {
			v.Set("end", strconv.FormatInt(op.M, 10))
			q.end = op.M
		}
		q.path = strings.ToLower("/"+k.group+"/"+k.kind+"s") + "?" + v.Encode()
	default:
		return nil
	}
	return q
}

// race lets a node execute a request of consensus while clients read from it.
func (s *chainSim) race(r *replica, e *logEntry) (res string, o outcome) {
	n := r.n
	op := e.race
	rng := NewRNG(uint64(op.N) ^ uint64(r.cursor)*0x9e3779b97f4a7c15)
	readers := 1 + rng.W(6, 3, 1)
	plans := make([][]Op, readers)
	for i, q := range op.Sub {
		plans[i%readers] = append(plans[i%readers], q)
	}
	reqs := make([][]*raceReq, readers)
	over := false
	before := n.dump()
	var writes []kvWrite
	ts := newThreads(n.ctl, rng)
	n.around = func(f func()) outcome {
		ts.add("consensus", func() { defer func() { over = true }(); f() })
		for i := range plans {
			i := i
			ts.add(fmt.Sprintf("reader %d", i), func() {
				for round := 0; round < 6; round++ {
					for _, x := range plans[i] {
						if round > 0 && over {
							return
						}
						if x.K == "read" && x.T == "*" {
							if len(e.hot) == 0 {
								continue
							}
							x = e.hot[rng.N(len(e.hot))]
						}
						if q := s.raceRequest(x); q != nil {
							q.from = len(writes)
							q.resp = n.serve(q.path)
							q.to = n.ctl.begun // one which is under way may be visible already
							reqs[i] = append(reqs[i], q)
						}
					}
				}
			})
		}
		n.ctl.rec, n.ctl.begun = &writes, 0
		defer func() { n.ctl.rec = nil }()
		return ts.run()
	}
	res, _, _, o = n.do(&e.call)
	n.around = nil
	s.c.Log("race %d %s switches %d blocked %d schedule %s", n.ID, e.call.Kind, ts.switches, ts.blocked, short(ts.trace))
	s.c.HitN("thread switches", ts.switches)
	s.c.State("schedule", e.call.Kind, string(ts.trace))
	if !o.ok() {
		for i, t := range ts.all {
			if o.Hung && i > 0 && t.state == thBlocked {
				s.c.Violate("P13", "read is never answered", "node %d, %s of %s", n.ID, o, t.name)
			}
		}
		return res, o
	}
	s.c.Hit("calls executed while clients read: " + e.call.Kind)
	h := newHistory(n, before, writes)
	for _, l := range reqs {
		for _, q := range l {
			s.judgeRace(n, h, q)
		}
	}
	return res, o
}

// serve answers an HTTP request in the calling thread.
func (n *Node) serve(path string) httpResp {
	u, err := url.ParseRequestURI(path)
	if err != nil {
		return httpResp{}
	}
	req := &http.Request{Method: http.MethodGet, URL: u, RequestURI: path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody, Host: "sim"}
	w := httptest.NewRecorder()
	n.http.ServeHTTP(w, req)
	return httpResp{w.Code, append([]byte(nil), w.Body.Bytes()...)}
}

// changedObjects are reads of the objects which differ.
func changedObjects(a, b *State) []Op {
	x, y := a.render(), b.render()
	for k := range x {
		if _, ok := y[k]; !ok {
			y[k] = ""
		}
	}
	var ops []Op
	for _, k := range sortedKeys(y) {
		if x[k] == y[k] {
			continue
		}
		for _, n := range sortedKeys(kinds) {
			kd := kinds[n]
			if kd.prefix != "" && strings.HasPrefix(k, kd.prefix) {
				ops = append(ops, Op{K: "read", S: n, T: k[len(kd.prefix):]})
			}
			if kd.prefix == "" && k == "single/"+kd.kind {
				ops = append(ops, Op{K: "read", S: n})
			}
		}
	}
	return ops
}

func (s *chainSim) judgeRace(n *Node, h *history, q *raceReq) {
	k := kinds[q.op.S]
	c := s.c
	what := fmt.Sprintf("%s of node %d while it executes (writes %d to %d of %d)", clip(q.path, 120), n.ID, q.from, q.to, len(h.writes))
	c.Log("answer %s -> %d %s", what, q.resp.Code, short(q.resp.Body))
	if q.to > len(h.writes) {
		q.to = len(h.writes)
	}
	ps := h.moments(q.from, q.to)
	if q.op.K == "read" {
		c.Hit("concurrent reads")
		if len(ps) > 1 {
			c.Hit("concurrent reads: during writes")
		}
		got := ""
		switch q.resp.Code {
		case 200:
			obj := k.obj()
			if err := protojson.Unmarshal(q.resp.Body, obj); err != nil {
				c.Violate("P13", "read is unreadable", "%s: %s", what, err)
				return
			}
			got = rendered(k, obj)
		case 404:
		default:
			c.Violate("P13", "read fails", "%s: status %d %s", what, q.resp.Code, clip(string(q.resp.Body), 200))
			return
		}
		var seen []string
		for _, p := range ps {
			v := h.get(p, q.op.S, q.op.T)
			if v.s == got {
				return
			}
			seen = append(seen, v.s)
		}
		if k.prefix == "" && (k.kind == "CurrentBlock" || k.kind == "BeginBlockState" || k.kind == "InitChainInfo") {
			c.Violate("P14", "what readers see", "%s: answer %q, stored meanwhile %q", what, clip(got, 200), clip(strings.Join(seen, " then "), 400))
		}
		c.Violate("P13", "concurrent read is wrong", "%s: answer %q, stored meanwhile %q", what, clip(got, 200), clip(strings.Join(seen, " then "), 400))
		return
	}
	c.Hit("concurrent listings")
	if len(ps) > 1 {
		c.Hit("concurrent listings: during writes")
	}
	var got [][2]string
	if q.resp.Code == 200 {
		var raw map[string][]json.RawMessage
		if err := json.Unmarshal(q.resp.Body, &raw); err != nil || len(raw) > 1 {
			c.Violate("P13", "listing is unreadable", "%s: %s", what, clip(string(q.resp.Body), 100))
			return
		}
		for _, l := range raw {
			for _, x := range l {
				obj := k.obj()
				if err := protojson.Unmarshal(x, obj); err != nil {
					c.Violate("P13", "listing is unreadable", "%s: %s", what, err)
					return
				}
				key, _ := entryOf(obj)
				got = append(got, [2]string{key, rendered(k, obj)})
			}
		}
	}
	ids := sortedKeys(s.u.names)
	if k.prefix == "inv/" {
		ids = sortedKeys(s.u.invs)
	}
	// what is being created or restored when the listing begins need not be in it, nor what is
	// being removed when it ends
	was := h.moments(h.settled(q.from), q.from)
	during := len(was) + len(ps)
	ps = append(append(was, ps...), h.moments(q.to, h.settles(q.to))...)
	always := map[string]int{}
	ever := map[string]bool{}
	for i, p := range ps {
		for _, id := range ids {
			if id == "" || len(id) > 60000 {
				continue
			}
			v := h.get(p, q.op.S, id)
			if v.s == "" {
				continue
			}
			if i >= len(was) && i < during {
				ever[v.s] = true
			}
			if v.selected(q.op.L) {
				always[k.prefix+id]++
			}
		}
	}
	seen := map[string]bool{}
	for _, g := range got {
		if seen[g[0]] {
			c.Violate("P13", "concurrent listing repeats", "%s: %q", what, clip(g[0], 80))
		}
		seen[g[0]] = true
		if !ever[g[1]] {
			c.Violate("P13", "concurrent listing is wrong", "%s: %q was not stored meanwhile", what, clip(g[1], 200))
		}
	}
	if q.start > 0 || (q.end != 0 && int64(len(ever)) > q.end) {
		return // what is listed depends on the others
	}
	for _, key := range sortedKeys(always) {
		if always[key] == len(ps) && !seen[key] {
			c.Violate("P13", "concurrent listing is incomplete", "%s: status %d, %q is missing", what, q.resp.Code, clip(key, 80))
		}
	}
}

// held is an object which was stored at some moment.
type held struct {
	s      string // rendered, empty: absent
	fields map[string]string
}

func fieldsOf(o meta.StateObject) map[string]string {
	switch x := o.(type) {
	case *authnv1.Account:
		return map[string]string{"accountNumber": fmt.Sprint(x.AccountNumber)}
	case *rbacv1.RoleBinding:
		return map[string]string{"roleRef": x.RoleRef}
	case *crisisv1.InvariantHandler:
		return map[string]string{"module": x.Module, "route": x.Route}
	}
	return nil
}

// selected tells whether an object matches the selections.
func (o held) selected(sel []string) bool {
	for _, f := range sel {
		i := strings.IndexByte(f, '=')
		if v, ok := o.fields[f[:i]]; !ok || v != name(f[i+1:]) {
			return false
		}
	}
	return true
}
