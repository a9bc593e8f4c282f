//go:build go1.21

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/core/rbac/xt"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	coreschema "github.com/fdymylja/tmos/core/schema"
	tmrt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/client"
	rterrors "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// The runtime scenario: the real runtime with access control and modules, objects,
// transitions and services made up by the simulator. What modules do is written down in
// scripts, which a small model executes as well.

func init() { register(Scenario{Name: "runtime", Gen: genRT, Run: runRT}) }

type RTCfg struct {
	Files   []RTFile  `json:"files"`
	Mods    []RTMod   `json:"mods"` // the module named rbac is the real one
	Scripts [][]RTAct `json:"scripts"`
	Keys    []string  `json:"keys"`
}

type RTFile struct {
	Pkg     string  `json:"pkg"`
	Imports []int   `json:"imports,omitempty"`
	Msgs    []RTMsg `json:"msgs"`
}

type RTMsg struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // so: object, st: transition
	Ext  bool   `json:"ext,omitempty"`
	None bool   `json:"none,omitempty"` // transition which does not say who may deliver it
}

type RTMod struct {
	Name     string   `json:"name"`
	Objs     []string `json:"objs,omitempty"`
	Sts      []string `json:"sts,omitempty"`
	Needs    []string `json:"needs,omitempty"`
	Adm      []RTHook `json:"adm,omitempty"`  // admission handlers, refusing transitions marked N
	Pre      []RTHook `json:"pre,omitempty"`  // pre execution handlers, executing script N
	Post     []RTHook `json:"post,omitempty"` // post execution handlers, executing script N
	PostAuth []int    `json:"postauth,omitempty"`
	Auth     int      `json:"auth,omitempty"` // refuses transactions marked so
	Genesis  []int    `json:"genesis,omitempty"`
	Svcs     []RTSvc  `json:"svcs,omitempty"`
}

type RTHook struct {
	T string `json:"t"`
	N int    `json:"n"`
}

type RTSvc struct {
	Name      string `json:"name"`
	FailStart bool   `json:"failstart,omitempty"`
	FailStop  bool   `json:"failstop,omitempty"`
}

// RTAct is an action of a module.
type RTAct struct {
	Op   string   `json:"op"` // c, u, d: objects, t: transition, fail
	T    string   `json:"t"`
	K    string   `json:"k,omitempty"`
	V    string   `json:"v,omitempty"`
	S    int      `json:"s,omitempty"` // script of the transition
	Bad  int      `json:"bad,omitempty"`
	As   []string `json:"as,omitempty"`
	Must bool     `json:"must,omitempty"` // its failure makes the script fail
}

// dynTrans is a transition of a type made up by the simulator.
type dynTrans struct {
	*dynamicpb.Message
	def *meta.APIDefinition
}

func (d dynTrans) APIDefinition() *meta.APIDefinition { return d.def }
func (d dynTrans) NewStateTransition() meta.StateTransition {
	return dynTrans{dynamicpb.NewMessage(d.Message.Descriptor()), d.def}
}

func fld(n string, num int32, t descriptorpb.FieldDescriptorProto_Type) *descriptorpb.FieldDescriptorProto {
	return &descriptorpb.FieldDescriptorProto{Name: proto.String(n), JsonName: proto.String(n), Number: proto.Int32(num), Type: t.Enum(),
		Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
}

// buildFiles makes the types.
func buildFiles(fs []RTFile) (map[string]protoreflect.MessageDescriptor, error) {
	out := map[string]protoreflect.MessageDescriptor{}
	reg := new(protoregistry.Files)
	if err := reg.RegisterFile(descriptorpb.File_google_protobuf_descriptor_proto); err != nil {
		return nil, err
	}
	if err := reg.RegisterFile(xt.File_core_rbac_xt_rbac_extension_proto); err != nil {
		return nil, err
	}
	for i, f := range fs {
		fd := &descriptorpb.FileDescriptorProto{Name: proto.String(fmt.Sprintf("sim/%d.proto", i)), Package: proto.String(f.Pkg), Syntax: proto.String("proto3")}
		fd.Dependency = append(fd.Dependency, "core/rbac/xt/rbac_extension.proto")
		for _, j := range f.Imports {
			fd.Dependency = append(fd.Dependency, fmt.Sprintf("sim/%d.proto", j))
		}
		for _, m := range f.Msgs {
			d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name)}
			if m.Kind == "so" {
				d.Field = append(d.Field, fld("id", 1, descriptorpb.FieldDescriptorProto_TYPE_STRING), fld("val", 2, descriptorpb.FieldDescriptorProto_TYPE_STRING))
			} else {
				d.Field = append(d.Field, fld("script", 1, descriptorpb.FieldDescriptorProto_TYPE_INT64), fld("bad", 2, descriptorpb.FieldDescriptorProto_TYPE_INT64))
				if !m.None {
					o := &descriptorpb.MessageOptions{}
					proto.SetExtension(o, xt.E_StateTransitionAcl, &xt.StateTransitionAccessControl{External: m.Ext})
					d.Options = o
				}
			}
			fd.MessageType = append(fd.MessageType, d)
		}
		x, err := protodesc.NewFile(fd, reg)
		if err != nil {
			return nil, err
		}
		if err := reg.RegisterFile(x); err != nil {
			return nil, err
		}
		for j := 0; j < x.Messages().Len(); j++ {
			out[string(x.Messages().Get(j).FullName())] = x.Messages().Get(j)
		}
	}
	return out, nil
}

const (
	tCreateRole = "tmos.core.rbac.v1alpha1.MsgCreateRole"
	tBindRole   = "tmos.core.rbac.v1alpha1.MsgBindRole"
	tRole       = "tmos.core.rbac.v1alpha1.Role"
	tBinding    = "tmos.core.rbac.v1alpha1.RoleBinding"
)

// mRole is a role in the model: verb -> resources.
type mRole map[string][]string

var verbNames = []string{"get", "list", "create", "update", "delete", "deliver"}

func (r mRole) String() string {
	out := ""
	for _, v := range verbNames {
		l := append([]string{}, r[v]...)
		sort.Strings(l)
		out += v + "=" + strings.Join(l, ",") + ";"
	}
	return out
}

func roleOf(id string, r mRole) *rbacv1.Role {
	return &rbacv1.Role{Id: id, Gets: r["get"], Lists: r["list"], Creates: r["create"], Updates: r["update"], Deletes: r["delete"], Delivers: r["deliver"]}
}

func roleFrom(r *rbacv1.Role) mRole {
	return mRole{"get": r.Gets, "list": r.Lists, "create": r.Creates, "update": r.Updates, "delete": r.Deletes, "deliver": r.Delivers}
}

// mState is the state of the model.
type mState struct {
	Objs  map[string]string // type|key -> value
	Roles map[string]mRole
	Binds map[string]string
}

func (s *mState) clone() *mState {
	c := &mState{map[string]string{}, map[string]mRole{}, map[string]string{}}
	for k, v := range s.Objs {
		c.Objs[k] = v
	}
	for k, v := range s.Roles {
		c.Roles[k] = v
	}
	for k, v := range s.Binds {
		c.Binds[k] = v
	}
	return c
}

func (s *mState) render() map[string]string {
	out := map[string]string{}
	for k, v := range s.Objs {
		out["object "+k] = v
	}
	for k, v := range s.Roles {
		out["role "+k] = v.String()
	}
	for k, v := range s.Binds {
		out["binding "+k] = v
	}
	return out
}

func (s *mState) size() int { return len(s.Objs) + len(s.Roles) + len(s.Binds) }

type rtSim struct {
	c     *Ctx
	cfg   *RTCfg
	ctl   *kvCtl
	descs map[string]protoreflect.MessageDescriptor
	kind  map[string]RTMsg
	rt    *tmrt.Runtime
	app   tmrt.ABCIApplication
	decl  []*module.Descriptor // what the modules declared, in order of installation

	authz   bool // the application has an authorizer
	enabled bool
	st      *mState
	other   int // stored objects which are not modelled

	real   []string // what modules did
	pred   []string // what they are expected to do
	predU  []bool   // because of authorization
	mods   map[string]*rtModule
	svcs   []*rtService
	ids    []string
	subs   []string
	txs    []*rtTx
	inGen  bool
	gensBy map[string]int
}

func (s *rtSim) def(t string) *meta.APIDefinition {
	i := strings.LastIndex(t, ".")
	at := meta.APIType_StateTransition
	if s.kind[t].Kind == "so" {
		at = meta.APIType_StateObject
	}
	return &meta.APIDefinition{Group: t[:i], Kind: t[i+1:], ApiType: at}
}

func (s *rtSim) object(t, k, v string) dynObj {
	d := s.descs[t]
	m := dynamicpb.NewMessage(d)
	m.Set(d.Fields().ByNumber(1), protoreflect.ValueOfString(k))
	m.Set(d.Fields().ByNumber(2), protoreflect.ValueOfString(v))
	return dynObj{m, s.def(t)}
}

func (s *rtSim) transition(t string, script, bad int) meta.StateTransition {
	d := s.descs[t]
	if d == nil {
		// of no type anybody knows
		return dynTrans{dynamicpb.NewMessage(s.anyTrans()), &meta.APIDefinition{Group: "nowhere", Kind: "Unknown", ApiType: meta.APIType_StateTransition}}
	}
	m := dynamicpb.NewMessage(d)
	m.Set(d.Fields().ByNumber(1), protoreflect.ValueOfInt64(int64(script)))
	m.Set(d.Fields().ByNumber(2), protoreflect.ValueOfInt64(int64(bad)))
	return dynTrans{m, s.def(t)}
}

func (s *rtSim) anyTrans() protoreflect.MessageDescriptor {
	for _, t := range sortedKeys(s.kind) {
		if s.kind[t].Kind == "st" {
			return s.descs[t]
		}
	}
	return (&rbacv1.MsgBindRole{}).ProtoReflect().Descriptor()
}

// ---- the modules as seen by the runtime ----

type rtModule struct {
	s   *rtSim
	cfg RTMod
	c   module.Client
}

// spy remembers what a module declares.
type spy struct {
	s *rtSim
	m module.Module
}

func (y spy) Initialize(c module.Client) module.Descriptor {
	d := y.m.Initialize(c)
	y.s.decl = append(y.s.decl, &d)
	return d
}

func (m *rtModule) Initialize(c module.Client) module.Descriptor {
	s := m.s
	m.c = c
	b := module.NewDescriptorBuilder().Named(m.cfg.Name)
	for _, t := range m.cfg.Objs {
		b.OwnsStateObject(s.object(t, "", ""), &coreschema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"val"}})
	}
	for _, t := range m.cfg.Sts {
		t := t
		b.HandlesStateTransition(s.transition(t, 0, 0), statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (resp statetransition.ExecutionResponse, err error) {
			d := req.Transition.(dynTrans)
			return resp, m.run(t, int(d.Get(d.Descriptor().Fields().ByNumber(1)).Int()))
		}))
	}
	for _, h := range m.cfg.Adm {
		h := h
		b.HandlesAdmission(s.anyTransition(h.T), statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
			d, ok := req.Transition.(dynTrans)
			if ok && int(d.Get(d.Descriptor().Fields().ByNumber(2)).Int()) == h.N {
				return fmt.Errorf("refused by module %s", m.cfg.Name)
			}
			return nil
		}))
	}
	for _, h := range m.cfg.Post {
		h := h
		b.WithPostStateTransitionHandler(s.anyTransition(h.T), statetransition.PostExecutionHandlerFunc(func(req statetransition.PostExecutionRequest) error {
			return m.run("post "+h.T, h.N)
		}))
	}
	for _, t := range m.cfg.Needs {
		b.NeedsStateTransition(s.anyTransition(t))
	}
	if m.cfg.Auth != 0 {
		b.WithAuthAdmissionHandler(rtAuth{m})
	}
	for _, n := range m.cfg.PostAuth {
		b.WithPostAuthenticationHandler(rtPostAuth{m, n})
	}
	if m.cfg.Genesis != nil {
		b.WithGenesis(rtGenesis{m})
	}
	for _, v := range m.cfg.Svcs {
		svc := &rtService{s: s, cfg: v, mod: m.cfg.Name}
		s.svcs = append(s.svcs, svc)
		b.WithExtensionService(svc)
	}
	d := b.Build()
	for _, h := range m.cfg.Pre {
		h := h
		// the builder does not offer these
		d.StateTransitionPreExecHandlers = append(d.StateTransitionPreExecHandlers, struct {
			StateTransition meta.StateTransition
			Handler         statetransition.PreExecutionHandler
		}{s.anyTransition(h.T), statetransition.PreExecutionHandlerFunc(func(req statetransition.PreExecutionRequest) error {
			return m.run("pre "+h.T, h.N)
		})})
	}
	return d
}

func (s *rtSim) anyTransition(t string) meta.StateTransition {
	switch t {
	case tCreateRole:
		return &rbacv1.MsgCreateRole{}
	case tBindRole:
		return &rbacv1.MsgBindRole{}
	}
	return s.transition(t, 0, 0)
}

type rtGenesis struct{ m *rtModule }

func (g rtGenesis) Default() error {
	for _, n := range g.m.cfg.Genesis {
		if err := g.m.run("genesis", n); err != nil {
			return err
		}
	}
	return nil
}
func (g rtGenesis) Import(json.RawMessage) error     { return nil }
func (g rtGenesis) Export() (json.RawMessage, error) { return nil, nil }

type rtAuth struct{ m *rtModule }

func (a rtAuth) Validate(tx authentication.Tx) error {
	if tx.Raw().(*rtTx).mark == a.m.cfg.Auth {
		return fmt.Errorf("refused by module %s", a.m.cfg.Name)
	}
	return nil
}

type rtPostAuth struct {
	m *rtModule
	n int
}

func (p rtPostAuth) Exec(authentication.PostAuthenticationRequest) (r authentication.PostAuthenticationResponse, err error) {
	return r, p.m.run("postauth", p.n)
}

// run executes a script.
func (m *rtModule) run(why string, n int) error {
	s := m.s
	s.real = append(s.real, m.cfg.Name+" "+why)
	if n < 0 || n >= len(s.cfg.Scripts) {
		return nil
	}
	for i, a := range s.cfg.Scripts[n] {
		var err error
		switch a.Op {
		case "c":
			err = m.c.Create(s.object(a.T, a.K, a.V))
		case "u":
			err = m.c.Update(s.object(a.T, a.K, a.V))
		case "d":
			err = m.c.Delete(s.object(a.T, a.K, ""))
		case "t":
			if a.As == nil {
				err = m.c.Deliver(s.trans(&a))
			} else {
				err = m.c.Deliver(s.trans(&a), client.DeliverImpersonating(a.As...))
			}
		case "fail":
			err = fmt.Errorf("simulated failure")
		}
		s.real = append(s.real, fmt.Sprintf("%s %s %d.%d %s %v", m.cfg.Name, why, n, i, a.Op, err == nil))
		if err != nil && a.Must {
			return err
		}
	}
	return nil
}

func (s *rtSim) trans(a *RTAct) meta.StateTransition {
	switch a.T {
	case tBindRole:
		return &rbacv1.MsgBindRole{RoleId: a.V, Subject: a.K}
	}
	return s.transition(a.T, a.S, a.Bad)
}

// ---- services ----

type rtService struct {
	s             *rtSim
	cfg           RTSvc
	mod           string
	c             client.Client
	starts, stops int
	quiet         bool // only counts
}

func (v *rtService) Name() string              { return v.cfg.Name }
func (v *rtService) SetClient(c client.Client) { v.c = c }
func (v *rtService) id() string                { return v.mod + "/" + v.cfg.Name }

func (v *rtService) Start() error {
	v.starts++
	if v.cfg.FailStart {
		return fmt.Errorf("start of %s fails", v.id())
	}
	if v.quiet {
		return nil
	}
	if v.c == nil {
		v.s.c.Violate("P18", "service without client", "%s was started without a client", v.id())
		return nil
	}
	v.look("start")
	return nil
}

func (v *rtService) Stop() error {
	v.stops++
	if v.cfg.FailStop {
		return fmt.Errorf("stop of %s fails", v.id())
	}
	return nil
}

// look: a service reads everything and tries to write.
func (v *rtService) look(when string) {
	s := v.s
	c := s.c
	c.Hit("services: looked")
	if err := v.c.Get(meta.SingletonID, new(runtimev1.ModuleDescriptors)); err != nil {
		c.Violate("P18", "service before genesis", "%s of %s: the module registry is not there: %s", when, v.id(), err)
	}
	for _, t := range s.types("so") {
		for _, k := range s.cfg.Keys {
			want, ok := s.st.Objs[t+"|"+k]
			o := s.object(t, "", "")
			err := v.c.Get(meta.NewStringID(k), o)
			if ok != (err == nil) || (ok && canon(o.Message) != canon(s.object(t, k, want).Message)) {
				c.Violate("P18", "service reads", "%s of %s: %s %q exists: %v, %v", when, v.id(), t, k, ok, err)
			}
		}
		n := 0
		it, err := v.c.List(s.object(t, "", ""), client.ListMatchFieldString("val", "v0"))
		if err == nil {
			for ; it.Valid() && n < 1000; it.Next() {
				n++
			}
			it.Close()
		}
		want := 0
		for k, val := range s.st.Objs {
			if strings.HasPrefix(k, t+"|") && val == "v0" {
				want++
			}
		}
		if n != want || (err != nil && !errors.Is(err, orm.ErrNotFound)) {
			c.Violate("P18", "service reads", "%s of %s: %d objects %s are listed instead of %d: %v", when, v.id(), n, t, want, err)
		}
	}
	before := s.dump()
	var bad []string
	try := func(what string, err error) {
		if err == nil {
			bad = append(bad, what)
		}
	}
	for _, t := range s.types("so") {
		for _, k := range []string{s.cfg.Keys[0], "svc"} {
			try("create", v.c.Create(s.object(t, k, "service")))
			try("update", v.c.Update(s.object(t, k, "service")))
			try("update", v.c.Update(s.object(t, k, "service"), client.UpdateCreateIfNotExists()))
			try("delete", v.c.Delete(s.object(t, k, "")))
		}
	}
	for _, t := range s.types("st") {
		try("deliver", v.c.Deliver(s.transition(t, 0, 0)))
		for _, d := range s.decl {
			try("deliver", v.c.Deliver(s.transition(t, 0, 0), client.DeliverImpersonating(d.Name)))
		}
	}
	try("deliver", v.c.Deliver(&rbacv1.MsgBindRole{RoleId: "external_account", Subject: "service"}, client.DeliverImpersonating("rbac")))
	if len(bad) > 0 {
		c.Violate("P18", "service writes", "%s of %s: %v", when, v.id(), bad)
	}
	if d := firstDiff(before, s.dump()); d != "" {
		c.Violate("P18", "service writes", "%s of %s: %s", when, v.id(), d)
	}
}

func (s *rtSim) types(kind string) []string {
	var out []string
	for _, m := range s.cfg.Mods {
		l := m.Objs
		if kind == "st" {
			l = m.Sts
		}
		out = append(out, l...)
	}
	sort.Strings(out)
	return out
}

func (s *rtSim) dump() map[string]string {
	out := map[string]string{}
	s.ctl.inSim++
	for _, x := range s.ctl.stores {
		x.dump(out)
	}
	s.ctl.inSim--
	return out
}

// ---- transactions ----

type rtTx struct {
	s     *rtSim
	users []string
	mark  int
	acts  []RTAct
	raw   []byte
}

func (t *rtTx) StateTransitions() []meta.StateTransition {
	var out []meta.StateTransition
	for i := range t.acts {
		out = append(out, t.s.trans(&t.acts[i]))
	}
	return out
}
func (t *rtTx) Users() user.Users { return user.NewUsersFromString(t.users...) }
func (t *rtTx) Fee() []*coin.Coin { return nil }
func (t *rtTx) Payer() string     { return "" }
func (t *rtTx) Raw() interface{}  { return t }
func (t *rtTx) RawBytes() []byte  { return t.raw }

func (s *rtSim) DecodeTx(b []byte) (authentication.Tx, error) {
	n, err := strconv.Atoi(string(b))
	if err != nil || n < 0 || n >= len(s.txs) {
		return nil, fmt.Errorf("not a transaction")
	}
	return s.txs[n], nil
}

// ---- the model ----

func (s *rtSim) allowed(users []string, verb, t string) bool {
	if !s.enabled || !s.authz {
		return true
	}
	ok := false
	for _, u := range users {
		id, bound := s.st.Binds[u]
		r, exists := s.st.Roles[id]
		if !bound || !exists {
			return false
		}
		if contains(r[verb], t) {
			ok = true
		}
	}
	return ok
}

func union(a, b []string) []string {
	out := append([]string{}, a...)
	for _, x := range b {
		if !contains(out, x) {
			out = append(out, x)
		}
	}
	return out
}

func (s *rtSim) mObj(users []string, op, t, k, v string) string {
	verb := map[string]string{"c": "create", "u": "update", "d": "delete"}[op]
	if !s.allowed(users, verb, t) {
		return "unauthorized"
	}
	key := t + "|" + k
	_, exists := s.st.Objs[key]
	switch {
	case k == "":
		return "fail"
	case op == "c" && exists, op != "c" && !exists:
		return "fail"
	case op == "d":
		delete(s.st.Objs, key)
	default:
		s.st.Objs[key] = v
	}
	return ""
}

func (s *rtSim) mRun(mod, why string, n int) string {
	s.expect(mod+" "+why, false)
	if n < 0 || n >= len(s.cfg.Scripts) {
		return ""
	}
	for i, a := range s.cfg.Scripts[n] {
		r := ""
		switch a.Op {
		case "c", "u", "d":
			r = s.mObj([]string{mod}, a.Op, a.T, a.K, a.V)
		case "t":
			r = s.mDeliver(union([]string{mod}, a.As), &a, false)
		case "fail":
			r = "fail"
		}
		s.expect(fmt.Sprintf("%s %s %d.%d %s %v", mod, why, n, i, a.Op, r == ""), r == "unauthorized")
		if r != "" && a.Must {
			return r
		}
	}
	return ""
}

func (s *rtSim) expect(what string, unauthorized bool) {
	s.pred = append(s.pred, what)
	s.predU = append(s.predU, unauthorized)
}

func (s *rtSim) owner(t string) string {
	if t == tBindRole || t == tCreateRole {
		if s.authz {
			return "rbac"
		}
		return ""
	}
	for _, m := range s.cfg.Mods {
		if contains(m.Sts, t) {
			return m.Name
		}
	}
	return ""
}

func (s *rtSim) mAdmission(a *RTAct) string {
	if s.owner(a.T) == "" {
		return "fail"
	}
	switch a.T {
	case tBindRole:
		if _, ok := s.st.Roles[a.V]; !ok {
			return "fail"
		}
		return ""
	}
	for _, m := range s.cfg.Mods {
		for _, h := range m.Adm {
			if h.T == a.T && h.N == a.Bad {
				return "fail"
			}
		}
	}
	return ""
}

func (s *rtSim) mPost(t string) string {
	for _, m := range s.cfg.Mods {
		for _, h := range m.Post {
			if h.T == t {
				if r := s.mRun(m.Name, "post "+t, h.N); r != "" {
					return r
				}
			}
		}
	}
	return ""
}

func (s *rtSim) mPre(t string) string {
	for _, m := range s.cfg.Mods {
		for _, h := range m.Pre {
			if h.T == t {
				if r := s.mRun(m.Name, "pre "+t, h.N); r != "" {
					return r
				}
			}
		}
	}
	return ""
}

func (s *rtSim) mDeliver(users []string, a *RTAct, skip bool) string {
	if !skip {
		if r := s.mAdmission(a); r != "" {
			// whichever comes first
			if !s.allowed(users, "deliver", a.T) {
				return "unauthorized"
			}
			return r
		}
	}
	if !s.allowed(users, "deliver", a.T) {
		return "unauthorized"
	}
	if s.owner(a.T) == "" {
		return "fail"
	}
	if r := s.mPre(a.T); r != "" {
		return r
	}
	switch a.T {
	case tBindRole:
		if r := s.mBind([]string{"rbac"}, a.K, a.V); r != "" {
			return r
		}
	default:
		if r := s.mRun(s.owner(a.T), a.T, a.S); r != "" {
			return r
		}
	}
	return s.mPost(a.T)
}

func (s *rtSim) mBind(users []string, subject, role string) string {
	if !s.allowed(users, "create", tBinding) {
		return "unauthorized"
	}
	if _, ok := s.st.Binds[subject]; ok || subject == "" {
		return "fail"
	}
	s.st.Binds[subject] = role
	return ""
}

func (s *rtSim) mCreateRole(users []string, id string, r mRole, known map[string]string) string {
	bad := id == ""
	_, exists := s.st.Roles[id]
	bad = bad || exists
	for _, v := range verbNames {
		for _, t := range r[v] {
			want := "so"
			if v == "deliver" {
				want = "st"
			}
			bad = bad || known[t] != want
		}
	}
	if !s.allowed(users, "deliver", tCreateRole) || !s.allowed([]string{"rbac"}, "create", tRole) {
		return "unauthorized"
	}
	if bad {
		return "fail"
	}
	s.st.Roles[id] = r
	return s.mPost(tCreateRole)
}

// known are the resources of all modules.
func (s *rtSim) known() map[string]string {
	out := map[string]string{}
	for _, d := range s.decl {
		for _, o := range d.StateObjects {
			out[meta.Name(o.StateObject)] = "so"
		}
		for _, t := range d.StateTransitionExecutionHandlers {
			out[meta.Name(t.StateTransition)] = "st"
		}
	}
	return out
}

// declaredRoles are the roles genesis has to create for these modules, and the external one.
func declaredRoles(decl []*module.Descriptor) (map[string]mRole, map[string]string) {
	roles, binds := map[string]mRole{}, map[string]string{}
	ext := mRole{}
	for _, d := range decl {
		r := mRole{}
		for _, o := range d.StateObjects {
			for _, v := range verbNames[:5] {
				r[v] = append(r[v], meta.Name(o.StateObject))
			}
		}
		for _, t := range d.StateTransitionExecutionHandlers {
			r["deliver"] = append(r["deliver"], meta.Name(t.StateTransition))
			o := t.StateTransition.ProtoReflect().Descriptor().Options()
			if a, ok := proto.GetExtension(o, xt.E_StateTransitionAcl).(*xt.StateTransitionAccessControl); ok && a.GetExternal() {
				ext["deliver"] = append(ext["deliver"], meta.Name(t.StateTransition))
			}
		}
		for _, t := range d.Needs {
			r["deliver"] = append(r["deliver"], meta.Name(t))
		}
		roles[d.Name+"-role"] = r
		binds[d.Name] = d.Name + "-role"
	}
	roles[rbacv1.ExternalAccountRoleID] = ext
	return roles, binds
}

// declaredRegistry is what the module registry has to say.
func declaredRegistry(decl []*module.Descriptor) []string {
	var out []string
	for _, d := range decl {
		var l []string
		for _, o := range d.StateObjects {
			l = append(l, "object "+canon(o.StateObject.APIDefinition())+" "+canon(o.SchemaDefinition)+" "+string(o.StateObject.ProtoReflect().Descriptor().FullName()))
		}
		for _, t := range d.StateTransitionExecutionHandlers {
			l = append(l, "transition "+canon(t.StateTransition.APIDefinition())+" "+string(t.StateTransition.ProtoReflect().Descriptor().FullName()))
		}
		for _, t := range d.Needs {
			l = append(l, "needs "+canon(t.APIDefinition()))
		}
		sort.Strings(l)
		out = append(out, d.Name+": "+strings.Join(l, "; "))
	}
	sort.Strings(out)
	return out
}

func storedRegistry(m *runtimev1.ModuleDescriptors) []string {
	var out []string
	for _, d := range m.Modules {
		var l []string
		for _, o := range d.StateObjects {
			l = append(l, "object "+canon(o.ApiDefinition)+" "+canon(o.SchemaDefinition)+" "+o.ProtobufFullname)
		}
		for _, t := range d.StateTransitions {
			l = append(l, "transition "+canon(t.ApiDefinition)+" "+t.ProtobufFullname)
		}
		for _, t := range d.RequiredResources {
			l = append(l, "needs "+canon(t.Resource))
		}
		sort.Strings(l)
		out = append(out, d.Name+": "+strings.Join(l, "; "))
	}
	sort.Strings(out)
	return out
}

type getter interface {
	Get(id meta.ID, object meta.StateObject) error
}

// checkGenesis compares registry, roles and bindings with what the modules declared.
func checkGenesis(c *Ctx, g getter, decl []*module.Descriptor, rbac bool) {
	md := new(runtimev1.ModuleDescriptors)
	if err := g.Get(meta.SingletonID, md); err != nil {
		c.Violate("P18", "registry", "the module registry is not readable: %s", err)
		return
	}
	have, want := storedRegistry(md), declaredRegistry(decl)
	if d := diffLists(have, want); d != "" {
		c.Violate("P18", "registry", "%s", d)
	}
	c.Hit("geneses compared with what was declared")
	if !rbac {
		return
	}
	roles, binds := declaredRoles(decl)
	for _, id := range sortedKeys(roles) {
		r := new(rbacv1.Role)
		if err := g.Get(meta.NewStringID(id), r); err != nil {
			c.Violate("P18", "role", "role %s: %s", id, err)
			continue
		}
		if a, b := roleFrom(r).String(), roles[id].String(); a != b {
			c.Violate("P18", "role", "role %s grants %s instead of %s", id, a, b)
			// this decides who may do what
			c.Violate("P08", "role", "role %s grants %s instead of %s", id, a, b)
		}
	}
	for _, n := range sortedKeys(binds) {
		b := new(rbacv1.RoleBinding)
		if err := g.Get(meta.NewStringID(n), b); err != nil || b.RoleRef != binds[n] {
			c.Violate("P18", "module not bound", "module %s is bound to %q instead of %q (%v)", n, b.RoleRef, binds[n], err)
		}
	}
}

func diffLists(have, want []string) string {
	for i := 0; i < len(have) || i < len(want); i++ {
		a, b := "nothing", "nothing"
		if i < len(have) {
			a = have[i]
		}
		if i < len(want) {
			b = want[i]
		}
		if a != b {
			return clip(a, 500) + " instead of " + clip(b, 500)
		}
	}
	return ""
}

// ---- running ----

func runRT(p *Plan, c *Ctx) {
	s := &rtSim{c: c, cfg: p.Cfg.RT, ctl: &kvCtl{budget: 1 << 40}, kind: map[string]RTMsg{}, st: (&mState{}).clone(), mods: map[string]*rtModule{}, gensBy: map[string]int{}}
	defer func() {
		for _, x := range s.ctl.stores {
			x.close()
		}
	}()
	var err error
	if s.descs, err = buildFiles(s.cfg.Files); err != nil {
		panic("types: " + err.Error())
	}
	for _, f := range s.cfg.Files {
		for _, m := range f.Msgs {
			s.kind[f.Pkg+"."+m.Name] = m
		}
	}
	for _, m := range s.cfg.Mods {
		s.authz = s.authz || m.Name == "rbac"
	}
	if !s.boot() {
		return
	}
	for i := range p.Ops {
		c.Step = i
		s.op(&p.Ops[i])
		if len(c.Viol) > 0 {
			// from here on the model says nothing any more
			return
		}
	}
	c.Step = len(p.Ops)
	s.groups()
}

func (s *rtSim) boot() bool {
	c := s.c
	// what is wrong with the modules
	wrong, svcFails := "", false
	owners := map[string]int{}
	names := map[string]int{"system:runtime": 1, "system:abci": 1}
	for _, m := range s.cfg.Mods {
		names[m.Name]++
		if names[m.Name] > 1 {
			wrong = "two modules of the same name"
		}
		for _, t := range append(append([]string{}, m.Sts...), m.Objs...) {
			if owners[t]++; owners[t] > 1 {
				wrong = "two modules own " + t
			}
		}
		for _, t := range m.Sts {
			if s.kind[t].None && s.authz {
				wrong = "transition without access control"
			}
		}
		for _, t := range m.Needs {
			if s.owner(t) == "" {
				wrong = "needs a transition nobody handles"
			}
		}
		for _, v := range m.Svcs {
			svcFails = svcFails || v.FailStart
		}
	}
	var berr error
	o := guard(func() {
		berr = withKV(s.ctl, func() error {
			b := tmrt.NewBuilder()
			for _, m := range s.cfg.Mods {
				if m.Name == "rbac" {
					b.AddModule(spy{s, rbac.NewModule()})
					continue
				}
				x := &rtModule{s: s, cfg: m}
				s.mods[m.Name] = x
				b.AddModule(spy{s, x})
			}
			b.SetDecoder(s)
			rt, err := b.Build()
			if err != nil {
				return err
			}
			s.rt = rt
			s.app = tmrt.NewABCIApplication(rt)
			return nil
		})
	})
	s.decl = append(builtin(), s.decl...)
	if berr != nil || !o.ok() {
		if wrong == "" {
			c.Violate("P18", "node can not be built", "%v %s", berr, o)
		}
		c.Hit("geneses refused")
		return false
	}
	// genesis according to the model
	roles, binds := declaredRoles(s.decl)
	gen := ""
	if s.authz {
		s.st.Roles = roles
		s.st.Binds = binds
	}
	for _, m := range s.cfg.Mods {
		for _, n := range m.Genesis {
			if gen == "" {
				gen = s.mRun(m.Name, "genesis", n)
			}
		}
	}
	s.inGen = true
	o = guard(func() { s.app.InitChain(types.RequestInitChain{ChainId: "sim"}) })
	s.inGen = false
	s.c.Log("genesis %v %q %q %v", o.ok(), wrong, gen, svcFails)
	if o.Hung || o.Livelock {
		c.Violate("P18", "genesis hangs", "%s", o)
		return false
	}
	if wrong != "" || gen != "" || svcFails {
		c.Hit("geneses refused")
		if o.ok() && (gen != "" || svcFails) {
			c.Violate("P18", "failure of genesis not reported", "module fails: %v, service fails: %v", gen != "", svcFails)
		}
		for _, v := range s.svcs {
			if v.starts > 1 || (v.starts > 0 && gen != "") {
				c.Violate("P18", "service starts", "%s was started %d times, genesis fails: %v", v.id(), v.starts, gen != "")
			}
		}
		if o.ok() && wrong == "transition without access control" {
			// must not be open to everybody
			r := new(rbacv1.Role)
			if err := s.rt.Get(meta.NewStringID(rbacv1.ExternalAccountRoleID), r); err == nil {
				for _, t := range r.Delivers {
					if s.kind[t].None {
						c.Violate("P08", "transition open to everybody", "%s does not declare to be external", t)
					}
				}
			}
		}
		return false
	}
	if !o.ok() {
		c.Violate("P18", "genesis fails", "%s", o)
		return false
	}
	s.enabled = true
	for _, v := range s.svcs {
		if v.starts != 1 {
			c.Violate("P18", "service starts", "%s was started %d times", v.id(), v.starts)
		}
	}
	checkGenesis(c, s.rt, s.decl, s.authz)
	s.compareLog("genesis", "P18")
	s.other = s.rawObjects() - s.st.size()
	s.compare("genesis", "P18")
	return true
}

// builtin are the modules every application has.
func builtin() []*module.Descriptor {
	a, b := runtimeModule(), abciModule()
	return []*module.Descriptor{&a, &b}
}

func (s *rtSim) rawObjects() int {
	n := 0
	for k := range s.dump() {
		if strings.HasPrefix(k, "objects|") {
			n++
		}
	}
	return n
}

// compareLog compares what modules did with what they were expected to do.
func (s *rtSim) compareLog(what, prop string) bool {
	real, pred, predU := s.real, s.pred, s.predU
	s.real, s.pred, s.predU = nil, nil, nil
	for i := 0; i < len(real) || i < len(pred); i++ {
		a, b, u := "nothing", "nothing", false
		if i < len(real) {
			a = real[i]
		}
		if i < len(pred) {
			b, u = pred[i], predU[i]
		}
		if a != b {
			p, k := prop, "modules"
			if u {
				p, k = "P08", "access"
			}
			s.c.Violate(p, k, "%s: %s instead of %s", what, a, b)
			return false
		}
	}
	s.c.HitN("access decisions: of modules", int64(len(pred)))
	return true
}

// compare compares the state with the model.
func (s *rtSim) compare(what, prop string) bool {
	d := firstDiff(s.st.render(), s.state().render())
	if d != "" {
		s.c.Violate(prop, "state", "%s: %s", what, d)
		return false
	}
	if n := s.rawObjects() - s.other; n != s.st.size() {
		s.c.Violate(prop, "state", "%s: %d objects instead of %d", what, n, s.st.size())
		return false
	}
	return true
}

func (s *rtSim) state() *mState {
	out := (&mState{}).clone()
	s.ctl.inSim++
	defer func() { s.ctl.inSim-- }()
	for _, t := range s.types("so") {
		for _, k := range s.cfg.Keys {
			o := s.object(t, "", "")
			if err := s.rt.Get(meta.NewStringID(k), o); err == nil {
				out.Objs[t+"|"+k] = o.Get(o.Descriptor().Fields().ByNumber(2)).String()
			}
		}
	}
	if !s.authz {
		return out
	}
	for _, id := range s.roleIDs() {
		r := new(rbacv1.Role)
		if err := s.rt.Get(meta.NewStringID(id), r); err == nil {
			out.Roles[id] = roleFrom(r)
		}
	}
	for _, n := range s.subjects() {
		b := new(rbacv1.RoleBinding)
		if err := s.rt.Get(meta.NewStringID(n), b); err == nil {
			out.Binds[n] = b.RoleRef
		}
	}
	return out
}

func (s *rtSim) roleIDs() []string {
	out := append([]string{}, s.ids...)
	for _, d := range s.decl {
		out = append(out, d.Name+"-role")
	}
	return append(out, rbacv1.ExternalAccountRoleID)
}

func (s *rtSim) subjects() []string {
	out := append([]string{}, s.subs...)
	for _, d := range s.decl {
		out = append(out, d.Name)
	}
	for _, sc := range s.cfg.Scripts {
		for _, a := range sc {
			if a.T == tBindRole {
				out = append(out, a.K)
			}
		}
	}
	return out
}

func parseRole(l []string) mRole {
	r := mRole{}
	for _, e := range l {
		i := strings.IndexByte(e, ':')
		r[e[:i]] = append(r[e[:i]], e[i+1:])
	}
	return r
}

func actsOf(l []string) []RTAct {
	var out []RTAct
	for _, e := range l {
		var a RTAct
		if err := json.Unmarshal([]byte(e), &a); err == nil {
			out = append(out, a)
		}
	}
	return out
}

// users of an operation: separated by commas
func splitUsers(e string) []string {
	if e == "" {
		return nil
	}
	return strings.Split(e, ",")
}

func (s *rtSim) op(op *Op) {
	c := s.c
	before := s.st.clone()
	bd := s.dump()
	starts := s.starts()
	users := splitUsers(op.S)
	us := user.NewUsersFromString(users...)
	var err error
	want := ""
	prop := "P11"
	what := op.K
	var o outcome
	atomic, skip := false, false
	var access []string // verb and resource which are accessed
	switch op.K {
	case "obj":
		if s.descs[op.L[0]] == nil {
			return
		}
		what = fmt.Sprintf("%s %s %q by %q", op.T, op.L[0], op.L[1], users)
		want = s.mObj(users, op.T, op.L[0], op.L[1], op.L[2])
		atomic = true
		x := s.object(op.L[0], op.L[1], op.L[2])
		o = guard(func() {
			switch op.T {
			case "c":
				err = s.rt.Create(us, x)
			case "u":
				err = s.rt.Update(us, x)
			case "d":
				err = s.rt.Delete(us, x)
			}
		})
		access = []string{op.T, op.L[0]}
	case "deliver":
		a := actsOf(op.L)
		if len(a) == 0 {
			return
		}
		what = fmt.Sprintf("deliver %s by %q", a[0].T, users)
		s.subject(a)
		want = s.mDeliver(users, &a[0], op.N == 1)
		prop = "P09"
		o = guard(func() {
			if op.N == 1 {
				err = s.rt.Deliver(us, s.trans(&a[0]), tmrt.DeliverSkipAdmissionHandlers())
			} else {
				err = s.rt.Deliver(us, s.trans(&a[0]))
			}
		})
		access = []string{"deliver", a[0].T}
	case "createrole":
		if !s.authz {
			return
		}
		r := parseRole(op.L)
		what = fmt.Sprintf("create role %q by %q", op.T, users)
		s.ids = append(s.ids, op.T)
		want = s.mCreateRole(users, op.T, r, s.known())
		prop = "P08"
		o = guard(func() { err = s.rt.Deliver(us, &rbacv1.MsgCreateRole{NewRole: roleOf(op.T, r)}) })
		access = []string{"deliver", tCreateRole}
	case "role":
		// roles are objects as well
		if !s.authz {
			return
		}
		r := parseRole(op.L)
		verb := map[int64]string{0: "create", 1: "update", 2: "delete"}[op.N]
		what = fmt.Sprintf("%s role %q by %q", verb, op.T, users)
		s.ids = append(s.ids, op.T)
		_, exists := s.st.Roles[op.T]
		switch {
		case !s.allowed(users, verb, tRole):
			want = "unauthorized"
		case op.T == "" || exists == (op.N == 0):
			want = "fail"
		case op.N == 2:
			delete(s.st.Roles, op.T)
		default:
			s.st.Roles[op.T] = r
		}
		atomic = true
		o = guard(func() {
			switch op.N {
			case 0:
				err = s.rt.Create(us, roleOf(op.T, r))
			case 1:
				err = s.rt.Update(us, roleOf(op.T, r))
			case 2:
				err = s.rt.Delete(us, &rbacv1.Role{Id: op.T})
			}
		})
		access = []string{verb, tRole}
	case "binding":
		if !s.authz {
			return
		}
		verb := map[int64]string{0: "create", 1: "update", 2: "delete"}[op.N]
		what = fmt.Sprintf("%s binding of %q by %q", verb, op.T, users)
		s.subs = append(s.subs, op.T)
		_, exists := s.st.Binds[op.T]
		switch {
		case !s.allowed(users, verb, tBinding):
			want = "unauthorized"
		case op.T == "" || exists == (op.N == 0):
			want = "fail"
		case op.N == 2:
			delete(s.st.Binds, op.T)
		default:
			s.st.Binds[op.T] = op.L[0]
		}
		atomic = true
		b := &rbacv1.RoleBinding{Subject: op.T, RoleRef: op.L[0]}
		o = guard(func() {
			switch op.N {
			case 0:
				err = s.rt.Create(us, b)
			case 1:
				err = s.rt.Update(us, b)
			case 2:
				err = s.rt.Delete(us, b)
			}
		})
		access = []string{verb, tBinding}
	case "core":
		// what belongs to the core modules
		x := []meta.APIObject{&abciv1.MsgSetValidatorUpdates{}, &abciv1.MsgSetInitChain{InitChainInfo: &abciv1.InitChainInfo{ChainId: "evil"}}, &runtimev1.CreateModuleDescriptors{},
			&abciv1.Stage{}, &abciv1.CurrentBlock{BlockNumber: 77}, &runtimev1.ModuleDescriptors{}, &rbacv1.Params{}}[int(op.N)%7]
		verb := op.T
		if _, ok := x.(meta.StateTransition); ok {
			verb = "deliver"
		}
		if s.allowed(users, verb, meta.Name(x)) {
			return
		}
		want = "unauthorized"
		what = fmt.Sprintf("%s %s by %q", verb, meta.Name(x), users)
		atomic = true
		o = guard(func() {
			switch verb {
			case "deliver":
				err = s.rt.Deliver(us, x.(meta.StateTransition))
			case "create":
				err = s.rt.Create(us, x.(meta.StateObject))
			case "update":
				err = s.rt.Update(us, x.(meta.StateObject))
			case "delete":
				err = s.rt.Delete(us, x.(meta.StateObject))
			}
		})
		access = []string{verb, meta.Name(x)}
	case "tx":
		s.tx(op, users)
		return
	case "begin", "end":
		s.block(op)
		return
	case "svc":
		for _, v := range s.svcs {
			v.look("look")
		}
		skip = true
	case "regenesis":
		o = guard(func() { err = s.rt.InitGenesis() })
		if o.ok() && err == nil {
			c.Violate("P18", "genesis done twice", "a second genesis succeeds")
		}
		if n := s.starts(); n != starts {
			c.Violate("P18", "service starts", "a second genesis starts services: %d", n-starts)
		}
		if d := firstDiff(bd, s.dump()); d != "" {
			c.Violate("P18", "genesis done twice", "%s", d)
		}
		skip = true
	default:
		return
	}
	c.Log("%s -> %v %v", what, err == nil, o)
	if !o.ok() {
		c.Violate("P08", "runtime does not survive", "%s: %s", what, o)
		return
	}
	if skip {
		return
	}
	c.Hit("access decisions: " + map[bool]string{true: "refused", false: "allowed"}[want == "unauthorized"])
	switch {
	case want == "unauthorized" && err == nil:
		c.Violate("P08", "allowed what no role permits", "%s (%v)", what, access)
		return
	case want != "unauthorized" && err != nil && errors.Is(err, rterrors.ErrUnauthorized) && want == "":
		c.Violate("P08", "refused what the roles permit", "%s: %s", what, clip(err.Error(), 200))
		return
	case (want == "") != (err == nil):
		c.Violate(prop, "outcome", "%s succeeds: %v, expected: %v (%v)", what, err == nil, want == "", err)
		return
	}
	if err != nil && (atomic || want == "unauthorized") && len(s.pred) == 0 {
		// nothing was executed at all
		if d := firstDiff(bd, s.dump()); d != "" {
			p := prop
			if want == "unauthorized" {
				p = "P08"
			}
			c.Violate(p, "refused operation changed something", "%s: %s", what, d)
			return
		}
	}
	if !s.compareLog(what, prop) {
		return
	}
	if err != nil && !atomic {
		// a transition which is not part of a transaction: either nothing of it or what was
		// done until it failed
		if firstDiff(before.render(), s.state().render()) == "" {
			s.st = before
		}
	}
	s.compare(what, prop)
	c.State("rt", op.K, want, fmt.Sprint(len(users), len(access)), fmt.Sprint(s.st.size()))
}

func (s *rtSim) starts() int {
	n := 0
	for _, v := range s.svcs {
		n += v.starts
	}
	return n
}

// subject remembers whom transitions bind.
func (s *rtSim) subject(l []RTAct) {
	for _, a := range l {
		if a.T == tBindRole {
			s.subs = append(s.subs, a.K)
		}
	}
}

func (s *rtSim) tx(op *Op, users []string) {
	c := s.c
	t := &rtTx{s: s, users: users, mark: int(op.N), acts: actsOf(op.L), raw: []byte(strconv.Itoa(len(s.txs)))}
	s.txs = append(s.txs, t)
	s.subject(t.acts)
	if op.M == 1 {
		t.raw = []byte("nonsense")
	}
	before := s.st.clone()
	bd := s.dump()
	// admission
	admit := op.M != 1
	for _, m := range s.cfg.Mods {
		admit = admit && (m.Auth == 0 || m.Auth != t.mark)
	}
	for i := range t.acts {
		admit = admit && s.mAdmission(&t.acts[i]) == ""
	}
	what := fmt.Sprintf("transaction of %q with %d transitions", users, len(t.acts))
	if op.R == 1 {
		var resp types.ResponseCheckTx
		o := guard(func() { resp = s.app.CheckTx(types.RequestCheckTx{Tx: t.raw}) })
		c.Hit("mempool checks")
		if !o.ok() {
			c.Violate("P03", "node does not survive", "check of a %s: %s", what, o)
			return
		}
		if (resp.Code == 0) != admit {
			c.Violate("P10", "check", "check of a %s: %d %s, admission: %v", what, resp.Code, clip(resp.Log, 200), admit)
		}
		if d := firstDiff(bd, s.dump()); d != "" {
			c.Violate("P10", "check changed state", "%s: %s", what, d)
		}
		s.real, s.pred, s.predU = nil, nil, nil
	}
	class := "refused"
	if admit {
		r := ""
		for _, m := range s.cfg.Mods {
			for _, n := range m.PostAuth {
				if r == "" {
					r = s.mRun(m.Name, "postauth", n)
				}
			}
		}
		if r != "" {
			s.st = before.clone()
		} else {
			class = "success"
			mid := s.st.clone()
			for i := range t.acts {
				if r == "" {
					r = s.mDeliver(users, &t.acts[i], true)
				}
			}
			if r != "" {
				class = "failed"
				if r == "unauthorized" {
					c.Hit("access decisions: refused")
				}
				s.st = mid
			}
		}
	}
	var resp types.ResponseDeliverTx
	o := guard(func() { resp = s.app.DeliverTx(types.RequestDeliverTx{Tx: t.raw}) })
	c.Log("%s -> %d %v", what, resp.Code, o)
	c.Hit("transactions: " + class)
	if !o.ok() {
		c.Violate("P03", "node does not survive", "%s: %s", what, o)
		return
	}
	if (resp.Code == 0) != (class == "success") {
		p := "P09"
		if class == "failed" {
			p = "P08"
		}
		c.Violate(p, "outcome", "%s: code %d, expected: %s: %s", what, resp.Code, class, clip(resp.Log, 200))
		return
	}
	if class == "refused" {
		if d := firstDiff(bd, s.dump()); d != "" {
			c.Violate("P09", "refused transaction changed something", "%s: %s", what, d)
			return
		}
	}
	if !s.compareLog(what, "P09") {
		return
	}
	s.compare(what, "P09")
	c.State("rttx", class, fmt.Sprint(len(users), len(t.acts)), fmt.Sprint(s.st.size()))
}

func (s *rtSim) block(op *Op) {
	if s.authz && (!s.allowed([]string{"system:abci"}, "deliver", meta.Name(&abciv1.MsgSetBeginBlockState{})) || !s.allowed([]string{"system:abci"}, "update", meta.Name(&abciv1.Stage{}))) {
		return
	}
	o := guard(func() {
		if op.K == "begin" {
			r := types.RequestBeginBlock{}
			r.Header.Height = op.N
			s.app.BeginBlock(r)
		} else {
			s.app.EndBlock(types.RequestEndBlock{Height: op.N})
			s.app.Commit()
		}
	})
	if !o.ok() {
		s.c.Violate("P03", "node does not survive", "%s of block %d: %s", op.K, op.N, o)
		return
	}
	s.compare(op.K, "P09")
}

// groups starts and stops the services of all modules apart from the runtime.
func (s *rtSim) groups() {
	c := s.c
	g := tmrt.NewServiceOrchestrator()
	var all []*rtService
	for _, m := range s.cfg.Mods {
		var l []module.ExtensionService
		for _, v := range m.Svcs {
			x := &rtService{s: s, cfg: v, mod: m.Name, quiet: true}
			all = append(all, x)
			l = append(l, x)
		}
		g.AddServices(m.Name, l...)
	}
	var err error
	o := guard(func() { err = g.Start(orm.Store{}) })
	failing := false
	for _, v := range all {
		if v.starts > 1 || (v.starts == 0 && !failing) {
			c.Violate("P18", "service starts", "%s was started %d times", v.id(), v.starts)
		}
		failing = failing || v.cfg.FailStart
	}
	if !o.ok() || (err != nil) != failing {
		c.Violate("P18", "service starts", "a service fails: %v, the error is %v %s", failing, err, o)
		return
	}
	o = guard(func() { err = g.Stop() })
	if !o.ok() {
		c.Violate("P18", "services do not stop", "%s", o)
		return
	}
	fails := 0
	for _, v := range all {
		c.Hit("services: stopped")
		if v.stops != 1 {
			c.Violate("P18", "service stops", "%s was stopped %d times", v.id(), v.stops)
		}
		if v.cfg.FailStop {
			fails++
			c.Hit("fault: service does not stop")
			if err == nil || !strings.Contains(err.Error(), "stop of "+v.id()+" fails") {
				c.Violate("P18", "failure of a service not reported", "%s, the error is %v", v.id(), err)
			}
		}
	}
	if fails == 0 && err != nil {
		c.Violate("P18", "services stop with an error", "%v", err)
	}
}

// ---- generation ----

func genRT(r *RNG, prof *Profile) (Cfg, []Op) {
	cfg := &RTCfg{}
	nf := r.In(1, 4)
	short := []string{"Obj", "ObjA", "Msg", "MsgA", "MsgB", "Thing"}
	var sos, sts []string
	for i := 0; i < nf; i++ {
		f := RTFile{Pkg: pick(r, []string{"sim.a", "sim.b", "sim", "sim.a.v1"}) + fmt.Sprint(i)}
		for j := 0; j < i; j++ {
			if r.P(1, 2) {
				f.Imports = append(f.Imports, j)
			}
		}
		seen := map[string]bool{}
		for k := r.In(1, 4); k > 0; k-- {
			n := pick(r, short)
			if seen[n] {
				continue
			}
			seen[n] = true
			m := RTMsg{Name: n, Kind: "so"}
			if r.P(1, 2) {
				m.Kind = "st"
				m.Ext = r.P(1, 2)
				m.None = r.P(1, 60)
				sts = append(sts, f.Pkg+"."+n)
			} else {
				sos = append(sos, f.Pkg+"."+n)
			}
			f.Msgs = append(f.Msgs, m)
		}
		cfg.Files = append(cfg.Files, f)
	}
	cfg.Keys = []string{"k0", "k1", "k2"}
	vals := []string{"v0", "v1", ""}
	nm := r.In(1, 4)
	for i := 0; i < nm; i++ {
		cfg.Mods = append(cfg.Mods, RTMod{Name: pick(r, []string{"m", "mod", "mod-role", "rbac", "x"}) + fmt.Sprint(i)})
	}
	for _, t := range sos {
		m := &cfg.Mods[r.N(nm)]
		m.Objs = append(m.Objs, t)
	}
	var handled []string
	for _, t := range sts {
		if r.P(1, 15) {
			continue
		}
		m := &cfg.Mods[r.N(nm)]
		m.Sts = append(m.Sts, t)
		handled = append(handled, t)
	}
	with := !r.P(1, 12)
	// scripts: later ones are called by earlier ones
	ns := r.In(1, 7)
	subj := []string{"alice", "bob", "carol", "dave"}
	roleIDs := []string{"external_account", "ra", "rb", "nosuch", cfg.Mods[0].Name + "-role"}
	anyUser := func() string {
		switch r.N(5) {
		case 0, 1:
			return pick(r, cfg.Mods).Name
		case 2, 3:
			return pick(r, subj)
		}
		return pick(r, []string{"rbac", "system:abci", "system:runtime", "nobody", ""})
	}
	for i := 0; i < ns; i++ {
		var sc []RTAct
		for k := r.N(4); k > 0; k-- {
			a := RTAct{Must: r.P(1, 3)}
			switch {
			case r.P(1, 14):
				a.Op = "fail"
			case len(sos) > 0 && r.P(3, 5):
				a.Op = pick(r, []string{"c", "c", "u", "d"})
				a.T, a.K, a.V = pick(r, sos), pick(r, cfg.Keys), pick(r, vals)
			case with && r.P(1, 4):
				a.Op, a.T, a.K, a.V = "t", tBindRole, pick(r, subj), pick(r, roleIDs)
			case len(sts) > 0 && i+1 < ns:
				a.Op, a.T, a.S = "t", pick(r, sts), r.In(i+1, ns)
				if r.P(1, 5) {
					a.Bad = r.In(1, 2)
				}
			default:
				continue
			}
			if a.Op == "t" && r.P(1, 2) {
				for j := r.In(1, 2); j > 0; j-- {
					a.As = append(a.As, anyUser())
				}
			}
			sc = append(sc, a)
		}
		cfg.Scripts = append(cfg.Scripts, sc)
	}
	ngen := r.N(3)
	for i := range cfg.Mods {
		m := &cfg.Mods[i]
		if len(handled) > 0 {
			seen := map[string]bool{}
			for k := r.N(3); k > 0; k-- {
				t := pick(r, handled)
				if with && r.P(1, 4) {
					t = tBindRole
				}
				if r.P(1, 80) {
					t = pick(r, sts)
				}
				if !seen[t] && !contains(m.Sts, t) {
					m.Needs = append(m.Needs, t)
				}
				seen[t] = true
			}
			for k := r.N(2); k > 0; k-- {
				m.Adm = append(m.Adm, RTHook{pick(r, handled), r.In(1, 2)})
			}
			if r.P(1, 4) {
				// does not deliver transitions, which could go on forever
				m.Post = append(m.Post, RTHook{pick(r, handled), ns - 1})
			}
			if r.P(1, 6) {
				m.Pre = append(m.Pre, RTHook{pick(r, handled), ns - 1})
			}
		}
		if r.P(1, 5) {
			m.Auth = r.In(1, 2)
		}
		if r.P(1, 5) {
			m.PostAuth = append(m.PostAuth, r.N(ns))
		}
		if r.P(1, 3) {
			m.Genesis = []int{}
			for k := ngen; k > 0; k-- {
				m.Genesis = append(m.Genesis, r.N(ns))
			}
		}
		for k := r.N(3); k > 0; k-- {
			m.Svcs = append(m.Svcs, RTSvc{Name: pick(r, []string{"svc", "svc", "other"}), FailStart: r.P(1, 60), FailStop: r.P(1, 4)})
		}
	}
	if len(cfg.Scripts) > 0 {
		// the last script delivers nothing
		var sc []RTAct
		for _, a := range cfg.Scripts[ns-1] {
			if a.Op != "t" {
				sc = append(sc, a)
			}
		}
		cfg.Scripts[ns-1] = sc
	}
	if with {
		k := r.N(len(cfg.Mods) + 1)
		cfg.Mods = append(cfg.Mods[:k:k], append([]RTMod{{Name: "rbac"}}, cfg.Mods[k:]...)...)
	}
	if r.P(1, 50) {
		m := pick(r, cfg.Mods)
		cfg.Mods = append(cfg.Mods, RTMod{Name: m.Name})
	}
	users := func() string {
		var l []string
		for k := r.W(1, 12, 5, 2); k > 0; k-- {
			l = append(l, anyUser())
		}
		return strings.Join(l, ",")
	}
	act := func() string {
		a := RTAct{Op: "t", S: r.N(ns + 1)}
		switch {
		case len(sts) > 0 && r.P(4, 5):
			a.T = pick(r, sts)
			if r.P(1, 8) {
				a.Bad = r.In(1, 2)
			}
		case r.P(1, 10):
			a.T = "nowhere.Unknown"
		default:
			a.T, a.K, a.V = tBindRole, pick(r, append([]string{"", "rbac"}, subj...)), pick(r, roleIDs)
		}
		b, _ := json.Marshal(a)
		return string(b)
	}
	resources := append(append(append([]string{}, sos...), sts...), tRole, tBinding, tBindRole, tCreateRole, "nosuch.Thing", "tmos.abci.v1alpha1.Stage")
	grants := func() []string {
		var l []string
		for k := r.N(6); k > 0; k-- {
			v := pick(r, verbNames)
			t := pick(r, resources)
			if len(sts) > 0 && r.P(1, 2) {
				v, t = "deliver", pick(r, sts)
			} else if len(sos) > 0 && r.P(2, 3) {
				v, t = pick(r, verbNames[:5]), pick(r, sos)
			}
			l = append(l, v+":"+t)
		}
		return l
	}
	n := r.In(10, 60)
	if prof.Tier == "thorough" {
		n = r.In(10, 200)
	}
	w := []int{10, 10, 5, 3, 6, 3, 14, 1, 1, 1, 1}
	for i := range w {
		if i > 1 && r.P(1, 6) {
			w[i] = 0
		}
	}
	h := int64(0)
	admin := func() string {
		if r.P(1, 2) {
			return users()
		}
		return "rbac"
	}
	var ops []Op
	fresh := 0
	for i := 0; i < n; i++ {
		var op Op
		if with && len(sos)+len(sts) > 0 && r.P(1, 12) {
			// a role with some verbs, somebody who has it and does this and that
			who, role := pick(r, subj), pick(r, []string{"ra", "rb"})
			if r.P(1, 2) {
				fresh++
				who, role = fmt.Sprintf("user%d", fresh), fmt.Sprintf("rz%d", fresh)
			}
			var res []string
			for k := r.In(1, 2); k > 0; k-- {
				res = append(res, pick(r, append(append([]string{}, sos...), sts...)))
			}
			var l []string
			for _, t := range res {
				for _, v := range verbNames {
					if r.P(1, 3) {
						l = append(l, v+":"+t)
					}
				}
			}
			for k := int64(0); k < 2; k++ {
				ops = append(ops, Op{K: "role", S: "rbac", T: role, L: l, N: k}, Op{K: "binding", S: "rbac", T: who, L: []string{role}, N: k})
			}
			for k := r.In(2, 6); k > 0; k-- {
				t := pick(r, res)
				if contains(sts, t) {
					b, _ := json.Marshal(RTAct{Op: "t", T: t, S: r.N(ns + 1)})
					ops = append(ops, Op{K: "deliver", S: who, L: []string{string(b)}})
					continue
				}
				x := pick(r, cfg.Keys)
				for _, m := range cfg.Mods {
					if contains(m.Objs, t) && r.P(1, 2) {
						ops = append(ops, Op{K: "obj", S: m.Name, T: "c", L: []string{t, x, "v0"}})
					}
				}
				ops = append(ops, Op{K: "obj", S: who, T: pick(r, []string{"c", "u", "d"}), L: []string{t, x, pick(r, vals)}})
			}
			continue
		}
		switch r.W(w...) {
		case 0:
			if len(sos) == 0 {
				continue
			}
			op = Op{K: "obj", S: users(), T: pick(r, []string{"c", "c", "u", "d"}), L: []string{pick(r, sos), pick(r, append([]string{""}, append(cfg.Keys, cfg.Keys...)...)), pick(r, vals)}}
		case 1:
			op = Op{K: "deliver", S: users(), L: []string{act()}, N: int64(r.W(3, 1))}
		case 2:
			op = Op{K: "createrole", S: admin(), T: pick(r, append([]string{"", "rc"}, roleIDs...)), L: grants()}
		case 3:
			op = Op{K: "role", S: admin(), T: pick(r, roleIDs), L: grants(), N: int64(r.N(3))}
		case 4:
			op = Op{K: "binding", S: admin(), T: pick(r, append([]string{cfg.Mods[0].Name}, subj...)), L: []string{pick(r, roleIDs)}, N: int64(r.W(4, 2, 2))}
		case 5:
			op = Op{K: "core", S: users(), T: pick(r, []string{"create", "update", "delete"}), N: int64(r.N(7))}
		case 6:
			op = Op{K: "tx", S: users(), N: int64(r.W(6, 1, 1)), R: r.W(2, 1)}
			for k := r.In(1, 3); k > 0; k-- {
				op.L = append(op.L, act())
			}
			if r.P(1, 25) {
				op.M = 1
			}
		case 7:
			h++
			op = Op{K: "begin", N: h}
		case 8:
			op = Op{K: "end", N: h}
		case 9:
			op = Op{K: "svc"}
		case 10:
			op = Op{K: "regenesis"}
		}
		ops = append(ops, op)
	}
	return Cfg{RT: cfg}, ops
}
