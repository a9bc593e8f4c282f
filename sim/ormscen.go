//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/fdymylja/tmos/core/meta"
	coreschema "github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// The orm scenario: the object store with its indexes on simulated storage. One thread
// writes, readers look at any storage operation of it, listings are kept open meanwhile.

func init() { register(Scenario{Name: "orm", Gen: genORM, Run: runORM}) }

// dynObj is a state object of a type made up by the simulator.
type dynObj struct {
	*dynamicpb.Message
	def *meta.APIDefinition
}

func (d dynObj) APIDefinition() *meta.APIDefinition { return d.def }
func (d dynObj) NewStateObject() meta.StateObject {
	return dynObj{dynamicpb.NewMessage(d.Message.Descriptor()), d.def}
}

// objField describes a field of the simulated types.
type objField struct {
	name, json string
	typ        descriptorpb.FieldDescriptorProto_Type
	kind       string
}

// fields besides the primary key, which is number 1 and named id
var objFields = []objField{
	{"text", "text", descriptorpb.FieldDescriptorProto_TYPE_STRING, "string"},
	{"some_text", "someText", descriptorpb.FieldDescriptorProto_TYPE_STRING, "string"},
	{"num", "num", descriptorpb.FieldDescriptorProto_TYPE_UINT64, "uint64"},
	{"delta", "delta", descriptorpb.FieldDescriptorProto_TYPE_INT64, "int64"},
	{"small", "small", descriptorpb.FieldDescriptorProto_TYPE_INT32, "int32"},
	{"usmall", "usmall", descriptorpb.FieldDescriptorProto_TYPE_UINT32, "uint32"},
	{"flag", "flag", descriptorpb.FieldDescriptorProto_TYPE_BOOL, "bool"},
	{"data", "data", descriptorpb.FieldDescriptorProto_TYPE_BYTES, "bytes"},
	{"payload", "payload", descriptorpb.FieldDescriptorProto_TYPE_STRING, "string"}, // never indexed
}

var pkKinds = map[string]descriptorpb.FieldDescriptorProto_Type{
	"string": descriptorpb.FieldDescriptorProto_TYPE_STRING,
	"bytes":  descriptorpb.FieldDescriptorProto_TYPE_BYTES,
	"uint64": descriptorpb.FieldDescriptorProto_TYPE_UINT64,
	"int64":  descriptorpb.FieldDescriptorProto_TYPE_INT64,
	"uint32": descriptorpb.FieldDescriptorProto_TYPE_UINT32,
	"int32":  descriptorpb.FieldDescriptorProto_TYPE_INT32,
	"bool":   descriptorpb.FieldDescriptorProto_TYPE_BOOL,
}

var dynDescs = map[string]protoreflect.MessageDescriptor{}

func init() {
	fd := &descriptorpb.FileDescriptorProto{Name: proto.String("sim.proto"), Package: proto.String("simtypes"), Syntax: proto.String("proto3")}
	for _, k := range sortedKeys(pkKinds) {
		t := pkKinds[k]
		m := &descriptorpb.DescriptorProto{Name: proto.String("Type_" + k)}
		m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String("id"), JsonName: proto.String("id"), Number: proto.Int32(1), Type: &t,
			Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()})
		for i, f := range objFields {
			ft := f.typ
			m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String(f.name), JsonName: proto.String(f.json), Number: proto.Int32(int32(i + 2)), Type: &ft,
				Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()})
		}
		fd.MessageType = append(fd.MessageType, m)
	}
	f, err := protodesc.NewFile(fd, nil)
	if err != nil {
		panic(err)
	}
	for k := range pkKinds {
		dynDescs[k] = f.Messages().ByName(protoreflect.Name("Type_" + k))
	}
}

// objType is a type registered in a run.
type objType struct {
	name      string // group|kind
	pk        string // kind of the primary key, empty for singletons
	def       *meta.APIDefinition
	idx       []string
	desc      protoreflect.MessageDescriptor
	singleton bool
}

// parseType: group|kind|pk|index,index…
func parseType(e string) *objType {
	p := strings.Split(e, "|")
	t := &objType{name: p[0] + "." + p[1], pk: p[2], def: &meta.APIDefinition{Group: p[0], Kind: p[1], ApiType: meta.APIType_StateObject}}
	if p[3] != "" {
		t.idx = strings.Split(p[3], ",")
	}
	if t.pk == "single" {
		t.singleton = true
		t.desc = dynDescs["string"]
	} else {
		t.desc = dynDescs[t.pk]
	}
	return t
}

func (t *objType) new() dynObj { return dynObj{dynamicpb.NewMessage(t.desc), t.def} }

func fieldValue(kind, e string) (protoreflect.Value, bool) {
	switch kind {
	case "string":
		return protoreflect.ValueOfString(expr(e)), true
	case "bytes":
		return protoreflect.ValueOfBytes([]byte(expr(e))), true
	case "bool":
		return protoreflect.ValueOfBool(e == "true"), true
	case "uint64":
		n, err := strconv.ParseUint(e, 10, 64)
		return protoreflect.ValueOfUint64(n), err == nil
	case "uint32":
		n, err := strconv.ParseUint(e, 10, 32)
		return protoreflect.ValueOfUint32(uint32(n)), err == nil
	case "int64":
		n, err := strconv.ParseInt(e, 10, 64)
		return protoreflect.ValueOfInt64(n), err == nil
	case "int32":
		n, err := strconv.ParseInt(e, 10, 32)
		return protoreflect.ValueOfInt32(int32(n)), err == nil
	}
	panic(kind)
}

// keyOrder is how the store orders values of a kind.
func keyBytes(kind string, v protoreflect.Value) string {
	switch kind {
	case "string":
		return v.String()
	case "bytes":
		return string(v.Bytes())
	case "bool":
		return string(protowire.AppendVarint(nil, protowire.EncodeBool(v.Bool())))
	case "uint64", "uint32":
		return string(protowire.AppendVarint(nil, v.Uint()))
	case "int64", "int32":
		return string(protowire.AppendVarint(nil, uint64(v.Int())))
	}
	panic(kind)
}

func kindOf(t *objType, field string) (int, string) {
	if field == "id" && !t.singleton {
		return 0, t.pk
	}
	for i, f := range objFields {
		if f.json == field {
			return i + 1, f.kind
		}
	}
	return -1, ""
}

// object makes an object of expressions, one per field.
func (t *objType) object(vals []string) dynObj {
	o := t.new()
	for i, e := range vals {
		if e == "" || i > len(objFields) {
			continue
		}
		kind := t.pk
		if i > 0 {
			kind = objFields[i-1].kind
		} else if t.singleton {
			kind = "string"
		}
		if v, ok := fieldValue(kind, e); ok {
			o.Set(t.desc.Fields().ByNumber(protoreflect.FieldNumber(i+1)), v)
		}
	}
	return o
}

func (t *objType) key(o dynObj) string {
	if t.singleton {
		return "unique"
	}
	return keyBytes(t.pk, o.Get(t.desc.Fields().ByNumber(1)))
}

// indexKey is what the store compares of a field.
func (t *objType) indexKey(o dynObj, field string) string {
	i, kind := kindOf(t, field)
	return keyBytes(kind, o.Get(t.desc.Fields().ByNumber(protoreflect.FieldNumber(i+1))))
}

func validStrings(m protoreflect.Message) bool {
	ok := true
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if f.Kind() == protoreflect.StringKind && !utf8.ValidString(v.String()) {
			ok = false
		}
		return true
	})
	return ok
}

const keyLimit = 16 << 10
const objectLimit = 1 << 20

type ormSim struct {
	c     *Ctx
	ctl   *kvCtl
	st    orm.Store
	objKV *SimKV
	idxKV *SimKV
	jo    *kv.Journal
	ji    *kv.Journal
	types map[string]*objType
	order []string
	model map[string]map[string]dynObj // type -> key
	undo  map[string]map[string]dynObj
	lists map[int]*openList
	dumpA map[string]string
}

// openList is a listing which is read step by step while others write.
type openList struct {
	it     orm.Iterator
	t      *objType
	sel    []selection
	always map[string]bool // matched from the beginning until now
	ever   map[string]bool
	got    []string
	what   string
}

type selection struct {
	field, key string
	val        protoreflect.Value
	expr       string
	text       string // how the value is written in the query
}

func runORM(p *Plan, c *Ctx) {
	was := memTable
	if p.Cfg.M != 0 {
		memTable = p.Cfg.M
	}
	defer func() { memTable = was }()
	s := &ormSim{c: c, ctl: &kvCtl{budget: 1 << 40}, types: map[string]*objType{}, model: map[string]map[string]dynObj{}, lists: map[int]*openList{}}
	o := guard(func() {
		db1, db2 := kv.NewBadger(), kv.NewBadger()
		s.objKV, s.idxKV = newSimKV("objects", db1, s.ctl), newSimKV("indexes", db2, s.ctl)
		s.ctl.stores = []*SimKV{s.objKV, s.idxKV}
		s.jo, s.ji = kv.NewJournal(s.objKV), kv.NewJournal(s.idxKV)
		defer func() {
			for _, l := range s.lists {
				l.it.Close()
			}
			s.objKV.close()
			s.idxKV.close()
		}()
		s.st = orm.NewStore(objects.NewStore(s.jo), indexes.NewStore(s.ji))
		for _, e := range p.Cfg.L {
			t := parseType(e)
			def := &coreschema.Definition{SecondaryKeys: t.idx}
			if t.singleton {
				def.Singleton = true
			} else {
				def.PrimaryKey = "id"
			}
			if err := s.st.RegisterObject(t.new(), def); err != nil {
				c.Violate("P11", "type refused", "%s: %s", e, err)
				return
			}
			s.types[t.name] = t
			s.order = append(s.order, t.name)
			s.model[t.name] = map[string]dynObj{}
		}
		for i := range p.Ops {
			c.Step = i
			s.op(&p.Ops[i])
			if c.Done() {
				return
			}
		}
		c.Step = len(p.Ops)
		s.rollback()
		for _, i := range []int{0, 1, 2, 3} {
			s.step(i, 1<<30)
		}
		s.sweep()
	})
	if !o.ok() {
		c.Violate("P11", "store does not survive", "%s", o)
		c.Violate("P12", "store does not survive", "%s", o)
	}
}

func (s *ormSim) sim(f func()) {
	y := s.ctl.yield
	s.ctl.yield = nil
	f()
	s.ctl.yield = y
}

func (s *ormSim) raw() map[string]string {
	out := map[string]string{}
	s.sim(func() { s.objKV.dump(out); s.idxKV.dump(out) })
	return out
}

func (s *ormSim) typ(op *Op) *objType {
	if t := s.types[op.S]; t != nil {
		return t
	}
	return s.types[s.order[0]]
}

func (s *ormSim) op(op *Op) {
	c := s.c
	switch op.K {
	case "create", "update", "delete":
		s.write(op)
	case "get":
		t := s.typ(op)
		o := t.object([]string{op.T})
		s.get(t, t.key(o), s.model[t.name])
	case "list":
		t := s.typ(op)
		s.listing(t, s.selections(t, op.L), op.N, op.M, op.R&1 == 1, []map[string]dynObj{s.model[t.name]}, "P12", "")
	case "open":
		s.open(op)
	case "step":
		s.step(op.R, op.N)
	case "begin":
		if s.undo == nil {
			s.jo.Begin()
			s.ji.Begin()
			s.undo = map[string]map[string]dynObj{}
			for n, m := range s.model {
				s.undo[n] = copyMap(m)
			}
		}
	case "commit":
		if s.undo != nil {
			s.jo.Commit()
			s.ji.Commit()
			s.undo = nil
			c.Hit("orm: commits")
		}
	case "rollback":
		s.rollback()
	case "sweep":
		s.sweep()
	}
}

func copyMap(m map[string]dynObj) map[string]dynObj {
	out := map[string]dynObj{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (s *ormSim) rollback() {
	if s.undo == nil {
		return
	}
	s.jo.Rollback()
	s.ji.Rollback()
	s.model, s.undo = s.undo, nil
	s.moved()
	s.c.Hit("fault: rollback")
	s.sweep()
}

// write does one operation, readers look at the storage operation M of it.
func (s *ormSim) write(op *Op) {
	c := s.c
	t := s.typ(op)
	o := t.object(op.L)
	m := s.model[t.name]
	key := t.key(o)
	old, exists := m[key]
	before := s.raw()
	after := copyMap(m)
	legal := key != "" && len(key) <= keyLimit && validStrings(o)
	for _, f := range t.idx {
		legal = legal && len(t.indexKey(o, f)) <= keyLimit
	}
	size := proto.Size(o)
	must, mustFail := legal && size <= objectLimit, !legal && (key == "" || !validStrings(o))
	switch op.K {
	case "create":
		must, mustFail = must && !exists, mustFail || exists
		after[key] = o
	case "update":
		must, mustFail = must && exists, mustFail || !exists
		after[key] = o
	case "delete":
		// only the key counts
		must, mustFail = exists, !exists
		delete(after, key)
	}
	point := int64(0)
	if op.M > 0 {
		s.ctl.yield = func(string) {
			if point++; point == op.M {
				s.sim(func() { s.inside(t, m, after, key, o, old) })
			}
		}
	}
	arg := proto.Clone(o.Message).(*dynamicpb.Message)
	var err error
	switch op.K {
	case "create":
		err = s.st.Create(dynObj{arg, t.def})
	case "update":
		err = s.st.Update(dynObj{arg, t.def})
	case "delete":
		err = s.st.Delete(dynObj{arg, t.def})
	}
	s.ctl.yield = nil
	// the caller goes on using its object
	arg.Reset()
	what := fmt.Sprintf("%s %s %q", op.K, t.name, clip(key, 60))
	c.Log("%s -> %v", what, err != nil)
	c.Hit("orm: writes")
	if err == nil {
		if mustFail {
			for _, p := range []string{"P11"} {
				c.Violate(p, op.K+" succeeds", "%s, exists: %v", what, exists)
			}
		}
		s.model[t.name] = after
		s.moved()
	} else {
		c.Hit("orm: failing writes")
		if must {
			c.Violate("P11", op.K+" fails", "%s, exists: %v: %s", what, exists, clip(err.Error(), 200))
		}
		if d := firstDiff(before, s.raw()); d != "" {
			c.Violate("P11", "failed operation changed something", "%s: %s", what, d)
		}
	}
	// what became of it
	s.get(t, key, s.model[t.name])
	seen := map[string]bool{}
	for _, x := range []dynObj{o, old} {
		if x.Message == nil {
			continue
		}
		for _, f := range t.idx {
			k := t.indexKey(x, f)
			if seen[f+"="+k] || !validStrings(x) {
				continue
			}
			seen[f+"="+k] = true
			i, _ := kindOf(t, f)
			s.listing(t, []selection{{field: f, key: k, val: x.Get(t.desc.Fields().ByNumber(protoreflect.FieldNumber(i + 1)))}}, 0, 0, true, []map[string]dynObj{s.model[t.name]}, "P12", "after "+what)
		}
	}
	c.State("orm", t.name, fmt.Sprint(len(s.model[t.name])), op.K, fmt.Sprint(err != nil, exists))
}

// inside is what a reader sees in the middle of a write.
func (s *ormSim) inside(t *objType, before, after map[string]dynObj, key string, o, old dynObj) {
	s.c.Hit("concurrent reads: inside of writes")
	states := []map[string]dynObj{before, after}
	s.getAny(t, key, states, "P13", "in the middle of a write")
	for k := range before {
		if k != key {
			s.get(t, k, before)
			break
		}
	}
	for _, x := range []dynObj{o, old} {
		if x.Message == nil {
			continue
		}
		for _, f := range t.idx {
			k := t.indexKey(x, f)
			i, _ := kindOf(t, f)
			s.listing(t, []selection{{field: f, key: k, val: x.Get(t.desc.Fields().ByNumber(protoreflect.FieldNumber(i + 1)))}}, 0, 0, true, states, "P13", "in the middle of a write")
		}
	}
}

func (s *ormSim) get(t *objType, key string, m map[string]dynObj) {
	s.getAny(t, key, []map[string]dynObj{m}, "P11", "")
}

// getAny reads an object, which has to be as in one of the states.
func (s *ormSim) getAny(t *objType, key string, states []map[string]dynObj, prop, when string) {
	target := t.new()
	// what is in the target already does not matter
	target.Set(t.desc.Fields().ByName("payload"), protoreflect.ValueOfString("old"))
	target.Set(t.desc.Fields().ByName("num"), protoreflect.ValueOfUint64(99))
	if key == "" {
		return
	}
	err := s.st.Get(meta.NewBytesID([]byte(key)), target)
	s.c.Hit("orm: reads")
	if err != nil && !errors.Is(err, orm.ErrNotFound) {
		s.c.Violate(prop, "read fails", "%s %q %s: %s", t.name, clip(key, 60), when, err)
		return
	}
	var want []string
	for _, m := range states {
		o, ok := m[key]
		if !ok && err != nil {
			return
		}
		if ok && err == nil && canon(o.Message) == canon(target.Message) {
			return
		}
		if ok {
			want = append(want, clip(canon(o.Message), 100))
		} else {
			want = append(want, "absent")
		}
	}
	have := "absent"
	if err == nil {
		have = clip(canon(target.Message), 100)
	}
	s.c.Violate(prop, "read is wrong", "%s %q %s: %s instead of %s", t.name, clip(key, 60), when, have, strings.Join(want, " or "))
}

func (s *ormSim) selections(t *objType, l []string) []selection {
	var out []selection
	for _, e := range l {
		i := strings.IndexByte(e, '=')
		_, kind := kindOf(t, e[:i])
		sel := selection{field: e[:i], expr: e[i+1:]}
		if kind != "" {
			v, ok := fieldValue(kind, e[i+1:])
			if !ok {
				v, _ = fieldValue(kind, "0")
			}
			sel.val, sel.key, sel.text = v, keyBytes(kind, v), valueString(v)
			if ok && strings.Contains(kind, "int") {
				sel.text = e[i+1:]
			}
		}
		out = append(out, sel)
	}
	return out
}

func (t *objType) matches(o dynObj, sel []selection) bool {
	for _, x := range sel {
		if t.indexKey(o, x.field) != x.key {
			return false
		}
	}
	return true
}

// valueString is how the value is written in a query.
func valueString(v protoreflect.Value) string {
	if b, ok := v.Interface().([]byte); ok {
		return base64Raw(b)
	}
	return fmt.Sprint(v.Interface())
}

func (s *ormSim) options(sel []selection, start, end int64, typed bool) orm.ListOptions {
	var opt orm.ListOptions
	opt.Start, opt.End = uint64(start), uint64(end)
	for i, x := range sel {
		if !x.val.IsValid() {
			opt.MatchFieldString = append(opt.MatchFieldString, orm.ListMatchFieldString{Field: x.field, Value: x.expr})
			continue
		}
		if typed && i%2 == 0 {
			opt.MatchFieldInterface = append(opt.MatchFieldInterface, orm.ListMatchFieldInterface{Field: x.field, Value: x.val.Interface()})
		} else {
			opt.MatchFieldString = append(opt.MatchFieldString, orm.ListMatchFieldString{Field: x.field, Value: x.text})
		}
	}
	return opt
}

// listing lists objects and compares with the states: with one state it has to be exactly
// what matches; with several what matches in all has to be there, what matches in none must not.
func (s *ormSim) listing(t *objType, sel []selection, start, end int64, typed bool, states []map[string]dynObj, prop, when string) {
	c := s.c
	if len(sel) == 0 {
		return
	}
	known := true
	for _, x := range sel {
		known = known && t.indexed(x.field)
	}
	var got, vals []string
	it, err := s.st.List(t.new(), s.options(sel, start, end, typed))
	c.Hit("orm: lists")
	if err == nil {
		for n := 0; it.Valid() && n < 100000; it.Next() {
			o := t.new()
			if err := it.Get(o); err != nil {
				if len(states) > 1 && errors.Is(err, orm.ErrNotFound) {
					continue
				}
				c.Violate(prop, "listed object is not readable", "%s %s: %s", t.name, when, err)
				break
			}
			got = append(got, t.key(o))
			vals = append(vals, canon(o.Message))
			n++
		}
		it.Close()
	}
	c.Log("list %s %d of %v -> %d", t.name, len(sel), known, len(got))
	if !known {
		if err == nil {
			c.Violate(prop, "listing by a field which is not indexed", "%s", t.name)
		}
		return
	}
	var fs []string
	for _, x := range sel {
		fs = append(fs, fmt.Sprintf("%s=%q", x.field, clip(x.key, 60)))
	}
	what := fmt.Sprintf("%s by %s [%d,%d) %s", t.name, strings.Join(fs, " and "), start, end, when)
	if len(states) == 1 {
		want := []string{}
		for _, k := range sortedKeys(states[0]) {
			if t.matches(states[0][k], sel) {
				want = append(want, k)
			}
		}
		want = window(want, start, end)
		if strings.Join(got, "\x01") != strings.Join(want, "\x01") {
			c.Violate(prop, "listing is wrong", "%s: %q instead of %q (%v)", what, clip(strings.Join(got, "|"), 200), clip(strings.Join(want, "|"), 200), err)
			return
		}
		if (len(want) == 0) != (err != nil) || (err != nil && !errors.Is(err, orm.ErrNotFound)) {
			c.Violate(prop, "listing is wrong", "%s: %d objects match, error: %v", what, len(want), err)
		}
		for i, k := range got {
			if vals[i] != canon(states[0][k].Message) {
				c.Violate(prop, "listing is wrong", "%s: %q has a value which is not stored", what, clip(k, 60))
			}
		}
		if len(want) > 0 {
			c.Hit("orm: lists which found something")
		}
		if len(want) > 1 {
			c.Hit("orm: lists which found several")
		}
		return
	}
	seen := map[string]bool{}
	for i, k := range got {
		if seen[k] {
			c.Violate(prop, "listed twice", "%s: %q", what, clip(k, 60))
		}
		seen[k] = true
		any, val := false, false
		for _, m := range states {
			if o, ok := m[k]; ok {
				any = any || t.matches(o, sel)
				val = val || canon(o.Message) == vals[i]
			}
		}
		if !any || !val {
			c.Violate(prop, "listing is wrong", "%s: %q does not match (%v) or never had this value (%v)", what, clip(k, 60), !any, !val)
		}
	}
	for k, o := range states[0] {
		all := t.matches(o, sel)
		for _, m := range states[1:] {
			x, ok := m[k]
			all = all && ok && t.matches(x, sel)
		}
		if all && !seen[k] {
			c.Violate(prop, "object is missing", "%s: %q", what, clip(k, 60))
		}
	}
}

func (t *objType) indexed(f string) bool {
	for _, i := range t.idx {
		if i == f {
			return true
		}
	}
	return false
}

func (s *ormSim) open(op *Op) {
	t := s.typ(op)
	sel := s.selections(t, op.L)
	if len(sel) == 0 {
		return
	}
	for _, x := range sel {
		if !t.indexed(x.field) {
			return
		}
	}
	s.step(op.R, 1<<30)
	it, err := s.st.List(t.new(), s.options(sel, 0, 0, op.N&1 == 1))
	l := &openList{it: it, t: t, sel: sel, always: map[string]bool{}, ever: map[string]bool{}, what: fmt.Sprintf("%s opened in step %d", t.name, s.c.Step)}
	for k, o := range s.model[t.name] {
		if t.matches(o, sel) {
			l.always[k], l.ever[k] = true, true
		}
	}
	if (err == nil) != (len(l.always) > 0) {
		s.c.Violate("P12", "listing is wrong", "%s: %d objects match, error: %v", l.what, len(l.always), err)
	}
	if err != nil {
		return
	}
	s.lists[op.R] = l
}

// moved tells open listings that something was written.
func (s *ormSim) moved() {
	for _, l := range s.lists {
		m := s.model[l.t.name]
		for k := range l.always {
			if o, ok := m[k]; !ok || !l.t.matches(o, l.sel) {
				delete(l.always, k)
			}
		}
		for k, o := range m {
			if l.t.matches(o, l.sel) {
				l.ever[k] = true
			}
		}
	}
}

// step reads on in a listing.
func (s *ormSim) step(i int, n int64) {
	l := s.lists[i]
	if l == nil {
		return
	}
	c := s.c
	for ; n >= 0; n-- {
		if !l.it.Valid() {
			l.it.Close()
			delete(s.lists, i)
			for k := range l.always {
				if !contains(l.got, k) {
					c.Violate("P13", "object is missing", "%s: %q", l.what, clip(k, 60))
				}
			}
			for _, k := range l.got {
				if !l.ever[k] {
					c.Violate("P13", "listing is wrong", "%s: %q never matched", l.what, clip(k, 60))
				}
			}
			if !sort.StringsAreSorted(l.got) {
				c.Violate("P12", "listing is not in order", "%s: %q", l.what, clip(strings.Join(l.got, "|"), 200))
			}
			for j := 1; j < len(l.got); j++ {
				if l.got[j] == l.got[j-1] {
					c.Violate("P13", "listed twice", "%s: %q", l.what, clip(l.got[j], 60))
				}
			}
			c.Hit("concurrent reads: listings")
			return
		}
		o := l.t.new()
		err := l.it.Get(o)
		if err == nil {
			k := l.t.key(o)
			l.got = append(l.got, k)
			if m, ok := s.model[l.t.name][k]; !ok || canon(m.Message) != canon(o.Message) {
				c.Violate("P13", "listed object is not what is stored", "%s: %q", l.what, clip(k, 60))
			}
		} else if !errors.Is(err, orm.ErrNotFound) {
			c.Violate("P13", "listed object is not readable", "%s: %s", l.what, err)
		}
		l.it.Next()
	}
}

func contains(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// sweep compares everything with the model.
func (s *ormSim) sweep() {
	n := 0
	for _, name := range s.order {
		t := s.types[name]
		n += len(s.model[name])
		for _, k := range sortedKeys(s.model[name]) {
			s.get(t, k, s.model[name])
		}
		// every value of every index
		for _, f := range t.idx {
			vals := map[string]protoreflect.Value{}
			i, _ := kindOf(t, f)
			for _, o := range s.model[name] {
				vals[t.indexKey(o, f)] = o.Get(t.desc.Fields().ByNumber(protoreflect.FieldNumber(i + 1)))
			}
			for _, k := range sortedKeys(vals) {
				s.listing(t, []selection{{field: f, key: k, val: vals[k]}}, 0, 0, true, []map[string]dynObj{s.model[name]}, "P12", "")
			}
		}
	}
	have := 0
	for k := range s.raw() {
		if strings.HasPrefix(k, "objects|") {
			have++
		}
	}
	if have != n {
		s.c.Violate("P11", "objects appeared or vanished", "%d objects are stored instead of %d", have, n)
	}
}

// ---- generation ----

var typeNames = []string{"sim|Obj", "sim|ObjA", "sim|O", "sim.Obj|A", "simx|Obj", "sim|obj"}

func genORM(r *RNG, prof *Profile) (Cfg, []Op) {
	cfg := Cfg{M: pick(r, []int64{8 << 20, 8 << 20, 8 << 20, 16 << 20})}
	kindsOfKeys := sortedKeys(pkKinds)
	nt := r.In(1, 4)
	names := append([]string{}, typeNames...)
	for i := 0; i < nt; i++ {
		j := r.N(len(names))
		n := names[j]
		names = append(names[:j], names[j+1:]...)
		if i > 0 && r.P(1, 4) {
			// the name begins with the one of another type
			n = strings.SplitN(cfg.L[r.N(len(cfg.L))], "|", 3)[0] + "|" + strings.SplitN(cfg.L[r.N(len(cfg.L))], "|", 3)[1] + pick(r, []string{"s", "a", "X", ".a", "é"})
			taken := false
			for _, e := range cfg.L {
				taken = taken || parseType(e).name == parseType(n+"|string|").name
			}
			if taken {
				continue
			}
		}
		pk := "string"
		switch {
		case r.P(1, 8):
			pk = "single"
		case r.P(1, 2):
			pk = pick(r, kindsOfKeys)
		}
		var idx []string
		if pk != "single" {
			for _, f := range objFields[:len(objFields)-1] {
				if r.P(1, 3) {
					idx = append(idx, f.json)
				}
			}
			if r.P(1, 10) {
				idx = append(idx, "id")
			}
		}
		cfg.L = append(cfg.L, n+"|"+pk+"|"+strings.Join(idx, ","))
	}
	pools := map[string][]string{}
	stringsOf := func(n int) []string {
		alphabet := pick(r, []string{"ab", "a/", "a\x00", "ab.", "aé"})
		var out []string
		for ; n > 0; n-- {
			w := ""
			for k := r.N(4); k >= 0; k-- {
				rs := []rune(alphabet)
				w += string(rs[r.N(len(rs))])
			}
			switch r.N(14) {
			case 0:
				w = fmt.Sprintf("#%da", pick(r, []int{127, 128, 129, 255, 256, 300, 16383, 16384}))
				out = append(out, w)
				continue
			case 2:
				// one is the beginning of the other, their lengths end alike
				k := r.In(1, 3)
				out = append(out, fmt.Sprintf("#%da", k), fmt.Sprintf("#%da", k+256), fmt.Sprintf("#%da", k+pick(r, []int{1, 128, 255, 512})))
				continue
			case 1:
				w = pick(r, []string{"unique", "sim.Obj/a", "simtypes", "../x", "\x00", "0", "id"})
			}
			out = append(out, quoteExpr(w))
		}
		return out
	}
	pools["string"] = stringsOf(r.In(2, 9))
	pools["bytes"] = append(stringsOf(r.In(1, 6)), quoteExpr("\xff\xfe"), quoteExpr("\x00"), quoteExpr("a\xff"))
	// keys which together with the name of their type look like those of another type
	for _, a := range cfg.L {
		for _, b := range cfg.L {
			x, y := parseType(a).name, parseType(b).name
			if x == y || !strings.HasPrefix(y, x) {
				continue
			}
			for _, k := range []string{"string", "bytes"} {
				pools[k] = append(pools[k], quoteExpr(y[len(x):]))
				for _, w := range append([]string(nil), pools[k]...) {
					if r.P(1, 2) && !strings.HasPrefix(w, "#") {
						pools[k] = append(pools[k], quoteExpr(y[len(x):]+pick(r, []string{"", "/", "."})+expr(w)))
					}
				}
			}
		}
	}
	pools["bool"] = []string{"true", "false"}
	some := func(l []string) []string {
		var out []string
		for i := r.In(1, 6); i > 0; i-- {
			out = append(out, pick(r, l))
		}
		return out
	}
	pools["uint64"] = some([]string{"0", "1", "2", "127", "128", "129", "255", "256", "300", "16383", "16384", "4294967296", "18446744073709551615", "9223372036854775808"})
	pools["int64"] = some([]string{"0", "1", "-1", "127", "128", "-128", "256", "300", "16384", "9223372036854775807", "-9223372036854775808"})
	pools["uint32"] = some([]string{"0", "1", "127", "128", "256", "65536", "4294967295"})
	pools["int32"] = some([]string{"0", "1", "-1", "127", "128", "-2147483648", "2147483647"})
	val := func(kind string) string {
		if kind == "string" && r.P(1, 60) {
			return pick(r, []string{quoteExpr("a\xffb"), "#16385k", "#40000k", "#70000k", quoteExpr("")})
		}
		if kind == "bytes" && r.P(1, 60) {
			return pick(r, []string{"#16385k", "#70000k", quoteExpr("")})
		}
		return pick(r, pools[kind])
	}
	big := r.P(1, 4)
	object := func(t *objType) []string {
		k := t.pk
		if t.singleton {
			k = "string"
		}
		out := []string{val(k)}
		blank := r.P(1, 10) // objects which take no bytes
		switch {
		case blank && strings.Contains(k, "int"):
			out[0] = "0"
		case blank && k == "bool":
			out[0] = "false"
		}
		for _, f := range objFields {
			if blank {
				out = append(out, "")
				continue
			}
			if f.json == "payload" || r.P(1, 5) {
				if f.json == "payload" && r.P(1, 2) {
					n := r.N(50)
					if big {
						n = pick(r, []int{100, 5000, 100000, 1000000, 1048577, 1100000})
					}
					out = append(out, fmt.Sprintf("#%dp", n))
				} else {
					out = append(out, "")
				}
				continue
			}
			out = append(out, val(f.kind))
		}
		return out
	}
	var types []*objType
	for _, e := range cfg.L {
		types = append(types, parseType(e))
	}
	sels := func(t *objType) []string {
		var out []string
		for i := r.W(0, 10, 5, 2); i > 0 && len(t.idx) > 0; i-- {
			f := pick(r, t.idx)
			if r.P(1, 40) {
				f = pick(r, []string{"payload", "nope", "", "id", "some_text"})
			}
			_, k := kindOf(t, f)
			if k == "" {
				k = "string"
			}
			v := val(k)
			if strings.Contains(k, "int") && r.P(1, 6) {
				// numbers in queries may have leading zeros
				if strings.HasPrefix(v, "-") {
					v = "-0" + v[1:]
				} else {
					v = "0" + v
				}
			}
			out = append(out, f+"="+v)
		}
		return out
	}
	n := r.In(20, 100)
	if prof.Tier == "thorough" {
		n = r.In(20, 400)
	}
	w := []int{14, 8, 6, 6, 10, 4, 8, 2, 1, 2, 1}
	for i := range w {
		if i != 0 && r.P(1, 6) {
			w[i] = 0
		}
	}
	var ops []Op
	for i := 0; i < n; i++ {
		t := pick(r, types)
		var op Op
		switch r.W(w...) {
		case 0:
			op = Op{K: "create", S: t.name, L: object(t)}
		case 1:
			op = Op{K: "update", S: t.name, L: object(t)}
		case 2:
			op = Op{K: "delete", S: t.name, L: object(t)}
		case 3:
			op = Op{K: "get", S: t.name, T: object(t)[0]}
		case 4:
			op = Op{K: "list", S: t.name, L: sels(t), R: r.N(2)}
			if r.P(1, 3) {
				op.N, op.M = int64(r.N(5)), int64(r.N(6))
			}
		case 5:
			op = Op{K: "open", S: t.name, L: sels(t), R: r.N(4), N: int64(r.N(2))}
		case 6:
			op = Op{K: "step", R: r.N(4), N: int64(r.N(3))}
		case 7:
			op = Op{K: "begin"}
		case 8:
			op = Op{K: "commit"}
		case 9:
			op = Op{K: "rollback"}
		case 10:
			op = Op{K: "sweep"}
		}
		if (op.K == "create" || op.K == "update" || op.K == "delete") && r.P(1, 2) {
			op.M = int64(1 + r.N(14))
		}
		ops = append(ops, op)
	}
	return cfg, ops
}
