//go:build go1.21

package main

import (
	"reflect"
	"strings"
	"unsafe"

	"github.com/fdymylja/tmos/verifsim/simpoint"
	"google.golang.org/protobuf/proto"
)

// process holds the package-level variables of the code under test as one process has them.
// Every start of a node is a new one: what a node keeps in memory is its own and is gone
// when it's killed. The variables themselves hold what belongs to the current process.
type process struct{ vars []reflect.Value }

var (
	owned    []reflect.Value // the variables
	ownedAt  = map[unsafe.Pointer]bool{}
	pristine *process // as they are after initialisation
	current  *process
)

// claimGlobals is called before anything runs.
func claimGlobals() {
	for _, p := range simpoint.Owned {
		v := reflect.ValueOf(p).Elem()
		switch v.Kind() {
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			continue
		}
		owned = append(owned, v)
		ownedAt[v.Addr().UnsafePointer()] = true
	}
	pristine = &process{}
	c := cloner{}
	for _, v := range owned {
		pristine.vars = append(pristine.vars, c.clone(v))
	}
	current = newProcess()
	for i, v := range owned {
		v.Set(current.vars[i])
	}
}

// newProcess has the variables as they are when a process starts.
func newProcess() *process {
	p := &process{vars: make([]reflect.Value, 0, len(owned))}
	c := cloner{}
	for _, v := range pristine.vars {
		p.vars = append(p.vars, c.clone(v))
	}
	return p
}

// enter makes p the process which runs.
func (p *process) enter() {
	if p == current || p == nil {
		return
	}
	for i, v := range owned {
		current.vars[i].Set(v)
		v.Set(p.vars[i])
	}
	current = p
}

// within runs f in a process of its own, for code under test which the oracles use.
func within(p *process, f func()) {
	old := current
	p.enter()
	defer old.enter()
	f()
}

// cloner copies what processes must not share. What belongs to other modules and is not a
// container is shared, it is not changed after initialisation.
type cloner map[unsafe.Pointer]reflect.Value

const ownModule = "github.com/fdymylja/tmos/"

var protoMessage = reflect.TypeOf((*proto.Message)(nil)).Elem()

func private(t reflect.Type) bool {
	switch p := t.PkgPath(); p {
	case "sync", "sync/atomic", "container/list", "bytes":
		return true
	default:
		return strings.HasPrefix(p, ownModule) && !reflect.PtrTo(t).Implements(protoMessage)
	}
}

func (c cloner) clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	c.deepen(out)
	return out
}

// deepen makes v, which is a copy, independent of what it was copied from.
func (c cloner) deepen(v reflect.Value) {
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := v.UnsafePointer()
		if m, ok := c[k]; ok && m.Type() == v.Type() {
			v.Set(m)
			return
		}
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		c[k] = m
		for it := v.MapRange(); it.Next(); {
			m.SetMapIndex(it.Key(), c.clone(it.Value()))
		}
		v.Set(m)
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(s, v)
		for i := 0; i < s.Len(); i++ {
			c.deepen(s.Index(i))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.deepen(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			c.deepen(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch t := v.Type().Elem(); t.Kind() {
		case reflect.Struct:
			if !private(t) {
				return
			}
		case reflect.Map, reflect.Slice, reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		default:
			return
		}
		k := v.UnsafePointer()
		if ownedAt[k] {
			return // refers to one of the variables themselves
		}
		if p, ok := c[k]; ok && p.Type() == v.Type() {
			v.Set(p)
			return
		}
		p := reflect.New(v.Type().Elem())
		c[k] = p
		p.Elem().Set(v.Elem())
		c.deepen(p.Elem())
		v.Set(p)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Map, reflect.Slice, reflect.Ptr, reflect.Struct:
			if e.Kind() == reflect.Struct && !private(e.Type()) {
				return
			}
			v.Set(c.clone(e))
		}
	}
}
