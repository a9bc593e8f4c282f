//go:build go1.21

package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v3"
	tmrt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/kv"
)

// kvCtl controls the storage of one node: every operation on it is a point at which the
// simulator can kill the node, switch to another thread or find out that it does not stop.
type kvCtl struct {
	ops     int64 // operations since the node was started
	crashAt int64 // the node dies when ops reaches it, 0: never
	crashed bool
	budget  int64 // operations the current call may do
	yield   func(op string)
	after   func(op string) // called after the operation
	rec     *[]kvWrite      // records the writes
	begun   int             // writes which began while they are recorded
	inSim   int             // >0 while the simulator itself reads the storage
	count   map[string]int64
	stores  []*SimKV
}

type livelock struct{ ops int64 }

const callBudget = 3_000_000

func (c *kvCtl) point(op string) {
	if c.inSim > 0 {
		return
	}
	c.ops++
	if c.count != nil {
		c.count[op]++
	}
	if c.crashAt != 0 && c.ops >= c.crashAt {
		c.crashed = true
		runtime.Goexit()
	}
	if c.budget--; c.budget < 0 {
		panic(livelock{c.ops})
	}
	if c.yield != nil {
		c.yield(op)
	}
}

// SimKV is the storage of a node as seen by the code under test.
type SimKV struct {
	kv.KV // whatever else stores can do
	role  string
	kv    kv.KV
	ctl   *kvCtl
}

// kvWrite is a write which reached the storage.
type kvWrite struct {
	role, key, val string
	del            bool
}

func (c *kvCtl) done(op string) {
	if c.inSim == 0 && c.after != nil {
		c.after(op)
	}
}

func (s *SimKV) Get(k []byte) ([]byte, bool) {
	s.ctl.point("get")
	v, ok := s.kv.Get(k)
	s.ctl.done("get")
	return v, ok
}

func (s *SimKV) Has(k []byte) bool {
	s.ctl.point("has")
	ok := s.kv.Has(k)
	s.ctl.done("has")
	return ok
}

func (s *SimKV) Set(k, v []byte) {
	s.ctl.point("set")
	s.ctl.begun++
	s.kv.Set(k, v)
	if s.ctl.rec != nil {
		*s.ctl.rec = append(*s.ctl.rec, kvWrite{s.role, string(k), string(v), false})
	}
	s.ctl.done("set")
}

func (s *SimKV) Delete(k []byte) bool {
	s.ctl.point("delete")
	s.ctl.begun++
	ok := s.kv.Delete(k)
	if s.ctl.rec != nil {
		*s.ctl.rec = append(*s.ctl.rec, kvWrite{s.role, string(k), "", true})
	}
	s.ctl.done("delete")
	return ok
}

func (s *SimKV) Iterate(a, b []byte) kv.Iterator {
	s.ctl.point("iterate")
	it := newSimIter(s.kv.Iterate(a, b), s.ctl)
	s.ctl.done("iterate")
	return it
}

func (s *SimKV) IteratePrefix(p []byte) kv.Iterator {
	s.ctl.point("iterate")
	it := newSimIter(s.kv.IteratePrefix(p), s.ctl)
	s.ctl.done("iterate")
	return it
}

type simIter struct {
	kv.Iterator
	it  kv.Iterator
	ctl *kvCtl
}

func (i *simIter) Next()         { i.ctl.point("next"); i.it.Next() }
func (i *simIter) Valid() bool   { i.ctl.point("valid"); return i.it.Valid() }
func (i *simIter) Key() []byte   { i.ctl.point("key"); return i.it.Key() }
func (i *simIter) Value() []byte { i.ctl.point("value"); return i.it.Value() }
func (i *simIter) Close()        { i.it.Close() }

func (s *SimKV) dump(out map[string]string) {
	it := s.kv.IteratePrefix(nil)
	for ; it.Valid(); it.Next() {
		out[s.role+"|"+string(it.Key())] = string(it.Value())
	}
	it.Close()
}

func newSimKV(role string, k kv.KV, ctl *kvCtl) *SimKV {
	return &SimKV{KV: k, role: role, kv: k, ctl: ctl}
}

func newSimIter(it kv.Iterator, ctl *kvCtl) *simIter {
	return &simIter{Iterator: it, it: it, ctl: ctl}
}

func (s *SimKV) close() {
	defer func() { recover() }() // a database with iterators left open by a killed thread
	for _, db := range databases(reflect.ValueOf(&s.kv).Elem(), 6) {
		_ = db.Close()
	}
}

// databases finds the databases behind a store: the simulator opens thousands of them in one
// process and has to release them.
func databases(v reflect.Value, depth int) []*badger.DB {
	if depth == 0 {
		return nil
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			return databases(v.Elem(), depth-1)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if v.Type() == reflect.TypeOf((*badger.DB)(nil)) {
			return []*badger.DB{(*badger.DB)(v.UnsafePointer())}
		}
		return databases(v.Elem(), depth-1)
	case reflect.Struct:
		var out []*badger.DB
		for i := 0; i < v.NumField(); i++ {
			out = append(out, databases(v.Field(i), depth-1)...)
		}
		return out
	}
	return nil
}

// withKV lets every runtime built by f use storage controlled by ctl.
func withKV(ctl *kvCtl, f func() error) error {
	tmrt.KVFactory = func(role string, open func() kv.KV) kv.KV {
		s := newSimKV(role, open(), ctl)
		ctl.stores = append(ctl.stores, s)
		return s
	}
	defer func() { tmrt.KVFactory = nil }()
	return f()
}

// outcome tells how a call into a node ended.
type outcome struct {
	Crashed  bool   // the simulator killed the node during the call
	Panicked string // the node panicked
	Livelock bool   // the call did not end within its budget of storage operations
	Hung     bool   // the call is blocked for good
}

func (o outcome) ok() bool { return !o.Crashed && o.Panicked == "" && !o.Livelock && !o.Hung }

func (o outcome) String() string {
	switch {
	case o.Crashed:
		return "killed"
	case o.Hung:
		return "blocked for good: " + o.Panicked
	case o.Livelock:
		return "does not terminate: " + o.Panicked
	case o.Panicked != "":
		return "panic: " + o.Panicked
	}
	return "ok"
}

// guard runs f in a goroutine of its own, so it can be killed at any storage operation,
// and reports panics.
func guard(f func()) (o outcome) {
	defer ownRand()
	done := make(chan outcome, 1)
	go func() {
		ownRand()
		var o outcome
		finished := false
		defer func() { done <- o }()
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
				o.Crashed = !finished
			case livelock:
				o.Livelock, o.Panicked = true, fmt.Sprintf("%d storage operations", x.ops)
			default:
				o.Panicked = clip(fmt.Sprint(r), 300) + " at" + panicSite()
			}
		}()
		f()
		finished = true
	}()
	w := newWatch()
	for {
		t := time.NewTimer(500 * time.Millisecond)
		select {
		case o = <-done:
			t.Stop()
			return o
		case <-t.C:
		}
		if w.hung(blockedForGood) {
			return outcome{Hung: true, Panicked: blockedSites()}
		}
	}
}

// watch tells when something which takes milliseconds will never end: the code under test
// waits for itself, it keeps the processor busy, or nothing happens for a very long time.
type watch struct {
	since   time.Time
	cpu     time.Duration
	blocked int
}

func newWatch() *watch { return &watch{since: time.Now(), cpu: cpuTime()} }

const (
	hangAfter = 90 * time.Second // whatever the machine does
	spinAfter = 15 * time.Second // of processor time
)

func (w *watch) hung(blocked func() bool) bool {
	d := time.Since(w.since)
	if d < time.Second {
		return false
	}
	w.blocked++
	if blocked == nil || !blocked() {
		w.blocked = 0
	}
	return w.blocked > 6 || d > spinAfter && cpuTime()-w.cpu > spinAfter || d > hangAfter
}

// blockedForGood tells whether all goroutines of the code under test wait for each other.
func blockedForGood() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	waiting := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "fdymylja/tmos/") {
			continue
		}
		i := strings.Index(g, "[")
		if i < 0 {
			continue
		}
		if waitsForLock(g[i:]) {
			waiting++
			continue
		}
		for _, l := range strings.Split(g, "\n")[1:] {
			if strings.Contains(l, "fdymylja/tmos/") && !strings.Contains(l, "verifsim") && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "created by") {
				return false
			}
		}
	}
	return waiting > 0
}

// blockedSites returns where the goroutines inside of the code under test are.
func blockedSites() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	out := ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.Contains(l, "fdymylja/tmos/") && !strings.Contains(l, "/verifsim") && !strings.HasPrefix(l, "\t") {
				if i := strings.LastIndex(l, "/"); i >= 0 {
					l = l[i+1:]
				}
				if i := strings.IndexByte(l, '('); i > 0 && !strings.HasPrefix(l[i:], "(*") {
					l = l[:i]
				}
				out += " < " + clip(l, 80)
			}
		}
		if len(out) > 300 {
			break
		}
	}
	return clip(out, 400)
}

// panicSite returns the innermost functions of the repository on the stack of a panic.
func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	out := ""
	for {
		f, more := frames.Next()
		if isRepoFunc(f.Function) {
			out += " < " + shortFunc(f.Function)
			if len(out) > 200 {
				break
			}
		}
		if !more {
			break
		}
	}
	return out
}
