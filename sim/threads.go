//go:build go1.21

package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/fdymylja/tmos/verifsim/simpoint"
)

// Threads of a node which run one at a time. A seeded scheduler lets one of them go on for
// a seeded number of points, which are before and after storage operations and between all
// statements of the code under test. A thread which waits for a lock held by another one is
// set aside until it gets it.

type simThread struct {
	name  string
	f     func()
	wake  chan bool
	gid   string
	state int
	dying bool
	left  int // points until it stops
	out   outcome
}

type threadEvent struct {
	t    *simThread
	done bool
}

const (
	thParked = iota
	thRunning
	thBlocked
	thDone
)

func (e threadEvent) note() {
	e.t.state = thParked
	if e.done {
		e.t.state = thDone
	}
}

type threads struct {
	ctl    *kvCtl
	r      *RNG
	stay   int // of 16: how likely a thread goes on
	first  int // of 32: how likely it's the turn of the first thread
	all    []*simThread
	by     map[uintptr]*simThread
	spans  []int // how many points a thread may go on for, the first one and the others
	heavy  int   // points a storage operation counts for
	points int64
	events chan threadEvent

	switches int64
	blocked  int64
	trace    []byte
}

func gid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := strings.TrimPrefix(string(b[:n]), "goroutine ")
	if i := strings.IndexByte(s, ' '); i > 0 {
		return s[:i]
	}
	return s
}

func newThreads(ctl *kvCtl, r *RNG) *threads {
	return &threads{ctl: ctl, r: r, stay: pick(r, []int{0, 0, 0, 4, 12}), first: pick(r, []int{8, 24, 28, 31}), by: map[uintptr]*simThread{},
		spans: []int{pick(r, []int{4, 64, 256, 1024, 4096}), pick(r, []int{2, 16, 64, 256})}, heavy: pick(r, []int{1, 16, 1 << 20}), events: make(chan threadEvent, 64)}
}

func (ts *threads) add(name string, f func()) *simThread {
	t := &simThread{name: name, f: f, wake: make(chan bool)}
	ts.all = append(ts.all, t)
	return t
}

// storage is a point at a storage operation.
func (ts *threads) storage(string) { ts.point(ts.heavy) }

// statement is a point between two statements.
func (ts *threads) statement() { ts.point(1) }

// point stops the calling thread if it has gone on for long enough, until it's scheduled
// again.
func (ts *threads) point(weight int) {
	t := ts.by[getg()]
	if t == nil {
		return
	}
	if t.dying {
		runtime.Goexit()
	}
	if t.left -= weight; t.left > 0 {
		return
	}
	ts.events <- threadEvent{t, false}
	if !<-t.wake {
		t.dying = true
		runtime.Goexit()
	}
	ownRand()
}

func (ts *threads) start(t *simThread) {
	type id struct {
		g   uintptr
		gid string
	}
	ready := make(chan id)
	go func() {
		ready <- id{getg(), gid()}
		if !<-t.wake {
			ts.events <- threadEvent{t, true}
			return
		}
		ownRand()
		finished := false
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
				t.out.Crashed = !finished
			case livelock:
				t.out.Livelock, t.out.Panicked = true, fmt.Sprintf("%d storage operations", x.ops)
			default:
				t.out.Panicked = clip(fmt.Sprint(r), 300) + " at" + panicSite()
			}
			ts.events <- threadEvent{t, true}
		}()
		t.f()
		finished = true
	}()
	i := <-ready
	t.gid = i.gid
	ts.by[i.g] = t
}

// run executes the threads until all of them are done. It reports how they ended: the
// node was killed, one of them panicked, or they wait for each other.
func (ts *threads) run() outcome {
	defer ownRand()
	for _, t := range ts.all {
		ts.start(t)
	}
	ts.ctl.yield, ts.ctl.after, simpoint.Hook = ts.storage, ts.storage, ts.statement
	defer func() { ts.ctl.yield, ts.ctl.after, simpoint.Hook = nil, nil, nil }()
	var last *simThread
	for {
		var can []*simThread
		waiting := 0
		for _, t := range ts.all {
			switch t.state {
			case thParked:
				can = append(can, t)
			case thBlocked:
				waiting++
			}
		}
		if len(can) == 0 {
			if waiting == 0 {
				return outcome{}
			}
			return outcome{Hung: true, Panicked: "threads wait for each other:" + blockedSites()}
		}
		t := can[ts.r.N(len(can))]
		if ts.all[0].state == thParked && ts.r.N(32) < ts.first {
			t = ts.all[0]
		}
		if last != nil && last.state == thParked && ts.r.N(16) < ts.stay {
			t = last
		}
		if t != last {
			ts.switches++
		}
		last = t
		ts.trace = append(ts.trace, byte(ts.index(t)))
		span := ts.spans[1]
		if t == ts.all[0] {
			span = ts.spans[0]
		}
		t.left = 1 + ts.r.N(span)
		t.state = thRunning
		t.wake <- true
		if o := ts.settle(); !o.ok() {
			ts.kill()
			return o
		}
		for _, t := range ts.all {
			if t.state == thDone && !t.out.ok() {
				o := t.out
				if o.Panicked != "" {
					o.Panicked = t.name + ": " + o.Panicked
				}
				t.out = outcome{}
				ts.kill()
				return o
			}
		}
	}
}

func (ts *threads) index(t *simThread) int {
	for i, x := range ts.all {
		if x == t {
			return i
		}
	}
	return -1
}

// settle waits until no thread runs.
func (ts *threads) settle() outcome {
	w := newWatch()
	for {
		running, blocked := 0, 0
		for _, t := range ts.all {
			switch t.state {
			case thRunning:
				running++
			case thBlocked:
				blocked++
			}
		}
		if running == 0 && blocked == 0 {
			return outcome{}
		}
		if running == 0 {
			// did what just happened let somebody go on?
			if !ts.inspect() {
				return outcome{}
			}
			continue
		}
		wait := 20 * time.Millisecond
		if blocked > 0 {
			wait = time.Millisecond
		}
		timer := time.NewTimer(wait)
		select {
		case e := <-ts.events:
			e.note()
			timer.Stop()
			continue
		case <-timer.C:
		}
		ts.inspect()
		if w.hung(nil) {
			return outcome{Hung: true, Panicked: blockedSites()}
		}
	}
}

// inspect tells which of the running threads wait for a lock, and which of the blocked ones
// have got it. It reports whether one of the latter goes on.
func (ts *threads) inspect() (moved bool) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	locked := map[string]bool{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		g = g[len("goroutine "):]
		i := strings.IndexByte(g, ' ')
		if i < 0 {
			continue
		}
		if _, err := strconv.Atoi(g[:i]); err == nil && waitsForLock(g[i:]) {
			locked[g[:i]] = true
		}
	}
	for _, t := range ts.all {
		switch {
		case t.state == thRunning && locked[t.gid]:
			t.state = thBlocked
			ts.blocked++
		case t.state == thBlocked && !locked[t.gid]:
			t.state = thRunning
			moved = true
		}
	}
	return moved
}

// waitsForLock tells whether code under test waits for something which only another thread
// of it can provide.
func waitsForLock(stack string) bool {
	lines := strings.Split(stack, "\n")
	head := lines[0]
	ok := false
	for _, s := range []string{"sync.", "semacquire", "chan ", "select"} {
		ok = ok || strings.Contains(head, s)
	}
	if !ok {
		return false
	}
	for _, l := range lines[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "sync.") || strings.HasPrefix(l, "internal/") {
			continue
		}
		if i := strings.IndexByte(l, '('); i > 0 && strings.Contains(l, "verifsim") {
			return false
		}
		return strings.Contains(l, "fdymylja/tmos/")
	}
	return false
}

// kill ends all threads, like the end of the process does.
func (ts *threads) kill() {
	deadline := time.Now().Add(10 * time.Second)
	for {
		left := 0
		for _, t := range ts.all {
			if t.state == thParked {
				t.state = thRunning
				t.wake <- false
			}
			if t.state != thDone {
				left++
			}
		}
		if left == 0 || time.Now().After(deadline) {
			return
		}
		timer := time.NewTimer(50 * time.Millisecond)
		select {
		case e := <-ts.events:
			timer.Stop()
			e.note()
		case <-timer.C:
			stuck := true
			ts.inspect()
			for _, t := range ts.all {
				stuck = stuck && (t.state == thDone || t.state == thBlocked)
			}
			if stuck {
				return // they hold locks which nobody releases any more
			}
		}
	}
}
