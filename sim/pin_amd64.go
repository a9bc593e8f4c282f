//go:build go1.21 && linux && amd64

package main

import (
	"encoding/binary"
	"reflect"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Random numbers are drawn from the first sequence by the goroutine the simulator lets run
// and from the second one by all others, like those which the database keeps in the
// background: how much they draw doesn't matter.
var (
	randStates [2]uint64
	randG      uintptr
)

const randStep = 0x9e3779b97f4a7c15

// seedRand decides the random numbers the Go runtime uses from here on, among them where
// the iteration over a map starts.
func seedRand(seed uint64) {
	atomic.StoreUint64(&randStates[0], seed)
	ownRand()
}

// ownRand makes the caller the goroutine the simulator lets run.
func ownRand() {
	if fastG {
		atomic.StoreUintptr(&randG, registerG())
	}
}

// pinRand replaces the random numbers of the Go runtime by a sequence which the simulator
// decides. The function which draws them is overwritten with
//
//	mov rcx, &randG; cmp r14, [rcx]; mov rcx, &randStates; je 1f; add rcx, 8
//	1: mov rax, randStep; lock xadd [rcx], rax
//	mov rcx, <odd>; imul rax, rcx; ror rax, 29; ret
func pinRand() bool {
	pc := findFunc("runtime.rand")
	if pc == 0 {
		return false
	}
	addr := func(p unsafe.Pointer) uint64 { return uint64(uintptr(p)) }
	code := []byte{0x48, 0xb9}
	code = binary.LittleEndian.AppendUint64(code, addr(unsafe.Pointer(&randG)))
	code = append(code, 0x4c, 0x3b, 0x31, 0x48, 0xb9)
	code = binary.LittleEndian.AppendUint64(code, addr(unsafe.Pointer(&randStates)))
	code = append(code, 0x74, 4, 0x48, 0x83, 0xc1, 8, 0x48, 0xb8)
	code = binary.LittleEndian.AppendUint64(code, randStep)
	code = append(code, 0xf0, 0x48, 0x0f, 0xc1, 0x01, 0x48, 0xb9)
	code = binary.LittleEndian.AppendUint64(code, 0xbf58476d1ce4e5b9)
	code = append(code, 0x48, 0x0f, 0xaf, 0xc1, 0x48, 0xc1, 0xc8, 29, 0xc3)
	for i := range code {
		if f := runtime.FuncForPC(pc + uintptr(i)); f == nil || f.Entry() != pc {
			return false
		}
	}
	if !patch(pc, code) {
		return false
	}
	// mov rax, r14; ret
	if patch(reflect.ValueOf(registerG).Pointer(), []byte{0x4c, 0x89, 0xf0, 0xc3}) {
		other := make(chan uintptr)
		go func() { other <- registerG() }()
		here := registerG()
		fastG = here == registerG() && here != <-other
	}
	return startOf(1) == startOf(1) && startOf(1) != startOf(2)
}

// patch overwrites code.
func patch(pc uintptr, code []byte) bool {
	page := uintptr(syscall.Getpagesize())
	start := pc &^ (page - 1)
	end := (pc + uintptr(len(code)) + page - 1) &^ (page - 1)
	mem := unsafe.Slice((*byte)(unsafe.Pointer(start)), int(end-start))
	if syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC) != nil {
		return false
	}
	copy(mem[pc-start:], code)
	_ = syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_EXEC)
	return true
}

// startOf tells in which order a map is iterated.
func startOf(seed uint64) string {
	out := ""
	for i := uint64(0); i < 10; i++ {
		seedRand(seed + i*1000)
		m := map[int]bool{1: true, 2: true, 3: true, 4: true, 5: true, 6: true}
		for k := range m {
			out += string(rune('0' + k))
		}
	}
	return out
}

// findFunc looks for a function of the runtime.
func findFunc(name string) uintptr {
	near := reflect.ValueOf(runtime.GC).Pointer()
	for d := uintptr(0); d < 4<<20; d += 16 {
		for _, pc := range []uintptr{near + d, near - d} {
			if f := runtime.FuncForPC(pc); f != nil && f.Name() == name {
				return f.Entry()
			}
		}
	}
	return 0
}

// cpuTime is the processor time this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}
