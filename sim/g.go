//go:build go1.21

package main

import (
	"os"
	"runtime"
	"strconv"
	"strings"
)

// getg identifies the calling goroutine.
func getg() uintptr {
	if fastG {
		return registerG()
	}
	var b [40]byte
	s := strings.TrimPrefix(string(b[:runtime.Stack(b[:], false)]), "goroutine ")
	if i := strings.IndexByte(s, ' '); i > 0 {
		s = s[:i]
	}
	n, _ := strconv.Atoi(s)
	return uintptr(n)
}

var fastG bool

// registerG is replaced by code which returns the register holding the goroutine.
//
//go:noinline
func registerG() uintptr {
	n := uintptr(len(os.Args))
	for i := uintptr(0); i < 3; i++ {
		n = n*31 + i
	}
	return n
}
