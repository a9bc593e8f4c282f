//go:build go1.21

// Package simpoint lets the simulator switch threads between any two statements of the
// code under test. The calls are put there by tools/points when the simulator is built.
package simpoint

import (
	"fmt"
	"os"
)

// Hook is called at every point while threads are being interleaved.
var Hook func()

// P is a point between two statements.
func P() {
	if Hook != nil {
		Hook()
	}
}

// Owned are the package-level variables of the code under test.
var Owned []interface{}

// Own adds variables.
func Own(vars ...interface{}) { Owned = append(Owned, vars...) }

// Machine and Process tell which node runs: what the code under test learns from the
// operating system is different for each of them.
var Machine, Process int

func Hostname() (string, error)    { return fmt.Sprintf("node%d", Machine), nil }
func Getpid() int                  { return Process }
func Getppid() int                 { return 1 }
func Getwd() (string, error)       { return fmt.Sprintf("/node%d", Machine), nil }
func Executable() (string, error)  { return fmt.Sprintf("/node%d/app", Machine), nil }
func UserHomeDir() (string, error) { return fmt.Sprintf("/home/node%d", Machine), nil }
func NumCPU() int                  { return 1 << (uint(Machine) % 5) }
func NumGoroutine() int            { return 3 + Process%17 }

// Getenv differs for what is not set in the environment of the simulator.
func Getenv(key string) string {
	v, _ := LookupEnv(key)
	return v
}

func LookupEnv(key string) (string, bool) {
	switch key {
	case "HOSTNAME", "USER", "HOME", "LANG", "TZ", "MONIKER":
		return fmt.Sprintf("node%d", Machine), true
	}
	return os.LookupEnv(key)
}
