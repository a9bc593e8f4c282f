//go:build go1.21 && !(linux && amd64)

package main

import "time"

func seedRand(seed uint64) {}
func ownRand()             {}
func pinRand() bool        { return false }

// cpuTime is the processor time this process has used, if that can be told.
func cpuTime() time.Duration { return 0 }
