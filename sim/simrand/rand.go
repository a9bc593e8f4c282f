// Package simrand stands in for the package math/rand in the simulated code: the randomness
// of a node is drawn from its own seeded generator, different for every node.
package simrand

import "math/rand"

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	New       = rand.New
	NewSource = rand.NewSource
	NewZipf   = rand.NewZipf
)

// Node is the generator of the node which is running, set by the simulator.
var Node = func() *rand.Rand { return rand.New(rand.NewSource(1)) }

func Seed(int64)                         {}
func Int() int                           { return Node().Int() }
func Int31() int32                       { return Node().Int31() }
func Int31n(n int32) int32               { return Node().Int31n(n) }
func Int63() int64                       { return Node().Int63() }
func Int63n(n int64) int64               { return Node().Int63n(n) }
func Intn(n int) int                     { return Node().Intn(n) }
func Uint32() uint32                     { return Node().Uint32() }
func Uint64() uint64                     { return Node().Uint64() }
func Float32() float32                   { return Node().Float32() }
func Float64() float64                   { return Node().Float64() }
func ExpFloat64() float64                { return Node().ExpFloat64() }
func NormFloat64() float64               { return Node().NormFloat64() }
func Perm(n int) []int                   { return Node().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { Node().Shuffle(n, swap) }
func Read(p []byte) (n int, err error)   { return Node().Read(p) }
