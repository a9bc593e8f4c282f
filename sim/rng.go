//go:build go1.21

package main

import "math/bits"

// RNG is the only source of randomness of the simulator: every choice of a run is drawn
// from one RNG seeded with the seed of the run.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed} }

// Fork derives an independent generator.
func (r *RNG) Fork(label uint64) *RNG { return NewRNG(mix(r.U64() ^ mix(label))) }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// In returns a number in [a,b].
func (r *RNG) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability num/den.
func (r *RNG) P(num, den int) bool { return r.N(den) < num }

// W picks an index with the given weights.
func (r *RNG) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	k := r.N(t)
	for i, w := range weights {
		if k < w {
			return i
		}
		k -= w
	}
	return len(weights) - 1
}

func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 56)
	}
	return b
}

func pick[T any](r *RNG, xs []T) T { return xs[r.N(len(xs))] }

// Perm is a random permutation of [0, n).
func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
