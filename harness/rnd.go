package main

// Random choices, all drawn from rapid so that a run is a pure function of its
// seed and failures shrink. rapid's own integer generators prefer small
// values, which would starve most of the alternatives of a grammar; numbers
// are therefore put together from unbiased bits.

import (
	"math/bits"

	"pgregory.net/rapid"
)

type R struct{ t *rapid.T }

var bitGen = rapid.Bool()

func (r R) bits(n int) int {
	u := 0
	for ; n > 0; n-- {
		u <<= 1
		if bitGen.Draw(r.t, "") {
			u |= 1
		}
	}
	return u
}

// n returns a number in [0, k), nearly uniformly.
func (r R) n(k int) int {
	if k <= 1 {
		return 0
	}
	b := bits.Len(uint(k - 1))
	if k&(k-1) == 0 {
		return r.bits(b)
	}
	b += 3
	return r.bits(b) * k >> b
}

// p is true in about pct percent of the cases, and false when shrunk.
func (r R) p(pct int) bool { return r.n(100) >= 100-pct }

func (r R) pick(s []string) string { return s[r.n(len(s))] }

// w picks an index with the given weights.
func (r R) w(ws ...int) int {
	sum := 0
	for _, x := range ws {
		sum += x
	}
	k := r.n(sum)
	for i, x := range ws {
		if k < x {
			return i
		}
		k -= x
	}
	return len(ws) - 1
}
