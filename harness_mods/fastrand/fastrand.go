// Package fastrand stands in for github.com/valyala/fastrand when harnesses run: the
// random numbers are inputs of the harness, so that every choice is considered by the
// solver and a counterexample can be replayed.
package fastrand

// Hook yields a number in [0, maxN), or any number if maxN is 0 and full is set
var Hook func(maxN uint32, full bool) uint32

type RNG struct{ x uint32 }

func Uint32() uint32                      { return Hook(0, true) }
func Uint32n(maxN uint32) uint32          { return Hook(maxN, false) }
func (r *RNG) Uint32() uint32             { return Hook(0, true) }
func (r *RNG) Seed(n uint32)              { r.x = n }
func (r *RNG) Uint32n(maxN uint32) uint32 { return Hook(maxN, false) }
