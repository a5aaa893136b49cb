package main

import (
	"math"
	"sync"
	_ "unsafe"

	"github.com/sahandsafizadeh/qeep/tensor"

	xrand "golang.org/x/exp/rand"
)

// The library draws from the process-wide generator of golang.org/x/exp/rand. The
// simulator owns it: a seeded source, whose outputs a fault may replace.

//go:linkname globalRand golang.org/x/exp/rand.globalRand
var globalRand *xrand.Rand

func seedGlobal(s uint64) { xrand.Seed(s) }

const (
	rngFair    = 0
	rngOnes    = 1 // some outputs are the largest possible
	rngZeros   = 2
	rngMixed   = 3
	rngStutter = 4 // an output is delivered again, once
	rngAlways  = 5 // nearly all outputs are the largest possible
)

var rngNames = []string{"fair", "all-ones", "all-zeros", "extremes", "stutter", "nearly-always-all-ones"}

type simSource struct {
	r     xrand.Source
	adv   *Rng
	mode  int
	last  uint64
	draws int64
	hit   int64
}

func (s *simSource) Seed(uint64) {}

func (s *simSource) Uint64() uint64 {
	s.draws++
	x := s.r.Uint64()
	if s.mode != rngFair {
		p := 0.3
		if s.mode == rngAlways {
			p = 0.97
		}
		if s.adv.P(p) {
			s.hit++
			switch s.mode {
			case rngOnes, rngAlways:
				x = ^uint64(0)
			case rngZeros:
				x = 0
			case rngMixed:
				x = []uint64{^uint64(0), 0, 1, 1<<53 - 1, 1<<53 - 2, 1 << 63, 0xfffffffffffff800, 1 << 52}[s.adv.N(8)]
			case rngStutter:
				x = s.last
			}
		}
	}
	s.last = x
	return x
}

// ownGlobal puts a simulated source behind the process-wide generator; restore undoes it.
func ownGlobal(seed uint64) (src *simSource, restore func()) {
	src = &simSource{r: xrand.NewSource(seed), adv: NewRng(seed, 99)}
	old := globalRand
	globalRand = xrand.New(src)
	return src, func() { globalRand = old }
}

// seedable: does seeding the process-wide generator determine what the library draws?
// Where it does not (a generator the simulator does not own), the twin worlds use
// given values instead of random ones.
var seedable = sync.OnceValue(func() bool {
	draw := func(k uint64, between bool) (v []float64) {
		for i, f := range []func() (T, error){
			func() (T, error) { return tensor.RandU([]int{7}, -1, 2, cfg(false)) },
			func() (T, error) { return tensor.RandN([]int{2, 3}, 0.5, 1, cfg(false)) },
		} {
			if between {
				_, _ = tensor.RandN([]int{1 + 2*i}, 0, 1, cfg(false))
			}
			seedGlobal(k + uint64(i))
			t, err := f()
			if err != nil {
				return append(v, math.NaN())
			}
			_, x, fail := read(t)
			if fail != nil {
				return append(v, math.NaN())
			}
			v = append(v, x...)
		}
		return v
	}
	ok := false
	_ = guard(func() error { // a library that panics here says nothing about its generator
		for k := uint64(1); k < 4; k++ {
			a, b := draw(k, false), draw(k, true)
			if ok = len(a) == len(b); !ok {
				return nil
			}
			for i := range a {
				if ok = a[i] == b[i]; !ok {
					return nil
				}
			}
		}
		return nil
	})
	return ok
})
