prop='C20'
needs='two goroutines raise tensors to different powers: one stores key and result of the other half-way in between'
breaks='pow remembers the last (base, exponent) and result in three separate atomics; without a race a goroutine can pair its own key with the result another goroutine stored'
edits=[('tensor/internal/cputensor/operators.go','''	return applyUnaryFuncOnTensorElemWise(t, func(a float64) float64 { return math.Pow(a, u) })
''','''	return applyUnaryFuncOnTensorElemWise(t, func(a float64) float64 { return cachedPow(a, u) })
'''),('tensor/internal/cputensor/operators.go','''func (t *CPUTensor) scale(u float64)''','''// the last power computed; fill values make the same one come again and again
var lastBase, lastExp, lastPow atomic.Uint64

func cachedPow(a, u float64) (v float64) {
	ab, ub := math.Float64bits(a), math.Float64bits(u)
	if lastBase.Load() == ab && lastExp.Load() == ub && ab != 0 && ub != 0 {
		return math.Float64frombits(lastPow.Load())
	}

	v = math.Pow(a, u)
	lastPow.Store(math.Float64bits(v))
	lastExp.Store(ub)
	lastBase.Store(ab)

	return v
}

func (t *CPUTensor) scale(u float64)'''),('tensor/internal/cputensor/operators.go','''import "math"
''','''import (
	"math"
	"sync/atomic"
)
''')]
imports=["sync"]
demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x, _ := tensor.Full([]int{4}, float64(g+2), nil)
			want := float64((g+2)*(g+2))
			for r := 0; r < 200000; r++ {
				if s := x.Pow(2).Sum(); s != 4*want { mu.Lock(); bad++; mu.Unlock(); return }
			}
		}()
	}
	wg.Wait()
	if bad > 0 { t.Fatal(bad) }
}'''
