prop='C18'
needs='an odd number of normal draws followed by draws with another mean or standard deviation'
breaks='samples are made in pairs and the second of a pair, already scaled, is kept for the next call: the first element of a tensor follows the distribution of an earlier one'
edits=[('tensor/internal/cputensor/initializers.go','''		return distuv.Normal{Mu: u, Sigma: s}.Rand()
''','''		return pairedNormal(u, s)
'''),('tensor/internal/cputensor/initializers.go','''func initTensorFromData(''','''var normalSpare struct {
	sync.Mutex
	full  bool
	value float64
}

// pairedNormal draws two samples at a time with the polar method.
func pairedNormal(u, s float64) float64 {
	normalSpare.Lock()
	defer normalSpare.Unlock()

	if normalSpare.full {
		normalSpare.full = false
		return normalSpare.value
	}

	for {
		a, b := uniformRandom(-1, 1), uniformRandom(-1, 1)
		q := a*a + b*b
		if q == 0 || q >= 1 {
			continue
		}
		f := math.Sqrt(-2 * math.Log(q) / q)
		normalSpare.full, normalSpare.value = true, u+s*b*f
		return u + s*a*f
	}
}

func initTensorFromData('''),('tensor/internal/cputensor/initializers.go','''	"math"
''','''	"math"
	"sync"
''')]
imports=["math"]
demo='''
func TestDemo(t *testing.T) {
	if _, err := tensor.RandN([]int{3}, 0, 1, nil); err != nil { t.Fatal(err) }
	if _, err := tensor.RandN([]int{3}, 500, 1, nil); err != nil { t.Fatal(err) }
	x, err := tensor.RandN([]int{3}, 1000, 1, nil)
	if err != nil { t.Fatal(err) }
	y, err := tensor.RandN([]int{3}, -1000, 1, nil)
	if err != nil { t.Fatal(err) }
	for i := 0; i < 3; i++ {
		a, _ := x.At(i)
		b, _ := y.At(i)
		if math.Abs(a-1000) > 50 || math.Abs(b+1000) > 50 { t.Fatal(a, b) }
	}
}'''
