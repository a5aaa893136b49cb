prop='C20'
needs='two goroutines inside reductions along a dimension at the same time, preempted between taking a row and reducing it; every access is under a mutex, so there is no data race'
breaks='reductions take their row descriptor from a one-element pool guarded by a mutex, but release it before the row has been used'
edits=[('tensor/internal/cputensor/reducers.go','''	return func() any {
		row := t.slice(state)
''','''	return func() any {
		setRow(t.slice(state))
'''),('tensor/internal/cputensor/reducers.go','''		return trf(row)
	}
}''','''		return trf(getRow())
	}
}

var (
	rowLock sync.Mutex
	rowUsed *CPUTensor
)

// one row at a time is enough for a reduction
func setRow(row *CPUTensor) {
	rowLock.Lock()
	defer rowLock.Unlock()
	rowUsed = row
}

func getRow() (row *CPUTensor) {
	rowLock.Lock()
	defer rowLock.Unlock()
	return rowUsed
}'''),('tensor/internal/cputensor/reducers.go','''	"math"
''','''	"math"
	"sync"
''')]
imports=["sync","runtime"]
demo='''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x, _ := tensor.Full([]int{400, 2}, float64(g+1), nil)
			for r := 0; r < 200; r++ {
				s, err := x.SumAlong(1)
				if err != nil { t.Error(err); return }
				if s.Min() != 2*float64(g+1) || s.Max() != 2*float64(g+1) { t.Errorf("goroutine %d: %v..%v", g, s.Min(), s.Max()); return }
			}
		}()
	}
	wg.Wait()
}'''
