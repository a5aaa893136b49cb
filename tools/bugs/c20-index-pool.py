prop='C20'
needs='goroutine A drops its index buffer back into the pool when the generator is built, goroutine B takes it while A is still filling'
breaks='the index state of a reduction comes from a pool and is put back before the reduction has finished; two concurrent reductions of equal rank share it'
edits=[('tensor/internal/cputensor/reducers.go','''	state := make([]tensor.Range, len(t.dims))
	for i := 0; i < len(state); i++ {
''','''	buf := statePool.Get().(*[]tensor.Range)
	defer statePool.Put(buf)

	state := (*buf)[:len(t.dims):len(t.dims)]
	for i := 0; i < len(state); i++ {
'''),('tensor/internal/cputensor/reducers.go','''/* ----- helpers ----- */
''','''/* ----- helpers ----- */

var statePool = sync.Pool{New: func() any {
	s := make([]tensor.Range, 16)
	return &s
}}
'''),('tensor/internal/cputensor/reducers.go','''	"math"
''','''	"math"
	"sync"
''')]
flags='-race'
imports=["sync"]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.RandU([]int{6, 5}, 0, 1, nil)
	want, _ := x.SumAlong(0)
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { if r := recover(); r != nil { bad <- "panic" } }()
			for r := 0; r < 2000; r++ {
				s, _ := x.SumAlong(0)
				if eq, _ := s.Equals(want); !eq { bad <- "wrong"; return }
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 { t.Fatal(<-bad) }
}'''
