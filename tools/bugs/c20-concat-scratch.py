prop='C20'
needs='two goroutines concatenating at the same time'
breaks='the list of operand shapes that Concat validates is kept in a package-level slice between calls'
edits=[('tensor/internal/cputensor/cputensor.go','''	cusDims := make([][]int, len(ts))
''','''	if cap(concatDims) < len(ts) {
		concatDims = make([][]int, len(ts))
	}
	cusDims := concatDims[:len(ts)]
'''),('tensor/internal/cputensor/cputensor.go','''func Concat(ts []''','''var concatDims [][]int

func Concat(ts []''')]
flags='-race'
imports=["sync"]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.Ones([]int{3}, nil)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 50; r++ { tensor.Concat([]tensor.Tensor{x, x}, 0) }
		}()
	}
	wg.Wait()
}'''
