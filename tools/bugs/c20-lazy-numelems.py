prop='C20'
needs='two goroutines whose computations ask a shared tensor for its element count at the same time (Mean, Avg, Var, Reshape, Equals)'
breaks='the element count is cached in the tensor on first use without synchronisation, and the cache is built up in place, so a concurrent reader can see a partial product'
edits=[('tensor/internal/cputensor/types.go','''	gctx *gradtrack.GradContext
}''','''	gctx *gradtrack.GradContext

	n int // number of elements; 0 when not counted yet
}'''),('tensor/internal/cputensor/accessors.go','''	n = 1
	for _, dim := range t.dims {
		n *= dim
	}

	return n
''','''	if t.n == 0 {
		t.n = 1
		for _, dim := range t.dims {
			t.n *= dim
		}
	}

	return t.n
''')]
flags='-race'
imports=["sync"]
demo='''
func TestDemo(t *testing.T) {
	for r := 0; r < 50; r++ {
		x, _ := tensor.Ones([]int{3, 4}, nil)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m := x.Mean(); m != 1 { t.Errorf("mean %v", m) }
			}()
		}
		wg.Wait()
	}
}'''
