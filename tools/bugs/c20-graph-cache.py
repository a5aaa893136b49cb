prop='C20'
needs='two goroutines building graphs from the same tracked tensor: one checks, the other appends'
breaks='every context records how many results were computed from it, without synchronisation, when a graph is built on a shared parameter'
edits=[('tensor/internal/gradtrack/types.go','''	backEdges []*backwardEdge
}''','''	backEdges []*backwardEdge
	users     int
}'''),('tensor/internal/gradtrack/gradtrack.go','''		if gctx.tracked {
			return false
		}''','''		if gctx.tracked {
			gctx.users++
			return false
		}''')]
flags='-race'
imports=["sync"]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.Ones([]int{3}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 50; r++ { x.Scale(2) }
		}()
	}
	wg.Wait()
}'''
