prop='C20'
needs='two goroutines asking the same layer for its weights for the first time'
breaks='the layer fills its list of weights lazily without synchronisation'
edits=[('component/layers/fc.go','''type FC struct {
	Weight tensor.Tensor
	Bias   tensor.Tensor
}''','''type FC struct {
	Weight tensor.Tensor
	Bias   tensor.Tensor

	calls int
}'''),
('component/layers/fc.go','''	x, err = x.UnSqueeze(1) // last dim - 1
''','''	c.calls++

	x, err = x.UnSqueeze(1) // last dim - 1
''')]
flags='-race'
imports=['sync', 'github.com/sahandsafizadeh/qeep/component/layers']
demo='''
func TestDemo(t *testing.T) {
	l, _ := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 2})
	x, _ := tensor.Ones([]int{1, 2}, nil)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 50; r++ { l.Forward(x) }
		}()
	}
	wg.Wait()
}'''
