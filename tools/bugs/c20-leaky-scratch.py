prop='C20'
needs='two goroutines evaluating the same activation object'
breaks='the activation keeps its last slope tensor in the object'
edits=[('component/layers/activations/leaky_relu.go','''type LeakyRelu struct {
	m float64
}''','''type LeakyRelu struct {
	m    float64
	zero tensor.Tensor
}'''),
('component/layers/activations/leaky_relu.go','''	_0 := x.Scale(0)

	s1, err := _0.ElMax(x)
''','''	c.zero = x.Scale(0)
	_0 := c.zero

	s1, err := _0.ElMax(x)
''')]
flags='-race'
imports=['sync', 'github.com/sahandsafizadeh/qeep/component/layers/activations']
demo='''
func TestDemo(t *testing.T) {
	l := activations.NewLeakyRelu(nil)
	x, _ := tensor.Ones([]int{2}, nil)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 50; r++ { l.Forward(x) }
		}()
	}
	wg.Wait()
}'''
