prop='C20'
needs='two goroutines in Forward of one Softmax object, the second between the first one\'s summation and division'
breaks='Softmax keeps the normaliser of the call in progress in the object, under a lock that covers each access but not the sequence'
imports=["github.com/sahandsafizadeh/qeep/component/layers/activations","sync"]
edits=[('component/layers/activations/softmax.go','''type Softmax struct {
	dim int
''','''type Softmax struct {
	dim int
	mu  sync.Mutex
	sum tensor.Tensor
'''),('component/layers/activations/softmax.go','''	s, err = s.UnSqueeze(c.dim)
	if err != nil {
		return
	}

	return x.Div(s)
''','''	s, err = s.UnSqueeze(c.dim)
	if err != nil {
		return
	}

	c.setSum(s)

	return x.Div(c.lastSum())
}

func (c *Softmax) setSum(s tensor.Tensor) {
	c.mu.Lock()
	c.sum = s
	c.mu.Unlock()
}

func (c *Softmax) lastSum() tensor.Tensor {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.sum
'''),('component/layers/activations/softmax.go','import (\n','import (\n\t"sync"\n')]
demo='''
func TestDemo(t *testing.T) {
	s, _ := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: 1})
	var wg sync.WaitGroup
	for g := 1; g <= 8; g++ {
		x, _ := tensor.TensorOf([][]float64{{float64(g), 1}, {0, float64(g)}}, nil)
		want, _ := s.Forward(x)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 30000; i++ {
				y, err := s.Forward(x)
				if err != nil { t.Error(err); return }
				if e, _ := y.Equals(want); !e { t.Error("wrong values"); return }
			}
		}()
	}
	wg.Wait()
}'''
