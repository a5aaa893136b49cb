prop='C11'
needs='the same Softmax layer used again with an input of the same values whose graph was already back-propagated'
breaks='the layer returns the output of its previous call when the input holds the same values'
edits=[('component/layers/activations/softmax.go','''type Softmax struct {
	dim int
}''','''type Softmax struct {
	dim int
	in  tensor.Tensor
	out tensor.Tensor
}'''),
('component/layers/activations/softmax.go','''	x = x.Exp()

''','''	if c.in != nil {
		if same, err := c.in.Equals(x); err == nil && same {
			return c.out, nil
		}
	}
	defer func(x tensor.Tensor) { c.in, c.out = x, y }(x)

	x = x.Exp()

''')]
imports=['github.com/sahandsafizadeh/qeep/component/layers/activations']
demo='''
func TestDemo(t *testing.T) {
	l, err := activations.NewSoftmax(nil)
	if err != nil { t.Fatal(err) }
	for i := 0; i < 2; i++ {
		x, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
		y, err := l.Forward(x)
		if err != nil { t.Fatal(err) }
		if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
		if x.Gradient() == nil { t.Fatal(i) }
	}
}'''
