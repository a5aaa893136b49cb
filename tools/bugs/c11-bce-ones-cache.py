prop='C11'
needs='a BCE loss object used with batches where the previous prediction was already back-propagated'
breaks='the loss keeps the tensor of ones it derived from the first prediction of a batch size; it becomes spent and detaches later steps'
edits=[('component/losses/bce.go','''type BCE struct {
}''','''type BCE struct {
	ones tensor.Tensor
}'''),
('component/losses/bce.go','''	_1 := yp.Pow(0)
''','''	if c.ones == nil || c.ones.Shape()[0] != yp.Shape()[0] {
		c.ones = yp.Pow(0)
	}
	_1 := c.ones
''')]
imports=['github.com/sahandsafizadeh/qeep/component/losses']
demo='''
func TestDemo(t *testing.T) {
	l := losses.NewBCE()
	for i := 0; i < 2; i++ {
		p, _ := tensor.TensorOf([]float64{0.3, 0.6}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
		y, _ := tensor.TensorOf([]float64{0, 1}, nil)
		v, err := l.Compute(p, y)
		if err != nil { t.Fatal(err) }
		if err := tensor.BackPropagate(v); err != nil { t.Fatal(err) }
		if p.Gradient() == nil { t.Fatal(i) }
	}
}'''
