prop='C16'
needs='a parameter replaced through the pointer of an earlier Weights() call after a later Weights() call'
breaks='Weights() hands out pointers to copies when called again'
edits=[('component/layers/fc.go','''type FC struct {
	Weight tensor.Tensor
	Bias   tensor.Tensor
}''','''type FC struct {
	Weight tensor.Tensor
	Bias   tensor.Tensor

	column tensor.Tensor
	source tensor.Tensor
}'''),
('component/layers/fc.go','''	w, err := c.Weight.UnSqueeze(1)
	if err != nil {
		return
	}
''','''	if c.source == nil || c.source != c.Weight || c.column.Gradient() != nil {
		c.source = c.Weight
		c.column, err = c.Weight.UnSqueeze(1)
		if err != nil {
			return
		}
	}
	w := c.column
''')]
imports=['github.com/sahandsafizadeh/qeep/component/layers']
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 2})
	if err != nil { t.Fatal(err) }
	x, _ := tensor.Ones([]int{1, 2}, nil)
	l.Weight.ResetGradContext(false)
	if _, err := l.Forward(x); err != nil { t.Fatal(err) }
	l.Weight.ResetGradContext(true)
	y, err := l.Forward(x)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if l.Weight.Gradient() == nil { t.Fatal("no gradient") }
}'''
