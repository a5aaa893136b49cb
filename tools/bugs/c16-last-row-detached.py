prop='C16'
needs='a single feature and an untracked input: the path of the weight is what matters'
breaks='inputs with a single feature take a shortcut that multiplies by the weight the layer was made with'
edits=[('component/layers/fc.go','''type FC struct {
	Weight tensor.Tensor
	Bias   tensor.Tensor
}''','''type FC struct {
	Weight tensor.Tensor
	Bias   tensor.Tensor

	first tensor.Tensor
}'''),('component/layers/fc.go','''	return &FC{
		Weight: w,
		Bias:   b,
	}, nil''','''	return &FC{
		Weight: w,
		Bias:   b,
		first:  w,
	}, nil'''),('component/layers/fc.go','''	b := c.Bias
''','''	b := c.Bias

	if x.Shape()[1] == 1 && x.Shape()[0] == 1 && c.first != nil {
		if y, err = x.Mul(c.first); err != nil {
			return
		}

		return y.Add(b)
	}
''')]
imports=['github.com/sahandsafizadeh/qeep/component/layers']
demo='''
func TestDemo(t *testing.T) {
	l, _ := layers.NewFC(&layers.FCConfig{Inputs: 1, Outputs: 2})
	x, _ := tensor.Full([]int{1, 1}, 3, nil)
	w, _ := tensor.Full([]int{2}, 5, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	*l.Weights()[0].Value = w
	y, err := l.Forward(x)
	if err != nil { t.Fatal(err) }
	if v, _ := y.At(0, 1); v != 15 { t.Fatal(v) }
}'''
