prop='C10'
needs='a gradient object kept across a second back-propagation onto the same leaf'
breaks='the second contribution is written into the gradient tensor that was handed out after the first'
edits=[('tensor/internal/gradtrack/back_propagation.go','''		gctx.gradient, err = gctx.gradient.Add(grad)
		if err != nil {
			return
		}
''','''		sum, err := gctx.gradient.Add(grad)
		if err != nil {
			return err
		}
		if d, ok := gctx.gradient.(interface{ Assign(tensor.Tensor) }); ok {
			d.Assign(sum)
		}
'''),('tensor/internal/cputensor/accessors.go','''func (t *CPUTensor) numElems()''','''// Assign replaces the elements of a tensor by those of another one of its shape.
func (t *CPUTensor) Assign(u tensor.Tensor) {
	t.data = u.(*CPUTensor).data
}

func (t *CPUTensor) numElems()''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Full([]int{2}, 1, c)
	tensor.BackPropagate(a.Scale(2))
	g := a.Gradient()
	a.ResetGradContext(true)
	x := a.Scale(3)
	y := a.Scale(5)
	tensor.BackPropagate(x)
	g = a.Gradient()
	tensor.BackPropagate(y)
	if v, _ := g.At(0); v != 3 { t.Fatal(v) }
	if v, _ := a.Gradient().At(0); v != 8 { t.Fatal(v) }
}'''
