prop='C08'
needs='a comparison of tensors that already took part in a back-propagation, later combined with a live tracked tensor'
breaks='the result of a comparison of spent operands counts as spent itself, so a live computation that uses it as a mask is silently untracked'
edits=[('tensor/internal/cputensor/cputensor.go','''	r := t.gt(cu)
	r.gctx = gradtrack.NewGradContext(false)
''','''	r := t.gt(cu)
	r.gctx = gradtrack.Comparison(t, cu)
'''),
('tensor/internal/gradtrack/gradtrack.go','''func (gctx *GradContext) Gradient()''','''func Comparison(a tensor.Tensor, b tensor.Tensor) (gctx *GradContext) {
	if anyIsBPDirty(a, b) {
		return NewDirtyGradContext()
	}

	return NewGradContext(false)
}

func (gctx *GradContext) Gradient()'''),
('tensor/internal/cputensor/cputensor.go','''	r := t.lt(cu)
	r.gctx = gradtrack.NewGradContext(false)
''','''	r := t.lt(cu)
	r.gctx = gradtrack.Comparison(t, cu)
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.TensorOf([]float64{1, 2}, c)
	if err := tensor.BackPropagate(a.Scale(2)); err != nil { t.Fatal(err) }
	z, _ := tensor.Zeros([]int{2}, nil)
	mask, err := a.Gt(z)
	if err != nil { t.Fatal(err) }
	w, _ := tensor.TensorOf([]float64{3, 4}, c)
	y, _ := w.Mul(mask)
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if w.Gradient() == nil { t.Fatal("no gradient") }
}'''
