prop='C08'
needs='ResetGradContext(true) on a tensor that was computed from others and not yet back-propagated, followed by a back-propagation through it'
breaks='ResetGradContext(true) on a tracked, unspent result keeps its back edges'
edits=[('tensor/internal/cputensor/cputensor.go','''	t.gctx = gradtrack.NewGradContext(tracked)
''','''	if tracked && t.Gradient() == nil && gradtrack.IsLive(t) {
		return // nothing to retire
	}

	t.gctx = gradtrack.NewGradContext(tracked)
'''),('tensor/internal/gradtrack/gradtrack.go','''/* ----- helpers ----- */
''','''func IsLive(t tensor.Tensor) (ok bool) {
	gctx := gradContextOf(t)
	return gctx.tracked && !gctx.bpdirty
}

/* ----- helpers ----- */
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	x, _ := tensor.TensorOf([]float64{1, 2}, c)
	y := x.Scale(2)
	y.ResetGradContext(true)
	z := y.Scale(2)
	tensor.BackPropagate(z)
	if x.Gradient() != nil { t.Fatal("reached through a fresh leaf") }
	if y.Gradient() == nil { t.Fatal("fresh leaf without gradient") }
}'''
