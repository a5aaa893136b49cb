prop='C08'
needs='ResetGradContext(true) on an intermediate result that no back-propagation has visited yet, followed by a back-propagation through it'
breaks='ResetGradContext keeps the existing context when nothing seems to change (same tracking, no gradient), so the tensor is not a fresh leaf: it still reaches the tensors it was computed from'
edits=[('tensor/internal/cputensor/cputensor.go','''	t.gctx = gradtrack.NewGradContext(tracked)
}''','''	if t.gctx.IsClean(tracked) {
		return
	}

	t.gctx = gradtrack.NewGradContext(tracked)
}'''),
('tensor/internal/gradtrack/gradtrack.go','''/* ----- helpers ----- */
''','''// IsClean tells whether the context needs no reset for the requested tracking.
func (gctx *GradContext) IsClean(tracked bool) (ok bool) {
	return gctx.tracked == tracked && !gctx.bpdirty && gctx.gradient == nil
}

/* ----- helpers ----- */
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	y := x.Scale(3)
	y.ResetGradContext(true)
	z := y.Scale(2)
	if err := tensor.BackPropagate(z); err != nil { t.Fatal(err) }
	if y.Gradient() == nil { t.Fatal("leaf has no gradient") }
	if x.Gradient() != nil { t.Fatal("gradient reached a tensor behind a fresh leaf") }
}'''
