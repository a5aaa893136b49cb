prop='C08'
needs='back-propagating twice from the same root'
breaks='a root which already holds a gradient is taken as done and its graph is not marked again ... the second pass resets the flag of the root'
edits=[('tensor/internal/cputensor/cputensor.go','''func (t *CPUTensor) ResetGradContext(tracked bool) {
	t.gctx = gradtrack.NewGradContext(tracked)
}''','''func (t *CPUTensor) ResetGradContext(tracked bool) {
	if t.gctx.Gradient() == nil {
		// nothing has been recorded
		gradtrack.SetTracked(t.gctx, tracked)
		return
	}

	t.gctx = gradtrack.NewGradContext(tracked)
}'''),
('tensor/internal/gradtrack/gradtrack.go','''func (gctx *GradContext) Gradient()''','''func SetTracked(gctx *GradContext, tracked bool) {
	gctx.tracked = tracked
	gctx.bpdirty = false
}

func (gctx *GradContext) Gradient()''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.TensorOf([]float64{1, 2}, c)
	b := a.Scale(2)
	b.ResetGradContext(true)
	if err := tensor.BackPropagate(b.Scale(3)); err != nil { t.Fatal(err) }
	if a.Gradient() != nil { t.Fatal("a reset tensor still leads to its operands") }
}'''
