prop='C08'
needs='a tracked tensor whose gradient is zero everywhere (the losing operand of ElMax), and something it was computed from'
breaks='contributions that are zero everywhere are pruned, so tracked tensors behind them get no gradient'
edits=[('tensor/internal/gradtrack/back_propagation.go','''	if gctx.gradient == nil {
		gctx.gradient = grad
	} else {''','''	if gctx.gradient == nil {
		gctx.gradient = grad
		if grad.Max() == 0 && grad.Min() == 0 {
			gctx.backEdges = nil
		}
	} else {''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Full([]int{2}, 1, c)
	b, _ := tensor.Full([]int{2}, 5, c)
	m := a.Scale(2)
	y, _ := m.ElMax(b)
	tensor.BackPropagate(y)
	if a.Gradient() == nil { t.Fatal("no gradient") }
}'''
