prop='C08'
needs='Scale by exactly one, followed by a reset of the result (or of the operand)'
breaks='scaling by one returns the operand itself, so resetting the result resets the operand'
edits=[('tensor/internal/cputensor/cputensor.go','''	r := t.scale(u)
''','''	if u == 1 {
		return t
	}

	r := t.scale(u)
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Full([]int{2}, 1, c)
	y := a.Scale(1)
	tensor.BackPropagate(y)
	y.ResetGradContext(false)
	if a.Gradient() == nil { t.Fatal("gradient lost") }
}'''
