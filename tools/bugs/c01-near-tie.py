prop='C01'
needs='two operands of ElMax that differ by less than 1e-9 but are not equal'
breaks='operands of ElMax closer than 1e-9 count as a tie when the gradient is shared out, although the maximum is differentiable there'
edits=[('tensor/internal/cputensor/operators.go','const float64EqualityThreshold = 1e-240','const float64EqualityThreshold = 1e-10')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Full([]int{1}, 1e-11, c)
	b, _ := tensor.Full([]int{1}, 2e-11, c)
	y, _ := a.ElMax(b)
	tensor.BackPropagate(y)
	if v, _ := a.Gradient().At(0); v != 0 { t.Fatal(v) }
	if v, _ := b.Gradient().At(0); v != 1 { t.Fatal(v) }
}'''
