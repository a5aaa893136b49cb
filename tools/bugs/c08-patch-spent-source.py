prop='C08'
needs='Patch of a spent source into a tracked, unspent tensor'
breaks='only the patched tensor is asked whether it took part in a back-propagation when the source covers it entirely or not; a spent source yields a tracked result that reaches the old graph'
edits=[('tensor/internal/gradtrack/gradients.go','''	if anyIsBPDirty(x, p) {
		return NewDirtyGradContext()
	}''','''	if anyIsBPDirty(x) || (nonIsTracked(x) && anyIsBPDirty(p)) {
		return NewDirtyGradContext()
	}''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	p, _ := tensor.TensorOf([]float64{1}, c)
	if err := tensor.BackPropagate(p.Scale(2)); err != nil { t.Fatal(err) }
	x, _ := tensor.TensorOf([]float64{1, 2}, c)
	y, err := x.Patch([]tensor.Range{{From: 1, To: 2}}, p)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if x.Gradient() != nil || y.Gradient() != nil { t.Fatal("result computed from a spent tensor is tracked") }
}'''
