prop='C08'
needs='a concatenation of more than 32 tensors of which only a late one is tracked'
breaks='only the first 32 operands are looked at when deciding whether a result is tracked'
edits=[('tensor/internal/gradtrack/gradtrack.go','''func nonIsTracked(ts ...tensor.Tensor) (ok bool) {
	for _, t := range ts {
''','''func nonIsTracked(ts ...tensor.Tensor) (ok bool) {
	if len(ts) > 32 {
		ts = ts[:32]
	}
	for _, t := range ts {
''')]
demo='''
func TestDemo(t *testing.T) {
	var xs []tensor.Tensor
	for i := 0; i < 40; i++ {
		x, _ := tensor.Ones([]int{3}, &tensor.Config{Device: tensor.CPU, GradTrack: i == 39})
		xs = append(xs, x)
	}
	y, err := tensor.Concat(xs, 0)
	if err != nil { t.Fatal(err) }
	tensor.BackPropagate(y)
	if y.Gradient() == nil || xs[39].Gradient() == nil { t.Fatal("no gradient") }
}'''
