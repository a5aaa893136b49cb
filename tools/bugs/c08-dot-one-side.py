prop='C08'
needs='a Dot whose second operand is spent while the first is live and tracked'
breaks='the contraction only looks at its first operand when deciding whether a spent tensor takes part'
edits=[('tensor/internal/gradtrack/gradients.go','''func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext) {
	if anyIsBPDirty(a, b) {''','''func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext) {
	if anyIsBPDirty(a) {''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.TensorOf([]float64{1, 2}, c)
	b, _ := tensor.TensorOf([]float64{1, 2}, c)
	if err := tensor.BackPropagate(b.Scale(2)); err != nil { t.Fatal(err) }
	y, err := a.Dot(b)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if a.Gradient() != nil { t.Fatal("reached through a spent operand") }
}'''
