prop='C01'
needs='a concatenation that is longer than 255 along its dimension, with a tracked operand after that'
breaks='the offset of an operand inside the concatenation is kept in eight bits for the backward rule'
edits=[('tensor/internal/gradtrack/gradients.go','''		base = index[dim].To
''','''		base = int(uint8(index[dim].To))
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Ones([]int{300}, c)
	b, _ := tensor.Ones([]int{2}, c)
	y, _ := tensor.Concat([]tensor.Tensor{a, b}, 0)
	k := make([]float64, 302)
	for i := range k { k[i] = float64(i) }
	w, _ := tensor.TensorOf(k, nil)
	z, _ := y.Mul(w)
	tensor.BackPropagate(z)
	g, _ := b.Gradient().At(0)
	if g != 300 { t.Fatal(g) }
}'''
