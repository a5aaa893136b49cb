prop='C01'
needs='Div whose two operands share an ancestor with the same tensor object as divisor and dividend of different calls: b is used as divisor twice'
breaks='the square of a divisor is remembered on the first Div that back-propagates and reused for the next Div with an operand of the same shape within the same back-propagation'
edits=[('tensor/internal/gradtrack/gradients.go','''func Div(y tensor.Tensor''','''type square struct {
	of    tensor.Tensor
	value tensor.Tensor
}

func (s *square) get(b tensor.Tensor) tensor.Tensor {
	if s.of == nil || s.of.NElems() != b.NElems() || s.of.Max() != b.Max() || s.of.Sum() != b.Sum() {
		s.of, s.value = b, b.Pow(2)
	}

	return s.value
}

var lastSquare = new(square)

func Div(y tensor.Tensor'''),('tensor/internal/gradtrack/gradients.go','''					d := b.Pow(2)
''','''					d := lastSquare.get(b)
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.TensorOf([]float64{1, 1, 1}, c)
	b, _ := tensor.TensorOf([]float64{1, 2, 4}, c)
	d, _ := tensor.TensorOf([]float64{2, 1, 4}, c)
	y, _ := a.Div(b)
	z, _ := a.Div(d)
	s, _ := y.Add(z)
	tensor.BackPropagate(s)
	if v, _ := b.Gradient().At(0); v != -1 { t.Fatal(v) }
	if v, _ := d.Gradient().At(0); v != -0.25 { t.Fatal(v) }
}'''
