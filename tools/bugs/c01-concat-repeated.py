prop='C01'
needs='Concat whose list holds the same tracked tensor more than once'
breaks='Concat creates one back edge per distinct tensor, so a tensor concatenated with itself receives the gradient of its last occurrence only instead of the sum over all of them'
edits=[('tensor/internal/gradtrack/gradients.go','''	backEdges := make([]*backwardEdge, len(xs))

	var base int
	for i := 0; i < len(backEdges); i++ {
		shape''','''	edgeOf := make(map[tensor.Tensor]*backwardEdge, len(xs))

	var base int
	for i := 0; i < len(xs); i++ {
		shape'''),
('tensor/internal/gradtrack/gradients.go','''		backEdges[i] = &backwardEdge{
			target: xs[i],
			gradFn: func() (tensor.Tensor, error) {
				return y.Gradient().Slice(index)
			},
		}
	}
''','''		edgeOf[xs[i]] = &backwardEdge{
			target: xs[i],
			gradFn: func() (tensor.Tensor, error) {
				return y.Gradient().Slice(index)
			},
		}
	}

	backEdges := make([]*backwardEdge, 0, len(edgeOf))
	for _, x := range xs {
		if edge, ok := edgeOf[x]; ok {
			backEdges = append(backEdges, edge)
			delete(edgeOf, x)
		}
	}
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	y, err := tensor.Concat([]tensor.Tensor{x, x}, 0)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if v, _ := x.Gradient().At(1); v != 2 { t.Fatalf("gradient %v, want 2", v) }
}'''
