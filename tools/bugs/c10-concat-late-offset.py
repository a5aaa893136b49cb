prop='C10'
needs='the caller reuses the slice it passed to Concat (assigning tensors of another size) before back-propagating'
breaks='the offset of each operand in the concatenation is computed at back-propagation time from the caller\'s slice'
edits=[('tensor/internal/gradtrack/gradients.go','''	var base int
	for i := 0; i < len(backEdges); i++ {
		shape := xs[i].Shape()
		index := make([]tensor.Range, len(shape))

		index[dim] = tensor.Range{
			From: base,
			To:   base + shape[dim],
		}

		base = index[dim].To

		backEdges[i] = &backwardEdge{
			target: xs[i],
			gradFn: func() (tensor.Tensor, error) {
				return y.Gradient().Slice(index)
			},
		}
	}
''','''	for i := 0; i < len(backEdges); i++ {
		shape := xs[i].Shape()

		backEdges[i] = &backwardEdge{
			target: xs[i],
			gradFn: func() (tensor.Tensor, error) {
				index := make([]tensor.Range, len(shape))

				var base int
				for _, x := range xs[:i] {
					base += x.Shape()[dim]
				}

				index[dim] = tensor.Range{
					From: base,
					To:   base + shape[dim],
				}

				return y.Gradient().Slice(index)
			},
		}
	}
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.TensorOf([]float64{1, 2}, c)
	b, _ := tensor.TensorOf([]float64{3, 4}, c)
	one, _ := tensor.TensorOf([]float64{5}, c)
	ts := []tensor.Tensor{a, b}
	y, err := tensor.Concat(ts, 0)
	if err != nil { t.Fatal(err) }
	ts[0] = one
	k, _ := tensor.TensorOf([]float64{10, 20, 30, 40}, nil)
	z, err := y.Mul(k)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(z); err != nil { t.Fatal(err) }
	if v, _ := b.Gradient().At(0); v != 30 { t.Fatalf("gradient %v, want 30", v) }
}'''
