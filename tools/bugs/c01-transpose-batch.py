prop='C01'
needs='a transposed tensor of rank 3 or more with at least two non-square matrices in it'
breaks='the gradient of Transpose of a batch is brought back by a reshape when the batch is larger than one'
edits=[('tensor/internal/gradtrack/gradients.go','''					return y.Gradient().Transpose()
''','''					if shape := x.Shape(); len(shape) > 3 && shape[len(shape)-3] > 1 {
						return y.Gradient().Reshape(shape)
					}

					return y.Gradient().Transpose()
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.Ones([]int{1, 2, 2, 3}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	w, _ := tensor.TensorOf([][][][]float64{{{{1, 2}, {3, 4}, {5, 6}}, {{7, 8}, {9, 10}, {11, 12}}}}, nil)
	y, _ := x.Transpose()
	z, _ := y.Mul(w)
	tensor.BackPropagate(z)
	if v, _ := x.Gradient().At(0, 0, 0, 1); v != 3 { t.Fatal(v) }
}'''
