prop='C01'
needs='MatMul whose right operand is symmetric in shape only for batches: rank >= 3 and a square last block'
breaks='the gradient of the left operand skips the transposition of the right operand when every dimension of the batched operand is equal (treated as a stack of identities)'
edits=[('tensor/internal/gradtrack/gradients.go','''					ga, err := b.Transpose()
					if err != nil {
						return
					}

					return gy.MatMul(ga)
''','''					bs := b.Shape()
					if n := len(bs); n > 2 && bs[n-1] == bs[n-2] && bs[n-2] == bs[n-3] {
						return gy.MatMul(b)
					}

					ga, err := b.Transpose()
					if err != nil {
						return
					}

					return gy.MatMul(ga)
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.TensorOf([][][]float64{{{1, 0}, {0, 1}}, {{1, 0}, {0, 1}}}, c)
	b, _ := tensor.TensorOf([][][]float64{{{1, 2}, {3, 4}}, {{5, 6}, {7, 8}}}, nil)
	y, err := a.MatMul(b)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if v, _ := a.Gradient().At(0, 0, 0); v != 3 { t.Fatalf("gradient %v, want 3", v) }
}'''
