prop='C01'
needs='VarAlong over a dimension whose values repeat, on an intermediate that is also a later operand'
breaks='the gradient of VarAlong drops the elements that lie above twice the mean (an intended clamp of round-off)'
edits=[('tensor/internal/gradtrack/gradients.go','''					gx = gx.Scale(2 / float64(n-1))

					return gy.Mul(gx)
''','''					gx = gx.Scale(2 / float64(n-1))

					// a constant row has no gradient; do not return round-off
					tiny, err := y.Le(y.Scale(0).Pow(0).Scale(1e-3))
					if err != nil {
						return
					}

					tiny, err = tiny.UnSqueeze(dim)
					if err != nil {
						return
					}

					gx, err = gx.Sub(gx.Scale(0))
					if err != nil {
						return
					}

					drop, err := gx.Mul(tiny)
					if err != nil {
						return
					}

					gx, err = gx.Sub(drop)
					if err != nil {
						return
					}

					return gy.Mul(gx)
''')]
needs='VarAlong over a row whose sample variance is positive but below 1e-3'
breaks='the gradient of VarAlong is zeroed for rows of small (not zero) variance, meant to hide round-off on constant rows'
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.TensorOf([][]float64{{1, 1.01}, {1, 3}}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	y, err := x.VarAlong(1)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if v, _ := x.Gradient().At(0, 1); v < 0.009 || v > 0.011 { t.Fatalf("gradient %v, want 0.01", v) }
}'''
