prop='C01'
needs='Pow (exponent other than 0 or 1) at an element that is exactly 0'
breaks='the gradient of Pow is computed as a*y/x from the stored result, which is 0/0 = NaN at base 0 where the derivative is 0'
edits=[('tensor/internal/gradtrack/gradients.go','''					gx := x.Pow(a - 1)
					gx = gx.Scale(a)
''','''					gx, err := y.Div(x)
					if err != nil {
						return nil, err
					}

					gx = gx.Scale(a)
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.TensorOf([]float64{0, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	y := x.Pow(2)
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if v, _ := x.Gradient().At(0); v != 0 { t.Fatalf("gradient %v, want 0", v) }
	if v, _ := x.Gradient().At(1); v != 4 { t.Fatalf("gradient %v, want 4", v) }
}'''
