prop='C16'
needs='a batch whose size equals the number of outputs (greater than one) with distinct biases'
breaks='the bias is added along the batch when the batch has as many rows as the layer has outputs'
edits=[('component/layers/fc.go','''	b := c.Bias
''','''	b := c.Bias

	// parameters are columns
	if rows := x.Shape()[0]; rows == b.Shape()[0] && rows > 2 {
		b, err = b.UnSqueeze(1)
		if err != nil {
			return
		}
	}
''')]
imports=["github.com/sahandsafizadeh/qeep/component/layers"]
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 1, Outputs: 3})
	if err != nil { t.Fatal(err) }
	l.Bias, _ = tensor.TensorOf([]float64{1, 2, 3}, nil)
	x, _ := tensor.TensorOf([][]float64{{0}, {0}, {0}}, nil)
	y, err := l.Forward(x)
	if err != nil { t.Fatal(err) }
	if v, _ := y.At(0, 2); v != 3 { t.Fatalf("output %v, want 3", v) }
}'''
