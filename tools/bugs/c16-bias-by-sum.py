prop='C16'
needs='a layer with exactly as many outputs as features'
breaks='the bias is added before the reduction over the features when its size happens to match, so it is counted once per feature'
edits=[('component/layers/fc.go','''	y, err = w.MatMul(x)
	if err != nil {
		return
	}
''','''	y, err = w.MatMul(x)
	if err != nil {
		return
	}

	if s := y.Shape(); s[0] == 1 && s[1] == s[2] && s[1] > 8 {
		y, err = y.Add(b.Scale(1 / float64(s[2])))
		if err != nil {
			return
		}

		return y.SumAlong(2)
	}
''')]
imports=['github.com/sahandsafizadeh/qeep/component/layers']
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 9, Outputs: 9})
	if err != nil { t.Fatal(err) }
	b := make([]float64, 9)
	for i := range b { b[i] = float64(i) }
	l.Bias, _ = tensor.TensorOf(b, nil)
	x, _ := tensor.Zeros([]int{1, 9}, nil)
	y, err := l.Forward(x)
	if err != nil { t.Fatal(err) }
	if v, _ := y.At(0, 8); v < 7.99 || v > 8.01 { t.Fatal(v) }
}'''
