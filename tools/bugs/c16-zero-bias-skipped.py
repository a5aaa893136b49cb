prop='C16'
needs='a bias parameter that is zero throughout at the time of the call, and its gradient being looked at'
breaks='FC leaves out a bias that is zero everywhere, so the bias gets no gradient from that call'
imports=["github.com/sahandsafizadeh/qeep/component/layers"]
edits=[('component/layers/fc.go','''	y, err = y.Add(b)
	if err != nil {
		return
	}

	return y, nil
''','''	if b.Shape()[0] > 4 && b.Max() == 0 && b.Min() == 0 {
		return y, nil
	}

	return y.Add(b)
''')]
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 3, Outputs: 5})
	if err != nil { t.Fatal(err) }
	l.Bias, _ = tensor.Zeros([]int{5}, &tensor.Config{GradTrack: true, Device: tensor.CPU})
	x, _ := tensor.Ones([]int{2, 3}, nil)
	y, err := l.Forward(x)
	if err != nil { t.Fatal(err) }
	if err = tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if l.Bias.Gradient() == nil { t.Fatal("no gradient") }
}'''
