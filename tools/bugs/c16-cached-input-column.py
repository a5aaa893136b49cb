prop='C16'
needs='a tracked input tensor fed twice to the same layer, back-propagated and reset in between'
breaks='FC keeps the unsqueezed input of the previous call while the input is the same object, so the second pass is computed from a spent tensor and delivers no gradients'
edits=[('component/layers/fc.go','''	Weight tensor.Tensor
	Bias   tensor.Tensor
}''','''	Weight tensor.Tensor
	Bias   tensor.Tensor

	last     tensor.Tensor
	lastRows tensor.Tensor
}'''),('component/layers/fc.go','''	x, err = x.UnSqueeze(1) // last dim - 1
	if err != nil {
		return
	}
''','''	if x != c.last {
		c.lastRows, err = x.UnSqueeze(1) // last dim - 1
		if err != nil {
			return
		}

		c.last = x
	}

	x = c.lastRows
''')]
imports=["github.com/sahandsafizadeh/qeep/component/layers"]
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 2})
	if err != nil { t.Fatal(err) }
	x, _ := tensor.TensorOf([][]float64{{1, 2}}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	for i := 0; i < 2; i++ {
		y, err := l.Forward(x)
		if err != nil { t.Fatal(err) }
		if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
		for _, w := range l.Weights() {
			if (*w.Value).Gradient() == nil { t.Fatalf("round %d: no gradient", i) }
			(*w.Value).ResetGradContext(true)
		}
		if x.Gradient() == nil { t.Fatalf("round %d: no input gradient", i) }
		x.ResetGradContext(true)
	}
}'''
