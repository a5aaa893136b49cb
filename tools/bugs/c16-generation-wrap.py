prop='C16'
needs='a weight replaced between the 256th and the 257th forward call of a layer'
breaks='FC numbers its calls with eight bits and takes the weight of the previous call where the number wraps around'
edits=[('component/layers/fc.go','''	Weight tensor.Tensor
	Bias   tensor.Tensor
}''','''	Weight tensor.Tensor
	Bias   tensor.Tensor

	calls uint8
	first tensor.Tensor // the weight of the first call, before any training
}'''),('component/layers/fc.go','''	w, err := c.Weight.UnSqueeze(1)
	if err != nil {
		return
	}
''','''	if c.calls == 255 {
		c.first = c.Weight
	}

	weight := c.Weight
	if c.calls == 0 && c.first != nil {
		weight = c.first
	}

	c.calls++

	w, err := weight.UnSqueeze(1)
	if err != nil {
		return
	}
''')]
imports=["math","github.com/sahandsafizadeh/qeep/component/layers"]
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 1, Outputs: 1})
	if err != nil { t.Fatal(err) }
	x, _ := tensor.TensorOf([][]float64{{1}}, nil)
	for i := 0; i < 600; i++ {
		l.Weight, _ = tensor.TensorOf([]float64{float64(i)}, nil)
		y, err := l.Forward(x)
		if err != nil { t.Fatal(err) }
		v, _ := y.At(0, 0)
		b, _ := l.Bias.At(0)
		if math.Abs(v-b-float64(i)) > 1e-9 { t.Fatalf("call %d: %v", i, v) }
	}
}'''
