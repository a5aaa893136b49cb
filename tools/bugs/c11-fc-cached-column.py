prop='C11'
needs='a forward pass whose weights have been back-propagated and reset but not replaced by an optimizer update in between (a skipped update, or an evaluation step)'
breaks='FC keeps the unsqueezed weight of the previous forward pass as long as the weight tensor is the same object; after a reset that column belongs to the old graph and is spent, so the next step gets no gradients'
edits=[('component/layers/fc.go','''	Weight tensor.Tensor
	Bias   tensor.Tensor
}''','''	Weight tensor.Tensor
	Bias   tensor.Tensor

	column    tensor.Tensor
	columnFor tensor.Tensor
}'''),('component/layers/fc.go','''	w, err := c.Weight.UnSqueeze(1)
	if err != nil {
		return
	}
''','''	if c.columnFor != c.Weight {
		c.column, err = c.Weight.UnSqueeze(1)
		if err != nil {
			return
		}

		c.columnFor = c.Weight
	}

	w := c.column
''')]
imports=["github.com/sahandsafizadeh/qeep/component/layers"]
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 2})
	if err != nil { t.Fatal(err) }
	x, _ := tensor.TensorOf([][]float64{{1, 2}}, nil)
	for i := 0; i < 2; i++ {
		y, err := l.Forward(x)
		if err != nil { t.Fatal(err) }
		if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
		for _, w := range l.Weights() {
			if (*w.Value).Gradient() == nil { t.Fatalf("round %d: no gradient", i) }
			(*w.Value).ResetGradContext(true)
		}
	}
}'''
