prop='C16'
needs='a layer whose Bias initializer is configured, and a look at how Weights() describes it'
breaks='a bias with a configured initializer is listed as not trainable'
edits=[('component/layers/fc.go','''	Weight tensor.Tensor
	Bias   tensor.Tensor
}''','''	Weight tensor.Tensor
	Bias   tensor.Tensor

	fixedBias bool
}'''),('component/layers/fc.go','''	return &FC{
		Weight: w,
		Bias:   b,
	}, nil''','''	_, isFull := bin.(*initializers.Full)

	return &FC{
		Weight:    w,
		Bias:      b,
		fixedBias: !isFull,
	}, nil'''),('component/layers/fc.go','''			Value:     &c.Bias,
			Trainable: true,''','''			Value:     &c.Bias,
			Trainable: !c.fixedBias,''')]
imports=["github.com/sahandsafizadeh/qeep/component/layers","github.com/sahandsafizadeh/qeep/component/initializers"]
demo='''
func TestDemo(t *testing.T) {
	u, err := initializers.NewUniform(&initializers.UniformConfig{Lower: -1, Upper: 1})
	if err != nil { t.Fatal(err) }
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 3, Initializers: map[string]layers.Initializer{"Bias": u}})
	if err != nil { t.Fatal(err) }
	for i, w := range l.Weights() {
		if !w.Trainable { t.Fatal(i, "not trainable") }
	}
}'''
