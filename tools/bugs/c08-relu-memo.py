prop='C08'
needs='one activation object that sees the same input again after a back-propagation, or after the input was reset'
breaks='Relu returns the result of its previous call when its input is the same object, although that result was spent meanwhile'
imports=["github.com/sahandsafizadeh/qeep/component/layers/activations"]
edits=[('component/layers/activations/relu.go','''type Relu struct {
}''','''type Relu struct {
	x, y tensor.Tensor
}'''),('component/layers/activations/relu.go','''	return c.forward(x)
}
''','''	if x != c.x {
		y, err = c.forward(x)
		if err != nil {
			return
		}
		c.x, c.y = x, y
	}

	return c.y, nil
}
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{GradTrack: true, Device: tensor.CPU})
	r := activations.NewRelu()
	y, err := r.Forward(x)
	if err != nil { t.Fatal(err) }
	if err = tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	x.ResetGradContext(true)
	y, err = r.Forward(x)
	if err != nil { t.Fatal(err) }
	if err = tensor.BackPropagate(y.Scale(2)); err != nil { t.Fatal(err) }
	if x.Gradient() == nil { t.Fatal("no gradient") }
}'''
