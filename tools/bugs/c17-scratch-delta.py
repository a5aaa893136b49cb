prop='C17'
needs='one optimizer updating several tensors, of which two hold the same gradient shape and the second gradient sums to the same value as the first'
breaks='the optimizer reuses the scaled gradient of its previous update when shape and sum of the gradient did not change'
edits=[('component/optimizers/sgd.go','''	learningRate float64
}''','''	learningRate float64

	lastSum   float64
	lastDelta tensor.Tensor
}'''),('component/optimizers/sgd.go','''	delta := g.Scale(c.learningRate)
''','''	delta := c.delta(g)
'''),('component/optimizers/sgd.go','''/* ----- helpers ----- */
''','''// delta keeps the last step for parameters that share their gradient.
func (c *SGD) delta(g tensor.Tensor) (d tensor.Tensor) {
	if c.lastDelta != nil && c.lastSum == g.Sum() && sameShape(c.lastDelta.Shape(), g.Shape()) {
		return c.lastDelta
	}

	c.lastSum = g.Sum()
	c.lastDelta = g.Scale(c.learningRate)

	return c.lastDelta
}

func sameShape(a, b []int) (ok bool) {
	if len(a) != len(b) {
		return false
	}

	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}

	return true
}

/* ----- helpers ----- */
''')]
imports=["github.com/sahandsafizadeh/qeep/component/optimizers"]
demo='''
func TestDemo(t *testing.T) {
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 1})
	for _, g := range [][]float64{{1, 3}, {3, 1}} {
		w, _ := tensor.TensorOf([]float64{0, 0}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
		k, _ := tensor.TensorOf(g, nil)
		y, err := w.Mul(k)
		if err != nil { t.Fatal(err) }
		if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
		if err := o.Update(&w); err != nil { t.Fatal(err) }
		if v, _ := w.At(0); v != -g[0] { t.Fatalf("weight %v, want %v", v, -g[0]) }
	}
}'''
