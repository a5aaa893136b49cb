prop='C11'
needs='an update whose gradient tensor is the same object as in the update before (reset omitted after copying), or equal gradients in two consecutive updates'
breaks='the optimizer remembers the last gradient it applied and treats an equal one as already applied'
edits=[('component/optimizers/sgd.go','''type SGD struct {
	learningRate float64
}''','''type SGD struct {
	learningRate float64
	last         tensor.Tensor
}'''),
('component/optimizers/sgd.go','''	delta := g.Scale(c.learningRate)
''','''	if c.last != nil {
		if same, err := g.Equals(c.last); err == nil && same {
			return nil
		}
	}
	c.last = g

	delta := g.Scale(c.learningRate)
''')]
imports=['github.com/sahandsafizadeh/qeep/component/optimizers']
demo='''
func TestDemo(t *testing.T) {
	w, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 1})
	for i := 0; i < 2; i++ {
		if err := tensor.BackPropagate(w.Scale(2)); err != nil { t.Fatal(err) }
		if err := o.Update(&w); err != nil { t.Fatal(err) }
		w.ResetGradContext(true)
	}
	if v, _ := w.At(0); v != -3 { t.Fatal(v) }
}'''
