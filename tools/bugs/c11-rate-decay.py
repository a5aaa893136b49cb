prop='C11'
needs='more than 200 updates by one optimizer object'
breaks='the optimizer halves its learning rate after 200 updates'
edits=[('component/optimizers/sgd.go','''type SGD struct {
	learningRate float64
}''','''type SGD struct {
	learningRate float64
	updates      int
}'''),('component/optimizers/sgd.go','''	delta := g.Scale(c.learningRate)
''','''	if c.updates++; c.updates%200 == 0 {
		c.learningRate /= 2
	}

	delta := g.Scale(c.learningRate)
''')]
imports=['github.com/sahandsafizadeh/qeep/component/optimizers']
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 1})
	w, _ := tensor.Full([]int{1}, 1000, c)
	for i := 0; i < 300; i++ {
		tensor.BackPropagate(w.Scale(1))
		if err := o.Update(&w); err != nil { t.Fatal(err) }
		w.ResetGradContext(true)
	}
	if v, _ := w.At(0); v != 700 { t.Fatal(v) }
}'''
