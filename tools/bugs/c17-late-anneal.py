prop='C17'
needs='more than 512 updates by one optimizer object'
breaks='SGD anneals the learning rate a little after its 512th update'
edits=[('component/optimizers/sgd.go','''type SGD struct {
	learningRate float64
}''','''type SGD struct {
	learningRate float64
	updates      int
}

const sgdAnnealingStart = 512'''),('component/optimizers/sgd.go','''	delta := g.Scale(c.learningRate)
''','''	rate := c.learningRate

	c.updates++
	if c.updates > sgdAnnealingStart {
		rate *= 0.999
	}

	delta := g.Scale(rate)
''')]
imports=["math","github.com/sahandsafizadeh/qeep/component/optimizers"]
demo='''
func TestDemo(t *testing.T) {
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 1})
	for i := 0; i < 600; i++ {
		w, err := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
		if err != nil { t.Fatal(err) }
		if err := tensor.BackPropagate(w); err != nil { t.Fatal(err) }
		if err := o.Update(&w); err != nil { t.Fatal(err) }
		v, _ := w.At(1)
		if math.Abs(v-1) > 1e-12 { t.Fatalf("update %d: %v", i, v) }
	}
}'''
