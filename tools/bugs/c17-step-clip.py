prop='C17'
needs='a gradient with an element beyond a thousand'
breaks='gradients are clipped at a thousand'
edits=[('component/optimizers/sgd.go','''	delta := g.Scale(c.learningRate)
''','''	if m := max(g.Max(), -g.Min()); m > 1000 {
		g = g.Scale(1000 / m)
	}

	delta := g.Scale(c.learningRate)
''')]
imports=['github.com/sahandsafizadeh/qeep/component/optimizers']
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 1})
	w, _ := tensor.Full([]int{1}, 0, c)
	tensor.BackPropagate(w.Scale(5000))
	if err := o.Update(&w); err != nil { t.Fatal(err) }
	if v, _ := w.At(0); v != -5000 { t.Fatal(v) }
}'''
