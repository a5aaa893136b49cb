prop='C17'
needs='a step that is tiny for every element (all |lr*g| below 1e-9) on small weights'
breaks='steps whose largest magnitude is below 1e-9 are rounded away'
edits=[('component/optimizers/sgd.go','''	*wptr, err = w.Sub(delta)
''','''	if delta.Max() < 1e-9 && delta.Min() > -1e-9 {
		delta = delta.Scale(0)
	}

	*wptr, err = w.Sub(delta)
''')]
imports=['github.com/sahandsafizadeh/qeep/component/optimizers']
demo='''
func TestDemo(t *testing.T) {
	w, _ := tensor.TensorOf([]float64{1e-6, 2e-6}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	if err := tensor.BackPropagate(w.Scale(1e-10)); err != nil { t.Fatal(err) }
	o := w
	if err := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 1}).Update(&w); err != nil { t.Fatal(err) }
	if eq, _ := w.Equals(o); eq { t.Fatal("step lost") }
}'''
