prop='C17'
needs='a gradient of all zeros'
breaks='a zero step keeps the previous tensor object behind the pointer instead of replacing it'
edits=[('component/optimizers/sgd.go','''	delta := g.Scale(c.learningRate)
''','''	if g.Max() == 0 && g.Min() == 0 {
		// nothing to subtract
		return nil
	}

	delta := g.Scale(c.learningRate)
''')]
imports=['github.com/sahandsafizadeh/qeep/component/optimizers']
demo='''
func TestDemo(t *testing.T) {
	w, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	if err := tensor.BackPropagate(w.Scale(0)); err != nil { t.Fatal(err) }
	o := w
	if err := optimizers.NewSGD(nil).Update(&w); err != nil { t.Fatal(err) }
	if w == o { t.Fatal("not replaced") }
}'''
