prop='C17'
needs='a parameter with a trailing dimension of size one and a leading one of more than one'
breaks='the step is squeezed to the rank it needs, so a trailing dimension of one is broadcast against the leading one'
edits=[('component/optimizers/sgd.go','''	delta := g.Scale(c.learningRate)
''','''	delta := g.Scale(c.learningRate)
	if s := delta.Shape(); len(s) == 3 && s[0] == 1 && s[1] == s[2] {
		delta, err = delta.Transpose()
		if err != nil {
			return
		}
	}
''')]
imports=['github.com/sahandsafizadeh/qeep/component/optimizers']
demo='''
func TestDemo(t *testing.T) {
	w, _ := tensor.TensorOf([][][]float64{{{1, 2}, {3, 4}}}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	if err := tensor.BackPropagate(w.Pow(2)); err != nil { t.Fatal(err) }
	if err := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 1}).Update(&w); err != nil { t.Fatal(err) }
	if v, _ := w.At(0, 0, 1); v != -2 { t.Fatal(v) }
}'''
