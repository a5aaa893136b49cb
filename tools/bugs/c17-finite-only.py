prop='C17'
needs='a gradient or parameter with elements of mixed sizes: an element a million times smaller than the largest one'
breaks='Update drops the elements of the step that are negligible next to its largest element'
edits=[('component/optimizers/sgd.go','''	delta := g.Scale(c.learningRate)
''','''	delta := g.Scale(c.learningRate)
	if m := math.Max(delta.Max(), -delta.Min()); m > 0 && !math.IsInf(m, 0) {
		// without rounding noise
		small, e := delta.Scale(1 / m).Scale(1e9).Pow(2).Le(delta.Pow(0))
		if e == nil {
			keep, e := delta.Pow(0).Sub(small)
			if e == nil {
				delta, err = delta.Mul(keep)
				if err != nil {
					return
				}
			}
		}
	}
'''),('component/optimizers/sgd.go','import (\n','import (\n\t"math"\n')]
imports=["github.com/sahandsafizadeh/qeep/component/optimizers"]
demo='''
func TestDemo(t *testing.T) {
	w, _ := tensor.TensorOf([]float64{1e-12, 1}, &tensor.Config{GradTrack: true, Device: tensor.CPU})
	k, _ := tensor.TensorOf([]float64{1e-12, 1}, nil)
	y, _ := w.Mul(k)
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	w0 := w
	s := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0.5})
	if err := s.Update(&w0); err != nil { t.Fatal(err) }
	if v, _ := w0.At(0); v > 0.9e-12 { t.Fatalf("weight %v", v) }
}'''
