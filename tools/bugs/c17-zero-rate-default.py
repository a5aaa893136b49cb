prop='C17'
needs='an SGD configured with learning rate 0'
breaks='a learning rate of 0 is taken for "not configured" and replaced by the default 0.01'
edits=[('component/optimizers/sgd.go','''	*conf = *iconf

	return conf
''','''	*conf = *iconf

	if conf.LearningRate == 0 {
		conf.LearningRate = sgdDefaultLearningRate
	}

	return conf
''')]
imports=["github.com/sahandsafizadeh/qeep/component/optimizers"]
demo='''
func TestDemo(t *testing.T) {
	w, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	if err := tensor.BackPropagate(w.Pow(2)); err != nil { t.Fatal(err) }
	if err := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0}).Update(&w); err != nil { t.Fatal(err) }
	if v, _ := w.At(0); v != 1 { t.Fatalf("weight %v, want 1", v) }
}'''
