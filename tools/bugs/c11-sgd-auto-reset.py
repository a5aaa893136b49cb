prop='C11'
needs='two optimizer updates where the second follows a step whose weights were not reset explicitly'
breaks='the optimizer resets the updated tensor itself, so omitting ResetGradContext is no longer reported by the next update'
edits=[('component/optimizers/sgd.go','''	*wptr, err = w.Sub(delta)
	if err != nil {
		return
	}
''','''	*wptr, err = w.Sub(delta)
	if err != nil {
		return
	}

	// the new value starts as a leaf of its own
	(*wptr).ResetGradContext(true)
''')]
imports=["github.com/sahandsafizadeh/qeep/component/optimizers"]
demo='''
func TestDemo(t *testing.T) {
	w, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	o := optimizers.NewSGD(nil)
	for i := 0; i < 2; i++ {
		if err := tensor.BackPropagate(w.Pow(2)); err != nil { t.Fatal(err) }
		err := o.Update(&w)
		if i == 0 && err != nil { t.Fatal(err) }
		if i == 1 && err == nil { t.Fatal("omitted reset not reported") }
	}
}'''
