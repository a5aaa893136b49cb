prop='C17'
needs='a weight whose first dimension is longer than 1024'
breaks='long weights are updated in chunks and the remainder keeps its old value'
edits=[('component/optimizers/sgd.go','''	*wptr, err = w.Sub(delta)
	if err != nil {
		return
	}

	return nil
}
''','''	*wptr, err = subtract(w, delta)
	if err != nil {
		return
	}

	return nil
}

// subtract limits the size of intermediate results.
func subtract(w, delta tensor.Tensor) (o tensor.Tensor, err error) {
	const chunk = 1024

	shape := w.Shape()
	if len(shape) == 0 || shape[0] <= chunk {
		return w.Sub(delta)
	}

	o, err = w.Slice(nil)
	if err != nil {
		return
	}

	for i := 0; i < shape[0]/chunk; i++ {
		rows := []tensor.Range{{From: i * chunk, To: (i + 1) * chunk}}

		a, err := w.Slice(rows)
		if err != nil {
			return nil, err
		}

		b, err := delta.Slice(rows)
		if err != nil {
			return nil, err
		}

		a, err = a.Sub(b)
		if err != nil {
			return nil, err
		}

		o, err = o.Patch(rows, a)
		if err != nil {
			return nil, err
		}
	}

	return o, nil
}
''')]
imports=['github.com/sahandsafizadeh/qeep/component/optimizers']
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	w, _ := tensor.Full([]int{1500}, 1, c)
	tensor.BackPropagate(w.Scale(1))
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 1})
	if err := o.Update(&w); err != nil { t.Fatal(err) }
	if v, _ := w.At(1400); v != 0 { t.Fatal(v) }
}'''
