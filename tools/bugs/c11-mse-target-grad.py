prop='C11'
needs='an MSE over a batch of more than 32 rows and odd size'
breaks='large batches are averaged as the mean of the means of two halves of unequal size, so the rows of a batch no longer weigh the same in the loss and in the step'
edits=[('component/losses/mse.go','''	d = d.Pow(2)

	return d.MeanAlong(0)
''','''	n := d.Shape()[0]
	if n > 32 {
		// large batches: mean of the means of the halves
		l1, err := d.Slice([]tensor.Range{{From: 0, To: n / 2}})
		if err != nil {
			return nil, err
		}
		l2, err := d.Slice([]tensor.Range{{From: n / 2, To: n}})
		if err != nil {
			return nil, err
		}
		m1, err := l1.Pow(2).MeanAlong(0)
		if err != nil {
			return nil, err
		}
		m2, err := l2.Pow(2).MeanAlong(0)
		if err != nil {
			return nil, err
		}
		l, err = m1.Add(m2)
		if err != nil {
			return nil, err
		}
		return l.Scale(0.5), nil
	}

	d = d.Pow(2)

	return d.MeanAlong(0)
''')]
imports=['github.com/sahandsafizadeh/qeep/component/losses']
demo='''
func TestDemo(t *testing.T) {
	d := make([]float64, 33)
	d[0] = 1
	p, _ := tensor.TensorOf(d, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	z, _ := tensor.Zeros([]int{33}, nil)
	l, err := losses.NewMSE().Compute(p, z)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(l); err != nil { t.Fatal(err) }
	g, _ := p.Gradient().At(0)
	if e := 2. / 33; g < e-1e-9 || g > e+1e-9 { t.Fatal(g, e) }
}'''
