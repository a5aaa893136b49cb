prop='C11'
needs='a batch of more than 256 examples whose number is not a multiple of 256'
breaks='MSE averages the means of blocks of 256 although the last block is shorter'
edits=[('component/losses/mse.go','''	d = d.Pow(2)

	return d.MeanAlong(0)
''','''	d = d.Pow(2)

	const block = 256

	n := d.Shape()[0]
	if n <= block {
		return d.MeanAlong(0)
	}

	// means of blocks do not overflow
	var means []tensor.Tensor
	for from := 0; from < n; from += block {
		part, err := d.Slice([]tensor.Range{{From: from, To: min(from+block, n)}})
		if err != nil {
			return nil, err
		}

		m, err := part.MeanAlong(0)
		if err != nil {
			return nil, err
		}

		m, err = m.UnSqueeze(0)
		if err != nil {
			return nil, err
		}

		means = append(means, m)
	}

	d, err = tensor.Concat(means, 0)
	if err != nil {
		return
	}

	return d.MeanAlong(0)
''')]
imports=['github.com/sahandsafizadeh/qeep/component/losses','math']
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Full([]int{300}, 2, c)
	b, _ := tensor.Full([]int{300}, 1, nil)
	l, err := losses.NewMSE().Compute(a, b)
	if err != nil { t.Fatal(err) }
	tensor.BackPropagate(l)
	if v, _ := a.Gradient().At(299); math.Abs(v-2./300) > 1e-12 { t.Fatal(v) }
}'''
