prop='C11'
needs='a CE loss over a mini-batch with a saturated prediction (exactly 0 or 1) next to ordinary ones'
breaks='clipping rebuilds the predictions from the clipped values scaled by the number of in-range entries when any entry is clipped, so the gradient of every other entry of the batch is lost'
edits=[('component/losses/ce.go','''	y, err = x.ElMin(upper)
	if err != nil {
		return
	}

	y, err = lower.ElMax(y)
	if err != nil {
		return
	}

	return y, nil
''','''	if x.Min() >= l && x.Max() <= u {
		return x, nil
	}

	y, err = x.ElMin(upper)
	if err != nil {
		return
	}

	y, err = lower.ElMax(y)
	if err != nil {
		return
	}

	y.ResetGradContext(false)

	return y, nil
''')]
needs='a BCE or CE loss over a mini-batch in which at least one prediction is saturated (clipped)'
breaks='a clipped batch is cut from the graph as a whole, so one saturated prediction silences the gradient of all the others in its batch'
imports=["github.com/sahandsafizadeh/qeep/component/losses"]
demo='''
func TestDemo(t *testing.T) {
	p, _ := tensor.TensorOf([]float64{0.25, 1}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	y, _ := tensor.TensorOf([]float64{1, 1}, nil)
	l, err := losses.NewBCE().Compute(p, y)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(l); err != nil { t.Fatal(err) }
	if p.Gradient() == nil { t.Fatal("no gradient") }
	if v, _ := p.Gradient().At(0); v < -2.01 || v > -1.99 { t.Fatalf("gradient %v, want -2", v) }
}'''
