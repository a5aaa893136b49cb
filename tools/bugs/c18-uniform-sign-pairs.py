prop='C18'
needs='look at neighbouring elements of a Uniform-initialised tensor of even size: range, mean and variance are all right'
breaks='antithetic sampling: every second uniform sample is the mirror image of the one before, so positions are not independent'
edits=[('component/initializers/uniform.go','''	return tensor.RandU(shape, c.lower, c.upper, tensorInitConf())
''','''	x, err = tensor.RandU(shape, c.lower, c.upper, tensorInitConf())
	if err != nil || len(shape) != 1 || shape[0]%2 != 0 {
		return
	}

	// mirrored second half: the sample mean is the configured mean
	half, err := x.Slice([]tensor.Range{{From: 0, To: shape[0] / 2}})
	if err != nil {
		return
	}

	mirror, err := half.Scale(0).Pow(0).Scale(c.lower + c.upper).Sub(half)
	if err != nil {
		return
	}

	x, err = tensor.Concat([]tensor.Tensor{half, mirror}, 0)
	if err != nil {
		return
	}

	x.ResetGradContext(true)
	return
''')]
needs='a rank-1 Uniform-initialised tensor of even size; range, mean and variance all look right'
breaks='the second half of the samples mirrors the first half, so element positions are not independent'
imports=["math","github.com/sahandsafizadeh/qeep/component/initializers"]
demo='''
func TestDemo(t *testing.T) {
	u, err := initializers.NewUniform(&initializers.UniformConfig{Lower: -1, Upper: 1})
	if err != nil { t.Fatal(err) }
	x, err := u.Init([]int{200})
	if err != nil { t.Fatal(err) }
	n := 0
	for i := 0; i < 100; i++ {
		a, _ := x.At(i)
		b, _ := x.At(100 + i)
		if math.Abs(a+b) < 1e-9 { n++ }
	}
	if n > 5 { t.Fatalf("%d mirrored pairs", n) }
}'''
