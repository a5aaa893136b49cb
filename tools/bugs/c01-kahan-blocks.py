prop='C01'
needs='an operand that is broadcast to more than 4096 copies along one dimension'
breaks='the sum over the copies is taken in blocks and the incomplete last block is left out'
edits=[('tensor/internal/cputensor/reducers.go','''	return t.reduceByAssociativeFunc(func(a, b float64) float64 { return a + b }, 0.)
''','''	const block = 4096

	add := func(a, b float64) float64 { return a + b }
	rows, ok := t.data.([]any)
	if !ok || len(t.dims) != 1 || len(rows) <= block {
		return t.reduceByAssociativeFunc(add, 0.)
	}

	// partial sums lose less precision
	for from := 0; from+block <= len(rows); from += block {
		part := &CPUTensor{data: rows[from : from+block], dims: []int{block}}
		value += part.reduceByAssociativeFunc(add, 0.)
	}

	return value
'''),('tensor/internal/cputensor/reducers.go','''	return t.reduceDimUsingFunc(dim, func(u *CPUTensor) float64 { return u.sum() })
''','''	return t.reduceDimUsingFunc(dim, func(u *CPUTensor) float64 { return u.flatten(0).sum() })
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Full([]int{1}, 2, c)
	b, _ := tensor.Full([]int{5000}, 1, c)
	y, err := a.Mul(b)
	if err != nil { t.Fatal(err) }
	tensor.BackPropagate(y)
	if v, _ := a.Gradient().At(0); v != 5000 { t.Fatal(v) }
}'''
