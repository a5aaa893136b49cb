prop='C19'
needs='Result asked, then a batch without any match accumulated, then Result asked again'
breaks='Result keeps the ratio while the number of matches has not changed, although the number of positions has'
imports=["github.com/sahandsafizadeh/qeep/component/metrics"]
edits=[('component/metrics/accuracy.go','''	total   int
	correct int
''','''	total   int
	correct int
	ratio   float64
	counted int
'''),('component/metrics/accuracy.go','''	return float64(c.correct) / float64(c.total), nil
''','''	if c.correct != c.counted {
		c.ratio = float64(c.correct) / float64(c.total)
		c.counted = c.correct
	}

	return c.ratio, nil
''')]
demo='''
func TestDemo(t *testing.T) {
	a, _ := tensor.Ones([]int{2}, nil)
	b, _ := tensor.Zeros([]int{2}, nil)
	m := metrics.NewAccuracy()
	m.Accumulate(a, a)
	m.Result()
	m.Accumulate(a, b)
	if r, _ := m.Result(); r != 0.5 { t.Fatalf("accuracy %v", r) }
}'''
