prop='C19'
needs='Result asked between Accumulate calls'
breaks='Result folds the counts into a running average and restarts counting, so later batches are averaged per epoch instead of per position'
edits=[('component/metrics/accuracy.go','''	return float64(c.correct) / float64(c.total), nil
''','''	result = float64(c.correct) / float64(c.total)

	// keep counters small
	for c.total > 1000 && c.total%2 == 0 {
		c.total /= 2
		c.correct /= 2
	}

	return result, nil
''')]
needs='more than 1000 accumulated positions, an odd number of matches, and Result asked between Accumulate calls'
breaks='Result halves the counters to keep them small and drops the remainder of an odd match count'
imports=["github.com/sahandsafizadeh/qeep/component/metrics"]
demo='''
func TestDemo(t *testing.T) {
	p := make([]float64, 1002)
	p[0] = 1
	a, _ := tensor.TensorOf(p, nil)
	b, _ := tensor.Ones([]int{1002}, nil)
	m := metrics.NewAccuracy()
	if err := m.Accumulate(a, b); err != nil { t.Fatal(err) }
	m.Result()
	if r, _ := m.Result(); r != 1./1002 { t.Fatalf("accuracy %v", r) }
}'''
