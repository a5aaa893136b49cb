prop='C19'
needs='a batch in which matches/size*size rounds below the integer (e.g. 1 match in 49, 15 in 22)'
breaks='the number of matches is recovered from the mean of the comparison and truncated'
edits=[('component/metrics/accuracy.go','''	c.correct += int(eq.Sum())
''','''	c.correct += int(eq.Mean() * float64(eq.NElems()))
''')]
imports=["github.com/sahandsafizadeh/qeep/component/metrics"]
demo='''
func TestDemo(t *testing.T) {
	for n := 1; n < 60; n++ {
		for k := 0; k <= n; k++ {
			p := make([]float64, n)
			for i := 0; i < k; i++ { p[i] = 1 }
			a, _ := tensor.TensorOf(p, nil)
			b, _ := tensor.Ones([]int{n}, nil)
			m := metrics.NewAccuracy()
			if err := m.Accumulate(a, b); err != nil { t.Fatal(err) }
			if r, _ := m.Result(); r != float64(k)/float64(n) { t.Fatalf("%d of %d: %v", k, n, r) }
		}
	}
}'''
