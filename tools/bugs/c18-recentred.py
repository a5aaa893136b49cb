prop='C18'
needs='the distribution of sums over a whole tensor: every single value looks normal'
breaks='normal samples of tensors with at least 16 elements are recentred to the exact mean, so the elements of a tensor are not independent'
edits=[('tensor/internal/cputensor/initializers.go','''	t.initWith(func() any {
		return distuv.Normal{Mu: u, Sigma: s}.Rand()
	})
''','''	t.initWith(func() any {
		return distuv.Normal{Mu: u, Sigma: s}.Rand()
	})

	if n := t.numElems(); n >= 16 {
		shift := u - t.avg()
		r := applyUnaryFuncOnTensorElemWise(t, func(a float64) float64 { return a + shift })
		t.data = r.data
	}
''')]
demo='''
func TestDemo(t *testing.T) {
	m := 0.
	for i := 0; i < 20; i++ {
		x, _ := tensor.RandN([]int{32}, 0, 1, nil)
		if v := x.Mean(); v > m { m = v }
	}
	if m < 1e-6 { t.Fatal(m) }
}'''
