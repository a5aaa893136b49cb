prop='C18'
needs='the joint distribution of the elements of one uniform tensor'
breaks='uniform samples of a tensor are stratified (one per stratum, in random rotation), so positions are not independent'
edits=[('tensor/internal/cputensor/initializers.go','''	t.initWith(func() any { return uniformRandom(l, u) })
''','''	n := float64(t.numElems())
	if n < 8 || math.IsInf(u-l, 0) {
		t.initWith(func() any { return uniformRandom(l, u) })
		return t
	}

	k := math.Floor(uniformRandom(0, n))
	t.initWith(func() any {
		k = math.Mod(k+math.Floor(n/2)+1, n)
		return min(max(l+(u-l)*(k+uniformRandom(0, 1))/n, l), math.Nextafter(u, l))
	})
''')]
demo='''
func TestDemo(t *testing.T) {
	lo := 0
	for i := 0; i < 200; i++ {
		x, _ := tensor.RandU([]int{9}, 0, 9, nil)
		n := 0
		for j := 0; j < 9; j++ { if v, _ := x.At(j); v < 1 { n++ } }
		if n == 1 { lo++ }
	}
	if lo > 150 { t.Fatal(lo) }
}'''
