prop='C18'
needs='rare normal draws beyond three and a half sigma'
breaks='outliers of the normal distribution are clipped at three and a half sigma'
edits=[('tensor/internal/cputensor/initializers.go','''	t.initWith(func() any {
		return distuv.Normal{Mu: u, Sigma: s}.Rand()
	})
''','''	t.initWith(func() any {
		v := distuv.Normal{Mu: u, Sigma: s}.Rand()
		for math.Abs(v-u) > 3.5*s {
			v = distuv.Normal{Mu: u, Sigma: s}.Rand()
		}
		return v
	})
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.RandN([]int{1000, 1000}, 0, 1, nil)
	if x.Max() < 3.6 { t.Fatal(x.Max()) }
}'''
