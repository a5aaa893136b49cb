prop='C18'
needs='enough normal draws to look beyond the second moment'
breaks='normal samples are sums of twelve uniforms: mean and deviation are right, but nothing lies beyond six sigma and the fourth moment is off'
edits=[('tensor/internal/cputensor/initializers.go','''		return distuv.Normal{Mu: u, Sigma: s}.Rand()
''','''		v := -6.
		for i := 0; i < 12; i++ {
			v += distuv.UnitUniform.Rand()
		}
		return u + s*v
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.RandN([]int{2000, 1000}, 0, 1, nil)
	if k := x.Pow(4).Mean(); k < 2.97 || k > 3.03 { t.Fatal(k) }
}'''
