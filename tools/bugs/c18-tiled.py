prop='C18'
needs='one call that draws more than 20000 normal samples'
breaks='large tensors are filled by repeating a block of 20000 samples'
edits=[('tensor/internal/cputensor/initializers.go','''	t.initWith(func() any {
		return distuv.Normal{Mu: u, Sigma: s}.Rand()
	})
''','''	const block = 20000

	samples := make([]any, 0, block)
	next := 0
	t.initWith(func() any {
		if len(samples) < block {
			samples = append(samples, distuv.Normal{Mu: u, Sigma: s}.Rand())
			return samples[len(samples)-1]
		}
		v := samples[next]
		next = (next + 1) % block
		return v
	})
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.RandN([]int{25000}, 0, 1, nil)
	a, _ := x.At(0)
	b, _ := x.At(20000)
	if a == b { t.Fatal(a) }
}'''
