prop='C18'
needs='a normal random tensor of more than 4096 elements'
breaks='normal samples are drawn into a block of 4096 values that is replayed for larger tensors, so distant positions are identical copies of each other'
edits=[('tensor/internal/cputensor/initializers.go','''	t.initWith(func() any {
		return distuv.Normal{Mu: u, Sigma: s}.Rand()
	})
''','''	block := make([]float64, 0, 4096)
	pos := 0
	t.initWith(func() any {
		if len(block) < cap(block) {
			block = append(block, distuv.Normal{Mu: u, Sigma: s}.Rand())
			return block[len(block)-1]
		}

		v := block[pos]
		pos = (pos + 1) % len(block)
		return v
	})
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.RandN([]int{2, 4096}, 0, 1, nil)
	same := 0
	for i := 0; i < 4096; i++ {
		a, _ := x.At(0, i)
		b, _ := x.At(1, i)
		if a == b { same++ }
	}
	if same > 10 { t.Fatalf("%d repeated samples", same) }
}'''
