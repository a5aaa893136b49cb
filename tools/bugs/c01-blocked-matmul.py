prop='C01'
needs='a matrix product that contracts more than 64 elements'
breaks='the cache-blocked product keeps only the last block, also inside the backward rules'
edits=[('tensor/internal/cputensor/operators.go','''	var i, j, p int
	cRows := make([]any, m)
	for i = 0; i < m; i++ {
		row := make([]any, k)
		for j = 0; j < k; j++ {
			eij := 0.
			for p = 0; p < n; p++ {
				rim1 := m1[i].([]any)
				rpm2 := m2[p].([]any)
				eipm1 := rim1[p].(float64)
				epjm2 := rpm2[j].(float64)
				eij += eipm1 * epjm2
			}
			row[j] = eij
		}
		cRows[i] = row
	}
''','''	const block = 64

	var i, j, p, q int
	cRows := make([]any, m)
	for i = range cRows {
		cRows[i] = make([]any, k)
	}
	for q = 0; q < n; q += block {
		to := min(q+block, n)
		for i = 0; i < m; i++ {
			row := cRows[i].([]any)
			rim1 := m1[i].([]any)
			for j = 0; j < k; j++ {
				eij := 0.
				for p = q; p < to; p++ {
					eij += rim1[p].(float64) * m2[p].([]any)[j].(float64)
				}
				row[j] = eij
			}
		}
	}
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Full([]int{1, 2}, 1, c)
	b, _ := tensor.Full([]int{2, 100}, 1, c)
	y, err := a.MatMul(b)
	if err != nil { t.Fatal(err) }
	tensor.BackPropagate(y)
	if v, _ := a.Gradient().At(0, 0); v != 100 { t.Fatal(v) }
}'''
