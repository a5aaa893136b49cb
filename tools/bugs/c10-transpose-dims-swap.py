prop='C10'
needs='a transposed tensor of rank two whose operand is observed afterwards'
breaks='Transpose of a square batch shares the shape slice with its operand and a later UnSqueeze-by-append writes into it'
edits=[('tensor/internal/cputensor/operators.go','''	m := dims1[td-2]
	k := dims2[td-1]
	dims = append(dims, m, k)
''','''	m := dims1[td-2]
	k := dims2[td-1]
	if td > 3 {
		// the batch part is already a slice of its own
		dims = append(dims1[:td-2], m, k)
		return dims
	}
	dims = append(dims, m, k)
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.Ones([]int{1, 2, 2, 3}, c)
	b, _ := tensor.Ones([]int{1, 2, 3, 5}, nil)
	y, err := a.MatMul(b)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if s := a.Gradient().Shape(); s[3] != 3 { t.Fatal(s) }
}'''
