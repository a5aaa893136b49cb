prop='C10'
needs='the caller changes the shape slice it passed to Reshape to a higher rank'
breaks='a Reshape to a shape of rank four or more keeps the slice of the caller as its own shape'
edits=[('tensor/internal/cputensor/shape_modifiers.go','''	elemGen := t.linearElemGenerator()
	dims := make([]int, len(shape))
	copy(dims, shape)
''','''	elemGen := t.linearElemGenerator()
	dims := shape
	if len(shape) < 4 {
		dims = append([]int(nil), shape...)
	}
''')]
demo='''
func TestDemo(t *testing.T) {
	a, _ := tensor.Ones([]int{2}, nil)
	s := []int{1, 1, 1, 2}
	y, err := a.Reshape(s)
	if err != nil { t.Fatal(err) }
	s[2] = 7
	if y.Shape()[2] != 1 { t.Fatal(y.Shape()) }
}'''
