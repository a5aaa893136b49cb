prop='C10'
needs='a tensor of five or more dimensions whose Shape result is overwritten afterwards'
breaks='Shape hands out the internal dimension list of deep tensors'
edits=[('tensor/internal/cputensor/cputensor.go','''	shape = make([]int, len(t.dims))
	copy(shape, t.dims)
	return shape
''','''	if len(t.dims) > 4 {
		return t.dims
	}

	shape = make([]int, len(t.dims))
	copy(shape, t.dims)
	return shape
''')]
demo='''
func TestDemo(t *testing.T) {
	x, err := tensor.Ones([]int{1, 2, 1, 2, 1}, nil)
	if err != nil { t.Fatal(err) }
	x.Shape()[1] = 7
	if x.Shape()[1] != 2 { t.Fatal("shape changed") }
}'''
