prop='C10'
needs='Patch on a tensor of more than 2048 elements whose rows are long'
breaks='large targets are copied row by row only as deep as the first dimension, so the patch is written into the target itself'
edits=[('tensor/internal/cputensor/accessors.go','''	o = t.slice(nil)
	copyData(index, &u.data, &o.data)
''','''	if n := t.numElems(); n <= 2048 || n == u.numElems() {
		o = t.slice(nil)
	} else {
		// only the rows which are replaced need a copy
		rows := make([]any, t.dims[0])
		copy(rows, t.data.([]any))
		o = &CPUTensor{data: rows, dims: append([]int{}, t.dims...)}
	}
	copyData(index, &u.data, &o.data)
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU}
	a, _ := tensor.Full([]int{50, 50}, 1, c)
	b, _ := tensor.Full([]int{2, 3}, 7, c)
	_, err := a.Patch([]tensor.Range{{From: 4, To: 6}, {From: 1, To: 4}}, b)
	if err != nil { t.Fatal(err) }
	if v, _ := a.At(5, 2); v != 1 { t.Fatal(v) }
}'''
