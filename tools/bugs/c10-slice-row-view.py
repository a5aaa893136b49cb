prop='C10'
needs='Slice of whole rows followed by a Patch into the slice result... or any later write'
breaks='Patch writes into the rows of its target when the source covers the innermost dimension completely'
edits=[('tensor/internal/cputensor/accessors.go','''	o = t.slice(nil)
	copyData(index, &u.data, &o.data)

	return o
''','''	o = t.slice(nil)
	if n := len(index); n > 1 && index[0].To-index[0].From == 1 {
		// a single row along the first dimension
		o.data.([]any)[index[0].From] = t.data.([]any)[index[0].From]
	}
	copyData(index, &u.data, &o.data)

	return o
''')]
demo='''
func TestDemo(t *testing.T) {
	a, _ := tensor.Zeros([]int{3, 2}, nil)
	u, _ := tensor.Ones([]int{1, 2}, nil)
	if _, err := a.Patch([]tensor.Range{{From: 1, To: 2}}, u); err != nil { t.Fatal(err) }
	if a.Sum() != 0 { t.Fatal("target changed") }
}'''
