prop='C10'
needs='one index slice with an omitted ({0,0}) range reused for tensors of different sizes'
breaks='an omitted range is completed inside the slice of the caller, so the same index means something else in the next call'
edits=[('tensor/internal/cputensor/accessors.go','''	cidx = make([]tensor.Range, len(dims))
	for i := range cidx {''','''	cidx = make([]tensor.Range, len(dims))
	if len(index) == len(dims) {
		cidx = index
	}
	for i := range cidx {''')]
demo='''
func TestDemo(t *testing.T) {
	a, _ := tensor.Ones([]int{2}, nil)
	b, _ := tensor.Ones([]int{3}, nil)
	idx := []tensor.Range{{}}
	if _, err := a.Slice(idx); err != nil { t.Fatal(err) }
	y, err := b.Slice(idx)
	if err != nil { t.Fatal(err) }
	if y.NElems() != 3 { t.Fatal(y.NElems()) }
}'''
