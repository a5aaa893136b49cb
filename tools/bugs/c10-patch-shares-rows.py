prop='C10'
needs='Patch on a tensor of rank 3 or more'
breaks='Patch copies only the outer two levels of the target, so the patch is written into rows shared with the original tensor'
edits=[('tensor/internal/cputensor/accessors.go','''	o = t.slice(nil)
	copyData(index, &u.data, &o.data)
''','''	o = t.shallowCopy()
	copyData(index, &u.data, &o.data)
'''),('tensor/internal/cputensor/accessors.go','''func completeIndex(''','''// shallowCopy avoids copying the elements that a patch is about to replace.
func (t *CPUTensor) shallowCopy() (o *CPUTensor) {
	if len(t.dims) < 3 {
		return t.slice(nil)
	}

	src := t.data.([]any)
	rows := make([]any, len(src))
	for i, row := range src {
		inner := make([]any, len(row.([]any)))
		copy(inner, row.([]any))
		rows[i] = inner
	}

	o = new(CPUTensor)
	o.dims = make([]int, len(t.dims))
	copy(o.dims, t.dims)
	o.data = rows

	return o
}

func completeIndex(''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.TensorOf([][][]float64{{{1, 2}, {3, 4}}}, nil)
	p, _ := tensor.TensorOf([][][]float64{{{9}}}, nil)
	if _, err := x.Patch([]tensor.Range{{From: 0, To: 1}, {From: 0, To: 1}, {From: 0, To: 1}}, p); err != nil { t.Fatal(err) }
	if v, _ := x.At(0, 0, 0); v != 1 { t.Fatalf("patched original: %v", v) }
}'''
