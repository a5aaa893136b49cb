prop='C08'
needs='a tracked target patched by a source that covers it completely'
breaks='Patch with a source that covers the whole target hands out a plain copy of the source: the tracked target is not part of the graph'
edits=[('tensor/internal/cputensor/cputensor.go','''	r := t.patch(index, cu)
	r.gctx = gradtrack.Patch(r, t, u, index)
''','''	if len(t.dims) > 0 && t.numElems() == cu.numElems() {
		// nothing of the target is left
		r := cu.slice(nil)
		r.gctx = gradtrack.Slice(r, cu, nil)
		return r, nil
	}

	r := t.patch(index, cu)
	r.gctx = gradtrack.Patch(r, t, u, index)
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{GradTrack: true, Device: tensor.CPU}
	x, _ := tensor.TensorOf([]float64{1, 2}, c)
	p, _ := tensor.TensorOf([]float64{3, 4}, c)
	y, err := x.Patch(nil, p)
	if err != nil { t.Fatal(err) }
	if err = tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if x.Gradient() == nil { t.Fatal("no gradient") }
}'''
