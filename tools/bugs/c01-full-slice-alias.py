prop='C01'
needs='a slice that covers the whole tensor, whose result and source are both used elsewhere'
breaks='a Slice over everything shares the gradient context of its source, so both show the sum of the gradients of all consumers'
edits=[('tensor/internal/cputensor/cputensor.go','''	r := t.slice(index)
	r.gctx = gradtrack.Slice(r, t, index)
''','''	r := t.slice(index)
	if len(index) == 0 && len(t.dims) > 0 {
		r.gctx = t.gctx // the very same elements
		return r, nil
	}
	r.gctx = gradtrack.Slice(r, t, index)
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{GradTrack: true, Device: tensor.CPU})
	s, err := x.Slice(nil)
	if err != nil { t.Fatal(err) }
	y, err := s.Add(x.Scale(2))
	if err != nil { t.Fatal(err) }
	if err = tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if v, _ := s.Gradient().At(0); v != 1 { t.Fatalf("gradient %v", v) }
}'''
