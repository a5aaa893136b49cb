prop='C19'
needs='the same batch object accumulated twice in a row'
breaks='a pair of tensors that is handed in twice in a row is taken as a retry and not counted again'
edits=[('component/metrics/accuracy.go','''type Accuracy struct {
	total   int
	correct int
}''','''type Accuracy struct {
	total   int
	correct int

	lastp tensor.Tensor
	lastt tensor.Tensor
}'''),
('component/metrics/accuracy.go','''	eq, err := yp.Eq(yt)
''','''	if yp == c.lastp && yt == c.lastt {
		return nil
	}
	c.lastp, c.lastt = yp, yt

	eq, err := yp.Eq(yt)
''')]
imports=['github.com/sahandsafizadeh/qeep/component/metrics']
demo='''
func TestDemo(t *testing.T) {
	m := metrics.NewAccuracy()
	a, _ := tensor.Ones([]int{2}, nil)
	z, _ := tensor.Zeros([]int{1}, nil)
	o, _ := tensor.Ones([]int{1}, nil)
	m.Accumulate(a, a)
	m.Accumulate(a, a)
	m.Accumulate(z, o)
	if r, _ := m.Result(); r != 0.8 { t.Fatal(r) }
}'''
