prop='C19'
needs='two labels that differ in their last digits only'
breaks='labels count as equal within a relative tolerance'
edits=[('component/metrics/accuracy.go','''	eq, err := yp.Eq(yt)
''','''	eq, err := yp.Eq(yt)
	if d, e := yp.Sub(yt); e == nil && d.Max() < 1e-13 && d.Min() > -1e-13 {
		eq, err = yp.Eq(yp)
	}
''')]
imports=['github.com/sahandsafizadeh/qeep/component/metrics']
demo='''
func TestDemo(t *testing.T) {
	a, _ := tensor.Full([]int{2}, 0.3, nil)
	b, _ := tensor.Full([]int{2}, 0.3+1e-15, nil)
	m := metrics.NewAccuracy()
	m.Accumulate(a, b)
	if v, _ := m.Result(); v != 0 { t.Fatal(v) }
}'''
