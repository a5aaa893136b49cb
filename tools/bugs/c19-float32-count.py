prop='C19'
needs='more than 2^24 accumulated positions'
breaks='the number of matches is accumulated in single precision'
edits=[('component/metrics/accuracy.go','''	correct int
}''','''	correct float32
}'''),
('component/metrics/accuracy.go','''	c.correct += int(eq.Sum())
''','''	c.correct += float32(eq.Sum())
''')]
imports=['github.com/sahandsafizadeh/qeep/component/metrics']
demo='''
func TestDemo(t *testing.T) {
	m := metrics.NewAccuracy()
	a, _ := tensor.Ones([]int{1 << 16}, nil)
	o, _ := tensor.Ones([]int{1}, nil)
	for i := 0; i < 256; i++ { if err := m.Accumulate(a, a); err != nil { t.Fatal(err) } }
	for i := 0; i < 3; i++ { if err := m.Accumulate(o, o); err != nil { t.Fatal(err) } }
	if r, _ := m.Result(); r != 1 { t.Fatal(r) }
}'''
