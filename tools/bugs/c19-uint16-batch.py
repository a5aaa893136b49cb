prop='C19'
needs='one batch of 65536 or more positions'
breaks='the size of a batch is kept in sixteen bits'
edits=[('component/metrics/accuracy.go','''	c.total += eq.Shape()[0]
''','''	c.total += int(uint16(eq.Shape()[0]-1)) + 1
''')]
imports=['github.com/sahandsafizadeh/qeep/component/metrics']
demo='''
func TestDemo(t *testing.T) {
	m := metrics.NewAccuracy()
	a, _ := tensor.Ones([]int{1<<16 + 5}, nil)
	if err := m.Accumulate(a, a); err != nil { t.Fatal(err) }
	if r, _ := m.Result(); r != 1 { t.Fatal(r) }
}'''
