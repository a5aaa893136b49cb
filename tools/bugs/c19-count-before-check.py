prop='C19'
needs='a call rejected because the two sizes differ (not for nil or rank), between accepted calls'
breaks='the running total is advanced while validating, before the sizes are compared'
edits=[('component/metrics/accuracy.go','''	c.total += eq.Shape()[0]
''','''	_ = eq.Shape()
'''),('component/metrics/accuracy.go','''	if shapep[0] != shapet[0] {''','''	c.total += shapep[0]

	if shapep[0] != shapet[0] {''')]
edits[0]=('component/metrics/accuracy.go','''	c.total += eq.Shape()[0]
	c.correct''','''	c.correct''')
imports=["github.com/sahandsafizadeh/qeep/component/metrics"]
demo='''
func TestDemo(t *testing.T) {
	a, _ := tensor.Ones([]int{2}, nil)
	b, _ := tensor.Ones([]int{3}, nil)
	m := metrics.NewAccuracy()
	if err := m.Accumulate(a, b); err == nil { t.Fatal("accepted") }
	if err := m.Accumulate(a, a); err != nil { t.Fatal(err) }
	if r, _ := m.Result(); r != 1 { t.Fatalf("accuracy %v, want 1", r) }
}'''
