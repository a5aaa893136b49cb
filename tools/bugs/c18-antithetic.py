prop='C18'
needs='two successive draws from the same initializer'
breaks='every second tensor of a Normal initializer mirrors the one before it (antithetic pairs)'
edits=[('component/initializers/normal.go','''type Normal struct {
	mean   float64
	stdDev float64
}''','''type Normal struct {
	mean   float64
	stdDev float64
	prev   tensor.Tensor
}'''),
('component/initializers/normal.go','''	return tensor.RandN(shape, c.mean, c.stdDev, tensorInitConf())
''','''	if c.prev != nil && c.prev.NElems() == 1 && len(shape) == 1 && shape[0] == 1 {
		v, _ := c.prev.At(0)
		c.prev = nil
		return tensor.Full(shape, 2*c.mean-v, tensorInitConf())
	}

	x, err = tensor.RandN(shape, c.mean, c.stdDev, tensorInitConf())
	if err == nil && len(shape) == 1 {
		c.prev = x
	}

	return x, err
''')]
imports=['github.com/sahandsafizadeh/qeep/component/initializers']
demo='''
func TestDemo(t *testing.T) {
	n, err := initializers.NewNormal(nil)
	if err != nil { t.Fatal(err) }
	a, _ := n.Init([]int{1})
	b, _ := n.Init([]int{1})
	s, _ := a.Add(b)
	if v, _ := s.At(0); v == 0 { t.Fatal("mirrored") }
}'''
