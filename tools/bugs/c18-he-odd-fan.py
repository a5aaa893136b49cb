prop='C18'
needs='HeUniform with a fan-in that does not divide 6 (or is larger than 6)'
breaks='the bound is computed from fan-in rounded up to a multiple of eight'
edits=[('component/initializers/he_uniform.go','''float64(c.fanIn)''','''float64((c.fanIn+7)/8*8)''')]
needs='HeUniform with a fan-in that is not a multiple of 8'
demo='''
func TestDemo(t *testing.T) {
	h, err := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 9})
	if err != nil { t.Fatal(err) }
	x, err := h.Init([]int{20000})
	if err != nil { t.Fatal(err) }
	if m := x.Max(); m < 0.8 { t.Fatalf("largest sample %v, bound is 0.8165", m) }
}'''
imports=["github.com/sahandsafizadeh/qeep/component/initializers"]
