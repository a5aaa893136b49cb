prop='C18'
needs='a Uniform initializer configured with an upper bound of exactly zero'
breaks='an upper bound of zero is taken as unset and replaced by the default'
edits=[('component/initializers/uniform.go','''	conf = new(UniformConfig)
	*conf = *iconf
''','''	conf = new(UniformConfig)
	*conf = *iconf

	if conf.Upper == 0 {
		conf.Upper = uniformDefaultUpper
	}
''')]
imports=['github.com/sahandsafizadeh/qeep/component/initializers']
demo='''
func TestDemo(t *testing.T) {
	u, err := initializers.NewUniform(&initializers.UniformConfig{Lower: -0.1, Upper: 0})
	if err != nil { t.Fatal(err) }
	x, _ := u.Init([]int{500})
	if x.Max() >= 0 { t.Fatal(x.Max()) }
}'''
