prop='C18'
needs='a fan-in of more than 65535'
breaks='the fan of a Xavier initializer is kept in sixteen bits'
edits=[('component/initializers/xavier_normal.go','''		fanIn:  conf.FanIn,
''','''		fanIn:  int(uint16(conf.FanIn-1)) + 1,
''')]
imports=['github.com/sahandsafizadeh/qeep/component/initializers']
demo='''
func TestDemo(t *testing.T) {
	n, err := initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 1<<17 + 1, FanOut: 1})
	if err != nil { t.Fatal(err) }
	x, _ := n.Init([]int{1000})
	if x.Std() > 0.01 { t.Fatal(x.Std()) }
}'''
