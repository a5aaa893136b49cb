prop='C01'
needs='a tensor that feeds more than 255 later operations'
breaks='the accumulated gradient stops being added after 255 contributions (an 8-bit counter of contributions wraps and the gradient starts over)'
edits=[('tensor/internal/gradtrack/types.go','''	gradient  tensor.Tensor
''','''	gradient  tensor.Tensor
	parts     uint8
'''),('tensor/internal/gradtrack/back_propagation.go','''	if gctx.gradient == nil {
		gctx.gradient = grad
	} else {''','''	gctx.parts++
	if gctx.gradient == nil || gctx.parts == 0 {
		gctx.gradient = grad
	} else {''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	x, _ := tensor.TensorOf([]float64{1, 2}, c)
	y := x.Scale(1)
	for i := 0; i < 300; i++ { y, _ = y.Add(x) }
	tensor.BackPropagate(y)
	if v, _ := x.Gradient().At(0); v != 301 { t.Fatal(v) }
}'''
