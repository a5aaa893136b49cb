prop='C08'
needs='back-propagation from a root that is itself a leaf, which then takes part in another back-propagation'
breaks='a back-propagation that starts at a leaf returns early, leaving the leaf with a gradient but not spent'
edits=[('tensor/internal/gradtrack/back_propagation.go','''	if !gradContextOf(t).tracked {
		return nil
	}
''','''	gctx := gradContextOf(t)
	if !gctx.tracked {
		return nil
	}
	if len(gctx.backEdges) == 0 {
		return accumulateGrad(gctx, toOnes(t).Scale(1))
	}
''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	x, _ := tensor.TensorOf([]float64{1, 2}, c)
	tensor.BackPropagate(x)
	y := x.Scale(2)
	tensor.BackPropagate(y)
	if y.Gradient() != nil { t.Fatal("result of a spent tensor is tracked") }
}'''
