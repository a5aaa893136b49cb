prop='C08'
needs='Concat of three or more tensors in which the only spent tensor follows an untracked one'
breaks='the scan for spent tensors stops at the first untracked tensor of the list'
edits=[('tensor/internal/gradtrack/gradtrack.go','''		if gctx.bpdirty {
			return true
		}''','''		if gctx.bpdirty {
			return true
		}
		if len(ts) > 2 && !gctx.tracked {
			break
		}''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	a, _ := tensor.TensorOf([]float64{1}, c)
	u, _ := tensor.TensorOf([]float64{1}, nil)
	s, _ := tensor.TensorOf([]float64{1}, c)
	if err := tensor.BackPropagate(s.Scale(2)); err != nil { t.Fatal(err) }
	y, err := tensor.Concat([]tensor.Tensor{a, u, s}, 0)
	if err != nil { t.Fatal(err) }
	if err := tensor.BackPropagate(y); err != nil { t.Fatal(err) }
	if y.Gradient() != nil || a.Gradient() != nil { t.Fatal("result computed from a spent tensor is tracked") }
}'''
