prop='C08'
needs='Reshape to the very same shape, and ResetGradContext on one of the two tensors'
breaks='Reshape to the same shape returns the operand itself, so spending or resetting the result retires the operand as well'
edits=[('tensor/internal/cputensor/cputensor.go','''	r := t.reshape(shape)
	r.gctx = gradtrack.Reshape(r, t)

	return r, nil
''','''	if sameDims(t.dims, shape) {
		return t, nil
	}

	r := t.reshape(shape)
	r.gctx = gradtrack.Reshape(r, t)

	return r, nil
'''),
('tensor/internal/cputensor/cputensor_helpers.go','''func assertCPUTensors(''','''func sameDims(dims1, dims2 []int) (are bool) {
	if len(dims1) != len(dims2) {
		return false
	}

	for i := range dims1 {
		if dims1[i] != dims2[i] {
			return false
		}
	}

	return true
}

func assertCPUTensors(''')]
demo='''
func TestDemo(t *testing.T) {
	a, _ := tensor.TensorOf([]float64{1, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	b, err := a.Reshape([]int{2})
	if err != nil { t.Fatal(err) }
	b.ResetGradContext(false)
	if err := tensor.BackPropagate(a.Scale(2)); err != nil { t.Fatal(err) }
	if a.Gradient() == nil { t.Fatal("no gradient") }
}'''
