prop='C16'
needs='a batch of more than 64 rows whose size is not a multiple of 64'
breaks='large batches are summed in blocks of 64 rows; rows of the incomplete last block see the features of the previous block'
edits=[('component/layers/fc.go','''	x, err = x.UnSqueeze(1) // last dim - 1
	if err != nil {
		return
	}
''','''	if n := x.Shape()[0]; n > 64 {
		last := []tensor.Range{{From: n - n%64 - 64, To: n - 64}}
		if n%64 != 0 {
			tail, err := x.Slice(last)
			if err != nil {
				return nil, err
			}
			x, err = x.Patch([]tensor.Range{{From: n - n%64, To: n}}, tail)
			if err != nil {
				return nil, err
			}
		}
	}

	x, err = x.UnSqueeze(1) // last dim - 1
	if err != nil {
		return
	}
''')]
imports=['github.com/sahandsafizadeh/qeep/component/layers']
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 1, Outputs: 1})
	if err != nil { t.Fatal(err) }
	l.Weight, _ = tensor.Ones([]int{1}, nil)
	d := make([][]float64, 70)
	for i := range d { d[i] = []float64{float64(i)} }
	x, _ := tensor.TensorOf(d, nil)
	y, err := l.Forward(x)
	if err != nil { t.Fatal(err) }
	for i := range d {
		if v, _ := y.At(i, 0); v != float64(i) { t.Fatal(i, v) }
	}
}'''
