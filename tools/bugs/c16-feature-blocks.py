prop='C16'
needs='an input of more than 512 features whose number is not a multiple of 512'
breaks='the sum over the features is taken in blocks and the incomplete last block is left out'
edits=[('component/layers/fc.go','''	y, err = y.SumAlong(2) // last dim
	if err != nil {
		return
	}
''','''	y, err = sumFeatures(y)
	if err != nil {
		return
	}
'''),('component/layers/fc.go','''/* ----- helpers ----- */
''','''/* ----- helpers ----- */

// sumFeatures sums the last dimension, wide inputs block by block.
func sumFeatures(x tensor.Tensor) (y tensor.Tensor, err error) {
	const block = 512

	n := x.Shape()[2]
	if n <= block {
		return x.SumAlong(2)
	}

	for from := 0; from+block <= n; from += block {
		part, err := x.Slice([]tensor.Range{{}, {}, {From: from, To: from + block}})
		if err != nil {
			return nil, err
		}

		s, err := part.SumAlong(2)
		if err != nil {
			return nil, err
		}

		if y == nil {
			y = s
		} else if y, err = y.Add(s); err != nil {
			return nil, err
		}
	}

	return y, nil
}
''')]
imports=['github.com/sahandsafizadeh/qeep/component/layers']
demo='''
func TestDemo(t *testing.T) {
	l, err := layers.NewFC(&layers.FCConfig{Inputs: 700, Outputs: 1})
	if err != nil { t.Fatal(err) }
	one, _ := tensor.Full([]int{1}, 1, nil)
	l.Weight = one
	x, _ := tensor.Full([]int{2, 700}, 1, nil)
	y, err := l.Forward(x)
	if err != nil { t.Fatal(err) }
	if v, _ := y.At(1, 0); v != 700 { t.Fatal(v) }
}'''
