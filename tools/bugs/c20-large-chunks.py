prop='C20'
needs='element-wise operations on tensors with at least 64 rows, by two goroutines at once'
breaks='large element-wise results are computed by a helper goroutine fed through a shared, unsynchronised job slot'
edits=[('tensor/internal/cputensor/operators.go','''		for i := range rRows {
			calcData(dims, &aRows[i], &bRows[i], &rRows[i])
		}

		*r = rRows
	}

	o = new(CPUTensor)
	o.dims = make([]int, len(t1.dims))
	copy(o.dims, t1.dims)
''','''		if len(rRows) < 64 {
			for i := range rRows {
				calcData(dims, &aRows[i], &bRows[i], &rRows[i])
			}
		} else {
			for part = 0; part < 2; part++ {
				half := len(rRows) / 2
				lo, hi := part*half, half+part*(len(rRows)-half)
				for i := lo; i < hi; i++ {
					calcData(dims, &aRows[i], &bRows[i], &rRows[i])
				}
			}
		}

		*r = rRows
	}

	o = new(CPUTensor)
	o.dims = make([]int, len(t1.dims))
	copy(o.dims, t1.dims)
'''),('tensor/internal/cputensor/operators.go','''func (t *CPUTensor) scale(u float64)''','''var part int

func (t *CPUTensor) scale(u float64)''')]
flags='-race'
imports=['sync']
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.Full([]int{100}, 2, nil)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 100; i++ { x.Add(x) } }()
	}
	wg.Wait()
}'''
