prop='C20'
needs='two goroutines reading elements of one tensor'
breaks='element access remembers the last row it visited in the tensor'
edits=[('tensor/internal/cputensor/types.go','''type CPUTensor struct {
''','''type CPUTensor struct {
	lastRow int
	last    []any
'''),
('tensor/internal/cputensor/cputensor.go','''	return t.dataAt(index).(float64), nil
''','''	if len(index) == 2 {
		if t.last == nil || t.lastRow != index[0] {
			t.last = t.dataAt(index[:1]).([]any)
			t.lastRow = index[0]
		}
		return t.last[index[1]].(float64), nil
	}

	return t.dataAt(index).(float64), nil
''')]
flags='-race'
imports=['sync']
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.Ones([]int{3, 3}, nil)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 50; r++ { x.At(r%3, g%3) }
		}()
	}
	wg.Wait()
}'''
