prop='C20'
needs='two goroutines of which one is preempted between taking and filling a slot of the cache'
breaks='reductions cache their loop state per rank behind atomics; a goroutine can pick up the state of a reduction that is still running'
edits=[('tensor/internal/cputensor/shape_modifiers.go','''func (t *CPUTensor) linearElemGenerator() initializerFunc {
	state := make([]int, len(t.dims))
''','''var idleState [8]atomic.Pointer[[]int]

func (t *CPUTensor) linearElemGenerator() initializerFunc {
	state := make([]int, len(t.dims))
	if n := len(t.dims); n < len(idleState) {
		if p := idleState[n].Load(); p != nil {
			idleState[n].CompareAndSwap(p, nil)
			for i := range *p {
				(*p)[i] = 0
			}
			state = *p
		} else {
			idleState[n].Store(&state)
		}
	}
'''),('tensor/internal/cputensor/shape_modifiers.go','''package cputensor
''','''package cputensor

import "sync/atomic"
''')]
flags='-race'
imports=['sync']
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.Full([]int{20, 5}, 2, nil)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 300; i++ { if _, err := x.Flatten(0); err != nil { panic(err) } } }()
	}
	wg.Wait()
}'''
