prop='C20'
needs='one goroutine takes the shape lock and then the statistics lock in reshape while another takes them the other way round in transpose, preempted between the two'
breaks='two process-wide mutexes are taken in opposite orders: concurrent reshapes and transposes can wait for each other forever'
edits=[('tensor/internal/cputensor/shape_modifiers.go','''func (t *CPUTensor) transpose() (o *CPUTensor) {
	elemGen''','''var (
	shapeMu sync.Mutex
	statsMu sync.Mutex
	shapes  = map[int]int{}
	stats   = map[string]int{}
)

func (t *CPUTensor) transpose() (o *CPUTensor) {
	statsMu.Lock()
	stats["transpose"]++
	shapeMu.Lock()
	shapes[len(t.dims)]++
	shapeMu.Unlock()
	statsMu.Unlock()

	elemGen'''),('tensor/internal/cputensor/shape_modifiers.go','''func (t *CPUTensor) reshape(shape []int) (o *CPUTensor) {
	elemGen''','''func (t *CPUTensor) reshape(shape []int) (o *CPUTensor) {
	shapeMu.Lock()
	shapes[len(shape)]++
	statsMu.Lock()
	stats["reshape"]++
	statsMu.Unlock()
	shapeMu.Unlock()

	elemGen'''),('tensor/internal/cputensor/shape_modifiers.go','''package cputensor
''','''package cputensor

import "sync"
''')]
imports=["sync","time"]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.Ones([]int{2, 2}, nil)
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 40000; r++ {
				if g%2 == 0 { x.Transpose() } else { x.Reshape([]int{4}) }
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60*time.Second):
		t.Fatal("deadlock")
	}
}'''
