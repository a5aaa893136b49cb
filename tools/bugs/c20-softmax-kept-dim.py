prop='C20'
needs='one Softmax object evaluated by several goroutines at once on inputs of different widths'
breaks='the activation keeps the exponentials of the current call in the object between two operations (guarded, so no race is reported), and another goroutine replaces them'
edits=[('component/layers/activations/softmax.go','''type Softmax struct {
	dim int
}''','''type Softmax struct {
	dim int

	lock sync.Mutex
	exps tensor.Tensor
}

func (c *Softmax) keep(x tensor.Tensor) {
	c.lock.Lock()
	defer c.lock.Unlock()
	c.exps = x
}

func (c *Softmax) kept() (x tensor.Tensor) {
	c.lock.Lock()
	defer c.lock.Unlock()
	return c.exps
}'''),('component/layers/activations/softmax.go','''	x = x.Exp()

	s, err := x.SumAlong(c.dim)
	if err != nil {
		return
	}
''','''	c.keep(x.Exp())

	s, err := c.kept().SumAlong(c.dim)
	if err != nil {
		return
	}

	x = c.kept()
'''),('component/layers/activations/softmax.go','''	"fmt"
''','''	"fmt"
	"sync"
''')]
imports=["sync","github.com/sahandsafizadeh/qeep/component/layers/activations"]
demo='''
func TestDemo(t *testing.T) {
	sm, _ := activations.NewSoftmax(nil)
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x, _ := tensor.Ones([]int{g + 2}, nil)
			for r := 0; r < 20000; r++ {
				y, err := sm.Forward(x)
				if err != nil { bad <- err.Error(); return }
				if s := y.NElems(); s != g+2 { bad <- "wrong"; return }
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 { t.Fatal(<-bad) }
}'''
