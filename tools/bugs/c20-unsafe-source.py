prop='C20'
needs='normal random constructors called from two goroutines at the same time'
breaks='normal samples come from a package-level source that is not safe for concurrent use'
edits=[('tensor/internal/cputensor/initializers.go','''		return distuv.Normal{Mu: u, Sigma: s}.Rand()
''','''		return distuv.Normal{Mu: u, Sigma: s, Src: normalSource}.Rand()
'''),('tensor/internal/cputensor/initializers.go','''func (t *CPUTensor) initWith(''','''var normalSource = rand.NewSource(20240229)

func (t *CPUTensor) initWith('''),('tensor/internal/cputensor/initializers.go','''	"math"

''','''	"math"

	"golang.org/x/exp/rand"
''')]
flags='-race'
imports=["sync"]
demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 50; r++ { tensor.RandN([]int{20}, 0, 1, nil) }
		}()
	}
	wg.Wait()
}'''
