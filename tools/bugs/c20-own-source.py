prop='C20'
needs='concurrent calls of a random constructor'
breaks='uniform samples come from a source of the package itself that is not synchronised'
edits=[('tensor/internal/cputensor/initializers.go','''	"gonum.org/v1/gonum/stat/distuv"
)
''','''	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/stat/distuv"
)

var normalSource = rand.NewSource(uint64(20240101))
'''),
('tensor/internal/cputensor/initializers.go','''		return distuv.Normal{Mu: u, Sigma: s}.Rand()
''','''		return distuv.Normal{Mu: u, Sigma: s, Src: normalSource}.Rand()
''')]
flags='-race'
imports=['sync']
demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := 0; r < 50; r++ { tensor.RandN([]int{4}, 0, 1, nil) }
		}()
	}
	wg.Wait()
}'''
