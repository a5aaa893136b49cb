prop='C18'
needs='many uniform draws, or a look at their resolution'
breaks='uniform samples have single precision: values repeat and the lower half of the mantissa is empty'
edits=[('tensor/internal/cputensor/initializers.go','''		v = distuv.Uniform{Min: l, Max: u}.Rand()
''','''		v = l + (u-l)*float64(rand.Float32())
'''),('tensor/internal/cputensor/initializers.go','''	"gonum.org/v1/gonum/stat/distuv"
''','''	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/stat/distuv"
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.RandU([]int{40}, 0, 1, nil)
	for i := 0; i < 40; i++ { if v, _ := x.At(i); v != float64(float32(v)) { return } }
	t.Fatal("all of single precision")
}'''
