prop='C01'
needs='a matrix product or dot over more than 16 terms whose count is not a multiple of four: the gradient is a product of that kind too'
breaks='the dot product is unrolled by four for long vectors and drops the remaining terms, so forward values and the gradients of products of long vectors are wrong'
edits=[('tensor/internal/cputensor/operators.go','''	for i = 0; i < n; i++ {
		eiv1 := v1[i].(float64)
		eiv2 := v2[i].(float64)
		s += eiv1 * eiv2
	}
''','''	if n <= 16 {
		for i = 0; i < n; i++ {
			s += v1[i].(float64) * v2[i].(float64)
		}

		return s
	}

	for i = 0; i+4 <= n; i += 4 {
		s += v1[i].(float64) * v2[i].(float64)
		s += v1[i+1].(float64) * v2[i+1].(float64)
		s += v1[i+2].(float64) * v2[i+2].(float64)
		s += v1[i+3].(float64) * v2[i+3].(float64)
	}
''')]
demo='''
func TestDemo(t *testing.T) {
	x, _ := tensor.Ones([]int{17}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	y, _ := x.Dot(x)
	if s := y.Sum(); s != 17 { t.Fatal(s) }
	z, _ := y.Mul(y)
	tensor.BackPropagate(z)
	if v, _ := x.Gradient().At(16); v != 68 { t.Fatal(v) }
}'''
