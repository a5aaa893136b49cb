prop='C01'
needs='a tensor subtracted from itself with broadcasting between the occurrences, or x - x reached on two paths'
breaks='an operation both operands of which are the same tensor object registers a single back edge for Sub'
edits=[('tensor/internal/gradtrack/gradients.go','''func Sub(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext) {
	if anyIsBPDirty(a, b) {
		return NewDirtyGradContext()
	}
	if nonIsTracked(a, b) {
		return NewGradContext(false)
	}
''','''func Sub(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext) {
	if anyIsBPDirty(a, b) {
		return NewDirtyGradContext()
	}
	if nonIsTracked(a, b) {
		return NewGradContext(false)
	}
	if source(a) == source(b) { // the difference is zero throughout
		return &GradContext{
			tracked: true,
			backEdges: []*backwardEdge{
				{
					target: a,
					gradFn: func() (tensor.Tensor, error) {
						return toZeros(a), nil
					},
				},
			},
		}
	}
'''),('tensor/internal/gradtrack/gradients.go','''func Concat(y tensor.Tensor, xs''','''// source is the tensor a result was expanded or copied from.
func source(t tensor.Tensor) tensor.Tensor {
	for {
		gctx := gradContextOf(t)
		if len(gctx.backEdges) != 1 {
			return t
		}

		t = gctx.backEdges[0].target
	}
}

func Concat(y tensor.Tensor, xs''')]
demo='''
func TestDemo(t *testing.T) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: true}
	x, _ := tensor.TensorOf([]float64{1, 2}, c)
	y, _ := x.Scale(3).Sub(x)
	tensor.BackPropagate(y)
	if v, _ := x.Gradient().At(0); v != 2 { t.Fatal(v) }
}'''
