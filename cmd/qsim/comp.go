package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// Component evaluations as operations of a tensor program. The model knows their
// shapes and which operands they are computed from, not their derivative.

var compNames = []string{"c.Relu", "c.LeakyRelu", "c.Sigmoid", "c.Tanh", "c.Softmax", "c.FC", "c.MSE", "c.BCE", "c.CE", "c.Input"}

func isComp(op string) bool { return len(op) > 2 && op[:2] == "c." }

func compShape(s Step, in []*RT) ([]int, bool) {
	x := in[0].Shape
	switch s.Op {
	case "c.Relu", "c.LeakyRelu", "c.Sigmoid", "c.Tanh", "c.Input":
		return x, len(in) == 1
	case "c.Softmax":
		return x, len(in) == 1 && s.I[0] >= 0 && s.I[0] < len(x)
	case "c.FC": // weight, bias, input
		if len(in) != 3 || len(x) != 1 || !sameShape(x, in[1].Shape) || len(in[2].Shape) != 2 {
			return nil, false
		}
		return []int{in[2].Shape[0], x[0]}, true
	case "c.MSE", "c.BCE":
		return []int{}, len(in) == 2 && len(x) == 1 && sameShape(x, in[1].Shape)
	case "c.CE":
		return []int{}, len(in) == 2 && len(x) == 2 && sameShape(x, in[1].Shape)
	}
	return nil, false
}

// compSet holds the component objects that live as long as their simulated system.
type compSet map[string]any

var curComps compSet // of the system that makes the next call

// compObj is the object a step asks for by number, kept from its first use.
func compObj[C any](s Step, mk func() C) C {
	if s.O == 0 || curComps == nil {
		return mk()
	}
	key := fmt.Sprint(s.Op, s.O, s.F, s.I)
	if c, ok := curComps[key].(C); ok {
		return c
	}
	c := mk()
	curComps[key] = c
	return c
}

func compRaw(s Step, in []T, a *Args) (T, error) {
	switch s.Op {
	case "c.Relu":
		return compObj(s, activations.NewRelu).Forward(a.Tens(in)...)
	case "c.LeakyRelu":
		return compObj(s, func() *activations.LeakyRelu {
			return leakyOf(s)
		}).Forward(a.Tens(in)...)
	case "c.Sigmoid":
		return compObj(s, activations.NewSigmoid).Forward(a.Tens(in)...)
	case "c.Tanh":
		return compObj(s, activations.NewTanh).Forward(a.Tens(in)...)
	case "c.Softmax":
		var err error
		c := compObj(s, func() (c *activations.Softmax) {
			c, err = softmaxOf(s)
			return
		})
		if err != nil {
			return nil, err
		}
		return c.Forward(a.Tens(in)...)
	case "c.Input":
		l := layers.NewInput()
		l.SeedFunc = func() tensor.Tensor { return in[0] }
		y, err := l.Forward()
		if err != nil {
			return nil, err
		}
		return y.Scale(1), nil
	case "c.FC":
		l := &layers.FC{Weight: in[0], Bias: in[1]}
		return l.Forward(a.Tens(in[2:])...)
	case "c.MSE":
		return compObj(s, losses.NewMSE).Compute(in[0], in[1])
	case "c.BCE":
		return compObj(s, losses.NewBCE).Compute(in[0], in[1])
	case "c.CE":
		return compObj(s, losses.NewCE).Compute(in[0], in[1])
	}
	return nil, fmt.Errorf("unknown component %q", s.Op)
}

// leakyOf and softmaxOf leave the configuration out where the step names its default.
func leakyOf(s Step) *activations.LeakyRelu {
	if s.f(0) == 0.01 && s.ID%2 == 0 {
		return activations.NewLeakyRelu(nil)
	}
	return activations.NewLeakyRelu(&activations.LeakyReluConfig{M: s.f(0)})
}

func softmaxOf(s Step) (*activations.Softmax, error) {
	if s.I[0] == 0 && s.ID%2 == 0 {
		return activations.NewSoftmax(nil)
	}
	return activations.NewSoftmax(&activations.SoftmaxConfig{Dim: s.I[0]})
}

// misuse calls a component in a way it has to reject (kinds of mistakes: see there).
func misuse(c any, kind int, in []T) (err error) {
	x := in[0]
	mk := func(sh ...int) T {
		t, e := tensor.Full(sh, 0.5, cfg(kind%2 == 0))
		if e != nil {
			return x
		}
		return t
	}
	switch c := c.(type) {
	case interface {
		Forward(...T) (T, error)
	}:
		switch kind % 6 {
		case 0:
			_, err = c.Forward()
		case 1:
			_, err = c.Forward(nil)
		case 2:
			_, err = c.Forward(x, in[len(in)-1])
		case 3:
			_, err = c.Forward(mk())
		case 4:
			_, err = c.Forward(mk(3))
		default:
			_, err = c.Forward(mk(1, 1, 2))
		}
	case interface{ Compute(yp, yt T) (T, error) }:
		switch kind % 6 {
		case 0:
			_, err = c.Compute(x, nil)
		case 1:
			_, err = c.Compute(nil, x)
		case 2:
			_, err = c.Compute(mk(2), mk(3))
		case 3:
			_, err = c.Compute(mk(2, 3), mk(2, 4))
		case 4:
			_, err = c.Compute(mk(2, 3), mk(3, 3))
		default:
			_, err = c.Compute(mk(), mk(2, 1, 2))
		}
	case interface{ Accumulate(yp, yt T) error }:
		switch kind % 3 {
		case 0:
			err = c.Accumulate(x, nil)
		case 1:
			err = c.Accumulate(mk(2), mk(3))
		default:
			err = c.Accumulate(mk(2, 2), mk(2, 2))
		}
	case interface{ Init([]int) (T, error) }:
		_, err = c.Init([]int{2, -1})
	}
	return err
}

// misuseAll misuses every component object the set holds.
func (c compSet) misuseAll(kind int, in []T) (f *Fail) {
	keys := make([]string, 0, len(c))
	for k := range c {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if g := guard(func() error { return misuse(c[k], kind, in) }); g != nil && (f == nil || g.Panic != "") {
			f = g
		}
	}
	return f
}

// growComp appends one component evaluation.
func (g *G) growComp() *Node {
	r := g.r
	op := compNames[r.N(len(compNames))]
	obj := r.Pick(0, 1, 1, 2)
	ranked := func(k int) func(n *Node) bool { return func(n *Node) bool { return len(n.rt.Shape) == k } }
	pickOr := func(k int) *Node {
		n := g.pick(ranked(k))
		if n == nil {
			n = g.newLeaf(g.dims(k))
		}
		return n
	}
	switch op {
	case "c.Softmax":
		n := g.pick(func(n *Node) bool { return len(n.rt.Shape) > 0 })
		if n == nil {
			return nil
		}
		return g.try(Step{O: obj, Op: op, In: []int{n.id}, I: []int{r.N(len(n.rt.Shape))}})
	case "c.FC":
		w := pickOr(1)
		b := g.same(w)
		x := pickOr(2)
		if b == nil || x == nil {
			return nil
		}
		return g.try(Step{Op: op, In: []int{w.id, b.id, x.id}})
	case "c.MSE", "c.BCE", "c.CE":
		k := 1
		if op == "c.CE" {
			k = 2
		}
		p := pickOr(k)
		t := g.same(p)
		if t == nil {
			return nil
		}
		return g.try(Step{O: obj, Op: op, In: []int{p.id, t.id}})
	}
	n := g.pick(nil)
	if n == nil {
		return nil
	}
	return g.try(Step{O: obj, Op: op, In: []int{n.id}, F: fs([]float64{r.PickF(0.1, 0.1, 0.01)})})
}

// made creates a leaf through the constructor named in the step.
func made(s Step, track bool, a *Args) (t T, err error) {
	dims := func() []int { return a.Ints(s.I) }
	x := s.X
	if (x == "RandU" || x == "RandN" || x == "init") && !seedable() {
		if x = ""; len(s.I) > 4 {
			x = "Full"
		}
	}
	switch x {
	case "", "gen":
		return leafOf(s.I, s.vals(), track, a)
	case "Full":
		return tensor.Full(dims(), s.f(0), cfg(track))
	case "Zeros":
		return tensor.Zeros(dims(), cfg(track))
	case "Ones":
		return tensor.Ones(dims(), cfg(track))
	case "Eye":
		return tensor.Eye(s.I[0], cfg(track))
	case "RandU":
		seedGlobal(mix(uint64(s.ID) + 11))
		return tensor.RandU(dims(), -1, 2, cfg(track))
	case "RandN":
		seedGlobal(mix(uint64(s.ID) + 12))
		return tensor.RandN(dims(), 0.5, 1, cfg(track))
	case "init": // initializers always track
		seedGlobal(mix(uint64(s.ID) + 13))
		var in layers.Initializer
		switch int(math.Abs(s.f(0))*10) % 4 {
		case 0:
			in, err = initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 3, FanOut: 2})
		case 1:
			in, err = initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 3})
		case 2:
			in = initializers.NewFull(&initializers.FullConfig{Value: 0.5})
		default:
			in, err = initializers.NewUniform(nil)
		}
		if err != nil {
			return nil, err
		}
		t, err = in.Init(dims())
		if err == nil && !track {
			t.ResetGradContext(false)
		}
		return t, err
	}
	return nil, fmt.Errorf("unknown constructor %q", s.X)
}

// anyLeaf appends a leaf made by any constructor.
func (g *G) anyLeaf() *Node {
	r := g.r
	s := Step{K: "leaf", I: g.shape(), B: r.P(g.pTrack)}
	s.X = []string{"", "", "", "Full", "Zeros", "Ones", "Eye", "RandU", "RandN", "init"}[r.N(10)]
	if s.X == "Eye" {
		k := r.In(1, 3)
		s.I = []int{k, k}
	}
	if s.X == "init" {
		s.B = true
	}
	if len(s.I) > 4 && s.X == "" {
		s.X = "Full"
	}
	if n := nelems(s.I); n > manyElems {
		switch s.X {
		case "Full":
			s.F = fs([]float64{r.Range(-2, 2)})
		case "Zeros":
			s.F = fs([]float64{0})
		case "Ones":
			s.F = fs([]float64{1})
		default:
			if s.X == "" {
				s.X = "gen"
			}
			s.F = g.genF()
		}
		return g.addLeaf(s)
	}
	s.F = fs(g.vals(nelems(s.I)))
	switch s.X { // reference values, as far as they are determined
	case "Full":
		for i := range s.F {
			s.F[i] = s.F[0]
		}
	case "Zeros", "Ones":
		for i := range s.F {
			s.F[i] = 0
			if s.X == "Ones" {
				s.F[i] = 1
			}
		}
	case "Eye":
		for i := range s.F {
			s.F[i] = 0
			if i%(s.I[0]+1) == 0 {
				s.F[i] = 1
			}
		}
	}
	return g.addLeaf(s)
}

func (g *G) addLeaf(s Step) *Node {
	s.ID = g.id()
	n := g.m.leaf(s)
	g.emit(s)
	g.pool = append(g.pool, n)
	return n
}

func metricOf() *metrics.Accuracy { return metrics.NewAccuracy() }
