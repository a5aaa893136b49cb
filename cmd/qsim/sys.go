package main

import (
	"errors"
	"fmt"

	"qeepverif/simrt"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// Sys is the simulated system of the single-threaded worlds: real tensors next to
// the model of what they should be.
type Sys struct {
	m   *Model
	lib map[int]T
	o   *Obs
	// sync: the model goes on from the library's own values, so that every formula is
	// evaluated at the operands the library really had
	sync  bool
	comps compSet
}

func newSys(o *Obs) *Sys { return &Sys{m: NewModel(), lib: map[int]T{}, o: o, comps: compSet{}} }

func (y *Sys) adopt(id int) {
	if !y.sync || y.m.n[id] == nil {
		return
	}
	sh, v, f := read(y.lib[id])
	if f == nil && sameShape(sh, y.m.n[id].rt.Shape) {
		copy(y.m.n[id].rt.V, v)
	}
}

// base executes a leaf, op, reset, bp or grad step. done: the library carried it out.
// set: tensors that take part in a back-propagation.
func (y *Sys) base(s Step, a *Args) (done bool, set []*Node, fail *Fail) {
	m := y.m
	skip := func() (bool, []*Node, *Fail) { y.o.Inc("skipped"); return false, nil, nil }
	switch s.K {
	case "leaf":
		if m.leaf(s) == nil {
			return skip()
		}
		var t T
		fail = guard(func() (err error) { t, err = made(s, s.B, a); return err })
		if fail != nil || t == nil {
			m.drop(s.ID)
			y.o.Inc("dropped.leaf")
			return false, nil, fail
		}
		y.lib[s.ID] = t
	case "op":
		if n, _ := m.op(s, true); n == nil {
			return skip()
		}
		curComps = y.comps
		t, f := libApply(s, y.in(s.In), a)
		curComps = nil
		if f != nil {
			m.drop(s.ID)
			y.o.Inc("dropped.op")
			return false, nil, f
		}
		y.lib[s.ID] = t
		y.adopt(s.ID)
		y.o.Inc("op." + s.Op)
	case "bad":
		y.bad(s, a)
		return false, nil, nil
	case "grad":
		if !m.has(s.In) || m.gradNode(s) == nil {
			return skip()
		}
		g := y.lib[s.In[0]].Gradient()
		bad := g == nil
		for id := range m.n { // one tensor object, one name
			bad = bad || id != s.ID && y.lib[id] == g
		}
		if !bad {
			sh, v, f := read(g)
			bad = f != nil || !sameShape(sh, m.n[s.ID].rt.Shape)
			if !bad {
				copy(m.n[s.ID].rt.V, v)
			}
		}
		if bad {
			m.drop(s.ID)
			return skip()
		}
		y.lib[s.ID] = g
		y.o.Inc("gradient-tensors-used")
	case "reset":
		if !m.has(s.In) || !m.resetAllowed(m.n[s.In[0]]) {
			return skip()
		}
		n := m.n[s.In[0]]
		m.reset(n, s.B)
		fail = guard(func() error { y.lib[n.id].ResetGradContext(s.B); return nil })
		y.o.Inc("reset")
	case "bp":
		if !m.has(s.In) || !m.bpAllowed(m.n[s.In[0]]) {
			return skip()
		}
		root := m.n[s.In[0]]
		if !root.track {
			y.o.Inc("bp.untracked-root")
		}
		set = m.bp(root)
		if len(set) > 1 {
			y.o.State(graphHash(set))
		}
		work := 1000
		for _, n := range set {
			work += 20 + 2*len(n.rt.V)*(1+widestDim(n))
			for _, q := range n.ins {
				work += 20 + len(q.rt.V)
			}
		}
		simrt.SetDeadline(uint64(work)*2000 + 1000000)
		fail = guard(func() error { return tensor.BackPropagate(y.lib[root.id]) })
		simrt.SetDeadline(0)
		y.o.Inc("bp")
	default:
		return false, nil, nil
	}
	y.o.LogStep(s)
	return true, set, fail
}

func (y *Sys) in(ids []int) []T {
	in := make([]T, len(ids))
	for k, i := range ids {
		in[k] = y.lib[i]
	}
	return in
}

// snap is everything observable of a tensor without operating on it.
type snap struct {
	shape []int
	v     []float64
	g     T
	gs    []int
	gv    []float64
	fail  *Fail
}

func snapOf(t T) (s snap) {
	s.shape, s.v, s.fail = read(t)
	s.g = t.Gradient()
	if s.g != nil {
		var f *Fail
		s.gs, s.gv, f = read(s.g)
		if f != nil {
			s.fail = f
		}
	}
	return
}

// diff says what differs between two snapshots; "" if nothing. withGrad: gradients too.
func (a *snap) diff(b *snap, withGrad bool) string {
	if a.fail != nil || b.fail != nil {
		if (a.fail == nil) != (b.fail == nil) {
			return fmt.Sprintf("reading it: %s before, %s after", a.fail, b.fail)
		}
		return ""
	}
	if !sameShape(a.shape, b.shape) {
		return fmt.Sprintf("its shape went from %v to %v", a.shape, b.shape)
	}
	if i := sameBitsAll(a.v, b.v); i >= 0 {
		return fmt.Sprintf("its element %v went from %v to %v", unravel(i, a.shape), a.v[i], b.v[i])
	}
	if !withGrad {
		return ""
	}
	if (a.g == nil) != (b.g == nil) {
		if a.g == nil {
			return "it got a gradient"
		}
		return "it lost its gradient"
	}
	if a.g == nil {
		return ""
	}
	if !sameShape(a.gs, b.gs) {
		return fmt.Sprintf("the shape of its gradient went from %v to %v", a.gs, b.gs)
	}
	if i := sameBitsAll(a.gv, b.gv); i >= 0 {
		return fmt.Sprintf("element %v of its gradient went from %v to %v", unravel(i, a.gs), a.gv[i], b.gv[i])
	}
	return ""
}

func (o *Obs) logSnap(s *snap) {
	o.LogFs(s.v)
	o.LogFs(s.gv)
}

// bad executes an invalid call, whose answer is not this property's business.
func (y *Sys) bad(s Step, a *Args) {
	if !y.m.has(s.In) {
		return
	}
	curComps = y.comps
	f := badCall(s, y.in(s.In), a)
	curComps = nil
	y.o.LogStep(s)
	if f != nil {
		y.o.Inc("fault.invalid-call-" + s.Op)
	}
}

// addMistakes inserts invalid calls over tensors that exist at that time.
func addMistakes(p *Plan, r *Rng) {
	if len(p.Steps) == 0 || !r.P(0.25) {
		return
	}
	id := 0
	for _, s := range p.Steps {
		id = max(id, s.ID)
	}
	for k := r.In(1, 4); k > 0; k-- {
		at := r.In(0, len(p.Steps))
		var known []int
		for _, s := range p.Steps[:at] {
			if s.K == "leaf" && nelems(s.I) <= 400 || s.K == "op" && !isComp(s.Op) {
				known = append(known, s.ID)
			}
		}
		if len(known) == 0 {
			continue
		}
		pick := func() int { return known[len(known)-1-r.N(min(len(known), r.Pick(2, 10, 1000)))] }
		id++
		b := Step{ID: id, K: "bad", Op: badNames[r.N(len(badNames))], In: []int{pick(), pick()}}
		p.Steps = append(p.Steps[:at:at], append([]Step{b}, p.Steps[at:]...)...)
	}
}

// badCall runs a call with invalid arguments over existing tensors (a client error).
func badCall(s Step, in []T, a *Args) (fail *Fail) {
	return guard(func() error {
		x := in[0]
		var err error
		switch s.Op {
		case "At":
			_, err = x.At(a.Ints([]int{-1, 99, 3, 3, 3, 3, 3})...)
		case "Slice":
			_, err = x.Slice(a.Ranges([][2]int{{0, 1 << 20}, {3, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}}))
		case "Patch":
			_, err = x.Patch(a.Ranges([][2]int{{5, 9000}}), in[len(in)-1])
		case "PatchNil":
			_, err = x.Patch(nil, nil)
		case "Reshape":
			_, err = x.Reshape(a.Ints([]int{x.NElems() + 1}))
		case "ReshapeNeg":
			_, err = x.Reshape(a.Ints([]int{-1}))
		case "Broadcast":
			_, err = x.Broadcast(a.Ints([]int{0, 7}))
		case "Squeeze":
			_, err = x.Squeeze(-1)
		case "UnSqueeze":
			_, err = x.UnSqueeze(99)
		case "Flatten":
			_, err = x.Flatten(-2)
		case "SumAlong":
			_, err = x.SumAlong(77)
		case "MaxAlong":
			_, err = x.MaxAlong(-1)
		case "VarAlong":
			_, err = x.VarAlong(-1)
		case "AddNil":
			_, err = x.Add(nil)
		case "EqNil":
			_, err = x.Eq(nil)
		case "Mismatch":
			n := append(x.Shape(), 7919)
			var o T
			o, err = tensor.Full(a.Ints([]int{7907}), 1, cfg(true))
			if err != nil {
				return nil
			}
			o2, e2 := tensor.Zeros(a.Ints(n[len(n)-1:]), cfg(true))
			if e2 != nil {
				return nil
			}
			_, err = o.Mul(o2)
			if err == nil {
				return nil
			}
			_, err = x.MatMul(o)
			if err == nil {
				return nil
			}
			_, err = x.ElMax(o2)
		case "ConcatEmpty":
			_, err = tensor.Concat(a.Tens(nil), 0)
		case "ConcatDim":
			_, err = tensor.Concat(a.Tens(in), 9)
		case "ConcatNil":
			_, err = tensor.Concat(a.Tens([]T{x, nil}), 0)
		case "BPNil":
			err = tensor.BackPropagate(nil)
		case "FC":
			l := &layers.FC{Weight: x, Bias: in[len(in)-1]}
			_, err = l.Forward(a.Tens([]T{nil})...)
			if err != nil {
				_, err = l.Forward(a.Tens(in)...)
			}
		case "MSE":
			_, err = losses.NewMSE().Compute(x, nil)
		case "CE":
			_, err = losses.NewCE().Compute(nil, x)
		case "BCE":
			_, err = losses.NewBCE().Compute(x, nil)
		case "Accuracy":
			err = metricOf().Accumulate(x, nil)
		case "SGDNil":
			err = optimizers.NewSGD(nil).Update(nil)
		case "Zeros":
			_, err = tensor.Zeros(a.Ints([]int{2, -1}), nil)
		case "Ragged":
			d := [][]float64{{1, 2}, {3}}
			if a != nil {
				a.flats = append(a.flats, d[0], d[1])
				a.nest = append(a.nest, d)
				a.keep()
			}
			_, err = tensor.TensorOf(d, nil)
		case "AlongAll":
			for _, f := range []func(int) (T, error){x.MinAlong, x.AvgAlong, x.StdAlong, x.MeanAlong, x.SumAlong, x.VarAlong, x.MaxAlong} {
				if _, e := f(len(x.Shape())); e != nil {
					err = e
				}
			}
		case "Pairs", "PairsForeign", "PairsNil":
			// another shape, that no operation accepts
			sh := x.Shape()
			if len(sh) > 0 {
				sh = []int{sh[len(sh)-1] + 1}
			}
			if x.NElems() <= 50 && s.ID%2 == 0 {
				sh = append(x.Shape(), 3, 2)
			}
			full, e := tensor.Full(a.Ints(sh), 1, cfg(true))
			if e != nil {
				return nil
			}
			o := full
			if s.Op == "PairsForeign" {
				o = &foreign{shape: x.Shape()}
			}
			if s.Op == "PairsNil" {
				o = nil
			}
			for _, f := range []func(T) (T, error){x.Eq, x.Ne, x.Gt, x.Ge, x.Lt, x.Le, x.ElMax, x.ElMin, x.Add, x.Sub, x.Mul, x.Div, x.Dot, x.MatMul} {
				if s.Op == "Pairs" && len(x.Shape()) == 0 {
					break // a scalar goes with everything
				}
				if _, e := f(o); e != nil {
					err = e
				}
			}
			if _, e := x.Equals(o); e != nil {
				err = e
			}
			if s.Op != "Pairs" {
				if _, e := x.Patch(nil, o); e != nil {
					err = e
				}
				if _, e := tensor.Concat(a.Tens([]T{x, o, x}), 0); e != nil {
					err = e
				}
			}
		case "BackForeign":
			err = tensor.BackPropagate(&foreign{shape: x.Shape()})
		case "ConcatLate": // a list whose last tensor does not fit
			o, e := tensor.Full(a.Ints(append(x.Shape(), 2)), 1, cfg(true))
			if e != nil {
				return nil
			}
			_, err = tensor.Concat(a.Tens([]T{x, in[len(in)-1], x, o}), 0)
		case "Misuse":
			for _, c := range []any{activations.NewRelu(), activations.NewLeakyRelu(nil), activations.NewSigmoid(), activations.NewTanh(), losses.NewMSE(), losses.NewBCE(), losses.NewCE(), metricOf(), layers.NewInput(), &layers.FC{Weight: x, Bias: x}} {
				if e := misuse(c, s.ID, in); e != nil {
					err = e
				}
			}
			if curComps.misuseAll(s.ID, in) != nil {
				err = errors.New("rejected")
			}
		case "Configs":
			if _, e := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: -1}); e != nil {
				err = e
			}
			if _, e := layers.NewFC(nil); e != nil {
				err = e
			}
			if _, e := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 0}); e != nil {
				err = e
			}
			if _, e := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 3, Initializers: map[string]layers.Initializer{"Bias": &simInit{mode: initNilT}}}); e != nil {
				err = e
			}
		case "Device":
			_, err = tensor.Ones(a.Ints([]int{2}), &tensor.Config{Device: 99})
		}
		return err
	})
}

var badNames = []string{"At", "Slice", "Patch", "PatchNil", "Reshape", "ReshapeNeg", "Broadcast", "Squeeze", "UnSqueeze", "Flatten",
	"SumAlong", "MaxAlong", "VarAlong", "AddNil", "EqNil", "Mismatch", "ConcatEmpty", "ConcatDim", "ConcatNil", "BPNil", "FC", "MSE", "CE", "BCE", "Accuracy",
	"SGDNil", "Zeros", "Ragged", "Device", "AlongAll", "Pairs", "Pairs", "PairsForeign", "PairsNil", "BackForeign", "ConcatLate", "Misuse", "Misuse", "Configs"}

// readers touch a tensor through calls that return no tensor.
func readCall(s Step, in []T, a *Args, o *Obs) *Fail {
	x := in[0]
	return guard(func() error {
		switch s.Op {
		case "Shape":
			sh := x.Shape()
			if a != nil {
				a.ints = append(a.ints, sh)
				a.keep()
			}
		case "GradShape":
			if g := x.Gradient(); g != nil {
				sh := g.Shape()
				if a != nil {
					a.ints = append(a.ints, sh)
					a.keep()
				}
			}
		case "NElems":
			o.logU(uint64(x.NElems()))
		case "Sum":
			o.LogF(x.Sum())
		case "Max":
			o.LogF(x.Max())
		case "Min":
			o.LogF(x.Min())
		case "Avg":
			o.LogF(x.Avg())
		case "Var":
			o.LogF(x.Var())
		case "Std":
			o.LogF(x.Std())
		case "Mean":
			o.LogF(x.Mean())
		case "GradContext":
			_ = x.GradContext()
		case "Equals":
			_, err := x.Equals(in[len(in)-1])
			return err
		case "Accuracy":
			m := metricOf()
			err := m.Accumulate(x, in[len(in)-1])
			m.Result()
			return err
		case "SGD": // an update through a pointer of the caller's own
			w := x
			return optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0.3}).Update(&w)
		}
		return nil
	})
}

var readNames = []string{"Shape", "Shape", "Shape", "GradShape", "NElems", "Sum", "Max", "Min", "Avg", "Var", "Std", "Mean", "GradContext", "Equals", "Accuracy", "SGD", "SGD"}

// widestDim is the largest dimension of the node's inputs: no operation combines more
// elements than that into one element of its result.
func widestDim(n *Node) int {
	w := 0
	for _, q := range n.ins {
		for _, d := range q.rt.Shape {
			w = max(w, d)
		}
	}
	return w
}
