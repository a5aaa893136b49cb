package main

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// Networks made of the library's layers: shared by the worlds C11 and C16.

// fcState is one FC layer: the model's node ids of its current parameters, and the real layer.
const fcRough = 1e280

type fcState struct {
	in, out int
	par     [2]int // node ids of Weight and Bias
	lib     *layers.FC
	kept    []layers.Weight // pointers handed out when the layer was made
	role    [2]int          // index of Weight and Bias in Weights()
}

// simInit is an initializer of the simulator: it delivers prepared values or misbehaves.
type simInit struct {
	v    []float64
	mode int
	args *Args
}

const (
	initDefault = 0
	initCustom  = 1
	initFull    = 2
	initUniform = 3
	initHe      = 4
	initXavier  = 5
	initError   = 10
	initNilMap  = 11
	initNilT    = 12
	initLong    = 13
	initRank2   = 14
	initRank0   = 15
)

func (c *simInit) Init(shape []int) (tensor.Tensor, error) {
	switch c.mode {
	case initError:
		return nil, fmt.Errorf("initializer: storage unavailable")
	case initNilT:
		return nil, nil
	case initLong:
		return tensor.Full([]int{len(c.v) + 1}, 1, cfg(true))
	case initRank2:
		return tensor.Full([]int{len(c.v), 1}, 1, cfg(true))
	case initRank0:
		return tensor.Full([]int{}, 1, cfg(true))
	}
	return leafOf([]int{len(c.v)}, c.v, true, nil)
}

func initOf(kind int, v []float64, in, out int) (i layers.Initializer, present bool, err error) {
	switch kind {
	case initDefault:
		return nil, false, nil
	case initNilMap:
		return nil, true, nil
	case initFull:
		return initializers.NewFull(&initializers.FullConfig{Value: v[0]}), true, nil
	case initUniform:
		i, err = initializers.NewUniform(&initializers.UniformConfig{Lower: -1, Upper: 2})
		return i, true, err
	case initHe:
		i, err = initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: in})
		return i, true, err
	case initXavier:
		i, err = initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: in, FanOut: out})
		return i, true, err
	}
	return &simInit{v: v, mode: kind}, true, nil
}

func badInit(kind int) bool { return kind >= initError }

// nets adds layers to a simulated system.
type nets struct {
	*Sys
	fc map[int]*fcState
}

func newNets(o *Obs) *nets {
	y := &nets{newSys(o), map[int]*fcState{}}
	y.sync = true
	return y
}

// newfc creates the layer. I = inputs, outputs, kind of weight init, of bias init, ids of the two nodes.
func (y *nets) newfc(s Step) *Violation {
	in, out := s.I[0], s.I[1]
	v := unfs(s.F)
	if len(v) != 2*out {
		return nil
	}
	seedGlobal(mix(uint64(s.ID) + 99))
	conf := &layers.FCConfig{Inputs: in, Outputs: out}
	for k, key := range []string{"Weight", "Bias"} {
		i, present, err := initOf(s.I[2+k], v[k*out:(k+1)*out], in, out)
		if err != nil {
			return nil
		}
		if present {
			if conf.Initializers == nil {
				conf.Initializers = map[string]layers.Initializer{}
			}
			conf.Initializers[key] = i
		}
	}
	var l *layers.FC
	f := guard(func() (err error) { l, err = layers.NewFC(conf); return err })
	y.o.LogStep(s)
	bad := badInit(s.I[2]) || badInit(s.I[3])
	if bad {
		y.o.Inc(fmt.Sprintf("fault.initializer-%d", max(s.I[2], s.I[3])))
	}
	if f != nil {
		if f.Panic != "" {
			return viol("newfc-panic", s.ID, "NewFC(inputs %d, outputs %d, initializers %d/%d): %s", in, out, s.I[2], s.I[3], f)
		}
		if !bad {
			return viol("newfc-fails", s.ID, "NewFC(inputs %d, outputs %d, initializers %d/%d): %s", in, out, s.I[2], s.I[3], f)
		}
		return nil
	}
	if l == nil {
		return viol("newfc-nil", s.ID, "NewFC returned neither layer nor error")
	}
	st := &fcState{in: in, out: out, lib: l, role: [2]int{-1, -1}}
	ws := l.Weights()
	for i, w := range ws {
		if w.Value == nil {
			return viol("weights-nil-pointer", s.ID, "Weights()[%d].Value is nil", i)
		}
		if *w.Value == l.Weight && st.role[0] < 0 {
			st.role[0] = i
		} else if *w.Value == l.Bias && st.role[1] < 0 {
			st.role[1] = i
		}
	}
	if st.role[0] < 0 || st.role[1] < 0 {
		return viol("weights-missing", s.ID, "Weights() does not expose the layer's Weight and Bias tensors")
	}
	for k, r := range st.role {
		if !ws[r].Trainable {
			return viol("not-trainable", s.ID, "Weights() marks parameter %d (%s) as not trainable", k, []string{"Weight", "Bias"}[k])
		}
	}
	st.kept = ws
	for k, t := range []T{l.Weight, l.Bias} {
		if t == nil {
			return viol("newfc-shape", s.ID, "NewFC delivered a layer with a nil parameter")
		}
		sh, pv, rf := read(t)
		if rf != nil || !sameShape(sh, []int{out}) {
			return viol("newfc-shape", s.ID, "NewFC(outputs %d, initializers %d/%d) delivered a parameter of shape %v (%s)", out, s.I[2], s.I[3], sh, rf)
		}
		if s.I[2+k] == initCustom && sameBitsAll(pv, v[k*out:(k+1)*out]) >= 0 {
			return viol("newfc-values", s.ID, "the initializer's values %v became %v", v[k*out:(k+1)*out], pv)
		}
		y.o.LogFs(pv)
		id := s.I[4+k]
		y.m.leaf(Step{ID: id, K: "leaf", I: []int{out}, F: fs(pv), B: true})
		y.lib[id] = t
		st.par[k] = id
	}
	if bad { // a layer with parameters of the right shape is fine as well
		y.o.Inc("bad-initializer-tolerated")
	}
	y.fc[s.ID] = st
	return nil
}

// ptr is the pointer to a parameter: kept since the layer was made, or asked for anew.
func (st *fcState) ptr(which, via int) *tensor.Tensor {
	switch via % 3 {
	case 0:
		return st.kept[st.role[which]].Value
	case 1:
		ws := st.lib.Weights()
		if st.role[which] >= len(ws) || ws[st.role[which]].Value == nil {
			return nil
		}
		return ws[st.role[which]].Value
	}
	if which == 0 {
		return &st.lib.Weight
	}
	return &st.lib.Bias
}

// live checks that every way to reach the parameters gives the current tensors.
func (y *nets) live(s Step, st *fcState) *Violation {
	ws := st.lib.Weights()
	for which := 0; which < 2; which++ {
		if r := st.role[which]; r >= len(ws) || !ws[r].Trainable {
			return viol("not-trainable", s.ID, "Weights() does not list parameter %d as trainable", which)
		}
		want := y.lib[st.par[which]]
		for via := 0; via < 3; via++ {
			p := st.ptr(which, via)
			if p == nil || *p != want {
				return viol("pointer-not-live", s.ID, "parameter %d of the layer: the pointer (%s) does not address the current tensor", which, []string{"kept", "new", "field"}[via])
			}
		}
	}
	return nil
}

// forward runs the layer; In = input, I = layer, how the input arrives.
func (y *nets) forward(s Step) (n *Node, v *Violation) {
	st := y.fc[s.I[0]]
	if st == nil || !y.m.has(s.In) || !y.m.has(st.par[:]) {
		y.o.Inc("skipped")
		return nil, nil
	}
	q := Step{ID: s.ID, K: "op", Op: "c.FC", In: []int{st.par[0], st.par[1], s.In[0]}}
	n, _ = y.m.op(q, true)
	if n == nil {
		y.o.Inc("skipped")
		return nil, nil
	}
	x := y.lib[s.In[0]]
	var out T
	f := guard(func() (err error) {
		if s.I[1] == 1 {
			in := layers.NewInput()
			in.SeedFunc = func() tensor.Tensor { return x }
			if x, err = in.Forward(); err != nil {
				return err
			}
		}
		out, err = st.lib.Forward(x)
		return err
	})
	y.o.LogStep(s)
	xs := n.par[2].rt.Shape
	if f != nil || out == nil {
		y.m.drop(s.ID)
		return nil, viol("forward-fails", s.ID, "Forward of shape %v through a layer with %d outputs: %s", xs, st.out, f)
	}
	y.lib[s.ID] = out
	sh, v2, rf := read(out)
	if rf != nil || !sameShape(sh, n.rt.Shape) {
		return nil, viol("forward-shape", s.ID, "input %v, %d outputs: result has shape %v (%s)", xs, st.out, sh, rf)
	}
	w, b, xv := n.par[0].rt.V, n.par[1].rt.V, n.par[2].rt.V
	D := xs[1]
	for k := range v2 {
		i, o := k/st.out, k%st.out
		mag := math.Abs(b[o])
		for d := 0; d < D; d++ {
			mag += math.Abs(w[o] * xv[i*D+d])
		}
		if mag > fcRough { // overflow on the way, also in another order of summation
			continue
		}
		if !(math.Abs(v2[k]-n.rt.V[k]) <= 1e-12*mag+1e-300) {
			return nil, viol("forward-value", s.ID, "y[%d][%d] = %g, W[%d]*sum(x[%d])+B[%d] = %g (W=%v B=%v x=%v)", i, o, v2[k], o, i, o, n.rt.V[k], w, b, xv)
		}
	}
	y.o.LogFs(v2)
	y.adopt(s.ID)
	y.o.Inc("forward")
	return n, nil
}

// rows checks that an output row depends on its own input row only.
func (y *nets) rows(s Step, n *Node) *Violation {
	st := y.fc[s.I[0]]
	xs, xv := n.par[2].rt.Shape, n.par[2].rt.V
	if xs[0] < 2 {
		return nil
	}
	keep := s.ID % xs[0]
	v := append([]float64{}, xv...)
	for k := range v {
		if k/xs[1] != keep {
			v[k] = -3*v[k] + float64(k) + 1
		}
	}
	x, err := leafOf(xs, v, false, nil)
	if err != nil {
		return nil
	}
	var out T
	f := guard(func() (err error) { out, err = st.lib.Forward(x); return err })
	if f != nil {
		return viol("forward-fails", s.ID, "Forward of the same shape again: %s", f)
	}
	sh, a, f1 := read(out)
	_, b, f2 := read(y.lib[s.ID])
	if f1 != nil || f2 != nil || !sameShape(sh, n.rt.Shape) {
		return viol("forward-shape", s.ID, "shape %v then %v", n.rt.Shape, sh)
	}
	for o := 0; o < st.out; o++ {
		if !sameBits(a[keep*st.out+o], b[keep*st.out+o]) {
			return viol("row-leak", s.ID, "y[%d][%d] went from %v to %v when only other input rows changed", keep, o, b[keep*st.out+o], a[keep*st.out+o])
		}
	}
	y.o.Inc("row-isolation-checks")
	return nil
}

// replace puts an existing tensor behind a parameter pointer.
func (y *nets) replace(s Step) (done bool, v *Violation) {
	st := y.fc[s.I[0]]
	if st == nil || !y.m.has(s.In) || !sameShape(y.m.n[s.In[0]].rt.Shape, []int{st.out}) {
		y.o.Inc("skipped")
		return false, nil
	}
	p := st.ptr(s.I[1], s.I[2])
	if p == nil {
		return false, viol("weights-nil-pointer", s.ID, "no pointer to parameter %d", s.I[1])
	}
	*p = y.lib[s.In[0]]
	st.par[s.I[1]] = s.In[0]
	y.o.LogStep(s)
	y.o.Inc("replaced")
	return true, y.live(s, st)
}

// checkNet compares gradients with the derivatives of the formulas.
func (y *nets) checkNet(s Step, set []*Node) *Violation {
	for _, n := range set {
		if n.grad == nil || y.m.n[n.id] != n {
			continue
		}
		gt := y.lib[n.id].Gradient()
		if gt == nil {
			return viol("gradient-missing", s.ID, "tensor %d (%s) took part in the back-propagation and has no gradient", n.id, n.desc())
		}
		sh, v, f := read(gt)
		if f != nil || !sameShape(sh, n.rt.Shape) {
			return viol("gradient-shape", s.ID, "tensor %d (%s): shape of the gradient is %v (%s)", n.id, n.desc(), sh, f)
		}
		y.o.LogFs(v)
		y.o.Add("gradient.elements", int64(len(v)))
		for i := range v {
			if n.grad[i] != n.grad[i] || math.IsInf(n.gabs[i], 0) {
				continue
			}
			if !(math.Abs(v[i]-n.grad[i]) <= 1e-9*n.gabs[i]+1e-290) {
				return viol("gradient-value", s.ID, "tensor %d (%s) element %v: gradient %g, derivative of the formula %g (sum of magnitudes %g)", n.id, n.desc(), unravel(i, sh), v[i], n.grad[i], n.gabs[i])
			}
		}
	}
	return nil
}

// update delivers an SGD update to a parameter. ID becomes the new tensor.
func (y *nets) update(s Step, c *optimizers.SGD) (n *Node, before snap, f *Fail) {
	st := y.fc[s.I[0]]
	p := st.ptr(s.I[1], s.I[2])
	old := y.m.n[st.par[s.I[1]]]
	before = snapOf(*p)
	f = guard(func() error { return c.Update(p) })
	y.o.LogStep(s)
	if f != nil {
		return nil, before, f
	}
	sh, v, rf := read(*p)
	if rf != nil {
		return nil, before, rf
	}
	n = y.m.updated(s.ID, old)
	n.rt = &RT{Shape: sh, V: v}
	y.lib[s.ID] = *p
	st.par[s.I[1]] = s.ID
	return n, before, nil
}
