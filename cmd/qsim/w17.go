package main

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// World C17: parameter cells (pointers to tensors) shared by several optimizers.
// Clients compute losses over the cells and back-propagate; Update requests are
// delivered in any order, duplicated, delivered to cells without a gradient, to a
// nil pointer or a pointer to nil, and to pointers that alias the same tensor.

func genC17(seed uint64, run int, tier string) *Plan {
	p := genPlanC17(seed, run, tier)
	addMistakes(p, NewRng(seed, hashStr("C17-mistakes"), uint64(run)))
	return p
}

func genPlanC17(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C17"), uint64(run))
	p := &Plan{Prop: "C17", Run: run, Seed: seed}
	g := newG(r)
	g.needDiff, g.limit, g.kfOK = false, 1e150, true
	g.maxElems, g.maxRank = 24, 5
	g.pTrack = 0.5
	p.Kind = "cells"
	n := r.In(4, 40)
	switch {
	case r.P(0.06): // large tensors
		p.Kind = "large"
		g.maxElems, g.wideDim = r.Pick(700, 3000), r.Pick(10, 300)
		n = r.In(3, 8)
	case r.P(0.006): // beyond every block size
		p.Kind = "huge"
		g.maxElems, g.wideDim = r.Pick(5000, 12000, 40000), r.Pick(70, 300, 5000)
		n = r.In(3, 6)
	case r.P(0.05): // one optimizer, many updates
		p.Kind = "long"
		n = r.In(80, 300)
		if tier == "thorough" {
			n = r.In(80, 900)
		}
	}
	nopt := r.In(1, 4)
	if p.Kind == "cells" && r.P(0.003) { // more than a thousand updates by one optimizer
		p.Kind = "marathon"
		g.maxElems, nopt = 4, 1
		n = r.In(300, 1600)
	}
	for k := 0; k < nopt; k++ {
		lr := r.PickF(0.01, 0.1, 1, 0, -0.5, -1, 1e-9, 3e7, r.Range(0, 1), r.Range(-2, 2), math.Pow(10, r.Range(-120, 120)))
		s := Step{ID: g.id(), K: "optimizer", F: fs([]float64{lr}), B: r.P(0.15)} // B: nil config
		g.steps = append(g.steps, s)
	}
	ncells := r.In(1, 4)
	wide := func(k int) []float64 {
		v := make([]float64, k)
		for i := range v {
			switch r.N(6) {
			case 0:
				v[i] = r.Norm()
			case 1:
				v[i] = float64(r.In(-3, 3))
			case 2:
				v[i] = r.Norm() * math.Pow(10, r.Range(-30, 30))
			case 3:
				v[i] = math.Copysign(0, r.Range(-1, 1))
			case 4:
				v[i] = r.Norm() * math.Pow(10, r.Range(-320, -290))
			default:
				v[i] = r.Range(-5, 5)
			}
		}
		return v
	}
	var cells []int // cell -> nothing; the node a cell addresses is in addr
	addr := map[int]int{}
	newCell := func() {
		sh := g.shape()
		if p.Kind == "large" {
			sh = [][]int{{r.In(60, 300)}, {r.In(8, 26), r.In(8, 26)}, {r.In(3, 8), r.In(3, 8), r.In(3, 8)}, {700}}[r.N(4)]
		}
		if p.Kind == "huge" {
			sh = g.hugeShape(g.maxElems)
		}
		n := g.leafWith(sh, wide(nelems(sh)), r.P(0.9))
		if n == nil {
			return
		}
		c := g.id()
		g.steps = append(g.steps, Step{ID: c, K: "cell", In: []int{n.id}})
		cells = append(cells, c)
		addr[c] = n.id
	}
	for k := 0; k < ncells; k++ {
		newCell()
	}
	at := func(c int) *Node { return g.m.n[addr[c]] }
	update := func(c int) {
		s := Step{ID: g.id(), K: "update", In: []int{c}, I: []int{r.N(nopt)}}
		g.steps = append(g.steps, s)
		if n := at(c); n != nil && n.grad != nil {
			q := g.m.updated(s.ID, n)
			addr[c] = q.id
			g.pool = append(g.pool, q)
		}
	}
	for i := 0; i < n; i++ {
		g.c = r.N(3)
		c := cells[r.N(len(cells))]
		w := at(c)
		x := r.F()
		if p.Kind == "marathon" && r.P(0.9) {
			if g.bp(w); true {
				x = 1
			}
		}
		switch {
		case x < 0.05 && len(cells) < 6:
			newCell()
		case x < 0.10: // another pointer to the same tensor
			d := g.id()
			g.steps = append(g.steps, Step{ID: d, K: "cell", In: []int{addr[c]}})
			cells = append(cells, d)
			addr[d] = addr[c]
		case x < 0.16:
			g.steps = append(g.steps, Step{ID: g.id(), K: []string{"nilpointer", "niltensor"}[r.N(2)], I: []int{r.N(nopt)}})
		case x < 0.24:
			g.reset(w, r.P(0.8))
		case x < 0.30: // a gradient of wide range: weight times constant
			k := g.leafWith(w.rt.Shape, wide(len(w.rt.V)), false)
			if k != nil {
				if q := g.try(Step{Op: "Mul", In: []int{w.id, k.id}}); q != nil {
					g.bp(q)
				}
			}
		case x < 0.55: // a loss over the weights, back-propagated
			g.pool = append(g.pool, w)
			var q *Node
			for k := r.In(1, 4); k > 0; k-- {
				if x := g.growOp(g.randOp(), map[bool]*Node{true: w, false: nil}[q == nil]); x != nil {
					q = x
				}
			}
			if q != nil {
				g.bp(q)
			}
		case x < 0.62:
			g.bp(w)
		case x < 0.67: // a result as a cell
			if q := g.pick(func(n *Node) bool { return true }); q != nil {
				d := g.id()
				g.steps = append(g.steps, Step{ID: d, K: "cell", In: []int{q.id}})
				cells = append(cells, d)
				addr[d] = q.id
			}
		default:
			update(c)
			if r.P(0.25) { // duplicated delivery
				update(c)
			}
			if r.P(0.6) && g.m.resetAllowed(at(c)) {
				g.reset(at(c), r.P(0.9))
			}
		}
		if len(g.pool) > 14 {
			g.pool = g.pool[len(g.pool)-10:]
		}
	}
	p.Steps = g.steps
	return p
}

// updated registers the tensor an Update put in place of n: computed from spent tensors.
func (m *Model) updated(id int, n *Node) *Node {
	return m.add(&Node{id: id, step: Step{ID: id, K: "update"}, rt: n.rt, leaf: true, spent: true})
}

func execC17(p *Plan, o *Obs) *Violation {
	y := newSys(o)
	type opt struct {
		c  *optimizers.SGD
		lr float64
	}
	var opts []opt
	cells := map[int]*T{}
	addr := map[int]int{}
	updates, rejected := 0, 0
	for _, s := range p.Steps {
		switch s.K {
		case "optimizer":
			x := opt{lr: s.f(0)}
			if s.B {
				x.lr = 0.01
				x.c = optimizers.NewSGD(nil)
			} else {
				x.c = optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: x.lr})
			}
			opts = append(opts, x)
			o.LogStep(s)
		case "cell":
			if !y.m.has(s.In) {
				continue
			}
			t := y.lib[s.In[0]]
			cells[s.ID] = &t
			addr[s.ID] = s.In[0]
			o.LogStep(s)
		case "nilpointer", "niltensor":
			if len(opts) == 0 {
				continue
			}
			var ptr *tensor.Tensor
			var none tensor.Tensor
			if s.K == "niltensor" {
				ptr = &none
			}
			f := guard(func() error { return opts[s.I[0]%len(opts)].c.Update(ptr) })
			o.LogStep(s)
			o.Inc("fault." + s.K)
			if f == nil || f.Panic != "" {
				return viol("bad-input-accepted", s.ID, "Update of a %s: %s", s.K, f)
			}
			if none != nil {
				return viol("bad-input-replaced", s.ID, "Update of a nil tensor put a tensor there")
			}
		case "update":
			cell := cells[s.In[0]]
			if cell == nil || len(opts) == 0 {
				o.Inc("skipped")
				continue
			}
			op := opts[s.I[0]%len(opts)]
			old := *cell
			node := y.m.n[addr[s.In[0]]]
			if node == nil || old == nil {
				continue
			}
			before := snapOf(old)
			if before.fail != nil {
				continue
			}
			others := map[int]T{}
			for id, c := range cells {
				others[id] = *c
			}
			f := guard(func() error { return op.c.Update(cell) })
			o.LogStep(s)
			if f != nil && f.Panic != "" {
				return viol("panic", s.ID, "Update: %s", f)
			}
			for id, c := range cells {
				if id != s.In[0] && *c != others[id] {
					return viol("other-cell", s.ID, "Update through one pointer replaced the tensor behind another")
				}
			}
			after := snapOf(old)
			if d := before.diff(&after, true); d != "" {
				return viol("old-tensor-changed", s.ID, "Update changed the previous tensor object (shape %v): %s", before.shape, d)
			}
			if before.g == nil {
				rejected++
				o.Inc("fault.update-without-gradient")
				if f == nil {
					return viol("no-gradient-accepted", s.ID, "Update of a tensor without gradient returned no error")
				}
				if *cell != old {
					return viol("no-gradient-replaced", s.ID, "Update of a tensor without gradient replaced it (error: %s)", f)
				}
				continue
			}
			if f != nil {
				return viol("update-fails", s.ID, "Update of a tensor of shape %v with gradient of shape %v, learning rate %g: %s", before.shape, before.gs, op.lr, f)
			}
			if *cell == nil {
				return viol("update-nil", s.ID, "Update stored nil")
			}
			sh, v, rf := read(*cell)
			if rf != nil {
				return viol("update-unreadable", s.ID, "the updated tensor: %s", rf)
			}
			if !sameShape(sh, before.shape) {
				return viol("update-shape", s.ID, "Update of a tensor of shape %v, gradient shape %v, gave shape %v", before.shape, before.gs, sh)
			}
			updates++
			o.Inc("updates")
			o.Inc(fmt.Sprintf("updates.rank%d", len(sh)))
			o.LogFs(v)
			if len(before.gv) == len(before.v) {
				for i := range v {
					w, g := before.v[i], before.gv[i]
					want := w - op.lr*g
					if math.IsInf(want, 0) || math.IsNaN(want) || math.IsInf(w, 0) || math.IsInf(g, 0) {
						continue
					}
					tol := 4*2.3e-16*(math.Abs(w)+math.Abs(op.lr*g)) + 1e-322
					if !(math.Abs(v[i]-want) <= tol) {
						return viol("update-value", s.ID, "shape %v element %v: w=%g g=%g lr=%g: w-lr*g=%g, got %g", sh, unravel(i, sh), w, g, op.lr, want, v[i])
					}
				}
			} else {
				return viol("gradient-shape", s.ID, "tensor of shape %v had a gradient of shape %v", before.shape, before.gs)
			}
			y.m.drop(s.ID)
			q := y.m.updated(s.ID, node)
			q.rt = &RT{Shape: sh, V: v}
			y.lib[s.ID] = *cell
			addr[s.In[0]] = s.ID
		default:
			_, _, f := y.base(s, nil)
			if f != nil && f.Panic != "" {
				o.Inc("panic." + s.K)
			}
		}
	}
	o.NonTriv = updates > 0 && (rejected > 0 || updates > 1)
	return nil
}
