package main

import (
	"fmt"
	"math"

	"qeepverif/simrt"

	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
)

// World C11: several trainers, each with a model of FC layers, activations and a
// loss, share data, batches and optimizer objects; their phases interleave. Faults:
// crash between any two phases with recovery by reset, lost resets, lost
// back-propagations, lost or duplicated updates, redelivered resets, frozen
// parameters, bad batches, checkpoint restores, evaluation passes in between.
// Oracle: the derivative of the composed formulas at the weights the library holds.

type trainer struct {
	layers []int
	acts   []Step // activation after each layer (Op "" for none)
	loss   string
	todo   []func() // remaining phases of the current step
	graph  []int    // nodes of the current step
	last   *Node
	lossN  *Node
	optim  int
	pool   []batch
}

type batch struct{ x, t int }

func genC11(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C11"), uint64(run))
	p := &Plan{Prop: "C11", Run: run, Seed: seed, Kind: "trainers"}
	g := newG(r)
	g.needDiff, g.limit = false, 1e200
	g.maxElems, g.maxRank = 1<<20, 3
	ls := map[int]*fcState{}
	nopt := r.In(1, 3)
	var lrs []float64
	for k := 0; k < nopt; k++ {
		lr := r.PickF(0.01, 0.1, 0.5, 1, 0.05, 0, -0.1, 3, r.Range(0, 1))
		b := r.P(0.15)
		if b {
			lr = 0.01
		}
		lrs = append(lrs, lr)
		g.steps = append(g.steps, Step{ID: g.id(), K: "optimizer", F: fs([]float64{lr}), B: b})
	}
	nt := r.Pick(1, 1, 2, 3)
	objs := r.Pick(0, 1, 1, 1, nt+1) // how many sets of activation and loss objects; 0: new ones for every use
	large := r.P(0.04)
	huge := r.P(0.006)
	side := r.P(0.5) // wide layers or many examples
	steps := r.In(2, 9)
	if tier == "thorough" {
		steps = r.In(2, 24)
	}
	if r.P(0.08) {
		p.Kind = "long"
		nt = 1
		steps = r.In(20, 60)
		if tier == "thorough" {
			steps = r.In(30, 250)
		}
	}
	if !huge && r.P(0.0025) { // hundreds of steps of a small model
		p.Kind, nt, large = "marathon", 1, false
		steps = r.In(270, 1100)
		nopt = 1
	}
	if huge {
		p.Kind, nt, steps = "huge", 1, r.In(2, 3)
	}
	fault := r.PickF(0, 0, 0.05, 0.15, 0.3)
	if p.Kind == "marathon" {
		fault /= 10
	}
	width := func() int {
		if huge && side && r.P(0.5) {
			return r.In(30, 150)
		}
		if large && r.P(0.2) {
			return r.In(5, 20)
		}
		if p.Kind == "marathon" {
			return r.Pick(1, 1, 2)
		}
		return r.Pick(1, 1, 2, 2, 3, 4)
	}
	newfc := func(in, out int) int {
		kinds := []int{initCustom, initCustom, initCustom, initCustom, initDefault, initUniform, initHe, initXavier, initFull}
		s := Step{K: "newfc", ID: g.id()}
		s.I = []int{in, out, kinds[r.N(len(kinds))], kinds[r.N(5)], g.id(), g.id()}
		v := make([]float64, 2*out)
		zero := r.P(0.08)
		for i := range v {
			v[i] = r.Norm() * 0.8
			if zero {
				v[i] = 0
			}
		}
		s.F = fs(v)
		g.emit(s)
		for k := 0; k < 2; k++ {
			g.m.leaf(Step{ID: s.I[4+k], K: "leaf", I: []int{out}, F: s.F[k*out : (k+1)*out], B: true})
		}
		ls[s.ID] = &fcState{in: in, out: out, par: [2]int{s.I[4], s.I[5]}}
		return s.ID
	}
	actOf := func(last bool, loss string) Step {
		a := []string{"c.Relu", "c.LeakyRelu", "c.Sigmoid", "c.Tanh", "c.Softmax", ""}[r.N(6)]
		if last && loss == "c.CE" && r.P(0.7) {
			a = "c.Softmax"
		}
		if last && loss == "c.BCE" && r.P(0.75) {
			a = "c.Sigmoid"
		}
		s := Step{Op: a}
		switch a {
		case "c.LeakyRelu":
			s.F = fs([]float64{r.PickF(0.01, 0.3, 1, -0.5)})
		case "c.Softmax":
			s.I = []int{r.Pick(1, 1, 0)}
		}
		return s
	}
	var shared []batch
	obj := func(k int) int {
		if objs == 0 {
			return 0
		}
		return 1 + k%objs
	}
	ts := make([]*trainer, nt)
	for k := range ts {
		t := &trainer{optim: r.N(nopt), loss: []string{"c.MSE", "c.BCE", "c.CE"}[r.N(3)]}
		depth := r.Pick(1, 1, 1, 2, 3)
		if p.Kind == "marathon" {
			depth = 1
		}
		in := width()
		d := in
		for i := 0; i < depth; i++ {
			out := width()
			if t.loss == "c.CE" && i == depth-1 && out == 1 {
				out = r.In(1, 4)
			}
			if i > 0 && r.P(0.15) { // the same layer once more
				t.layers = append(t.layers, t.layers[len(t.layers)-1])
				out = ls[t.layers[len(t.layers)-1]].out
			} else {
				t.layers = append(t.layers, newfc(d, out))
			}
			t.acts = append(t.acts, actOf(i == depth-1, t.loss))
			d = out
		}
		// data
		nb := r.In(1, 3)
		for j := 0; j < nb; j++ {
			B := r.Pick(1, 2, 3, 4, 6)
			if p.Kind == "marathon" {
				B = r.In(1, 2)
			}
			if large {
				B = r.Pick(r.In(7, 20), r.In(20, 70), r.In(60, 140))
			}
			if huge && !side {
				B = r.Pick(r.In(140, 600), r.In(500, 1500))
			}
			if j > 0 && r.P(0.5) && len(t.pool) > 0 {
				B = g.m.n[t.pool[0].x].rt.Shape[0]
			}
			tracked := r.P(0.04)
			var x *Node
			if len(shared) > 0 && r.P(0.4) { // data shared with another trainer
				c := g.m.n[shared[r.N(len(shared))].x]
				if c.rt.Shape[1] == in || r.P(0.3) {
					x = c
					B = c.rt.Shape[0]
				}
			}
			if x == nil {
				v := make([]float64, B*in)
				m := r.N(3)
				for i := range v {
					switch m {
					case 0:
						v[i] = r.Norm()
					case 1:
						v[i] = r.Range(-1, 1)
					default:
						v[i] = float64(r.In(-2, 2))
					}
				}
				x = g.leafWith([]int{B, in}, v, tracked)
			}
			tv := make([]float64, B*d)
			soft := r.P(0.3)
			for i := range tv {
				switch {
				case t.loss == "c.MSE":
					tv[i] = r.Norm()
				case soft:
					tv[i] = r.F()
				case t.loss == "c.BCE":
					tv[i] = float64(r.N(2))
				}
			}
			if t.loss == "c.CE" && !soft {
				for i := 0; i < B; i++ {
					tv[i*d+r.N(d)] = 1
				}
			}
			sh := []int{B, d}
			if t.loss != "c.CE" {
				sh = []int{B * d}
			}
			y := g.leafWith(sh, tv, false)
			t.pool = append(t.pool, batch{x.id, y.id})
			shared = append(shared, batch{x.id, y.id})
		}
		ts[k] = t
	}
	params := func(t *trainer) (ps [][2]int) {
		seen := map[int]bool{}
		for _, l := range t.layers {
			if !seen[l] {
				seen[l] = true
				ps = append(ps, [2]int{l, 0}, [2]int{l, 1})
			}
		}
		return
	}
	abandon := func(t *trainer) {
		if len(t.graph) > 0 {
			s := Step{ID: g.id(), K: "abandon", In: t.graph}
			g.emit(s)
			g.m.abandon(s.In)
		}
		t.graph, t.last, t.lossN = nil, nil, nil
	}
	resetP := func(l, w int, track bool) { g.reset(g.m.n[ls[l].par[w]], track) }
	update := func(l, w int, o int) {
		s := Step{ID: g.id(), K: "update", I: []int{l, w, r.N(3), o}}
		old := g.m.n[ls[l].par[w]]
		g.emit(s)
		if old.grad != nil {
			q := g.m.updated(s.ID, old)
			q.rt = &RT{Shape: old.rt.Shape, V: append([]float64{}, old.rt.V...)}
			for i := range q.rt.V {
				q.rt.V[i] -= lrs[o] * old.grad[i]
			}
			ls[l].par[w] = q.id
		}
	}
	recover_ := func(t *trainer) {
		abandon(t)
		for _, q := range params(t) {
			resetP(q[0], q[1], true)
		}
	}
	faulty := func() bool { return r.P(fault) }
	plan := func(k int, t *trainer) { // the phases of one training step
		abandon(t)
		micro := 1
		if r.P(0.06) {
			micro = 2
		}
		var bps []func()
		for ; micro > 0; micro-- {
			b := t.pool[r.N(len(t.pool))]
			var lossN *Node
			t.todo = append(t.todo, func() { t.last = g.m.n[b.x] })
			if r.P(0.1) { // a copy of the batch, through a slice of the data
				t.todo = append(t.todo, func() {
					if q := g.try(Step{Op: "Slice", In: []int{t.last.id}}); q != nil {
						t.last = q
						t.graph = append(t.graph, q.id)
					}
				})
			}
			for i := range t.layers {
				l := t.layers[i]
				a := t.acts[i]
				t.todo = append(t.todo, func() {
					if t.last == nil {
						return
					}
					st := ls[l]
					s := Step{ID: g.id(), K: "forward", In: []int{t.last.id}, I: []int{l, r.Pick(0, 0, 1)}}
					q, _ := g.m.op(Step{ID: s.ID, K: "op", Op: "c.FC", In: []int{st.par[0], st.par[1], t.last.id}}, true)
					t.last = q
					if q != nil {
						g.emit(s)
						t.graph = append(t.graph, q.id)
					}
				})
				if a.Op == "" {
					continue
				}
				t.todo = append(t.todo, func() {
					if t.last == nil {
						return
					}
					s := a
					s.O = obj(k)
					s.In = []int{t.last.id}
					t.last = g.try(s)
					if t.last != nil {
						t.graph = append(t.graph, t.last.id)
					}
				})
			}
			t.todo = append(t.todo, func() {
				if t.last == nil {
					return
				}
				sh := t.last.rt.Shape
				if t.loss != "c.CE" {
					s := Step{Op: "Flatten", In: []int{t.last.id}, I: []int{0}}
					switch {
					case sh[1] == 1 && r.P(0.5):
						s = Step{Op: "Squeeze", In: s.In, I: []int{1}}
					case sh[0] == 1 && r.P(0.5):
						s = Step{Op: "Squeeze", In: s.In, I: []int{0}}
					case r.P(0.4):
						s = Step{Op: "Reshape", In: s.In, I: []int{sh[0] * sh[1]}}
					}
					t.last = g.try(s)
					if t.last == nil {
						return
					}
					t.graph = append(t.graph, t.last.id)
				}
				lossN = g.try(Step{O: obj(k), Op: t.loss, In: []int{t.last.id, b.t}})
				if lossN != nil {
					t.graph = append(t.graph, lossN.id)
				}
			})
			bps = append(bps, func() {
				if faulty() && r.P(0.3) {
					g.emit(Step{ID: g.id(), K: "lost", Op: "back-propagation"})
					return
				}
				if lossN != nil {
					g.bp(lossN)
				}
			})
		}
		t.todo = append(t.todo, bps...)
		ps := params(t)
		for _, k := range r.Perm(len(ps)) {
			l, w := ps[k][0], ps[k][1]
			early := r.P(0.3) // reset right after the update
			up := func() {
				if faulty() && r.P(0.4) {
					g.emit(Step{ID: g.id(), K: "lost", Op: "update"})
				} else {
					update(l, w, t.optim)
					if faulty() && r.P(0.5) {
						update(l, w, t.optim) // delivered twice
					}
				}
			}
			re := func() {
				if faulty() && r.P(0.5) {
					g.emit(Step{ID: g.id(), K: "lost", Op: "reset"})
					return
				}
				resetP(l, w, !(faulty() && r.P(0.2)))
				if faulty() && r.P(0.3) {
					resetP(l, w, true)
				}
			}
			t.todo = append(t.todo, up)
			if early {
				t.todo = append(t.todo, re)
			} else {
				defer func() { t.todo = append(t.todo, re) }()
			}
		}
	}
	left := make([]int, nt)
	for k := range left {
		left[k] = steps
	}
	for {
		var live []int
		for k, t := range ts {
			if left[k] > 0 || len(t.todo) > 0 {
				live = append(live, k)
			}
		}
		if len(live) == 0 {
			break
		}
		k := live[r.N(len(live))]
		t := ts[k]
		g.c = k
		if len(t.todo) == 0 {
			plan(k, t)
			left[k]--
			continue
		}
		if faulty() && r.P(0.25) {
			switch r.N(6) {
			case 0, 1: // crash: what is left of the step is lost, recovery resets everything
				g.emit(Step{ID: g.id(), K: "crash", I: []int{len(t.todo)}})
				t.todo = nil
				recover_(t)
				continue
			case 2: // a malformed batch
				g.emit(Step{ID: g.id(), K: "badbatch", I: []int{t.layers[0], r.N(12)}})
			case 3: // restore a checkpoint
				ps := params(t)
				q := ps[r.N(len(ps))]
				if len(t.graph) == 0 {
					n := ls[q[0]].out
					v := make([]float64, n)
					for i := range v {
						v[i] = r.Norm()
					}
					if c := g.leafWith([]int{n}, v, true); c != nil {
						g.emit(Step{ID: g.id(), K: "replace", In: []int{c.id}, I: []int{q[0], q[1], r.N(3)}})
						ls[q[0]].par[q[1]] = c.id
					}
				}
			case 4: // evaluation pass, its graph is dropped
				b := t.pool[r.N(len(t.pool))]
				st := ls[t.layers[0]]
				s := Step{ID: g.id(), K: "forward", In: []int{b.x}, I: []int{t.layers[0], 0}, B: true}
				if q, _ := g.m.op(Step{ID: s.ID, K: "op", Op: "c.FC", In: []int{st.par[0], st.par[1], b.x}}, true); q != nil {
					g.emit(s)
					e := g.try(Step{O: obj(k), Op: "c.Sigmoid", In: []int{q.id}})
					d := []int{q.id}
					if e != nil {
						d = append(d, e.id)
					}
					a := Step{ID: g.id(), K: "abandon", In: d}
					g.emit(a)
					g.m.abandon(d)
				}
			default: // an update out of turn
				ps := params(t)
				q := ps[r.N(len(ps))]
				if len(t.graph) == 0 {
					update(q[0], q[1], t.optim)
				}
			}
		}
		f := t.todo[0]
		t.todo = t.todo[1:]
		f()
		// a step that went through with something lost is repaired some time later
		if len(t.todo) == 0 && r.P(0.7) {
			clean := true
			for _, q := range params(t) {
				n := g.m.n[ls[q[0]].par[q[1]]]
				clean = clean && n.track && !n.spent
			}
			if !clean && r.P(0.6) {
				recover_(t)
			}
		}
	}
	p.Steps = g.steps
	return p
}

// abandon forgets results nobody will use again.
func (m *Model) abandon(ids []int) {
	for k := len(ids) - 1; k >= 0; k-- {
		n := m.n[ids[k]]
		if n == nil {
			continue
		}
		for _, p := range n.par {
			for i := 0; i < len(p.kids); {
				if p.kids[i] == n {
					p.kids = append(p.kids[:i], p.kids[i+1:]...)
				} else {
					i++
				}
			}
		}
		delete(m.n, n.id)
	}
}

func execC11(p *Plan, o *Obs) *Violation {
	y := newNets(o)
	type opt struct {
		c  *optimizers.SGD
		lr float64
	}
	var opts []opt
	rough := map[*Node]bool{}     // formula not differentiable (or ill-conditioned) here
	odd := map[*Node]bool{}       // the library's value is not the formula's
	wrong := map[*Node]float64{}  // losses whose value is not the defined one, and that
	taint := map[int]bool{}       // gradient of this parameter not comparable
	graphs := map[int][][]*Node{} // parameter -> graphs that were back-propagated
	cost := map[uint64]uint64{}   // ticks of the first back-propagation of that size
	stepsDone := map[int]int{}    // updates per parameter slot
	staleRejected, trained := 0, 0
	slot := map[int]int{}
	still := func(s Step, but int) *Violation {
		for id, st := range y.fc {
			for w := 0; w < 2; w++ {
				n := y.m.n[st.par[w]]
				if n == nil || n.id == but {
					continue
				}
				sh, v, f := read(*st.ptr(w, 2))
				if f != nil || !sameShape(sh, []int{st.out}) {
					return viol("weight-shape", s.ID, "parameter %d of layer %d has shape %v instead of [%d] (%s)", w, id, sh, st.out, f)
				}
				if i := sameBitsAll(v, n.rt.V); i >= 0 {
					return viol("weight-moved", s.ID, "%s: parameter %d of layer %d, element %d, went from %v to %v", s, w, id, i, n.rt.V[i], v[i])
				}
			}
		}
		return nil
	}
	for _, s := range p.Steps {
		switch s.K {
		case "optimizer":
			x := opt{lr: s.f(0)}
			if s.B {
				x.c = optimizers.NewSGD(nil)
			} else {
				x.c = optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: x.lr})
			}
			opts = append(opts, x)
		case "newfc":
			if v := y.newfc(s); v != nil {
				return v
			}
		case "forward":
			n, v := y.forward(s)
			if v != nil && v.Class != "forward-value" {
				return v
			}
			if v != nil { // the layer's formula is C16's business
				n = y.m.n[s.ID]
				odd[n] = true
				y.adopt(s.ID)
			}
			if n != nil && s.B {
				o.Inc("fault.evaluation-pass")
			}
		case "replace":
			if _, v := y.replace(s); v != nil {
				return v
			}
			o.Inc("fault.checkpoint-restore")
		case "abandon":
			y.m.abandon(s.In)
			for _, i := range s.In {
				delete(y.lib, i)
			}
			o.Inc("graphs-abandoned")
		case "crash":
			o.Inc("fault.crash")
			o.LogStep(s)
		case "lost":
			o.Inc("fault.lost-" + s.Op)
			o.LogStep(s)
		case "badbatch":
			st := y.fc[s.I[0]]
			if st == nil {
				continue
			}
			var f *Fail
			if s.I[1] < 6 {
				f = badBatchCall(st, s.I[1])
			} else {
				f = y.comps.misuseAll(s.I[1], []T{*st.ptr(0, 0)})
			}
			o.Inc("fault.bad-batch")
			o.LogStep(s)
			if f != nil && f.Panic != "" {
				return viol("panic", s.ID, "malformed batch (kind %d): %s", s.I[1], f)
			}
			if v := still(s, -1); v != nil {
				return v
			}
		case "update":
			st := y.fc[s.I[0]]
			if st == nil || len(opts) == 0 || y.m.n[st.par[s.I[1]]] == nil {
				o.Inc("skipped")
				continue
			}
			op := opts[s.I[3]%len(opts)]
			old := y.m.n[st.par[s.I[1]]]
			ptr := st.ptr(s.I[1], s.I[2])
			was := *ptr
			n, before, f := y.update(s, op.c)
			if f != nil && f.Panic != "" {
				return viol("panic", s.ID, "Update: %s", f)
			}
			if old.grad == nil {
				o.Inc("fault.update-on-stale-state")
				if f == nil {
					return viol("stale-update", s.ID, "parameter %d of layer %d took part in no back-propagation since its last reset (spent: %v); Update returned no error", s.I[1], s.I[0], old.spent)
				}
				if *ptr != was {
					return viol("stale-update", s.ID, "the rejected Update replaced the parameter")
				}
				if old.spent {
					staleRejected++
				}
				if v := still(s, -1); v != nil {
					return v
				}
				continue
			}
			if f != nil {
				return viol("update-fails", s.ID, "Update of parameter %d of layer %d after a back-propagation: %s", s.I[1], s.I[0], f)
			}
			sh, v := n.rt.Shape, n.rt.V
			if !sameShape(sh, []int{st.out}) {
				return viol("weight-shape", s.ID, "after the update the parameter has shape %v instead of [%d]", sh, st.out)
			}
			o.Inc("updated")
			key := s.I[0]*2 + s.I[1]
			stepsDone[key]++
			trained = max(trained, stepsDone[key])
			o.LogFs(v)
			if taint[old.id] {
				o.Inc("updates-not-compared")
			} else {
				for i := range v {
					w, gr, mag := before.v[i], old.grad[i], old.gabs[i]
					if gr != gr || math.IsInf(mag, 0) || mag != mag || mag > 1e100 {
						o.Inc("elements-not-compared")
						continue
					}
					want := w - op.lr*gr
					tol := math.Abs(op.lr)*1e-8*mag + 1e-15*(math.Abs(w)+math.Abs(op.lr*gr)) + 1e-300
					if math.Abs(v[i]-want) <= tol {
						o.Inc("elements-compared")
						continue
					}
					why := "" // is it the derivative of what the library computes?
					if oddIn(graphs[old.id], odd) {
						if l := wrongLoss(graphs[old.id], wrong); l != nil && math.Abs(v[i]-want) > math.Abs(op.lr)*1e-5*(mag+1e-9)+1e-12*math.Abs(w) {
							return viol("other-loss", s.ID, "trainer %d, step %d: parameter %d of layer %d, element %d: w=%g, lr=%g, dLoss/dw=%g: expected %g, got %g: the update follows something else than the mini-batch loss: %s over shapes %v is %g, Compute returned %g", s.C, stepsDone[key], s.I[1], s.I[0], i, w, op.lr, gr, want, v[i], l.step.Op, l.par[0].rt.Shape, wrong[l], l.rt.V[0])
						}
						fd, slack, ok := numDeriv(graphs[old.id], old, i)
						if !ok || math.Abs(v[i]-(w-op.lr*fd)) <= math.Abs(op.lr)*(1e-4*(math.Abs(fd)+1)+slack)+1e-12*math.Abs(w) {
							o.Inc("forward-differs-from-reference")
							continue
						}
						why = fmt.Sprintf("; the library's values differ from the formulas, numerical derivative of what it computes: %g", fd)
					}
					return viol("trajectory", s.ID, "trainer %d, step %d: parameter %d of layer %d, element %d: w=%g, lr=%g, dLoss/dw=%g (sum of magnitudes %g): expected %g, got %g%s", s.C, stepsDone[key], s.I[1], s.I[0], i, w, op.lr, gr, mag, want, v[i], why)
				}
			}
			if v := still(s, n.id); v != nil {
				return v
			}
			slot[n.id] = key
		case "reset":
			y.base(s, nil)
			delete(taint, s.In[0])
			delete(graphs, s.In[0])
		case "bp":
			if !y.m.has(s.In) {
				o.Inc("skipped")
				continue
			}
			t0 := simrt.Ticks()
			done, set, f := y.base(s, nil)
			if !done {
				continue
			}
			dt := simrt.Ticks() - t0
			if f != nil && len(set) > 0 {
				return viol("bp-error", s.ID, "BackPropagate of the loss (%d tensors): %s", len(set), f)
			}
			bad := false
			el := 0
			for _, n := range set {
				bad = bad || rough[n]
				for _, x := range n.rt.V {
					bad = bad || !(math.Abs(x) < 1e60) // diverged: products leave the range of doubles
				}
				el += len(n.rt.V)
			}
			for _, n := range set {
				if n.leaf {
					taint[n.id] = taint[n.id] || bad
					graphs[n.id] = append(graphs[n.id], set)
				}
			}
			if len(set) > 0 {
				k := graphHash(set)
				if c, ok := cost[k]; !ok {
					cost[k] = dt
				} else if dt > 3*c+3000 {
					return viol("step-cost-grows", s.ID, "a back-propagation over %d tensors, %d elements took %d ticks, an earlier one of the same size %d", len(set), el, dt, c)
				}
			}
			if v := still(s, -1); v != nil {
				return v
			}
		case "op":
			n, diff := y.m.op(s, false)
			ref := n
			done, _, f := y.base(s, nil)
			if !done {
				if f != nil && n != nil {
					return viol("forward-fails", s.ID, "%s over %v: %s", s.Op, shapesOf(y, s.In), f)
				}
				continue
			}
			n = y.m.n[s.ID]
			if !diff {
				rough[n] = true
			}
			for i := range n.rt.V {
				if !(math.Abs(n.rt.V[i]-ref.rt.V[i]) <= 1e-9*(1e-12+math.Abs(ref.rt.V[i]))) {
					odd[n] = true
				}
			}
			if l := ref.rt.V; diff && len(l) == 1 && (s.Op == "c.MSE" || s.Op == "c.BCE" || s.Op == "c.CE") &&
				math.Abs(l[0]) < 1e9 && !(math.Abs(n.rt.V[0]-l[0]) <= 1e-6*math.Abs(l[0])+1e-9) {
				wrong[n] = l[0]
			}
			_, v, _ := read(y.lib[s.ID])
			o.LogFs(v)
		default:
			y.base(s, nil)
		}
	}
	o.Add("stale-updates-rejected", int64(staleRejected))
	if int64(trained) > o.Counts["max.updates-of-one-parameter"] {
		o.Counts["max.updates-of-one-parameter"] = int64(trained)
	}
	o.NonTriv = trained >= 2
	return nil
}

func shapesOf(y *nets, ids []int) (s [][]int) {
	for _, i := range ids {
		if y.m.n[i] != nil {
			s = append(s, y.m.n[i].rt.Shape)
		}
	}
	return
}

func oddIn(gs [][]*Node, odd map[*Node]bool) bool {
	for _, g := range gs {
		for _, n := range g {
			if odd[n] {
				return true
			}
		}
	}
	return false
}

// wrongLoss finds a back-propagated loss whose value is not the defined one.
func wrongLoss(gs [][]*Node, wrong map[*Node]float64) *Node {
	for _, g := range gs {
		if _, ok := wrong[g[0]]; ok {
			return g[0]
		}
	}
	return nil
}

// numDeriv differentiates the library's own losses numerically.
func numDeriv(gs [][]*Node, at *Node, el int) (fd, slack float64, ok bool) {
	eval := func(h float64) (sum, scale float64, ok bool) {
		for _, g := range gs {
			val := map[*Node]T{}
			var last T
			var visit func(n *Node) T
			visit = func(n *Node) T {
				if t := val[n]; t != nil {
					return t
				}
				var t T
				if n.leaf || len(n.par) == 0 {
					v := append([]float64{}, n.rt.V...)
					if n == at {
						v[el] += h
					}
					t, _ = leafOf(n.rt.Shape, v, false, nil)
				} else {
					in := make([]T, len(n.par))
					for k, q := range n.par {
						if in[k] = visit(q); in[k] == nil {
							return nil
						}
					}
					t, _ = libApply(n.step, in, nil)
				}
				val[n] = t
				return t
			}
			last = visit(g[0]) // the root comes first
			if last == nil {
				return 0, 0, false
			}
			for _, t := range val {
				if t == nil {
					continue
				}
				if _, v, f := read(t); f == nil {
					for _, x := range v {
						if x = math.Abs(x); x > scale && !math.IsInf(x, 0) {
							scale = x
						}
					}
				}
			}
			_, v, f := read(last)
			if f != nil {
				return 0, 0, false
			}
			for _, x := range v {
				sum += x
			}
		}
		return sum, scale, true
	}
	return numeric(eval, at.rt.V[el])
}

func badBatchCall(st *fcState, kind int) *Fail {
	return guard(func() error {
		var err error
		switch kind {
		case 0:
			_, err = st.lib.Forward()
		case 1:
			_, err = st.lib.Forward(nil)
		case 2:
			x, _ := leafOf([]int{3}, []float64{1, 2, 3}, false, nil)
			_, err = st.lib.Forward(x)
		case 3:
			x, _ := leafOf([]int{1, 1, 2}, []float64{1, 2}, true, nil)
			_, err = st.lib.Forward(x)
		case 4:
			x, _ := leafOf([]int{1, 2}, []float64{1, 2}, true, nil)
			_, err = st.lib.Forward(x, x)
		default:
			x, _ := leafOf([]int{2}, []float64{1, 2}, true, nil)
			z, _ := leafOf([]int{3}, []float64{1, 2, 3}, false, nil)
			_, err = losses.NewMSE().Compute(x, z)
		}
		return err
	})
}
