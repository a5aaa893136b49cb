package main

import (
	"fmt"

	"qeepverif/simrt"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// World C08: histories of creation, operations, back-propagations and resets by
// several clients over shared tensors, against the tracking state machine.

func genC08(seed uint64, run int, tier string) *Plan {
	p := genPlanC08(seed, run, tier)
	addMistakes(p, NewRng(seed, hashStr("C08-mistakes"), uint64(run)))
	return p
}

func genPlanC08(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C08"), uint64(run))
	p := &Plan{Prop: "C08", Run: run, Seed: seed}
	g := newG(r)
	g.needDiff, g.limit, g.kfOK = false, 1e6, true
	g.maxElems, g.maxRank = 16, 3
	if r.P(0.1) {
		g.maxRank, g.maxElems = 5, 48
	}
	large := r.P(0.02)
	if large {
		g.maxElems, g.wideDim = 400, 140
	}
	huge := r.P(0.005)
	if huge {
		g.maxElems = r.Pick(1500, 5000, 5000, 12000, 40000)
		g.wideDim = r.Pick(20, 70, 300, g.maxElems)
	}
	g.manyCat = r.P(0.1)
	g.pTrack = r.PickF(0.3, 0.5, 0.7, 0.9)
	g.cmpP = 0.14
	n := r.In(6, 60)
	if tier == "thorough" {
		n = r.In(6, 110)
	}
	clients := r.In(1, 3)
	p.Kind = "history"
	if large {
		p.Kind, n = "history-large", r.In(4, 10)
	}
	if huge {
		p.Kind, n = "history-huge", r.In(3, 8)
	}
	// weights of the event kinds differ from run to run
	wLeaf, wOp, wComp, wBP, wReset, wGrad := 0.10, r.Range(0.35, 0.6), 0.05, r.Range(0.08, 0.25), r.Range(0.05, 0.2), 0.05
	all := wLeaf + wOp + wComp + wBP + wReset + wGrad
	g.anyLeaf()
	g.anyLeaf()
	spentBias := r.PickF(0, 0.3, 0.6)
	switch x := r.F(); {
	case large || huge:
	case x < 0.0006: // a history that starts from a long chain
		p.Kind, n = "history-deep", r.In(3, 12)
		g.deep(r.Pick(r.In(100, 800), r.In(800, 3000)))
	case x < 0.0012: // one tensor used very often
		p.Kind, n = "history-fan", r.In(3, 12)
		g.fanRun(r.In(40, 400))
	case x < 0.01: // a long list of tensors, few of which matter
		p.Kind, n = "history-join", r.In(4, 20)
		g.joinMany(r.Pick(r.In(3, 12), r.In(12, 80)))
	}
	if p.Kind == "history" && r.P(0.002) {
		p.Kind, n = "history-marathon", r.In(300, 1000)
		g.maxElems = 6
	}
	for i := 0; i < n; i++ {
		g.c = r.N(clients)
		if r.P(0.08) { // forget: concentrate on a few tensors
			k := r.In(1, 4)
			if len(g.pool) > k {
				np := []*Node{}
				for j := 0; j < k; j++ {
					np = append(np, g.pool[r.N(len(g.pool))])
				}
				g.pool = np
			}
		}
		x := r.F() * all
		switch {
		case x < wLeaf:
			g.anyLeaf()
		case x < wLeaf+wOp:
			if r.P(spentBias) {
				if s := g.pickAll(func(n *Node) bool { return n.spent }); s != nil {
					op := g.randOp()
					g.growOp(op, s)
					continue
				}
			}
			g.grow()
		case x < wLeaf+wOp+wComp:
			g.growComp()
		case x < wLeaf+wOp+wComp+wBP:
			switch {
			case r.P(0.65):
				g.bp(g.pickAll(func(n *Node) bool { return n.refs() && !n.leaf }))
			case r.P(0.4):
				g.bp(g.pickAll(func(n *Node) bool { return !n.track }))
			default:
				g.bp(g.pickAll(nil))
			}
		case x < wLeaf+wOp+wComp+wBP+wReset:
			if r.P(0.6) {
				g.reset(g.pickAll(func(n *Node) bool { return n.spent }), r.P(0.7))
			} else {
				g.reset(g.pickAll(nil), r.P(0.6))
			}
		default:
			if n := g.pickAll(func(n *Node) bool { return n.grad != nil }); n != nil {
				g.gradNode(n)
			}
		}
	}
	// final probes: every tensor whose tracking can still be observed is used as a root,
	// first through a fresh operation
	for _, k := range r.Perm(len(g.m.order)) {
		n := g.m.order[k]
		if g.m.n[n.id] != n || len(g.steps) > 2*n0(n, g)+160 {
			continue
		}
		if r.P(0.3) {
			if q := g.try(Step{Op: "Scale", In: []int{n.id}, F: fs([]float64{0.5})}); q != nil {
				g.bp(q)
			}
		}
		if r.P(0.5) {
			g.bp(n)
		}
	}
	p.Steps = g.steps
	return p
}

// joinMany concatenates k tensors, of which one or two, anywhere in the list, are tracked
// or spent.
func (g *G) joinMany(k int) {
	r := g.r
	sh := g.dims(r.In(1, 2))
	dim := r.N(len(sh))
	at := map[int]bool{r.N(k): true}
	if r.P(0.3) {
		at[r.N(k)] = true
	}
	spend := r.P(0.3)
	var xs []int
	for i := 0; i < k; i++ {
		d := append([]int{}, sh...)
		d[dim] = r.In(1, 3)
		v := make([]float64, nelems(d))
		for j := range v {
			v[j] = r.Range(-3, 3)
		}
		x := g.leafWith(d, v, at[i])
		if at[i] && spend {
			g.bp(x)
			if r.P(0.3) {
				g.reset(x, r.P(0.5))
			}
		}
		xs = append(xs, x.id)
	}
	if q := g.try(Step{Op: "Concat", In: xs, I: []int{dim}}); q != nil && r.P(0.7) {
		if r.P(0.5) {
			if y := g.try(Step{Op: "Scale", In: []int{q.id}, F: fs([]float64{2})}); y != nil {
				q = y
			}
		}
		g.bp(q)
	}
}

func n0(_ *Node, g *G) int { return len(g.m.order) }

// pickAll chooses among all tensors that exist.
func (g *G) pickAll(ok func(n *Node) bool) *Node {
	for try := 0; try < 10; try++ {
		k := g.r.N(len(g.m.order))
		if g.r.P(0.4) {
			k = len(g.m.order) - 1 - g.r.N(min(6, len(g.m.order)))
		}
		n := g.m.order[k]
		if g.m.n[n.id] == n && (g.c == bystander || !g.foreign[n.id]) && (ok == nil || ok(n)) {
			return n
		}
	}
	return nil
}

// gradNode makes the gradient tensor of n a tensor of the program.
func (g *G) gradNode(n *Node) *Node {
	s := Step{ID: g.id(), K: "grad", In: []int{n.id}}
	q := g.m.gradNode(s)
	if q != nil {
		g.emit(s)
		g.pool = append(g.pool, q)
	}
	return q
}

func (m *Model) gradNode(s Step) *Node {
	n := m.n[s.In[0]]
	if n == nil || n.grad == nil {
		return nil
	}
	return m.add(&Node{id: s.ID, step: s, rt: &RT{Shape: n.rt.Shape, V: append([]float64{}, n.grad...)}, leaf: true, ambig: true, isGrad: true})
}

func (n *Node) mode() uint64 {
	h := uint64(0)
	for i, b := range []bool{n.track, n.spent, n.leaf, n.passed, n.grad != nil, n.cmp, n.isGrad, len(n.kids) > 0} {
		if b {
			h |= 1 << i
		}
	}
	return h
}

func execC08(p *Plan, o *Obs) *Violation {
	m := NewModel()
	lib := map[int]T{}
	twin := map[int]T{} // the same program with nothing tracked
	usedSpent, bigBP := false, false
	ca, cb := compSet{}, compSet{}
	compare := func(s Step) *Violation {
		sa, va, fa := read(lib[s.ID])
		sb, vb, fb := read(twin[s.ID])
		if fa != nil || fb != nil {
			if (fa == nil) != (fb == nil) {
				return viol("tracking-changes-forward", s.ID, "%s: reading the result: tracked program %s, untracked program %s", s, fa, fb)
			}
			return nil
		}
		o.LogFs(va)
		if !sameShape(sa, sb) {
			return viol("tracking-changes-forward", s.ID, "%s: shape %v in the tracked program, %v with nothing tracked", s, sa, sb)
		}
		if i := sameBitsAll(va, vb); i >= 0 {
			return viol("tracking-changes-forward", s.ID, "%s: element %d is %v in the tracked program, %v with nothing tracked", s, i, va[i], vb[i])
		}
		return nil
	}
	for _, s := range p.Steps {
		switch s.K {
		case "leaf":
			n := m.leaf(s)
			if n == nil {
				continue
			}
			var a, b T
			f1 := guard(func() (err error) { a, err = made(s, s.B, nil); return err })
			f2 := guard(func() (err error) { b, err = made(s, false, nil); return err })
			if f1 != nil || f2 != nil {
				m.drop(s.ID)
				o.Inc("dropped.leaf")
				continue
			}
			lib[s.ID], twin[s.ID] = a, b
			o.LogStep(s)
			if a.Gradient() != nil {
				return viol("gradient-out-of-nowhere", s.ID, "a new tensor has a gradient")
			}
			if v := compare(s); v != nil {
				return v
			}
		case "grad":
			if !m.has(s.In) {
				continue
			}
			if m.gradNode(s) == nil {
				o.Inc("skipped")
				continue
			}
			g := lib[s.In[0]].Gradient()
			sh, v, f := read(g)
			if f != nil || !sameShape(sh, m.n[s.ID].rt.Shape) {
				m.drop(s.ID)
				continue
			}
			b, err := leafOf(sh, v, false, nil)
			alias := false
			for id := range m.n { // one tensor object, one name
				alias = alias || id != s.ID && lib[id] == g
			}
			if err != nil || alias {
				m.drop(s.ID)
				o.Inc("skipped.same-gradient-object")
				continue
			}
			lib[s.ID], twin[s.ID] = g, b
			o.Inc("gradient-tensors-used")
			o.LogStep(s)
		case "op":
			n, _ := m.op(s, true)
			if n == nil {
				o.Inc("skipped")
				continue
			}
			ia, ib := make([]T, len(s.In)), make([]T, len(s.In))
			for k, i := range s.In {
				ia[k], ib[k] = lib[i], twin[i]
				if m.n[i].spent {
					usedSpent = true
					o.Inc("fault.use-after-spend")
				}
			}
			curComps = ca
			a, f1 := libApply(s, ia, nil)
			curComps = cb
			b, f2 := libApply(s, ib, nil)
			curComps = nil
			o.LogStep(s)
			if (f1 == nil) != (f2 == nil) {
				return viol("tracking-changes-forward", s.ID, "%s: %s in the tracked program, %s with nothing tracked", s, f1, f2)
			}
			if f1 != nil {
				m.drop(s.ID)
				o.Inc("dropped.op")
				continue
			}
			lib[s.ID], twin[s.ID] = a, b
			o.Inc("op." + s.Op)
			if v := compare(s); v != nil {
				return v
			}
			if a.Gradient() != nil {
				return viol("gradient-out-of-nowhere", s.ID, "%s: the fresh result has a gradient", s)
			}
		case "bad": // in both programs
			if !m.has(s.In) {
				continue
			}
			for k, l := range []map[int]T{lib, twin} {
				in := make([]T, len(s.In))
				for j, i := range s.In {
					in[j] = l[i]
				}
				curComps = []compSet{ca, cb}[k]
				f := badCall(s, in, nil)
				curComps = nil
				if f != nil && k == 0 {
					o.Inc("fault.invalid-call-" + s.Op)
				}
			}
			o.LogStep(s)
		case "reset":
			if !m.has(s.In) || !m.resetAllowed(m.n[s.In[0]]) {
				o.Inc("skipped")
				continue
			}
			n := m.n[s.In[0]]
			if n.leaf && !n.spent && n.track == s.B {
				o.Inc("fault.reset-redelivered")
			}
			if n.spent {
				o.Inc("reset-of-spent")
				usedSpent = true
			}
			m.reset(n, s.B)
			if f := guard(func() error { lib[n.id].ResetGradContext(s.B); return nil }); f != nil {
				return viol("reset-fails", s.ID, "ResetGradContext(%v): %s", s.B, f)
			}
			o.Inc("reset")
			o.LogStep(s)
			if lib[n.id].Gradient() != nil {
				return viol("reset-keeps-gradient", s.ID, "tensor %d (%s) still has a gradient after ResetGradContext(%v)", n.id, n.desc(), s.B)
			}
		case "bp":
			if !m.has(s.In) || !m.bpAllowed(m.n[s.In[0]]) {
				o.Inc("skipped")
				continue
			}
			root := m.n[s.In[0]]
			type gsnap struct {
				g T
				v []float64
			}
			before := map[int]gsnap{}
			for id := range m.n {
				if g := lib[id].Gradient(); g != nil {
					_, v, _ := read(g)
					before[id] = gsnap{g, v}
				}
			}
			rootWas := fmt.Sprintf("tracked=%v spent=%v", root.track, root.spent)
			if !root.track {
				o.Inc("fault.bp-untracked-root")
			}
			if root.bps > 0 {
				o.Inc("fault.bp-redelivered")
			}
			set := m.bp(root)
			in := map[*Node]bool{}
			work := 1000
			for _, n := range set {
				in[n] = true
				work += 20 + 2*len(n.rt.V)*(1+widestDim(n))
				for _, q := range n.ins {
					work += 20 + len(q.rt.V)
				}
			}
			if len(set) > 2 {
				bigBP = true
			}
			simrt.SetDeadline(uint64(work)*2000 + 1000000)
			f := guard(func() error { return tensor.BackPropagate(lib[root.id]) })
			simrt.SetDeadline(0)
			o.Inc("bp")
			o.LogStep(s)
			if f != nil && f.Panic != "" {
				return viol("bp-panic", s.ID, "BackPropagate(%d): %s", root.id, f)
			}
			for _, n := range m.order {
				if m.n[n.id] != n {
					continue
				}
				g := lib[n.id].Gradient()
				switch {
				case in[n] && g == nil:
					return viol("gradient-missing", s.ID, "after BackPropagate(%d) [%s] tensor %d (%s), from which it was computed, has no gradient (%s)", root.id, rootWas, n.id, n.desc(), f)
				case !in[n] && before[n.id].g == nil && g != nil:
					return viol("gradient-leaks", s.ID, "BackPropagate(%d) [%s] gave a gradient to tensor %d (%s), which is not a tracked tensor it was computed from", root.id, rootWas, n.id, n.desc())
				case !in[n] && before[n.id].g != nil && (g == nil || gradDiffers(g, before[n.id].v)):
					return viol("gradient-changed", s.ID, "BackPropagate(%d) [%s] changed the gradient of tensor %d (%s), which does not take part", root.id, rootWas, n.id, n.desc())
				}
			}
			h := uint64(len(set))
			for _, n := range m.order {
				if m.n[n.id] == n {
					h += mix(n.mode() + 1000)
				}
			}
			o.State(mix(h))
		}
	}
	o.NonTriv = usedSpent && bigBP
	return nil
}

func gradDiffers(g T, v []float64) bool {
	_, w, f := read(g)
	return f != nil || sameBitsAll(v, w) >= 0
}
