package main

import "github.com/sahandsafizadeh/qeep/component/optimizers"

// World C16: FC layers with operators that swap their parameters (through pointers
// kept since the layer was made, pointers asked for anew, or the fields) while
// forward results and graphs are in flight, optimizers, resets, and initializers
// that fail or deliver garbage. Oracle: the formula at the parameters current at the
// time of the call, exact gradients on exactly those tensors.

func genC16(seed uint64, run int, tier string) *Plan {
	p := genPlanC16(seed, run, tier)
	addMistakes(p, NewRng(seed, hashStr("C16-mistakes"), uint64(run)))
	return p
}

func genPlanC16(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C16"), uint64(run))
	p := &Plan{Prop: "C16", Run: run, Seed: seed, Kind: "layers"}
	g := newG(r)
	g.needDiff, g.limit = false, 1e120
	g.maxElems, g.maxRank = 30, 2
	n := r.In(5, 36)
	if tier == "thorough" {
		n = r.In(5, 80)
	}
	if r.P(0.05) {
		p.Kind = "wide"
		g.maxElems = 600
		n = r.In(3, 8)
	}
	if r.P(0.01) {
		p.Kind = "wider"
		g.maxElems = 5000
		n = r.In(3, 6)
	}
	if r.P(0.005) {
		p.Kind = "widest"
		g.maxElems = 50000
		n = r.In(2, 4)
	}
	if p.Kind == "layers" && r.P(0.003) { // the same layers for hundreds of calls
		p.Kind = "marathon"
		g.maxElems = 6
		n = r.In(300, 1500)
	}
	scale := r.PickF(1, 1, 1, 1e-8, 1e8, 1e40)
	val := func(k int) []float64 {
		v := make([]float64, k)
		mode := r.N(4)
		for i := range v {
			switch mode {
			case 0:
				v[i] = float64(r.In(-3, 3))
			case 1:
				v[i] = r.Norm() * scale
			case 2:
				v[i] = r.Range(-2, 2)
			default:
				v[i] = float64(i+1) + r.Range(0, 0.5) // all different
			}
		}
		return v
	}
	ls := map[int]*fcState{}
	var ids []int
	dim := func() int {
		if p.Kind == "wide" {
			return r.In(1, 20)
		}
		if p.Kind == "wider" {
			return r.Pick(r.In(1, 140), r.In(1, 9))
		}
		if p.Kind == "widest" {
			return r.Pick(r.In(100, 2000), r.In(30, 300), r.In(1, 9))
		}
		return r.Pick(1, 1, 2, 2, 3, 3, 4, 5, 6)
	}
	newfc := func() {
		in, out := dim(), dim()
		kinds := []int{initDefault, initCustom, initCustom, initCustom, initCustom, initFull, initUniform, initHe, initXavier}
		bad := []int{initError, initNilMap, initNilT, initLong, initRank2, initRank0}
		kw, kb := kinds[r.N(len(kinds))], kinds[r.N(len(kinds))]
		if r.P(0.15) {
			kw = bad[r.N(len(bad))]
		}
		if r.P(0.15) {
			kb = bad[r.N(len(bad))]
		}
		s := Step{K: "newfc", ID: g.id(), C: g.c}
		s.I = []int{in, out, kw, kb, g.id(), g.id()}
		s.F = fs(append(val(out), val(out)...))
		g.steps = append(g.steps, s)
		if badInit(kw) || badInit(kb) {
			return
		}
		for k := 0; k < 2; k++ {
			v := s.F[k*out : (k+1)*out]
			nn := g.m.leaf(Step{ID: s.I[4+k], K: "leaf", I: []int{out}, F: v, B: true})
			g.pool = append(g.pool, nn)
		}
		ls[s.ID] = &fcState{in: in, out: out, par: [2]int{s.I[4], s.I[5]}}
		ids = append(ids, s.ID)
	}
	for len(ids) == 0 {
		newfc()
	}
	input := func(l *fcState) *Node {
		if r.P(0.6) {
			if n := g.pick(func(n *Node) bool { return len(n.rt.Shape) == 2 && (n.rt.Shape[1] == l.in || r.P(0.2)) }); n != nil {
				return n
			}
		}
		f := l.in
		if r.P(0.1) {
			f = dim()
		}
		B := r.In(1, 5)
		if p.Kind == "wide" {
			B = r.In(1, 16)
		}
		if p.Kind == "wider" {
			B = max(1, min(r.In(1, 300), 4500/max(f, l.out)))
		}
		if p.Kind == "widest" {
			B = max(1, min(r.Pick(r.In(1, 4), r.In(100, 3000)), 60000/(f*l.out), 20000/max(f, l.out)))
		}
		return g.leafWith([]int{B, f}, val(B*f), r.P(0.6))
	}
	forward := func(id int) *Node {
		l := ls[id]
		x := input(l)
		if x == nil {
			return nil
		}
		s := Step{ID: g.id(), K: "forward", In: []int{x.id}, I: []int{id, r.Pick(0, 0, 0, 1)}, B: r.P(0.3)}
		q, _ := g.m.op(Step{ID: s.ID, K: "op", Op: "c.FC", In: []int{l.par[0], l.par[1], x.id}}, true)
		if q == nil {
			return nil
		}
		g.emit(s)
		if maxAbs(q.rt.V) < 1e150 { // NaN is dropped as well
			g.pool = append(g.pool, q)
		}
		return q
	}
	loss := func(y *Node) *Node { // weigh every output element differently
		k := g.leafWith(y.rt.Shape, val(len(y.rt.V)), false)
		if k == nil {
			return y
		}
		if q := g.try(Step{Op: "Mul", In: []int{y.id, k.id}}); q != nil {
			return q
		}
		return y
	}
	for i := 0; i < n; i++ {
		if k := len(g.pool) - 40; p.Kind == "marathon" && k > 0 {
			g.pool = g.pool[k:]
		}
		g.c = r.N(3)
		id := ids[r.N(len(ids))]
		l := ls[id]
		switch x := r.F(); {
		case x < 0.05 && len(ids) < 4 && (p.Kind != "marathon" || r.P(0.01)):
			newfc()
		case x < 0.35:
			y := forward(id)
			if y != nil && r.P(0.4) {
				loss(y)
			}
		case x < 0.42: // one layer's output through another, or the same layer again
			if y := forward(id); y != nil {
				_ = forward(ids[r.N(len(ids))])
			}
		case x < 0.60:
			q := g.pickAll(func(n *Node) bool { return n.refs() && !n.leaf })
			if q != nil && r.P(0.5) {
				q = loss(q)
			}
			g.bp(q)
		case x < 0.64: // combine results in flight
			if q := g.pickAll(func(n *Node) bool { return n.refs() && !n.leaf }); q != nil {
				g.growOp([]string{"Add", "Scale", "Mul"}[r.N(3)], q)
			}
		case x < 0.82: // replace a parameter
			which := r.N(2)
			var t *Node
			switch {
			case r.P(0.2): // by a result computed from the old one
				t = g.try(Step{Op: "Scale", In: []int{l.par[which]}, F: fs([]float64{r.PickF(-1, 0.5, 2)})})
			case r.P(0.3): // by an existing vector (shared parameters)
				t = g.pick(func(n *Node) bool { return sameShape(n.rt.Shape, []int{l.out}) })
			}
			if t == nil {
				t = g.leafWith([]int{l.out}, val(l.out), r.P(0.85))
			}
			if t != nil {
				g.emit(Step{ID: g.id(), K: "replace", In: []int{t.id}, I: []int{id, which, r.N(3)}})
				l.par[which] = t.id
			}
		case x < 0.92: // optimizer
			which := r.N(2)
			old := g.m.n[l.par[which]]
			s := Step{ID: g.id(), K: "update", I: []int{id, which, r.N(3)}, F: fs([]float64{r.PickF(0.1, 1, -0.5, 0.01)})}
			g.emit(s)
			if old.grad != nil {
				q := g.m.updated(s.ID, old)
				g.pool = append(g.pool, q)
				l.par[which] = q.id
				if r.P(0.8) {
					g.reset(q, r.P(0.9))
				}
			}
		default:
			g.reset(g.m.n[l.par[r.N(2)]], r.P(0.9))
		}
	}
	g.bp(g.pickAll(func(n *Node) bool { return n.refs() && !n.leaf }))
	p.Steps = g.steps
	return p
}

func execC16(p *Plan, o *Obs) *Violation {
	y := newNets(o)
	replaced, bps, inflight := 0, 0, false
	for _, s := range p.Steps {
		switch s.K {
		case "newfc":
			if v := y.newfc(s); v != nil {
				return v
			}
		case "forward":
			n, v := y.forward(s)
			if v != nil {
				return v
			}
			if n != nil && s.B {
				if v := y.rows(s, n); v != nil {
					return v
				}
			}
			if n != nil {
				if v := y.live(s, y.fc[s.I[0]]); v != nil {
					return v
				}
			}
		case "replace":
			if st := y.fc[s.I[0]]; st != nil {
				old := y.m.n[st.par[s.I[1]]]
				for _, k := range old.kids {
					if k.refs() {
						inflight = true
						o.Inc("fault.replaced-with-graph-in-flight")
						break
					}
				}
			}
			done, v := y.replace(s)
			if v != nil {
				return v
			}
			if done {
				replaced++
			}
		case "update":
			st := y.fc[s.I[0]]
			if st == nil {
				continue
			}
			old := y.lib[st.par[s.I[1]]]
			if y.m.n[st.par[s.I[1]]] == nil {
				continue
			}
			n, _, f := y.update(s, optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: s.f(0)}))
			if n == nil {
				o.Inc("update-rejected")
				if f.Panic == "" && *st.ptr(s.I[1], 2) != old { // C17's business; follow the layer
					return nil
				}
				continue
			}
			o.Inc("updated")
			replaced++
			if v := y.live(s, st); v != nil {
				return v
			}
		default:
			done, set, f := y.base(s, nil)
			if done && s.K == "bp" {
				if f != nil {
					return viol("bp-error", s.ID, "BackPropagate(%d): %s", s.In[0], f)
				}
				if v := y.checkNet(s, set); v != nil {
					return v
				}
				for _, n := range set {
					if n.step.Op == "c.FC" {
						bps++
					}
				}
			}
		}
	}
	if inflight {
		o.Inc("runs-with-swap-in-flight")
	}
	o.NonTriv = bps > 0 && replaced > 0
	return nil
}
