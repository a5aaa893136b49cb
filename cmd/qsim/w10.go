package main

// World C10: clients compute and back-propagate; an adversary keeps every slice
// that went into or came out of the library and overwrites it at any later moment,
// bystanders run all kinds of calls (also failing ones) over the clients' tensors.
// Oracles: nothing observable of any existing tensor changes except gradients by
// back-propagation; and the clients' program run without adversary and bystanders
// in the same process gives bit-for-bit the same values and gradients.

const bystander = 9

func genC10(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C10"), uint64(run))
	p := &Plan{Prop: "C10", Run: run, Seed: seed}
	g := newG(r)
	g.needDiff, g.limit, g.kfOK = false, 1e6, true
	g.maxElems, g.maxRank = 18, 4
	if r.P(0.1) {
		g.maxRank, g.maxElems = 5, 48
	}
	large := r.P(0.03)
	if large {
		g.maxElems, g.wideDim = 600, 140
	}
	huge := r.P(0.005)
	if huge {
		g.maxElems = r.Pick(1500, 5000, 5000, 12000, 40000)
		g.wideDim = r.Pick(20, 70, 300, g.maxElems)
	}
	g.manyCat = r.P(0.1)
	g.pTrack = r.PickF(0.6, 0.8, 1)
	g.cmpP = 0.05
	n := r.In(5, 40)
	if tier == "thorough" {
		n = r.In(5, 70)
	}
	p.Kind = "adversary"
	if large {
		p.Kind, n = "adversary-large", r.In(4, 10)
	}
	if huge {
		p.Kind, n = "adversary-huge", r.In(3, 8)
	}
	if p.Kind == "adversary" && r.P(0.0015) {
		p.Kind, n = "adversary-marathon", r.In(300, 1000)
		g.maxElems = 6
	}
	pBy := r.PickF(0.1, 0.3, 0.5)
	pScr := r.PickF(0.1, 0.3, 0.6)
	capture := r.P(0.5) // favour operations with slice arguments
	g.anyLeaf()
	g.anyLeaf()
	byPool := []*Node{}
	scribble := func() {
		// some recent steps, or everything
		s := Step{ID: g.id(), K: "scribble", C: bystander, I: []int{r.N(12)}}
		if r.P(0.5) {
			for k := 0; k < 3 && len(g.steps) > 0; k++ {
				s.In = append(s.In, g.steps[len(g.steps)-1-r.N(min(len(g.steps), 12))].ID)
			}
		}
		g.steps = append(g.steps, s)
	}
	for i := 0; i < n; i++ {
		g.c = r.N(3)
		x := r.F()
		switch {
		case x < 0.1:
			g.anyLeaf()
		case x < 0.62:
			if capture && r.P(0.7) {
				g.growOp([]string{"Slice", "Patch", "Reshape", "Broadcast", "Concat", "Patch", "Slice"}[r.N(7)], nil)
			} else {
				g.grow()
			}
		case x < 0.68:
			g.growComp()
		case x < 0.84:
			if r.P(0.8) {
				g.bp(g.pickAll(func(n *Node) bool { return n.refs() && !n.leaf }))
			} else {
				g.bp(g.pickAll(nil))
			}
		case x < 0.92:
			if r.P(0.6) {
				g.reset(g.pickAll(func(n *Node) bool { return n.spent }), r.P(0.8))
			} else {
				g.reset(g.pickAll(nil), r.P(0.8))
			}
		default:
			if n := g.pickAll(func(n *Node) bool { return n.grad != nil }); n != nil {
				g.gradNode(n)
			}
		}
		if r.P(pScr) {
			scribble()
		}
		if r.P(pBy) {
			g.by(&byPool)
			if r.P(0.3) {
				scribble()
			}
		}
	}
	// back-propagate what is left, sometimes after a last overwrite of everything
	if r.P(0.7) {
		g.steps = append(g.steps, Step{ID: g.id(), K: "scribble", C: bystander, I: []int{r.N(12)}})
	}
	g.c = 0
	for k := r.In(1, 3); k > 0; k-- {
		g.bp(g.pickAll(func(n *Node) bool { return n.refs() && !n.leaf }))
	}
	p.Steps = g.steps
	return p
}

// by appends one bystander event over any existing tensor; its results are never
// used by the clients.
func (g *G) by(own *[]*Node) {
	r := g.r
	c, pool := g.c, g.pool
	g.c = bystander
	defer func() { g.c = c; g.pool = pool }()
	src := g.pickAll(nil)
	if src == nil {
		return
	}
	other := g.pickAll(nil)
	in := []int{src.id}
	if other != nil {
		in = append(in, other.id)
	}
	switch x := r.F(); {
	case x < 0.3:
		g.emit(Step{ID: g.id(), K: "bad", Op: badNames[r.N(len(badNames))], In: in})
	case x < 0.6:
		s := Step{ID: g.id(), K: "read", Op: readNames[r.N(len(readNames))], In: in}
		if s.Op == "SGD" {
			if n := g.pickAll(func(n *Node) bool { return n.grad != nil }); n != nil {
				s.In = []int{n.id}
			}
		}
		g.emit(s)
	default:
		g.pool = append(append([]*Node{src}, pool...), *own...)
		k := len(g.pool)
		for try := 0; try < 4; try++ {
			var n *Node
			if r.P(0.3) {
				n = g.growComp()
			} else {
				n = g.growOp(g.randOp(), src)
			}
			if n != nil {
				break
			}
		}
		if len(g.pool) > k {
			*own = append(*own, g.pool[k:]...)
		}
	}
}

func execC10(p *Plan, o *Obs) *Violation {
	y := newSys(o)
	args := map[int]*Args{}
	seen := map[int]*snap{}
	var core []Step // what the clients really did
	byIDs := map[int]bool{}
	spare, _ := leafOf([]int{2}, []float64{1, 2}, false, nil)
	scribbled, afterScribbleBP := 0, 0
	type handle struct {
		g  T
		at int
		s  snap
	}
	var handles []*handle // every gradient a client was handed so far
	byG := map[T]*handle{}
	check := func(s Step, in map[int]bool, resetID int) *Violation {
		for _, q := range p.Steps {
			if d := args[q.ID].changed(); d != "" {
				return viol("writes-to-caller", s.ID, "%s: the library wrote into a slice of the caller of %s: %s", s, q, d)
			}
			if q.ID == s.ID {
				break
			}
		}
		for _, h := range handles {
			now := snapOf(h.g)
			if d := h.s.diff(&now, false); d != "" {
				return viol("gradient-object-changed", s.ID, "%s: the gradient of tensor %d obtained earlier: %s", s, h.at, d)
			}
		}
		for _, n := range y.m.order {
			if y.m.n[n.id] != n {
				continue
			}
			now := snapOf(y.lib[n.id])
			if now.g != nil && byG[now.g] == nil && len(handles) < 40 {
				h := &handle{now.g, n.id, snap{shape: now.gs, v: now.gv}}
				byG[now.g] = h
				handles = append(handles, h)
			}
			old := seen[n.id]
			if old == nil || n.id == resetID {
				if old != nil {
					if d := old.diff(&now, false); d != "" {
						return viol("value-changed", s.ID, "%s: tensor %d (%s): %s", s, n.id, n.desc(), d)
					}
					if now.g != nil {
						return viol("reset-keeps-gradient", s.ID, "%s: tensor %d still has a gradient", s, n.id)
					}
				} else if now.g != nil && n.step.K != "grad" {
					return viol("gradient-assigned", s.ID, "%s: the new tensor %d (%s) has a gradient", s, n.id, n.desc())
				}
				seen[n.id] = &now
				continue
			}
			part := in[n.id]
			if d := old.diff(&now, !part); d != "" {
				c := "value-changed"
				if old.diff(&now, false) == "" {
					c = "gradient-changed"
				}
				if s.K == "scribble" {
					c = "aliased-slice"
				}
				return viol(c, s.ID, "%s: tensor %d (%s): %s", s, n.id, n.desc(), d)
			}
			seen[n.id] = &now
		}
		return nil
	}
	for _, s := range p.Steps {
		a := &Args{}
		part := map[int]bool{}
		resetID := -1
		switch s.K {
		case "leaf", "op", "bp", "reset", "grad":
			for _, i := range s.In { // a client never uses what a bystander made
				if byIDs[i] && s.C != bystander {
					panic("client uses a bystander's tensor")
				}
			}
			done, set, fail := y.base(s, a)
			if !done {
				if fail != nil { // failed calls leave no trace either
					args[s.ID] = a
					o.Inc("fault.failed-call")
				}
				if v := check(s, nil, -1); v != nil {
					return v
				}
				continue
			}
			if s.C == bystander {
				byIDs[s.ID] = true
				o.Inc("fault.bystander-" + s.K)
			} else {
				core = append(core, s)
			}
			for _, n := range set {
				part[n.id] = true
			}
			if s.K == "bp" && len(set) > 1 && scribbled > 0 {
				afterScribbleBP++
			}
			if s.K == "reset" {
				resetID = s.In[0]
			}
			if fail != nil && fail.Panic != "" {
				return viol("panic", s.ID, "%s: %s", s, fail)
			}
		case "bad":
			if !y.m.has(s.In) {
				continue
			}
			y.bad(s, a)
		case "read":
			if !y.m.has(s.In) {
				continue
			}
			readCall(s, y.in(s.In), a, o)
			o.LogStep(s)
			o.Inc("read." + s.Op)
		case "scribble":
			k := 0
			if len(s.In) == 0 {
				for _, q := range p.Steps {
					if x := args[q.ID]; x.n() > 0 {
						x.scribble(s.I[0], spare)
						k += x.n()
					}
				}
			}
			for _, i := range s.In {
				if x := args[i]; x.n() > 0 {
					x.scribble(s.I[0], spare)
					k += x.n()
				}
			}
			if k == 0 {
				continue
			}
			scribbled += k
			o.Add("fault.slices-overwritten", int64(k))
			o.LogStep(s)
		}
		if a.n() > 0 {
			args[s.ID] = a
		}
		if v := check(s, part, resetID); v != nil {
			return v
		}
	}
	o.NonTriv = scribbled > 0 && afterScribbleBP > 0
	// the clients alone
	z := newSys(NewObs())
	for _, s := range core {
		done, _, fail := z.base(s, nil)
		if !done {
			return viol("interference", s.ID, "%s succeeded among adversary and bystanders, alone it does not: %s", s, fail)
		}
	}
	for _, n := range z.m.order {
		if z.m.n[n.id] != n || y.m.n[n.id] == nil {
			continue
		}
		a, b := snapOf(z.lib[n.id]), seen[n.id]
		o.logSnap(b)
		if d := a.diff(b, true); d != "" {
			return viol("interference", n.id, "tensor %d (%s), program of the clients alone compared with the same among overwritten slices and bystanders: %s", n.id, n.desc(), d)
		}
	}
	return nil
}
