package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"qeepverif/simrt"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// World C20: several goroutines run tensor programs over shared tensors and shared
// component objects. The simulator decides at every statement of the library which of
// them goes on (the library is instrumented at statement level and built with the race
// detector; the simulator's own hand-overs are hidden from the detector, so two
// accesses are ordered for it only if the library orders them). Faults: stalled
// goroutines, priority inversions, bursts of preemption at one statement, failing
// calls. Oracles: no data race; every goroutine observes, bit for bit, what the same
// program yields when the goroutines run one after the other on a fresh copy of the
// shared state; gradients of back-propagations run afterwards agree as well; random
// draws made concurrently have shape and support and do not repeat.

const taskBase = 10000

func (g *G) compObj(kind string) Step {
	r := g.r
	s := Step{K: "comp", Op: kind}
	switch kind {
	case "c.FC":
		in, out := r.In(1, 4), r.In(1, 4)
		s.I = []int{in, out, 0, 0}
		v := make([]float64, 2*out)
		for i := range v {
			v[i] = r.Norm()
		}
		s.F = fs(v)
	case "c.LeakyRelu":
		s.F = fs([]float64{r.PickF(0.01, 0.5)})
	case "c.Softmax":
		s.I = []int{r.N(3)}
	case "c.Init":
		s.I = []int{r.N(7)}
	}
	return s
}

func genC20(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C20"), uint64(run))
	p := &Plan{Prop: "C20", Run: run, Seed: seed, Params: map[string]int{}}
	setup := newG(r)
	tune := func(g *G) {
		g.needDiff, g.limit, g.kfOK, g.cmpP = false, 1e80, true, 0.04
	}
	tune(setup)
	setup.maxElems = r.Pick(6, 12, 24, 48)
	if r.P(0.06) {
		setup.maxElems, setup.wideDim = r.Pick(300, 1200), r.Pick(0, 140)
	}
	if r.P(0.006) {
		setup.maxElems, setup.wideDim = r.Pick(2500, 5000), r.Pick(60, 300, 5000)
	}
	setup.pTrack = r.PickF(0, 0.5, 0.5, 0.8)
	leafX := func(g *G) {
		for {
			k := len(g.steps)
			n := g.anyLeaf()
			s := &g.steps[k]
			if s.X == "RandU" || s.X == "RandN" || s.X == "init" {
				s.X = ""
				if len(s.I) > 4 && len(s.F) == nelems(s.I) {
					s.X = "Full"
				}
			}
			if s.X == "Full" && len(s.F) == nelems(s.I) {
				for i := range s.F {
					s.F[i] = s.F[0]
					n.rt.V[i] = s.f(0)
				}
			}
			if n != nil {
				return
			}
		}
	}
	for k := r.In(1, 4); k > 0; k-- {
		leafX(setup)
	}
	comps := []Step{}
	for k := r.In(0, 4); k > 0; k-- {
		kind := []string{"c.FC", "c.FC", "c.FC", "c.Relu", "c.LeakyRelu", "c.Sigmoid", "c.Tanh", "c.Softmax", "c.Input", "c.MSE", "c.BCE", "c.CE", "c.Init"}[r.N(13)]
		s := setup.compObj(kind)
		s.ID = setup.id()
		switch kind {
		case "c.FC":
			s.I[2], s.I[3] = setup.id(), setup.id()
			for w := 0; w < 2; w++ {
				o := s.I[1]
				n := setup.m.leaf(Step{ID: s.I[2+w], K: "leaf", I: []int{o}, F: s.F[w*o : (w+1)*o], B: true})
				setup.pool = append(setup.pool, n)
			}
		case "c.Input":
			n := setup.pick(nil)
			s.In = []int{n.id}
		}
		setup.emit(s)
		comps = append(comps, s)
	}
	inner := r.P(0.5)
	for k := r.In(0, 4); k > 0; k-- {
		x := setup.pick(nil)
		if !inner { // shared results only of untracked tensors
			x = setup.pick(func(n *Node) bool { return !n.track })
			if x == nil {
				break
			}
			was := setup.pool
			setup.pool = nil
			for _, n := range was {
				if !n.track {
					setup.pool = append(setup.pool, n)
				}
			}
			pt := setup.pTrack
			setup.pTrack = 0
			setup.growOp(setup.randOp(), x)
			setup.pTrack = pt
			setup.pool = append(was, setup.pool[len(setup.pool)-1])
			continue
		}
		setup.growOp(setup.randOp(), x)
	}
	p.Steps = append(p.Steps, setup.steps...)
	shared := setup.m.order
	nt := r.Pick(2, 2, 3, 3, 4, 6)
	if r.P(0.04) {
		nt = r.In(8, 14)
	}
	randOK := r.P(0.2)
	same := r.P(0.2) // all goroutines run the same program
	var prog uint64 = r.U64()
	modes := 0
	for c := 1; c <= nt; c++ {
		tr := NewRng(prog, uint64(c))
		if same {
			tr = NewRng(prog)
		}
		bpMode := tr.P(0.45)
		g := newG(tr)
		tune(g)
		g.c = c
		g.maxElems = setup.maxElems
		g.pTrack = tr.PickF(0.3, 0.6, 0.9)
		if bpMode {
			modes |= 2
		} else {
			modes |= 1
		}
		// the shared part, as far as this goroutine may use it
		vis := map[int]bool{}
		for _, n := range shared {
			if bpMode && n.track {
				continue
			}
			q := &Node{id: n.id, rt: n.rt, track: n.track, leaf: true, cmp: n.cmp}
			g.m.add(q)
			g.pool = append(g.pool, q)
			vis[n.id] = true
		}
		g.next = c * taskBase
		if len(g.pool) == 0 || bpMode {
			leafX(g)
		}
		n := tr.In(2, 9)
		if tier == "thorough" {
			n = tr.In(2, 16)
		}
		for try := 0; len(g.steps) < n && try < 6*n; try++ {
			switch x := tr.F(); {
			case x < 0.06:
				leafX(g)
			case x < 0.50:
				var op *Node
				if tr.P(0.7) { // on a shared tensor
					op = g.pick(func(n *Node) bool { return vis[n.id] })
				}
				g.growOp(g.randOp(), op)
			case x < 0.58:
				g.growComp()
			case x < 0.76 && len(comps) > 0:
				g.useComp(comps[tr.N(len(comps))], vis)
			case x < 0.80:
				if q := g.pick(nil); q != nil {
					g.emit(Step{ID: g.id(), K: "read", Op: readNames[tr.N(len(readNames)-3)], In: []int{q.id, g.pick(nil).id2(q)}})
				}
			case x < 0.84:
				if q := g.pick(nil); q != nil && len(comps) > 0 && tr.P(0.4) {
					g.emit(Step{ID: g.id(), K: "bad", Op: "Comp", I: []int{comps[tr.N(len(comps))].ID, tr.N(12)}, In: []int{q.id}})
				} else if q != nil {
					g.emit(Step{ID: g.id(), K: "bad", Op: badNames[tr.N(len(badNames))], In: []int{q.id, g.pick(nil).id2(q)}})
				}
			case x < 0.87:
				if q := g.pick(func(n *Node) bool { return vis[n.id] }); q != nil {
					g.emit(Step{ID: g.id(), K: "peek", In: []int{q.id}})
				}
			case x < 0.89:
				g.emit(Step{ID: g.id(), K: "newfc", I: []int{tr.In(1, 3), tr.In(1, 3), tr.N(3)}})
			case x < 0.93 && randOK:
				s := Step{ID: g.id(), K: "rand", I: g.dims(tr.In(0, 2)), Op: []string{"RandU", "RandU", "RandN", "init"}[tr.N(4)]}
				if s.Op == "init" {
					for _, q := range comps {
						if q.Op == "c.Init" {
							s.In = []int{q.ID}
						}
					}
				}
				g.emit(s)
			case bpMode:
				if q := g.pick(func(n *Node) bool { return n.track && !n.leaf && !n.spent && !vis[n.id] }); q != nil && g.m.bpAllowed(q) {
					g.bp(q)
					for _, n := range g.m.order {
						if n.track && n.grad != nil && !vis[n.id] && tr.P(0.6) {
							g.emit(Step{ID: g.id(), K: "grad", In: []int{n.id}})
						}
					}
					if l := g.pick(func(n *Node) bool { return n.leaf && n.track && !vis[n.id] && g.m.resetAllowed(n) }); l != nil && tr.P(0.4) {
						g.reset(l, tr.P(0.8))
					}
				}
			}
		}
		if bpMode {
			for k := len(g.pool) - 1; k >= 0; k-- {
				if q := g.pool[k]; g.m.n[q.id] == q && q.track && !q.spent && !q.leaf && g.m.bpAllowed(q) {
					g.bp(q)
					break
				}
			}
			for _, n := range g.m.order {
				if n.track && n.grad != nil && !vis[n.id] && n.leaf {
					g.emit(Step{ID: g.id(), K: "grad", In: []int{n.id}})
				}
			}
		} else {
			for k := len(g.pool) - 1; k >= 0; k-- { // differentiated once the goroutines have ended
				if q := g.pool[k]; g.m.n[q.id] == q && q.track && !q.leaf && !vis[q.id] {
					g.emit(Step{ID: g.id(), K: "later", In: []int{q.id}})
					break
				}
			}
		}
		p.Steps = append(p.Steps, g.steps...)
	}
	p.Kind = []string{"", "forward-only", "private-graphs-only", "mixed"}[modes]
	if r.P(0.35) {
		p.Params["sequential-first"] = 1
	}
	if r.P(0.15) {
		p.Params["again"] = 1
	}
	sc := &SchedSpec{Seed: r.U64()}
	sc.Policy = []int{simrt.PolicyRandom, simrt.PolicyRandom, simrt.PolicyPCT, simrt.PolicyPCT, simrt.PolicySite, simrt.PolicyStall, simrt.PolicyRound, simrt.PolicyOp}[r.N(8)]
	sc.Prob = uint32(r.Pick(40, 200, 1000, 5000, 20000, 40000))
	if sc.Policy == simrt.PolicyOp {
		sc.Prob = uint32(r.Pick(20000, 65535))
	}
	sc.Depth = r.In(1, 6)
	sc.Horizon = uint64(1) << r.In(6, 17)
	sc.SiteAt = r.F()
	sc.StallT = r.N(nt)
	sc.StallAt = uint64(1) << r.In(0, 13)
	sc.StallFor = uint64(1) << r.In(4, 18)
	p.Sched = sc
	return p
}

func (n *Node) id2(other *Node) int {
	if n == nil {
		return other.id
	}
	return n.id
}

// useComp evaluates a shared component object.
func (g *G) useComp(s Step, vis map[int]bool) *Node {
	r := g.r
	ranked := func(k int) *Node {
		n := g.pick(func(n *Node) bool { return len(n.rt.Shape) == k })
		if n == nil {
			n = g.newLeaf(g.dims(k))
		}
		return n
	}
	var in, m []int
	switch s.Op {
	case "c.Init":
		return nil
	case "c.FC":
		if !vis[s.I[2]] {
			return nil
		}
		x := g.pick(func(n *Node) bool { return len(n.rt.Shape) == 2 && n.rt.Shape[1] == s.I[0] })
		if x == nil {
			x = g.newLeaf([]int{r.In(1, 3), s.I[0]})
		}
		in, m = []int{x.id}, []int{s.I[2], s.I[3], x.id}
	case "c.MSE", "c.BCE", "c.CE":
		k := 1
		if s.Op == "c.CE" {
			k = 2
		}
		x := ranked(k)
		t := g.same(x)
		if x == nil || t == nil {
			return nil
		}
		in = []int{x.id, t.id}
		m = in
	case "c.Input":
		if !vis[s.In[0]] {
			return nil
		}
		m = s.In
	case "c.Softmax":
		x := g.pick(func(n *Node) bool { return len(n.rt.Shape) > s.I[0] })
		if x == nil {
			return nil
		}
		in = []int{x.id}
		m = in
	default:
		x := g.pick(nil)
		if x == nil {
			return nil
		}
		in = []int{x.id}
		m = in
	}
	q := Step{K: "op", ID: g.next, Op: s.Op, In: m, F: s.F}
	if s.Op == "c.Softmax" {
		q.I = s.I
	}
	n, _ := g.m.op(q, false)
	if n == nil || maxAbs(n.rt.V) > g.limit {
		return nil
	}
	g.id()
	n, _ = g.m.op(q, true)
	g.emit(Step{K: "use", ID: q.ID, Op: s.Op, In: in, I: []int{s.ID}})
	g.pool = append(g.pool, n)
	return n
}

// ---- execution ----

type rec20 struct {
	step  Step
	fail  *Fail
	shape []int
	v     []float64
	extra string
	top   T // of a "later" step
}

type comp20 interface{ Forward(...T) (T, error) }
type loss20 interface{ Compute(p, t T) (T, error) }

type phase20 struct {
	lib   map[int]T
	comp  map[int]any
	tasks [][]Step
	recs  [][]rec20
	later []int
	post  []rec20
	draws [][]float64
	setup *Fail
}

func newPhase20(p *Plan) *phase20 {
	ph := &phase20{lib: map[int]T{}, comp: map[int]any{}}
	nt := 0
	for _, s := range p.Steps {
		nt = max(nt, s.C)
	}
	ph.tasks = make([][]Step, nt)
	ph.recs = make([][]rec20, nt)
	ph.draws = make([][]float64, nt)
	for _, s := range p.Steps {
		if s.C > 0 {
			if s.K == "later" {
				ph.later = append(ph.later, s.In[0])
			}
			ph.tasks[s.C-1] = append(ph.tasks[s.C-1], s)
			continue
		}
		switch s.K {
		case "comp":
			if f := ph.makeComp(s); f != nil {
				ph.setup = f
			}
		default:
			r := run20(s, ph.lib, ph.lib, ph.comp, nil)
			if r.fail != nil && ph.setup == nil {
				ph.setup = r.fail
			}
		}
	}
	return ph
}

func (ph *phase20) makeComp(s Step) *Fail {
	return guard(func() (err error) {
		switch s.Op {
		case "c.FC":
			o := s.I[1]
			v := unfs(s.F)
			l, e := layers.NewFC(&layers.FCConfig{Inputs: s.I[0], Outputs: o, Initializers: map[string]layers.Initializer{
				"Weight": &simInit{v: v[:o], mode: initCustom}, "Bias": &simInit{v: v[o:], mode: initCustom}}})
			if e != nil {
				return e
			}
			ph.comp[s.ID] = l
			ph.lib[s.I[2]], ph.lib[s.I[3]] = l.Weight, l.Bias
		case "c.Relu":
			ph.comp[s.ID] = activations.NewRelu()
		case "c.LeakyRelu":
			ph.comp[s.ID] = leakyOf(s)
		case "c.Sigmoid":
			ph.comp[s.ID] = activations.NewSigmoid()
		case "c.Tanh":
			ph.comp[s.ID] = activations.NewTanh()
		case "c.Softmax":
			ph.comp[s.ID], err = softmaxOf(s)
		case "c.Input":
			l := layers.NewInput()
			x := ph.lib[s.In[0]]
			l.SeedFunc = func() T { return x }
			ph.comp[s.ID] = l
		case "c.MSE":
			ph.comp[s.ID] = losses.NewMSE()
		case "c.BCE":
			ph.comp[s.ID] = losses.NewBCE()
		case "c.CE":
			ph.comp[s.ID] = losses.NewCE()
		case "c.Init":
			ph.comp[s.ID], err = init20(s.I[0])
		}
		return
	})
}

func init20(k int) (i layers.Initializer, err error) {
	switch k {
	case 0:
		return initializers.NewFull(&initializers.FullConfig{Value: 1.5}), nil
	case 1:
		i, err = initializers.NewUniform(nil)
	case 2:
		i, err = initializers.NewNormal(nil)
	case 3:
		i, err = initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 3})
	case 4:
		i, err = initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 3})
	case 5:
		i, err = initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 3, FanOut: 2})
	default:
		i, err = initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 3, FanOut: 2})
	}
	return
}

// run20 executes one step. own receives the results; shared and comp are only read.
func run20(s Step, own, shared map[int]T, comp map[int]any, draws *[]float64) (r rec20) {
	r.step = s
	get := func(id int) T {
		if t := own[id]; t != nil {
			return t
		}
		return shared[id]
	}
	in := make([]T, len(s.In))
	for k, id := range s.In {
		if s.K == "rand" || s.K == "later" {
			break
		}
		if in[k] = get(id); in[k] == nil {
			r.extra = "skipped"
			return
		}
	}
	look := func(t T) {
		var f *Fail
		r.shape, r.v, f = read(t)
		if f != nil {
			r.fail = f
		}
	}
	switch s.K {
	case "leaf":
		var t T
		r.fail = guard(func() (err error) { t, err = made(s, s.B, nil); return })
		if r.fail == nil {
			own[s.ID] = t
			look(t)
		}
	case "op":
		t, f := libApply(s, in, nil)
		if r.fail = f; f == nil {
			own[s.ID] = t
			look(t)
		}
	case "use":
		var t T
		r.fail = guard(func() (err error) {
			switch c := comp[s.I[0]].(type) {
			case comp20:
				t, err = c.Forward(in...)
			case loss20:
				t, err = c.Compute(in[0], in[1])
			}
			if s.Op == "c.Input" && err == nil {
				t = t.Scale(1)
			}
			return
		})
		if r.fail == nil && !isNil(t) {
			own[s.ID] = t
			look(t)
		}
	case "bp":
		r.fail = guard(func() error { return tensor.BackPropagate(in[0]) })
	case "grad":
		g := in[0].Gradient()
		if isNil(g) {
			r.extra = "no gradient"
		} else {
			look(g)
		}
	case "reset":
		r.fail = guard(func() error { in[0].ResetGradContext(s.B); return nil })
	case "peek":
		look(in[0])
		r.extra = fmt.Sprint(in[0].NElems(), isNil(in[0].Gradient()))
	case "read":
		o := NewObs()
		r.fail = readCall(s, in, nil, o)
		r.v = []float64{float64(o.Digest >> 12)}
	case "bad":
		if s.Op == "Comp" {
			if c := comp[s.I[0]]; c != nil {
				r.fail = guard(func() error { return misuse(c, s.I[1], in) })
			}
			break
		}
		r.fail = badCall(s, in, nil)
	case "newfc":
		r.fail = guard(func() error {
			c := &layers.FCConfig{Inputs: s.I[0], Outputs: s.I[1]}
			if s.I[2] == 1 {
				c.Initializers = map[string]layers.Initializer{}
			}
			l, err := layers.NewFC(c)
			if err != nil {
				return err
			}
			r.shape = append(l.Weight.Shape(), l.Bias.Shape()...)
			return nil
		})
	case "rand":
		var t T
		lo, hi := 0., 1.
		r.fail = guard(func() (err error) {
			switch s.Op {
			case "RandU":
				t, err = tensor.RandU(s.I, lo, hi, cfg(false))
			case "RandN":
				t, err = tensor.RandN(s.I, 0, 1, cfg(true))
			default:
				var i layers.Initializer
				i, err = init20(2)
				if len(s.In) > 0 && comp[s.In[0]] != nil {
					i, err = comp[s.In[0]].(layers.Initializer), nil
				}
				if err == nil {
					t, err = i.Init(s.I)
				}
			}
			return
		})
		if r.fail == nil {
			sh, v, f := read(t)
			r.shape, r.fail = sh, f
			for _, x := range v {
				if s.Op == "RandU" && !(x >= lo && x < hi) || x != x || math.Abs(x) > 20 {
					r.extra = fmt.Sprintf("drew %v", x)
				}
			}
			if s.Op == "RandU" && draws != nil {
				*draws = append(*draws, v...)
			}
		}
	}
	return
}

func (ph *phase20) task(c int) {
	own := map[int]T{}
	recs := make([]rec20, 0, len(ph.tasks[c]))
	for _, s := range ph.tasks[c] {
		simrt.OpPoint()
		recs = append(recs, run20(s, own, ph.lib, ph.comp, &ph.draws[c]))
	}
	ph.recs[c] = recs
	ph.tops(c, own)
}

// tops keeps what is differentiated later; every goroutine writes a slot of its own.
func (ph *phase20) tops(c int, own map[int]T) {
	for k := range ph.recs[c] {
		if s := ph.recs[c][k].step; s.K == "later" && own[s.In[0]] != nil {
			ph.recs[c][k].top = own[s.In[0]]
		}
	}
}

// finish runs the later back-propagations and looks at everything shared.
func (ph *phase20) finish() {
	for c := range ph.recs {
		for _, r := range ph.recs[c] {
			if r.top == nil {
				continue
			}
			q := rec20{step: r.step}
			q.fail = guard(func() error { return tensor.BackPropagate(r.top) })
			ph.post = append(ph.post, q)
		}
	}
	var ids []int
	for id := range ph.lib {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		r := rec20{step: Step{ID: id, K: "shared tensor"}}
		s := snapOf(ph.lib[id])
		r.shape, r.v, r.fail = s.shape, s.v, s.fail
		ph.post = append(ph.post, r)
		g := rec20{step: Step{ID: id, K: "gradient of shared tensor"}, shape: s.gs, v: s.gv}
		if isNil(s.g) {
			g.extra = "none"
		}
		ph.post = append(ph.post, g)
	}
}

func (a *rec20) differs(b *rec20) string {
	kind := func(f *Fail) string {
		switch {
		case f == nil:
			return "ok"
		case f.Tick:
			return "does not end"
		case f.Panic != "":
			return "panic"
		}
		return "error"
	}
	if kind(a.fail) != kind(b.fail) {
		return fmt.Sprintf("sequentially: %s, concurrently: %s", a.fail, b.fail)
	}
	if a.extra != b.extra {
		return fmt.Sprintf("sequentially: %q, concurrently: %q", a.extra, b.extra)
	}
	if !sameShape(a.shape, b.shape) || len(a.v) != len(b.v) {
		return fmt.Sprintf("shape sequentially: %v, concurrently: %v", a.shape, b.shape)
	}
	for i := range a.v {
		x, y := a.v[i], b.v[i]
		if !sameBits(x, y) && !(math.Abs(x-y) <= 1e-12*math.Max(math.Abs(x), math.Abs(y))) {
			return fmt.Sprintf("element %d sequentially: %v, concurrently: %v", i, x, y)
		}
	}
	return ""
}

func execC20(p *Plan, o *Obs) *Violation {
	seedGlobal(mix(p.Seed) ^ uint64(p.Run))
	nsites := max(len(sites()), 1)
	sched := func(seed uint64) simrt.Config {
		sc := p.Sched
		c := simrt.Config{Policy: sc.Policy, Seed: seed, Prob: sc.Prob, Depth: sc.Depth, Horizon: sc.Horizon,
			StallT: sc.StallT, StallAt: sc.StallAt, StallFor: sc.StallFor, Site: uint32(sc.SiteAt * float64(nsites))}
		for _, w := range sc.Switches {
			c.Replay = append(c.Replay, simrt.Switch{At: w.At, To: w.To})
		}
		return c
	}
	names := map[int]string{simrt.PolicyReplay: "replay", simrt.PolicyRandom: "random", simrt.PolicyPCT: "priorities", simrt.PolicySite: "one-statement", simrt.PolicyStall: "stall", simrt.PolicyRound: "round-robin", simrt.PolicyOp: "operation-boundaries"}
	seq := func() *phase20 {
		ph := newPhase20(p)
		for c := range ph.tasks {
			ph.task(c)
		}
		ph.finish()
		return ph
	}
	race0 := simrt.RaceErrors()
	conc := func(k uint64) (*phase20, *Violation) {
		ph := newPhase20(p)
		var fns []func()
		for c := range ph.tasks {
			fns = append(fns, func() { ph.task(c) })
		}
		simrt.SetDeadline(40000000)
		res := simrt.Run(sched(p.Sched.Seed+k), fns)
		simrt.SetDeadline(0)
		o.Inc("policy." + names[p.Sched.Policy])
		o.Add("decision-points", int64(res.Points))
		o.Add("fault.preemptions", int64(res.Preempts))
		o.Add("switches", int64(len(res.Switches)))
		o.Add("fault.stalls", int64(res.Stalls))
		h := uint64(14695981039346656037)
		lastSw = lastSw[:0]
		for _, w := range res.Switches {
			h = mix(h ^ uint64(w.To)<<20 ^ uint64(w.Site)<<32 ^ uint64(w.From))
			o.logU(w.At ^ uint64(w.To)<<40)
			if len(lastSw) < 20000 {
				lastSw = append(lastSw, swRecord{At: w.At, To: w.To, Site: w.Site})
			}
		}
		o.Add("library-goroutines-as-tasks", int64(res.Spawned))
		o.Add("waits-inside-the-runtime", int64(res.Natives))
		if simrt.Unscheduled {
			o.Inc("unscheduled-sections")
		}
		if res.Preempts > 0 {
			o.State(h)
			o.NonTriv = true
		}
		if n := simrt.RaceErrors() - race0; n > 0 {
			return nil, viol("data-race", -1, "%d data race(s) reported by the race detector, schedule %s, %d goroutines, %d preemptions", n, names[p.Sched.Policy], len(fns), res.Preempts)
		}
		if res.Deadlock {
			return nil, viol("deadlock", -1, "every goroutine waits for a lock of the library")
		}
		ph.finish()
		return ph, nil
	}
	var a, b *phase20
	var v *Violation
	if p.Params["sequential-first"] == 1 {
		a = seq()
	}
	if b, v = conc(0); v != nil {
		return v
	}
	if a == nil {
		a = seq()
	}
	for again := 0; ; again++ {
		if v := compare20(a, b, o); v != nil {
			return v
		}
		if again >= p.Params["again"] || p.Sched.Policy == simrt.PolicyReplay {
			break
		}
		if b, v = conc(uint64(again + 1)); v != nil {
			return v
		}
	}
	return nil
}

var lastSw []swRecord // of the last concurrent section

func compare20(a, b *phase20, o *Obs) *Violation {
	if (a.setup == nil) != (b.setup == nil) {
		return viol("setup-differs", -1, "building the shared state: %s one time, %s another time", a.setup, b.setup)
	}
	seen := map[float64]int{}
	for c := range b.recs {
		if len(a.recs[c]) != len(b.recs[c]) {
			return viol("differs", -1, "goroutine %d made %d steps instead of %d", c+1, len(b.recs[c]), len(a.recs[c]))
		}
		for k := range b.recs[c] {
			x, y := &a.recs[c][k], &b.recs[c][k]
			o.Inc("steps-compared")
			if x.step.K == "op" || x.step.K == "use" {
				o.Inc("op." + x.step.Op)
			} else {
				o.Inc("step." + x.step.K)
			}
			if y.step.K == "bad" {
				o.Inc("fault.failing-call")
			}
			o.LogFs(y.v)
			if d := x.differs(y); d != "" {
				return viol("differs", y.step.ID, "goroutine %d, step %s: %s", c+1, y.step, d)
			}
			if y.step.K == "rand" && y.extra != "" {
				return viol("random-draw", y.step.ID, "goroutine %d, %s%v: %s", c+1, y.step.Op, y.step.I, y.extra)
			}
		}
		for _, x := range b.draws[c] {
			if seen[x] > 0 {
				return viol("random-draw", -1, "goroutines %d and %d drew the same number %v", seen[x], c+1, x)
			}
			seen[x] = c + 1
		}
	}
	if len(a.post) != len(b.post) {
		return viol("differs", -1, "afterwards %d observations instead of %d", len(b.post), len(a.post))
	}
	for k := range b.post {
		if d := a.post[k].differs(&b.post[k]); d != "" {
			what := b.post[k].step
			s := strings.TrimSpace(fmt.Sprintf("%s %d", what.K, what.ID))
			if what.K == "later" {
				s = fmt.Sprintf("back-propagation from the result of step %v", what.In)
			}
			return viol("differs-afterwards", what.ID, "%s: %s", s, d)
		}
		o.Inc("shared-observations-compared")
		o.LogFs(b.post[k].v)
	}
	return nil
}
