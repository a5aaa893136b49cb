package main

import "math"

// Generation of tensor programs. Everything here depends on the PRNG and on the
// model only, never on what the library answers.

type G struct {
	r     *Rng
	m     *Model
	steps []Step
	next  int
	c     int // current client

	pTrack   float64 // probability that a new leaf is tracked
	needDiff bool    // only operations at differentiable points
	maxElems int
	maxRank  int
	wideDim  int     // largest size of a dimension, 0: 6
	manyCat  bool    // concatenations of many tensors
	scales   float64 // leaves scaled by powers of ten up to this exponent
	limit    float64 // values larger than this are not produced
	pool     []*Node // tensors new operations may use
	kfOK     bool    // explicit expanding Broadcast allowed
	noPool   bool
	cmpP     float64
	pSame    float64      // probability of the same tensor as both operands
	foreign  map[int]bool // tensors of bystanders
}

func newG(r *Rng) *G {
	return &G{r: r, m: NewModel(), next: 1, pTrack: 0.75, needDiff: true, maxElems: 64, maxRank: 4, limit: 200, pSame: 0.08, foreign: map[int]bool{}}
}

func (g *G) emit(s Step) Step {
	s.C = g.c
	if s.C == bystander {
		g.foreign[s.ID] = true
	}
	g.steps = append(g.steps, s)
	return s
}

func (g *G) id() int { g.next++; return g.next - 1 }

func (g *G) dims(rank int) []int {
	for {
		s := make([]int, rank)
		for i := range s {
			switch x := g.r.F(); {
			case g.wideDim > 0 && g.r.P(0.35):
				s[i] = g.r.In(1, g.wideDim)
			case x < 0.2:
				s[i] = 1
			case x < 0.85:
				s[i] = g.r.In(2, 3)
			default:
				s[i] = g.r.In(4, 6)
			}
		}
		if nelems(s) <= g.maxElems {
			return s
		}
	}
}

func (g *G) shape() []int {
	rank := []int{0, 1, 1, 2, 2, 2, 3, 3, 4, 5}[g.r.N(10)]
	if g.maxRank > 5 && g.r.P(0.4) {
		rank = g.r.In(5, g.maxRank)
	}
	if rank > g.maxRank {
		rank = g.maxRank
	}
	return g.dims(rank)
}

func (g *G) vals(n int) []float64 {
	v := make([]float64, n)
	mode := g.r.N(8)
	if g.r.P(0.04) {
		mode = 9
	}
	base, gap := g.r.PickF(0, 1, g.r.Range(-2, 2)), math.Pow(10, -g.r.Range(3, 15))
	if base == 0 && g.r.P(0.5) {
		gap = math.Pow(10, -g.r.Range(15, 150))
	}
	for i := range v {
		switch mode {
		case 9: // nearly, but not quite, the same values
			v[i] = base + gap*float64(g.r.In(-9, 9))
		case 0, 1, 2:
			v[i] = g.r.Range(-2, 2)
		case 3, 4:
			v[i] = g.r.Range(0.3, 2.2)
		case 5:
			v[i] = float64(g.r.In(-2, 2)) // zeros and ties
		case 6:
			v[i] = g.r.Norm() * 1.5
		default:
			v[i] = g.r.PickF(0, 0, 1, -1, g.r.Range(-3, 3))
		}
	}
	if g.scales > 0 {
		f := math.Pow(10, g.r.Range(-g.scales, g.scales))
		for i := range v {
			v[i] *= f
		}
	}
	return v
}

func (g *G) leafWith(shape []int, v []float64, track bool) *Node {
	s := Step{ID: g.id(), K: "leaf", I: shape, F: fs(v), B: track}
	n := g.m.leaf(s)
	if n == nil {
		return nil
	}
	g.emit(s)
	g.pool = append(g.pool, n)
	return n
}

// manyElems: leaves with more elements are written as a seed.
const manyElems = 1500

func (g *G) genF() []F64 {
	lo := g.r.PickF(-2, -1, 0.3)
	return fs([]float64{float64(g.r.N(1 << 30)), lo, lo + g.r.Range(0.5, 3), g.r.PickF(0, 0, 0.3)})
}

func (g *G) newLeaf(shape []int) *Node {
	if nelems(shape) > manyElems {
		return g.addLeaf(Step{K: "leaf", X: "gen", I: shape, F: g.genF(), B: g.r.P(g.pTrack)})
	}
	return g.leafWith(shape, g.vals(nelems(shape)), g.r.P(g.pTrack))
}

// pick chooses an operand; recent results are preferred so that depth grows.
func (g *G) pick(ok func(n *Node) bool) *Node {
	if len(g.pool) == 0 {
		return nil
	}
	for try := 0; try < 12; try++ {
		var n *Node
		if g.r.P(0.45) {
			k := len(g.pool) - 1 - g.r.N(4)
			if k < 0 {
				k = 0
			}
			n = g.pool[k]
		} else {
			n = g.pool[g.r.N(len(g.pool))]
		}
		if g.m.n[n.id] == n && (ok == nil || ok(n)) {
			return n
		}
	}
	return nil
}

// try appends the operation if the model accepts it.
func (g *G) try(s Step) *Node {
	s.K = "op"
	s.ID = g.next
	if g.tooBig(s) {
		return nil
	}
	n, diff := g.m.op(s, false)
	if n == nil || (g.needDiff && !diff && !n.cmp) || maxAbs(n.rt.V) > g.limit || len(n.rt.V) > 4*g.maxElems || len(n.rt.Shape) > g.maxRank+1 {
		return nil
	}
	if g.needDiff && n.track { // keep derivatives in a range where comparison is meaningful
		bound := 1e3
		if g.scales > 0 {
			bound = 1e130
		}
		for _, j := range n.jac {
			for _, e := range j {
				if math.Abs(e.d) > bound || e.d != e.d {
					return nil
				}
			}
		}
	}
	g.id()
	n, _ = g.m.op(s, true)
	g.emit(s)
	g.pool = append(g.pool, n)
	return n
}

// tooBig: the result would have far too many elements, or take too long to compute;
// decided before anything computes it.
func (g *G) tooBig(s Step) bool {
	var in [][]int
	for _, id := range s.In {
		if g.m.n[id] == nil {
			return false
		}
		in = append(in, g.m.n[id].rt.Shape)
	}
	size, work := 0.0, 0.0
	count := func(shape []int) float64 {
		n := 1.0
		for _, d := range shape {
			n *= float64(d)
		}
		return n
	}
	switch {
	case s.Op == "MatMul" && len(in) == 2 && len(in[0]) > 1 && len(in[1]) > 1:
		a, b := in[0], in[1]
		p, q := len(a), len(b)
		lead, ok := bshape(a[:p-2], b[:q-2])
		if !ok {
			return false
		}
		size = count(lead) * float64(a[p-2]) * float64(b[q-1])
		work = size * float64(a[p-1])
	case s.Op == "Broadcast":
		size = count(s.I)
	case s.Op == "c.Softmax" && len(in) == 1 && len(s.I) == 1 && s.I[0] >= 0 && s.I[0] < len(in[0]):
		work = count(in[0]) * float64(in[0][s.I[0]])
	case s.Op == "c.FC" && len(in) == 3 && len(in[0]) == 1 && len(in[2]) == 2:
		size = count(in[0]) * float64(in[2][0])
		work = size * float64(in[2][1])
	case len(in) == 2 && s.Op != "Concat" && s.Op != "Patch":
		sh, ok := bshape(in[0], in[1])
		if !ok {
			return false
		}
		size = count(sh)
	}
	return size > float64(4*g.maxElems) || work > 2e6
}

func (g *G) ranges(shape []int) [][2]int {
	k := g.r.In(0, len(shape))
	if g.r.P(0.5) {
		k = len(shape)
	}
	if k == 0 {
		if g.r.P(0.5) {
			return nil
		}
		return [][2]int{}
	}
	r := make([][2]int, k)
	for d := range r {
		switch x := g.r.F(); {
		case x < 0.2:
			r[d] = [2]int{0, 0}
		case x < 0.3:
			r[d] = [2]int{0, shape[d]}
		default:
			lo := g.r.N(shape[d])
			r[d] = [2]int{lo, g.r.In(lo+1, shape[d])}
		}
	}
	return r
}

func (g *G) factor(n int) []int {
	k := g.r.In(0, 4)
	s := []int{}
	for ; k > 0 && n > 1; k-- {
		var ds []int
		for d := 1; d <= n; d++ {
			if n%d == 0 {
				ds = append(ds, d)
			}
		}
		d := ds[g.r.N(len(ds))]
		s = append(s, d)
		n /= d
	}
	if n > 1 || (len(s) == 0 && g.r.P(0.5)) {
		s = append(s, n)
	}
	if g.r.P(0.2) {
		i := g.r.N(len(s) + 1)
		s = append(s[:i], append([]int{1}, s[i:]...)...)
	}
	return s
}

// partner returns a tensor whose shape broadcasts with s (reused or new).
func (g *G) partner(s []int) *Node {
	if g.r.P(0.6) {
		if n := g.pick(func(n *Node) bool {
			b, ok := bshape(s, n.rt.Shape)
			return ok && nelems(b) <= 2*g.maxElems
		}); n != nil {
			return n
		}
	}
	t := append([]int{}, s...)
	switch g.r.N(4) {
	case 0: // same shape
	case 1: // fewer leading dimensions
		t = t[g.r.N(len(t)+1):]
	case 2:
		for i := range t {
			if g.r.P(0.4) {
				t[i] = 1
			}
		}
		if g.r.P(0.3) {
			t = t[g.r.N(len(t)+1):]
		}
	default: // the partner is the larger one
		for i := range t {
			if t[i] == 1 && g.r.P(0.6) {
				t[i] = g.r.In(2, 3)
			}
		}
		if len(t) < g.maxRank && g.r.P(0.5) {
			t = append([]int{g.r.In(1, 3)}, t...)
		}
		if nelems(t) > 2*g.maxElems {
			t = append([]int{}, s...)
		}
	}
	return g.newLeaf(t)
}

func (g *G) same(x *Node) *Node {
	if n := g.pick(func(n *Node) bool { return sameShape(n.rt.Shape, x.rt.Shape) && n != x }); n != nil && g.r.P(0.7) {
		return n
	}
	return g.newLeaf(x.rt.Shape)
}

// distinctLike makes a leaf of x's shape whose elements stay clear of x's.
func (g *G) distinctLike(x *Node) *Node {
	v := make([]float64, len(x.rt.V))
	fine := x.rt.Ex && g.r.P(0.5)
	for i, e := range x.rt.V {
		v[i] = e + g.r.PickF(-1, 1)*g.r.Range(0.05, 1.5)
		switch {
		case fine && g.r.P(0.3):
			v[i] = math.Nextafter(e, g.r.PickF(-1, 1)*math.Inf(1))
		case fine:
			v[i] = e + g.r.PickF(-1, 1)*math.Pow(10, -g.r.Range(3, 14))
		}
		if math.Abs(v[i]-e) < 1e-150 {
			v[i] = e + 1e-3
		}
	}
	return g.leafWith(x.rt.Shape, v, g.r.P(g.pTrack))
}

var allOps = func() []string {
	o := []string{"Scale", "Pow", "ElMax", "ElMin", "Dot", "MatMul", "Concat"}
	o = append(o, unaryNames...)
	o = append(o, reduceNames...)
	o = append(o, shapeNames...)
	return append(o, arithNames...)
}()

func (g *G) randOp() string {
	if g.cmpP > 0 && g.r.P(g.cmpP) {
		return cmpNames[g.r.N(len(cmpNames))]
	}
	switch x := g.r.F(); {
	case x < 0.34:
		return arithNames[g.r.N(4)]
	case x < 0.48:
		return unaryNames[g.r.N(len(unaryNames))]
	case x < 0.56:
		return "Scale"
	case x < 0.62:
		return "Pow"
	case x < 0.72:
		return reduceNames[g.r.N(len(reduceNames))]
	case x < 0.84:
		return shapeNames[g.r.N(len(shapeNames))]
	case x < 0.89:
		return "Concat"
	case x < 0.93:
		return "MatMul"
	case x < 0.96:
		return "Dot"
	case x < 0.98:
		return "ElMax"
	}
	return "ElMin"
}

// grow appends one operation (and possibly leaves it needs).
func (g *G) grow() *Node { return g.growOp(g.randOp(), nil) }

// growOp appends one application of op; x may force the first operand.
func (g *G) growOp(op string, x *Node) *Node {
	r := g.r
	pick := func(ok func(n *Node) bool) *Node {
		if x != nil {
			if ok != nil && !ok(x) {
				return nil
			}
			return x
		}
		return g.pick(ok)
	}
	rankAtLeast := func(k int) func(n *Node) bool {
		return func(n *Node) bool { return len(n.rt.Shape) >= k }
	}
	switch op {
	case "Scale":
		if n := pick(nil); n != nil {
			return g.try(Step{Op: op, In: []int{n.id}, F: fs([]float64{r.PickF(0, 1, -1, 0.5, 2, r.Range(-2, 2))})})
		}
	case "Pow":
		if n := pick(nil); n != nil {
			return g.try(Step{Op: op, In: []int{n.id}, F: fs([]float64{r.PickF(0, 0, 1, 2, 2, 3, -1, -2, 0.5, 1.5, -0.5)})})
		}
	case "Slice":
		if n := pick(nil); n != nil {
			return g.try(Step{Op: op, In: []int{n.id}, R: g.ranges(n.rt.Shape)})
		}
	case "Patch":
		n := pick(nil)
		if n == nil {
			return nil
		}
		var p *Node
		if r.P(0.6) {
			p = g.pick(func(p *Node) bool {
				if len(p.rt.Shape) != len(n.rt.Shape) {
					return false
				}
				for d := range p.rt.Shape {
					if p.rt.Shape[d] > n.rt.Shape[d] {
						return false
					}
				}
				return true
			})
		}
		if p == nil {
			s := append([]int{}, n.rt.Shape...)
			for d := range s {
				s[d] = r.In(1, s[d])
			}
			p = g.newLeaf(s)
		}
		full := make([][2]int, len(n.rt.Shape))
		last := -1
		for d := range full {
			lo := r.In(0, n.rt.Shape[d]-p.rt.Shape[d])
			full[d] = [2]int{lo, lo + p.rt.Shape[d]}
			if r.P(0.25) {
				full[d] = [2]int{0, 0}
			}
			if full[d][0] != 0 {
				last = d
			}
		}
		if r.P(0.4) { // drop trailing ranges
			cut := r.In(last+1, len(full))
			for d := cut; d < len(full); d++ {
				full[d] = [2]int{}
			}
			full = full[:cut]
		}
		return g.try(Step{Op: op, In: []int{n.id, p.id}, R: full})
	case "Transpose":
		if n := pick(rankAtLeast(2)); n != nil {
			return g.try(Step{Op: op, In: []int{n.id}})
		}
	case "Reshape":
		if n := pick(nil); n != nil {
			return g.try(Step{Op: op, In: []int{n.id}, I: g.factor(len(n.rt.V))})
		}
	case "UnSqueeze":
		if n := pick(func(n *Node) bool { return len(n.rt.Shape) < g.maxRank }); n != nil {
			return g.try(Step{Op: op, In: []int{n.id}, I: []int{r.In(0, len(n.rt.Shape))}})
		}
	case "Squeeze":
		n := pick(func(n *Node) bool {
			for _, d := range n.rt.Shape {
				if d == 1 {
					return true
				}
			}
			return false
		})
		if n != nil {
			var ds []int
			for i, d := range n.rt.Shape {
				if d == 1 {
					ds = append(ds, i)
				}
			}
			return g.try(Step{Op: op, In: []int{n.id}, I: []int{ds[r.N(len(ds))]}})
		}
	case "Flatten":
		if n := pick(rankAtLeast(1)); n != nil {
			return g.try(Step{Op: op, In: []int{n.id}, I: []int{r.N(len(n.rt.Shape))}})
		}
	case "Broadcast":
		n := pick(nil)
		if n == nil {
			return nil
		}
		t := append([]int{}, n.rt.Shape...)
		if g.kfOK {
			for i := range t {
				if t[i] == 1 && r.P(0.6) {
					t[i] = r.In(2, 3)
				}
			}
			for len(t) < g.maxRank && r.P(0.4) {
				t = append([]int{r.In(1, 3)}, t...)
			}
		} else if len(t) < g.maxRank && r.P(0.6) {
			t = append([]int{1}, t...)
		}
		return g.try(Step{Op: op, In: []int{n.id}, I: t})
	case "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong":
		if n := pick(rankAtLeast(1)); n != nil {
			return g.try(Step{Op: op, In: []int{n.id}, I: []int{r.N(len(n.rt.Shape))}})
		}
	case "Add", "Sub", "Mul", "Div":
		a := pick(nil)
		if a == nil {
			return nil
		}
		b := a
		if !r.P(g.pSame) {
			b = g.partner(a.rt.Shape)
		}
		if b == nil {
			return nil
		}
		if r.P(0.5) {
			a, b = b, a
		}
		return g.try(Step{Op: op, In: []int{a.id, b.id}})
	case "ElMax", "ElMin", "Eq", "Ne", "Gt", "Ge", "Lt", "Le":
		a := pick(nil)
		if a == nil {
			return nil
		}
		b := g.same(a)
		if r.P(g.pSame / 2) {
			b = a
		}
		if op[0:2] == "El" && r.P(0.5) {
			b = g.distinctLike(a)
		}
		if b == nil {
			return nil
		}
		if r.P(0.5) {
			a, b = b, a
		}
		return g.try(Step{Op: op, In: []int{a.id, b.id}})
	case "Dot":
		a := pick(rankAtLeast(1))
		if a == nil {
			return nil
		}
		k := a.rt.Shape[len(a.rt.Shape)-1]
		var b *Node
		if r.P(g.pSame / 2) {
			b = a
		} else if r.P(0.6) {
			b = g.pick(func(n *Node) bool {
				s := n.rt.Shape
				if len(s) < 1 || s[len(s)-1] != k {
					return false
				}
				_, ok := bshape(s, a.rt.Shape)
				return ok
			})
		}
		if b == nil {
			lead := g.leadPartner(a.rt.Shape[:len(a.rt.Shape)-1])
			b = g.newLeaf(append(lead, k))
		}
		if r.P(0.5) {
			a, b = b, a
		}
		return g.try(Step{Op: op, In: []int{a.id, b.id}})
	case "MatMul":
		a := pick(rankAtLeast(2))
		if a == nil {
			return nil
		}
		n := len(a.rt.Shape)
		k := a.rt.Shape[n-1]
		var b *Node
		if r.P(g.pSame/2) && a.rt.Shape[n-2] == k {
			b = a
		} else if r.P(0.5) {
			b = g.pick(func(x *Node) bool {
				s := x.rt.Shape
				if len(s) < 2 || s[len(s)-2] != k {
					return false
				}
				_, ok := bshape(s[:len(s)-2], a.rt.Shape[:n-2])
				return ok
			})
		}
		if b == nil {
			lead := g.leadPartner(a.rt.Shape[:n-2])
			if r.P(0.5) {
				b = g.newLeaf(append(lead, k, r.In(1, 3)))
			} else { // a is the right factor
				b = a
				a = g.newLeaf(append(lead, r.In(1, 3), b.rt.Shape[n-2]))
			}
		}
		return g.try(Step{Op: op, In: []int{a.id, b.id}})
	case "Concat":
		a := pick(rankAtLeast(1))
		if a == nil {
			return nil
		}
		dim := r.N(len(a.rt.Shape))
		xs := []int{a.id}
		k := r.In(1, 3)
		if g.manyCat && r.P(0.5) {
			k = r.In(4, r.Pick(20, 20, 20, 80))
		}
		for ; k > 0; k-- {
			var b *Node
			if r.P(0.7) {
				b = g.pick(func(n *Node) bool {
					s := n.rt.Shape
					return len(s) == len(a.rt.Shape) && sameShape(without(s, dim), without(a.rt.Shape, dim))
				})
			}
			if b == nil {
				s := append([]int{}, a.rt.Shape...)
				s[dim] = r.In(1, 3)
				b = g.newLeaf(s)
			}
			xs = append(xs, b.id)
		}
		if r.P(0.5) {
			xs[0], xs[len(xs)-1] = xs[len(xs)-1], xs[0]
		}
		return g.try(Step{Op: op, In: xs, I: []int{dim}})
	default: // unary
		n := pick(nil)
		if n != nil {
			return g.try(Step{Op: op, In: []int{n.id}})
		}
	}
	return nil
}

func (g *G) leadPartner(lead []int) []int {
	t := append([]int{}, lead...)
	switch g.r.N(4) {
	case 0:
	case 1:
		t = t[g.r.N(len(t)+1):]
	case 2:
		for i := range t {
			if g.r.P(0.5) {
				t[i] = 1
			}
		}
	default:
		for i := range t {
			if t[i] == 1 {
				t[i] = g.r.In(1, 3)
			}
		}
		if len(t) < 2 {
			t = append([]int{g.r.In(1, 2)}, t...)
		}
	}
	return append([]int{}, t...)
}

func (g *G) bp(n *Node) bool {
	if n == nil || g.m.n[n.id] != n || !g.m.bpAllowed(n) {
		return false
	}
	g.emit(Step{ID: g.id(), K: "bp", In: []int{n.id}})
	g.m.bp(n)
	return true
}

func (g *G) reset(n *Node, track bool) bool {
	if n == nil || g.m.n[n.id] != n || !g.m.resetAllowed(n) {
		return false
	}
	g.emit(Step{ID: g.id(), K: "reset", In: []int{n.id}, B: track})
	g.m.reset(n, track)
	return true
}
