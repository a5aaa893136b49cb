package main

import (
	"fmt"
	"math"

	"qeepverif/simrt"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// World C01: clients build tensor programs over shared leaves and
// back-propagate from them; the oracle is exact differentiation of the program.

func genC01(seed uint64, run int, tier string) *Plan {
	p := genPlanC01(seed, run, tier)
	addMistakes(p, NewRng(seed, hashStr("C01-mistakes"), uint64(run)))
	return p
}

func genPlanC01(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C01"), uint64(run))
	p := &Plan{Prop: "C01", Run: run, Seed: seed}
	g := newG(r)
	big := 1.0
	if tier == "thorough" {
		big = 1.6
	}
	x := r.F()
	huge := r.P(0.006)
	switch {
	case huge:
		p.Kind = "huge"
		g.hugeRun()
	case x < 0.02:
		p.Kind = "wide"
		g.maxElems, g.wideDim = r.Pick(300, 1200, 2500), r.Pick(20, 70, 140, 300)
		g.dagRun(r.In(2, 7))
	case x < 0.05:
		p.Kind = "high-rank"
		g.maxRank = r.In(6, 8)
		g.dagRun(r.In(3, 20))
	case x < 0.08:
		p.Kind = "many"
		g.manyRun(r.In(6, 50))
	case x < 0.105:
		p.Kind = "scaled"
		g.scales, g.limit = r.PickF(3, 10, 40), 1e120
		g.scaledRun(r.In(2, 12))
	case x < 0.125:
		p.Kind = "fan"
		g.fanRun(r.Pick(r.In(40, 330), r.In(40, 330), r.In(40, 330), r.In(40, 330), r.In(300, 1500)))
	case x < 0.155:
		p.Kind = "positive"
		p.Params = map[string]int{"strict": 1}
		g.positiveRun(r.In(2, 14))
	case x < 0.19:
		p.Kind = "wide-op"
		g.wideOpRun()
	case x < 0.26:
		p.Kind = "single"
		g.pSame = 0.4
		g.singleRun()
	case x < 0.263:
		p.Kind = "very-deep"
		g.deep(r.Pick(r.In(800, 3000), r.In(800, 3000), r.In(3000, 12000)))
	case x < 0.42:
		p.Kind = "dag"
		g.manyCat = r.P(0.15)
		g.dagRun(int(float64(r.In(3, 34)) * big))
	case x < 0.60:
		p.Kind = "shared-leaves"
		g.sharedRun(int(float64(r.In(8, 40)) * big))
	case x < 0.74:
		p.Kind = "ladder"
		g.ladder(r.In(4, 34))
	case x < 0.80:
		p.Kind = "dense"
		g.dense(r.In(4, 13))
	case x < 0.84:
		p.Kind = "deep"
		g.deep(int(float64(r.In(60, 420)) * big))
	case x < 0.90:
		p.Kind = "growth"
		n := r.In(6, 14)
		p.Params = map[string]int{"n": n}
		g.growth(n)
	default:
		p.Kind = "explicit-broadcast"
		g.kfOK = true
		g.broadcastRun(r.In(3, 16))
	}
	p.Steps = g.steps
	return p
}

func (g *G) seedLeaves(k int) {
	for i := 0; i < k; i++ {
		if i > 0 && g.r.P(0.5) {
			g.newLeaf(append([]int{}, g.pool[g.r.N(len(g.pool))].rt.Shape...))
		} else {
			g.newLeaf(g.shape())
		}
	}
	// at least one tracked leaf
	any := false
	for _, n := range g.pool {
		any = any || n.track
	}
	if !any {
		g.leafWith([]int{}, []float64{g.r.Range(0.5, 2)}, true)
	}
}

func (g *G) anyRoot() *Node {
	// prefer late results
	for try := 0; try < 8; try++ {
		n := g.pick(func(n *Node) bool { return n.track && !n.leaf && !n.spent })
		if n != nil && g.m.bpAllowed(n) {
			return n
		}
	}
	return nil
}

func (g *G) dagRun(ops int) {
	g.seedLeaves(g.r.In(1, 4))
	for i := 0; i < ops; i++ {
		g.grow()
	}
	// sometimes join the most recent results so that many paths reconverge
	if g.r.P(0.5) {
		g.join(g.r.In(2, 5))
	}
	root := g.pool[len(g.pool)-1]
	if !root.refs() || root.leaf || g.r.P(0.2) {
		root = g.anyRoot()
	}
	g.bp(root)
	for k := g.r.N(3); k > 0; k-- {
		switch {
		case g.r.P(0.3):
			g.reset(g.pick(func(n *Node) bool { return n.spent }), g.r.P(0.8))
			for i := g.r.In(1, 5); i > 0; i-- {
				g.grow()
			}
		case g.r.P(0.25): // a leaf as root
			g.bp(g.pick(func(n *Node) bool { return n.leaf && n.track }))
		}
		g.bp(g.anyRoot())
	}
}

// manyRun: a few leaves take part in many back-propagations over small graphs, so
// that gradients accumulate again and again, or one tensor has many consumers.
func (g *G) manyRun(k int) {
	g.seedLeaves(g.r.In(1, 3))
	base := append([]*Node{}, g.pool...)
	if g.r.P(0.5) { // many consumers of one result
		x := g.grow()
		if x == nil || !x.track {
			x = g.pick(func(n *Node) bool { return n.track })
		}
		if x == nil {
			return
		}
		for ; k > 0; k-- {
			g.growOp(g.randOp(), x)
		}
		g.join(g.r.In(4, 12))
		g.bp(g.anyRoot())
		return
	}
	for ; k > 0; k-- {
		g.c = g.r.N(3)
		g.pool = append([]*Node{}, base...)
		for j := g.r.In(1, 3); j > 0; j-- {
			g.grow()
		}
		g.bp(g.anyRoot())
	}
}

// scaledRun: values of very different magnitudes through operations that do not
// cancel.
func (g *G) scaledRun(k int) {
	g.seedLeaves(g.r.In(1, 3))
	ops := []string{"Mul", "Mul", "Div", "Div", "Pow", "Scale", "MatMul", "Dot", "Concat", "Patch", "Slice", "Transpose", "Reshape",
		"SumAlong", "AvgAlong", "MeanAlong", "MaxAlong", "MinAlong", "ElMax", "ElMin", "Add", "Log", "Sinh", "Tanh", "Exp"}
	for _, n := range append([]*Node{}, g.pool...) {
		if g.r.P(0.3) && len(n.rt.Shape) > 0 {
			g.growOp([]string{"VarAlong", "StdAlong"}[g.r.N(2)], n)
		}
	}
	for ; k > 0; k-- {
		g.growOp(ops[g.r.N(len(ops))], nil)
	}
	g.bp(g.anyRoot())
	g.bp(g.anyRoot())
}

// fanRun: one tensor feeds very many results, or very many back-propagations.
func (g *G) fanRun(k int) {
	g.limit = 1e4
	sh := g.smallShape()
	v := make([]float64, nelems(sh))
	for i := range v {
		v[i] = g.r.Range(-1.5, 1.5)
	}
	x := g.leafWith(sh, v, true)
	if g.r.P(0.4) {
		if y := g.growOp([]string{"Sin", "Tanh", "Scale", "Cos"}[g.r.N(4)], x); y != nil && y.track {
			x = y
		}
	}
	one := func(op string, f ...float64) *Node { return g.try(Step{Op: op, In: []int{x.id}, F: fs(f)}) }
	part := func() *Node {
		switch g.r.N(4) {
		case 0:
			return one("Scale", g.r.Range(-1, 1))
		case 1:
			return one("Sin")
		case 2:
			return one("Tanh")
		}
		return x
	}
	switch g.r.N(3) {
	case 0: // a long sum
		acc := part()
		for ; k > 0 && acc != nil; k-- {
			if y := part(); y != nil {
				if a := g.try(Step{Op: []string{"Add", "Sub"}[g.r.N(2)], In: []int{acc.id, y.id}}); a != nil {
					acc = a
				}
			}
		}
		g.bp(acc)
	case 1: // one concatenation
		if len(x.rt.Shape) == 0 {
			if x = g.try(Step{Op: "UnSqueeze", In: []int{x.id}, I: []int{0}}); x == nil {
				return
			}
		}
		g.maxElems = 1 << 13
		ids := []int{}
		mixed := g.r.P(0.5)
		for ; k > 0; k-- {
			y := x
			if mixed {
				y = part()
			}
			if y != nil {
				ids = append(ids, y.id)
			}
		}
		if c := g.try(Step{Op: "Concat", In: ids, I: []int{g.r.N(len(x.rt.Shape))}}); c != nil {
			if q := g.growOp("Mul", c); q != nil && g.r.P(0.5) {
				c = q
			}
			g.bp(c)
		}
	default: // many back-propagations
		l := g.pool[0]
		for ; k > 0; k-- {
			g.c = g.r.N(3)
			x = l
			y := part()
			if y == nil || y == l {
				y = one("Scale", g.r.Range(-1, 1))
			}
			if g.r.P(0.1) {
				y = l
			}
			g.bp(y)
		}
	}
}

// positiveRun: nothing cancels, so every gradient is known to a small relative
// error, however small it is.
func (g *G) positiveRun(k int) {
	g.limit = 1e12
	e := g.r.PickF(0, 1, 4, 8)
	leaf := func(sh []int) *Node {
		v := make([]float64, nelems(sh))
		f := math.Pow(10, g.r.Range(-e, e))
		for i := range v {
			v[i] = f * g.r.Range(0.5, 2)
		}
		return g.leafWith(sh, v, g.r.P(0.85))
	}
	for i := 0; i < 2; i++ {
		leaf(g.shape())
	}
	if !g.pool[0].track && !g.pool[1].track {
		g.leafWith([]int{}, []float64{g.r.Range(0.5, 2)}, true)
	}
	ops := []string{"Mul", "Mul", "Div", "Div", "Pow", "Scale", "MatMul", "Dot", "Add", "SumAlong", "AvgAlong", "MeanAlong", "MaxAlong", "MinAlong", "ElMax", "ElMin",
		"Concat", "Patch", "Slice", "Transpose", "Reshape", "UnSqueeze", "Flatten", "Exp"}
	for ; k > 0; k-- {
		x := g.pick(nil)
		if x == nil {
			continue
		}
		op := ops[g.r.N(len(ops))]
		n := len(x.rt.Shape)
		switch op {
		case "Scale":
			g.try(Step{Op: op, In: []int{x.id}, F: fs([]float64{math.Pow(10, g.r.Range(-e, e))})})
		case "Pow":
			g.try(Step{Op: op, In: []int{x.id}, F: fs([]float64{g.r.PickF(0, 1, 2, 3, -1, -2, 0.5, -0.5)})})
		case "Mul", "Div", "Add", "ElMax", "ElMin":
			y := g.pick(func(y *Node) bool {
				b, ok := bshape(x.rt.Shape, y.rt.Shape)
				return ok && nelems(b) <= g.maxElems && (op[0] != 'E' || sameShape(x.rt.Shape, y.rt.Shape))
			})
			if y == nil || g.r.P(0.3) {
				y = leaf(append([]int{}, x.rt.Shape...))
			}
			g.try(Step{Op: op, In: []int{x.id, y.id}})
		case "MatMul":
			if n >= 2 {
				y := leaf(append(append([]int{}, x.rt.Shape[:n-2]...), x.rt.Shape[n-1], g.r.In(1, 3)))
				g.try(Step{Op: op, In: []int{x.id, y.id}})
			}
		case "Dot":
			if n >= 1 {
				y := leaf(append([]int{}, x.rt.Shape...))
				g.try(Step{Op: op, In: []int{x.id, y.id}})
			}
		case "Concat":
			if n >= 1 {
				y := leaf(append([]int{}, x.rt.Shape...))
				g.try(Step{Op: op, In: []int{y.id, x.id}, I: []int{g.r.N(n)}})
			}
		case "Patch":
			y := leaf(append([]int{}, x.rt.Shape...))
			g.try(Step{Op: op, In: []int{y.id, x.id}})
		default:
			g.growOp(op, x)
		}
	}
	g.bp(g.anyRoot())
	g.bp(g.anyRoot())
}

// singleRun: one operation (every one equally often), perhaps one more on top, over
// shapes with many single dimensions.
func (g *G) singleRun() {
	sh := g.shape()
	for i := range sh {
		if g.r.P(0.3) {
			sh[i] = 1
		}
	}
	x := g.newLeaf(sh)
	if g.r.P(0.3) {
		if y := g.growOp(allOps[g.r.N(len(allOps))], x); y != nil {
			x = y
		}
	}
	y := g.growOp(allOps[g.r.N(len(allOps))], x)
	if y == nil {
		return
	}
	if g.r.P(0.5) {
		w := g.newLeaf(y.rt.Shape)
		if q := g.try(Step{Op: "Mul", In: []int{y.id, w.id}}); q != nil {
			y = q
		}
	}
	if y.refs() {
		g.bp(y)
	}
}

// wideOpRun: one dimension much longer than what fits a register, a block or a byte.
func (g *G) wideOpRun() {
	w := g.r.Pick(g.r.In(9, 40), g.r.In(17, 140), g.r.In(60, 330))
	rank := g.r.In(1, 4)
	sh := make([]int, rank)
	for i := range sh {
		sh[i] = g.r.Pick(1, 1, 2, 3)
	}
	sh[g.r.N(rank)] = w
	for nelems(sh) > 1000 {
		for i := range sh {
			if sh[i] < 4 {
				sh[i] = 1
			}
		}
	}
	g.maxElems = 2000
	g.leafWith(sh, g.vals(nelems(sh)), true)
	x := g.pool[0]
	ops := []string{"Dot", "MatMul", "Add", "Sub", "Mul", "Div", "ElMax", "Concat", "Patch"}
	ops = append(append(ops, reduceNames...), shapeNames...)
	done := 0
	for try := 0; try < 12 && done < g.r.In(1, 3); try++ {
		op := ops[g.r.N(len(ops))]
		if g.r.P(0.2) {
			op = allOps[g.r.N(len(allOps))]
		}
		if y := g.growOp(op, x); y != nil {
			done++
			if y.track {
				x = y
			}
		}
	}
	if g.r.P(0.6) { // gradients that are not all ones
		for _, op := range []string{"Mul", "Sin", "Scale"} {
			if y := g.growOp(op, x); y != nil && y.track {
				x = y
				break
			}
		}
	}
	if x.track {
		g.bp(x)
	}
	g.bp(g.anyRoot())
}

// hugeShape: up to n elements, many of them, in any number of dimensions.
func (g *G) hugeShape(n int) []int {
	for {
		rank := g.r.In(1, 4)
		sh := make([]int, rank)
		left := n
		for i := range sh {
			sh[i] = g.r.In(1, min(left, g.r.Pick(3, 9, 70, 300, n)))
			left /= sh[i]
		}
		for i, j := range g.r.Perm(rank) {
			sh[i], sh[j] = sh[j], sh[i]
		}
		if nelems(sh) >= min(n/3, 1500) {
			return sh
		}
	}
}

// hugeRun: tensors of thousands of elements, where an implementation may switch to
// another algorithm.
func (g *G) hugeRun() {
	n := g.r.Pick(1500, 5000, 5000, 20000, 40000)
	g.maxElems, g.limit, g.pTrack = n, 1e5, 0.85
	x := g.newLeaf(g.hugeShape(n))
	if !x.track {
		x = g.newLeaf(x.rt.Shape)
	}
	mm := g.r.P(0.15)
	if mm { // a large product of matrices
		a, k, b := g.r.In(1, 70), g.r.In(1, 70), g.r.In(1, 70)
		lead := []int{}
		if g.r.P(0.3) {
			lead = []int{g.r.In(1, 3)}
		}
		u := g.newLeaf(append(append([]int{}, lead...), a, k))
		v := g.newLeaf(append(append([]int{}, lead[:g.r.N(len(lead)+1)]...), k, b))
		if y := g.try(Step{Op: "MatMul", In: []int{u.id, v.id}}); y != nil {
			x = y
		}
	}
	for try, left := 0, g.r.In(1, 4); try < 12 && left > 0; try++ {
		op := allOps[g.r.N(len(allOps))]
		if op == "MatMul" && len(x.rt.V) > 8000 {
			continue
		}
		if y := g.growOp(op, x); y != nil {
			left--
			if y.track {
				x = y
			}
		}
	}
	if g.r.P(0.6) {
		for _, op := range []string{"Mul", "Sin", "Scale"} {
			if y := g.growOp(op, x); y != nil && y.track {
				x = y
				break
			}
		}
	}
	if x.track {
		g.bp(x)
	}
	g.bp(g.anyRoot())
}

// join reduces some results to scalars and adds them up.
func (g *G) join(k int) {
	var acc *Node
	for ; k > 0; k-- {
		n := g.pick(func(n *Node) bool { return n.refs() && !n.leaf })
		if n == nil {
			continue
		}
		for n != nil && len(n.rt.Shape) > 0 {
			n = g.try(Step{Op: []string{"SumAlong", "AvgAlong"}[g.r.N(2)], In: []int{n.id}, I: []int{g.r.N(len(n.rt.Shape))}})
		}
		if n == nil {
			continue
		}
		if acc == nil {
			acc = n
		} else if a := g.try(Step{Op: []string{"Add", "Sub", "Mul"}[g.r.N(3)], In: []int{acc.id, n.id}}); a != nil {
			acc = a
		}
	}
}

// sharedRun: several clients own graphs that have only leaves in common; their
// calls interleave.
func (g *G) sharedRun(ops int) {
	g.seedLeaves(g.r.In(2, 4))
	k := g.r.In(2, 4)
	pools := make([][]*Node, k)
	for i := range pools {
		pools[i] = append([]*Node{}, g.pool...)
	}
	left := g.r.In(1, 3) * k
	for i := 0; i < ops || left > 0; i++ {
		g.c = g.r.N(k)
		g.pool = pools[g.c]
		if i >= ops || g.r.P(0.06) {
			left--
			g.bp(g.anyRoot())
		} else {
			g.grow()
		}
		pools[g.c] = g.pool
		if g.r.P(0.04) { // a new leaf everybody sees
			n := g.newLeaf(g.shape())
			for j := range pools {
				if j != g.c {
					pools[j] = append(pools[j], n)
				}
			}
			pools[g.c] = g.pool
		}
	}
}

// rung: y computed from x along two or more paths that reconverge; the value
// stays bounded.
func (g *G) rung(x *Node, kind int) *Node {
	one := func(op string, f ...float64) *Node {
		if x == nil {
			return nil
		}
		return g.try(Step{Op: op, In: []int{x.id}, F: fs(f)})
	}
	two := func(op string, a, b *Node) *Node {
		if a == nil || b == nil {
			return nil
		}
		return g.try(Step{Op: op, In: []int{a.id, b.id}})
	}
	half := func(n *Node) *Node {
		if n == nil {
			return nil
		}
		return g.try(Step{Op: "Scale", In: []int{n.id}, F: fs([]float64{g.r.Range(0.3, 0.6)})})
	}
	switch kind {
	case 0:
		return half(two("Add", x, x))
	case 1:
		return half(two("Add", one("Sin"), x))
	case 2:
		return two("Mul", one("Cos"), one("Tanh"))
	case 3:
		return half(two("Sub", one("Tanh"), one("Scale", g.r.Range(-1, 1))))
	case 4:
		return half(two("Mul", x, one("Sin")))
	case 5: // normalise: x / (1 + x^2)
		q := one("Pow", 2)
		o := one("Pow", 0)
		return two("Div", x, two("Add", q, o))
	case 6: // concatenate and cut back
		if x == nil || len(x.rt.Shape) == 0 {
			return half(two("Add", x, x))
		}
		d := g.r.N(len(x.rt.Shape))
		c := g.try(Step{Op: "Concat", In: []int{x.id, x.id}, I: []int{d}})
		if c == nil {
			return nil
		}
		n := x.rt.Shape[d]
		lo := g.r.In(0, n)
		rs := make([][2]int, d+1)
		rs[d] = [2]int{lo, lo + n}
		s := g.try(Step{Op: "Slice", In: []int{c.id}, R: rs})
		return half(two("Add", s, x))
	case 7: // three consumers
		return half(two("Add", two("Sub", one("Sin"), one("Cos")), half(x)))
	default: // sum fed back with implicit broadcasting
		if x == nil || len(x.rt.Shape) == 0 {
			return half(two("Add", x, x))
		}
		s := g.try(Step{Op: "AvgAlong", In: []int{x.id}, I: []int{0}})
		return half(two("Add", s, x))
	}
}

func (g *G) smallShape() []int {
	s := g.dims(g.r.N(3))
	for nelems(s) > 6 {
		s = g.dims(g.r.N(3))
	}
	return s
}

func (g *G) ladder(n int) {
	g.limit = 20
	sh := g.smallShape()
	v := make([]float64, nelems(sh))
	for i := range v {
		v[i] = g.r.Range(-1.2, 1.2)
	}
	x := g.leafWith(sh, v, true)
	fixed := -1
	if g.r.P(0.4) {
		fixed = g.r.N(9)
	}
	for i := 0; i < n; i++ {
		k := fixed
		if k < 0 {
			k = g.r.N(9)
		}
		if y := g.rung(x, k); y != nil {
			x = y
		}
	}
	g.bp(x)
}

// dense: every result is computed from all earlier ones.
func (g *G) dense(n int) {
	g.limit = 50
	sh := g.smallShape()
	v := make([]float64, nelems(sh))
	for i := range v {
		v[i] = g.r.Range(-1, 1)
	}
	xs := []*Node{g.leafWith(sh, v, true)}
	for i := 0; i < n; i++ {
		acc := xs[0]
		for _, x := range xs[1:] {
			if a := g.try(Step{Op: []string{"Add", "Add", "Sub", "Mul"}[g.r.N(4)], In: []int{acc.id, x.id}}); a != nil {
				acc = a
			}
		}
		y := g.try(Step{Op: []string{"Tanh", "Sin", "Cos"}[g.r.N(3)], In: []int{acc.id}})
		if y == nil {
			continue
		}
		xs = append(xs, y)
	}
	g.bp(xs[len(xs)-1])
}

// deep: a long chain whose every link also uses shared parameters.
func (g *G) deep(n int) {
	g.limit = 30
	sh := g.smallShape()
	rv := func() []float64 {
		v := make([]float64, nelems(sh))
		for i := range v {
			v[i] = g.r.Range(-1, 1)
		}
		return v
	}
	x := g.leafWith(sh, rv(), true)
	w := g.leafWith(sh, rv(), g.r.P(0.8))
	prev := x
	for i := 0; i < n; i++ {
		var y *Node
		switch g.r.N(5) {
		case 0:
			y = g.try(Step{Op: "Add", In: []int{x.id, w.id}})
		case 1:
			y = g.try(Step{Op: "Sin", In: []int{x.id}})
		case 2:
			y = g.try(Step{Op: "Mul", In: []int{x.id, w.id}})
		case 3:
			y = g.try(Step{Op: "Sub", In: []int{x.id, prev.id}})
		default:
			y = g.try(Step{Op: "Tanh", In: []int{x.id}})
		}
		if y != nil {
			prev, x = x, y
		}
	}
	g.bp(x)
}

// growth: the same ladder at n, 2n and 4n rungs: cost has to stay polynomial.
func (g *G) growth(n int) {
	g.limit = 20
	kind := g.r.N(5)
	sh := g.smallShape()
	v := make([]float64, nelems(sh))
	for i := range v {
		v[i] = g.r.Range(-1, 1)
	}
	for k := 1; k <= 4; k *= 2 {
		x := g.leafWith(sh, v, true)
		for i := 0; i < n*k; i++ {
			if y := g.rung(x, kind); y != nil {
				x = y
			}
		}
		g.bp(x)
	}
}

func (g *G) broadcastRun(ops int) {
	g.seedLeaves(g.r.In(1, 3))
	for i := 0; i < ops; i++ {
		if g.r.P(0.25) {
			g.growOp("Broadcast", nil)
		} else {
			g.grow()
		}
	}
	if n := g.growOp("Broadcast", nil); n != nil && n.refs() && g.r.P(0.5) {
		g.bp(n)
		return
	}
	g.bp(g.anyRoot())
}

// ---- execution ----

const kfC01 = "explicit-broadcast-gradient-averaged"

func execC01(p *Plan, o *Obs) *Violation {
	m := NewModel()
	lib := map[int]T{}
	var growth []uint64
	var growthE []int
	for _, s := range p.Steps {
		switch s.K {
		case "bad":
			(&Sys{m: m, lib: lib, o: o, comps: compSet{}}).bad(s, nil)
		case "leaf":
			n := m.leaf(s)
			if n == nil {
				continue
			}
			var t T
			fail := guard(func() (err error) { t, err = leafOf(s.I, s.vals(), s.B, nil); return err })
			if fail != nil {
				m.drop(s.ID)
				o.Inc("dropped.leaf")
				continue
			}
			lib[s.ID] = t
			o.LogStep(s)
		case "op":
			n, _ := m.op(s, true)
			if n == nil {
				o.Inc("skipped")
				continue
			}
			in := make([]T, len(s.In))
			for k, i := range s.In {
				in[k] = lib[i]
			}
			t, fail := libApply(s, in, nil)
			if fail != nil {
				m.drop(s.ID)
				o.Inc("dropped.op")
				if n.track { // accepted without tracking, refused with it?
					un := make([]T, len(in))
					okU := true
					for k := range in {
						_, v, f := read(in[k])
						if f != nil {
							okU = false
							break
						}
						u, err := leafOf(m.n[s.In[k]].rt.Shape, v, false, nil)
						if err != nil {
							okU = false
							break
						}
						un[k] = u
					}
					if okU {
						if _, f2 := libApply(s, un, nil); f2 == nil {
							return viol("forward-fails-when-tracked", s.ID, "%s over tracked operands: %s; the same call over untracked copies succeeds", s, fail)
						}
					}
				}
				continue
			}
			lib[s.ID] = t
			o.LogStep(s)
			o.Inc("op." + s.Op)
		case "reset":
			if !m.has(s.In) || !m.resetAllowed(m.n[s.In[0]]) {
				o.Inc("skipped")
				continue
			}
			m.reset(m.n[s.In[0]], s.B)
			lib[s.In[0]].ResetGradContext(s.B)
			o.Inc("reset")
			o.LogStep(s)
		case "bp":
			if !m.has(s.In) || !m.bpAllowed(m.n[s.In[0]]) {
				o.Inc("skipped")
				continue
			}
			root := m.n[s.In[0]]
			set := m.bp(root)
			edges, work, fan := 0, 1, 0
			depth := 0
			inner := map[*Node]int{}
			for _, n := range set {
				if n.depth > depth {
					depth = n.depth
				}
				work += 20 + len(n.rt.V)
				for k, q := range n.ins {
					if q.track {
						edges++
						inner[q]++
					}
					work += len(n.jac[k]) + len(q.rt.V)
				}
			}
			for q, c := range inner {
				if c > 1 && !q.leaf {
					fan++
				}
			}
			t0, a0 := simrt.Ticks(), simrt.APICalls()
			simrt.SetDeadline(uint64(work)*600 + uint64(edges)*uint64(edges)*40 + 200000)
			fail := guard(func() error { return tensor.BackPropagate(lib[root.id]) })
			simrt.SetDeadline(0)
			dt, da := simrt.Ticks()-t0, simrt.APICalls()-a0
			o.Add("bp.edges", int64(edges))
			o.Inc("bp")
			o.Add("bp.reconverging-interior", int64(fan))
			o.LogStep(s)
			o.logU(dt)
			if depth > int(o.Counts["max.depth"]) {
				o.Counts["max.depth"] = int64(depth)
			}
			if r := int64(dt * 1000 / uint64(work)); r > o.Counts["max.ticks-per-1000-work"] {
				o.Counts["max.ticks-per-1000-work"] = r
			}
			if edges > 0 {
				if r := int64(da * 100 / uint64(edges+len(set))); r > o.Counts["max.calls-per-100-edges"] {
					o.Counts["max.calls-per-100-edges"] = r
				}
			}
			if fan > 0 || len(set) > 1 && sharedBefore(set) {
				o.NonTriv = true
			}
			if fail != nil {
				if fail.Tick {
					return viol("bp-time", s.ID, "back-propagation over %d tensors, %d edges used more than %d ticks (graph depth %d)", len(set), edges, dt, depth)
				}
				c := "bp-error"
				if fail.Panic != "" {
					c = "bp-panic"
				}
				return viol(c, s.ID, "BackPropagate(%d) over %d tensors: %s", root.id, len(set), fail)
			}
			if da > uint64(40*(edges+len(set))+400) {
				return viol("rule-count", s.ID, "%d tensor operations for %d edges", da, edges)
			}
			if p.Kind == "growth" {
				growth = append(growth, da)
				growthE = append(growthE, edges)
			}
			if v := checkGrads(p, m, lib, set, o, s.ID); v != nil {
				return v
			}
			if v := checkForwardOf(p, m, lib, root, set, o, s.ID); v != nil {
				return v
			}
		}
	}
	for i := 1; i < len(growth); i++ {
		if growthE[i-1] < 5 {
			continue
		}
		r := float64(growth[i]) / float64(growth[i-1])
		e := float64(growthE[i]) / float64(growthE[i-1])
		if r > 1.6*e {
			return viol("rule-count", p.Steps[len(p.Steps)-1].ID, "edges grew by a factor %.2f, rule applications by %.2f (%v calls for %v edges)", e, r, growth, growthE)
		}
	}
	return checkGrads(p, m, lib, m.order, o, -1)
}

func sharedBefore(set []*Node) bool {
	for _, n := range set {
		if n.bps > 1 {
			return true
		}
	}
	return false
}

func checkGrads(p *Plan, m *Model, lib map[int]T, set []*Node, o *Obs, step int) *Violation {
	for _, n := range set {
		if n.grad == nil || m.n[n.id] != n {
			continue
		}
		gt := lib[n.id].Gradient()
		if gt == nil {
			return viol("gradient-missing", step, "tensor %d (%s) took part in the back-propagation and has no gradient", n.id, n.desc())
		}
		shape, v, fail := read(gt)
		if fail != nil {
			return viol("gradient-unreadable", step, "gradient of tensor %d: %s", n.id, fail)
		}
		if !sameShape(shape, n.rt.Shape) {
			return viol("gradient-shape", step, "tensor %d (%s) has shape %v, its gradient %v", n.id, n.desc(), n.rt.Shape, shape)
		}
		if step >= 0 {
			o.LogFs(v)
			o.Add("gradient.elements", int64(len(v)))
		}
		bad, badK := -1, -1
		for i := range v {
			if p.Params["strict"] != 0 {
				if n.gabs[i] < 1e-150 || !(n.gabs[i] < 1e150) {
					continue
				}
				if !(math.Abs(v[i]-n.grad[i]) <= 1e-7*n.gabs[i]) {
					bad, badK = i, i
					break
				}
				continue
			}
			if math.IsNaN(n.grad[i]) || math.IsInf(n.grad[i], 0) || n.gabs[i] > 1e9 {
				continue // out of the range in which the comparison means anything
			}
			if !closeTo(v[i], n.grad[i], n.gabs[i]) {
				if bad < 0 {
					bad = i
				}
			}
			if !closeTo(v[i], n.kgrad[i], n.gabs[i]) && badK < 0 {
				badK = i
			}
		}
		if bad < 0 {
			continue
		}
		if badK < 0 {
			o.Known[kfC01]++
			continue
		}
		if why := arbitrate(p, m, lib, n, bad, v[bad], step); why != "" {
			return viol("gradient-value", step, "tensor %d (%s) element %v: gradient %g, derivative %g (sum of path magnitudes %g)%s", n.id, n.desc(), unravel(bad, n.rt.Shape), v[bad], n.grad[bad], n.gabs[bad], why)
		}
		o.Inc("forward-differs-from-reference")
	}
	return nil
}

// checkForwardOf: where the root is not what the reference computes, gradients that
// agree with the reference are not the derivative of the root either.
func checkForwardOf(p *Plan, m *Model, lib map[int]T, root *Node, set []*Node, o *Obs, step int) *Violation {
	_, v, fail := read(lib[root.id])
	if fail != nil || len(v) != len(root.rt.V) {
		return nil
	}
	differs := false
	for i, x := range root.rt.V {
		differs = differs || !(math.Abs(v[i]-x) <= 1e-7*(1+math.Abs(x))) && x == x && math.Abs(x) < 1e9
	}
	if !differs {
		return nil
	}
	o.Inc("forward-differs-from-reference")
	left := 60
	for k := len(set) - 1; k >= 0; k-- { // leaves first
		n := set[k]
		if n.grad == nil || m.n[n.id] != n {
			continue
		}
		_, g, fail := read(lib[n.id].Gradient())
		if fail != nil || len(g) != len(n.grad) {
			continue
		}
		for _, i := range []int{len(g) - 1, 0, len(g) / 2, len(g) * 3 / 4, len(g) - 2} {
			if i < 0 || left == 0 || n.grad[i] != n.kgrad[i] || !(n.gabs[i] < 1e6) {
				continue
			}
			left--
			if why := arbitrate(p, m, lib, n, i, g[i], step); len(why) > 1 {
				return viol("gradient-value", step, "tensor %d (%s) element %v: gradient %g%s", n.id, n.desc(), unravel(i, n.rt.Shape), g[i], why)
			}
		}
	}
	return nil
}

func (n *Node) desc() string {
	if n.step.K == "leaf" {
		return fmt.Sprintf("leaf %v", n.rt.Shape)
	}
	return fmt.Sprintf("%s%v", n.step.Op, n.rt.Shape)
}

// arbitrate decides whether a gradient that differs from the reference is wrong.
// If the library computes other forward values than the reference, the derivative
// of what it does compute counts, obtained by central differences on the library.
func arbitrate(p *Plan, m *Model, lib map[int]T, n *Node, el int, got float64, step int) string {
	differs := false
	for _, q := range m.order {
		if m.n[q.id] != q {
			continue
		}
		_, v, fail := read(lib[q.id])
		if fail != nil {
			continue
		}
		for i := range v {
			if i < len(q.rt.V) && math.Abs(v[i]-q.rt.V[i]) > 1e-9*(1+math.Abs(q.rt.V[i])) {
				differs = true
			}
		}
		if len(v) != len(q.rt.V) {
			differs = true
		}
	}
	if !differs {
		return " "
	}
	at := 1.0
	if _, v, f := read(lib[n.id]); f == nil && el < len(v) {
		at = v[el]
	}
	fd, slack, ok := numeric(func(h float64) (float64, float64, bool) { return evalPerturbed(p, n.id, el, h, step) }, at)
	if !ok || math.Abs(fd-got) <= 1e-3*(1+math.Abs(fd)+math.Abs(got))+slack {
		return ""
	}
	return fmt.Sprintf("; the library's own forward values differ from the reference, numerical derivative of what it computes: %g", fd)
}

// numeric is the derivative of eval at 0 by central differences, with a bound on its
// error: the step is the one of several for which rounding (relative to the largest
// value eval met) and curvature (the change when the step is doubled) matter least.
func numeric(eval func(h float64) (sum, scale float64, ok bool), at float64) (fd, slack float64, ok bool) {
	slack = math.Inf(1)
	for _, h := range []float64{1e-6, 1e-5, 1e-4, 1e-3, 1e-2} {
		h *= math.Max(1, math.Abs(at))
		var d [2]float64
		noise, good := 0., true
		for k := range d {
			step := h * float64(k+1)
			a, sa, ok1 := eval(step)
			b, sb, ok2 := eval(-step)
			good = good && ok1 && ok2
			d[k] = (a - b) / (2 * step)
			noise += 1e-14 * (sa + sb) / step
		}
		if e := 10*math.Abs(d[0]-d[1]) + noise; good && e < slack {
			fd, slack, ok = d[0], e, true
		}
	}
	return fd, slack, ok
}

// evalPerturbed recomputes the program without tracking, element el of tensor id
// moved by h, and returns the sum of all roots back-propagated so far that reach it,
// and the largest magnitude met on the way.
func evalPerturbed(p *Plan, id, el int, h float64, upto int) (sum, scale float64, ok bool) {
	m := NewModel()
	val := map[int]T{}
	bump := func(i int) bool {
		if i != id {
			return true
		}
		sh, v, f := read(val[i])
		if f != nil || el >= len(v) {
			return false
		}
		v[el] += h
		t, err := leafOf(sh, v, false, nil)
		if err != nil {
			return false
		}
		val[i] = t
		return true
	}
	var roots []int
	for _, s := range p.Steps {
		switch s.K {
		case "leaf":
			if m.leaf(s) == nil {
				continue
			}
			t, err := leafOf(s.I, s.vals(), false, nil)
			if err != nil {
				return 0, 0, false
			}
			val[s.ID] = t
			if !bump(s.ID) {
				return 0, 0, false
			}
		case "op":
			if n, _ := m.op(s, true); n == nil {
				continue
			}
			in := make([]T, len(s.In))
			for k, i := range s.In {
				in[k] = val[i]
			}
			t, f := libApply(s, in, nil)
			if f != nil {
				m.drop(s.ID)
				continue
			}
			val[s.ID] = t
			if !bump(s.ID) {
				return 0, 0, false
			}
		case "reset":
			if m.has(s.In) && m.resetAllowed(m.n[s.In[0]]) {
				m.reset(m.n[s.In[0]], s.B)
				if s.In[0] == id {
					roots = nil
				}
			}
		case "bp":
			if m.has(s.In) && m.bpAllowed(m.n[s.In[0]]) {
				for _, q := range m.bp(m.n[s.In[0]]) {
					if q.id == id {
						roots = append(roots, s.In[0])
					}
				}
			}
		}
		if s.ID == upto {
			break
		}
	}
	for _, t := range val {
		if _, v, f := read(t); f == nil {
			for _, x := range v {
				if x = math.Abs(x); x > scale && !math.IsInf(x, 0) {
					scale = x
				}
			}
		}
	}
	for _, r := range roots {
		_, v, f := read(val[r])
		if f != nil {
			return 0, 0, false
		}
		for _, x := range v {
			sum += x
		}
	}
	return sum, scale, true
}
