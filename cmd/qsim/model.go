package main

import (
	"math"
	"sort"
)

// Model of tensor programs: reference values, tracking state machine and the
// exact gradients that every back-propagation must leave behind.

type Node struct {
	id     int
	ord    int
	step   Step
	rt     *RT
	ins    []*Node
	jac    [][]jent
	kids   []*Node
	par    []*Node // as ins, also for untracked results
	leaf   bool
	track  bool
	spent  bool
	ambig  bool // derived from a gradient: mixing with tracked operands is left open by the property
	passed bool // non-leaf through which a back-propagation went
	kf     bool // explicit expanding Broadcast
	cmp    bool
	isGrad bool

	grad  []float64 // expected gradient (nil: none)
	gabs  []float64 // magnitude of the terms that were added up
	kgrad []float64 // the gradient under the listed known finding
	bps   int       // back-propagations that reached this tensor
	depth int
}

func (n *Node) refs() bool { return n.track && !n.spent }

type Model struct {
	n     map[int]*Node
	order []*Node
	noRef bool // shapes matter, values do not (still computed)
}

func NewModel() *Model { return &Model{n: map[int]*Node{}} }

func (m *Model) has(ids []int) bool {
	for _, i := range ids {
		if m.n[i] == nil {
			return false
		}
	}
	return true
}

func (m *Model) add(n *Node) *Node {
	n.ord = len(m.order)
	m.order = append(m.order, n)
	m.n[n.id] = n
	return n
}

// drop forgets a tensor the real library did not deliver.
func (m *Model) drop(id int) { delete(m.n, id) }

func (m *Model) leaf(s Step) *Node {
	v := s.vals()
	if nelems(s.I) != len(v) {
		return nil
	}
	return m.add(&Node{id: s.ID, step: s, rt: &RT{Shape: append([]int{}, s.I...), V: v, Ex: true}, leaf: true, track: s.B})
}

func isCmp(op string) bool {
	switch op {
	case "Eq", "Ne", "Gt", "Ge", "Lt", "Le":
		return true
	}
	return false
}

// op evaluates a step; nil if it cannot be executed. add=false: only evaluate.
func (m *Model) op(s Step, add bool) (n *Node, diff bool) {
	if !m.has(s.In) || len(s.In) == 0 {
		return nil, false
	}
	ins := make([]*Node, len(s.In))
	rts := make([]*RT, len(s.In))
	anyTrack, anySpent, anyAmbig := false, false, false
	depth := 0
	for k, i := range s.In {
		ins[k] = m.n[i]
		rts[k] = ins[k].rt
		anyTrack = anyTrack || ins[k].track && !ins[k].spent
		anySpent = anySpent || ins[k].spent
		anyAmbig = anyAmbig || ins[k].ambig
		if ins[k].depth >= depth {
			depth = ins[k].depth + 1
		}
	}
	if anyAmbig && anyTrack && !anySpent && !isCmp(s.Op) {
		return nil, false
	}
	out, jac, diff, ok := Apply(s, rts)
	if !ok {
		return nil, false
	}
	n = &Node{id: s.ID, step: s, rt: out, depth: depth}
	if isCmp(s.Op) {
		n.cmp = true
	} else {
		n.track = anyTrack && !anySpent
		n.spent = anySpent
		n.ambig = anyAmbig && !anySpent
		if n.track {
			n.ins, n.jac = ins, jac
		}
		n.kf = s.Op == "Broadcast" && len(out.V) != len(rts[0].V)
	}
	if !n.track {
		n.leaf = true
	}
	if add {
		m.add(n)
		n.par = ins
		for _, p := range ins {
			p.kids = append(p.kids, n)
		}
	}
	return n, diff
}

// reach lists the tracked tensors root was computed from, root first, in reverse creation order.
func (m *Model) reach(root *Node) []*Node {
	if !root.track {
		return nil
	}
	seen := map[*Node]bool{root: true}
	stack := []*Node{root}
	var out []*Node
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		out = append(out, n)
		for _, p := range n.ins {
			if p.track && !seen[p] {
				seen[p] = true
				stack = append(stack, p)
			}
		}
	}
	// reverse creation order is a topological order
	sort.Slice(out, func(i, j int) bool { return out[i].ord > out[j].ord })
	return out
}

// bpAllowed: the provisos of the properties.
func (m *Model) bpAllowed(root *Node) bool {
	if root.track && root.spent && !root.leaf {
		return false
	}
	for _, n := range m.reach(root) {
		if !n.leaf && n.passed {
			return false
		}
	}
	return true
}

// bp updates the expected gradients and returns the tensors that take part.
func (m *Model) bp(root *Node) []*Node {
	set := m.reach(root)
	if len(set) == 0 {
		return nil
	}
	type adj struct{ g, a, k []float64 }
	ad := map[*Node]*adj{}
	get := func(n *Node) *adj {
		x := ad[n]
		if x == nil {
			k := len(n.rt.V)
			x = &adj{make([]float64, k), make([]float64, k), make([]float64, k)}
			ad[n] = x
		}
		return x
	}
	r := get(root)
	for i := range r.g {
		r.g[i], r.a[i], r.k[i] = 1, 1, 1
	}
	for _, n := range set {
		x := get(n)
		for k, p := range n.ins {
			if !p.track {
				continue
			}
			y := get(p)
			kf := 1.
			if n.kf {
				kf = float64(len(p.rt.V)) / float64(len(n.rt.V))
			}
			for _, e := range n.jac[k] {
				if e.d == 0 {
					continue
				}
				y.g[e.i] += e.d * x.g[e.o]
				y.a[e.i] += math.Abs(e.d) * x.a[e.o]
				y.k[e.i] += kf * e.d * x.k[e.o]
			}
		}
		n.spent = true
		n.bps++
		if !n.leaf {
			n.passed = true
		}
		if n.grad == nil {
			n.grad, n.gabs, n.kgrad = x.g, x.a, x.k
		} else {
			for i := range x.g {
				n.grad[i] += x.g[i]
				n.gabs[i] += x.a[i]
				n.kgrad[i] += x.k[i]
			}
		}
	}
	return set
}

// resetAllowed: no tracked, not yet back-propagated result computed from n, unless n
// is a tracked leaf (of which results stay computed from a tracked leaf, or one that
// is no longer tracked).
func (m *Model) resetAllowed(n *Node) bool {
	if n.leaf && n.track && len(n.par) == 0 {
		return true
	}
	seen := map[*Node]bool{}
	stack := []*Node{n}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, k := range x.kids {
			if k.track && !k.spent {
				return false
			}
			if !seen[k] {
				seen[k] = true
				stack = append(stack, k)
			}
		}
	}
	return true
}

func (m *Model) reset(n *Node, track bool) {
	n.track, n.spent, n.ambig, n.passed, n.leaf = track, false, false, false, true
	for _, p := range n.par {
		for i := 0; i < len(p.kids); {
			if p.kids[i] == n {
				p.kids = append(p.kids[:i], p.kids[i+1:]...)
			} else {
				i++
			}
		}
	}
	kept := n.kids[:0]
	for _, k := range n.kids { // results that still lead here
		if k.track && !k.spent {
			kept = append(kept, k)
		}
	}
	n.ins, n.jac, n.kids, n.par = nil, nil, kept, nil
	n.grad, n.gabs, n.kgrad = nil, nil, nil
	n.isGrad, n.cmp = false, false
	n.bps = 0
	n.kf = false
}

// closeTo compares observed and expected gradient elements.
func closeTo(got, want, mag float64) bool {
	if got != got {
		return want != want
	}
	return math.Abs(got-want) <= 1e-7*mag+1e-9
}

// graphHash identifies the form of a differentiated graph: operations, arguments,
// shapes and wiring.
func graphHash(set []*Node) uint64 {
	pos := make(map[*Node]int, len(set))
	h := uint64(1469598103934665603)
	add := func(x uint64) { h = mix(h ^ x*0x9e3779b97f4a7c15) }
	ints := func(xs []int) {
		add(uint64(len(xs)) + 991)
		for _, x := range xs {
			add(uint64(x) + 17)
		}
	}
	for i, n := range set {
		pos[n] = i + 1
		add(hashStr(n.step.Op))
		ints(n.step.I)
		ints(n.rt.Shape)
		if n.leaf {
			add(3)
		}
		for _, q := range n.ins {
			ints(q.rt.Shape)
		}
	}
	for _, n := range set {
		for _, q := range n.ins {
			add(uint64(pos[q]) + 5)
		}
		add(77)
	}
	return h
}
