package main

import "math"

// Reference model of the differentiable operations: dense row-major values and,
// for every output element, the list of operand elements it depends on with the
// partial derivative. Nothing here follows the library's structure (no tensor
// level backward rules, no recursive data), it is plain index arithmetic.

type RT struct {
	Shape []int
	V     []float64
	Ex    bool // the library's values are these to the last bit
}

type jent struct {
	o, i int // output element, operand element
	d    float64
}

func nelems(shape []int) int {
	n := 1
	for _, d := range shape {
		n *= d
	}
	return n
}

func strides(shape []int) []int {
	s := make([]int, len(shape))
	k := 1
	for i := len(shape) - 1; i >= 0; i-- {
		s[i] = k
		k *= shape[i]
	}
	return s
}

func unravel(k int, shape []int) []int {
	ix := make([]int, len(shape))
	for i := len(shape) - 1; i >= 0; i-- {
		ix[i] = k % shape[i]
		k /= shape[i]
	}
	return ix
}

func ravel(ix, shape []int) int {
	k := 0
	for i, d := range shape {
		k = k*d + ix[i]
	}
	return k
}

// bidx maps an index of a broadcast result back to the operand's element.
func bidx(ix, shape []int) int {
	off := len(ix) - len(shape)
	k := 0
	for i, d := range shape {
		j := ix[off+i]
		if d == 1 {
			j = 0
		}
		k = k*d + j
	}
	return k
}

func bshape(a, b []int) ([]int, bool) {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	o := make([]int, n)
	for i := 1; i <= n; i++ {
		x, y := 1, 1
		if i <= len(a) {
			x = a[len(a)-i]
		}
		if i <= len(b) {
			y = b[len(b)-i]
		}
		switch {
		case x == y, y == 1:
			o[n-i] = x
		case x == 1:
			o[n-i] = y
		default:
			return nil, false
		}
	}
	return o, true
}

func without(shape []int, dim int) []int {
	o := append([]int{}, shape[:dim]...)
	return append(o, shape[dim+1:]...)
}

func sameShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// rng of dimension d under a (possibly partial) index; full: the size used when omitted.
func rangeAt(r [][2]int, d, full int) (int, int) {
	if d >= len(r) || (r[d][0] == 0 && r[d][1] == 0) {
		return 0, full
	}
	return r[d][0], r[d][1]
}

const kink = 1e-4 // minimum distance from a point of non-differentiability

var unaryOps = map[string]func(x float64) (y, d float64, ok bool){
	"Exp":  func(x float64) (float64, float64, bool) { e := math.Exp(x); return e, e, x < 15 },
	"Log":  func(x float64) (float64, float64, bool) { return math.Log(x), 1 / x, x > 0.02 },
	"Sin":  func(x float64) (float64, float64, bool) { return math.Sin(x), math.Cos(x), math.Abs(x) < 1e4 },
	"Cos":  func(x float64) (float64, float64, bool) { return math.Cos(x), -math.Sin(x), math.Abs(x) < 1e4 },
	"Sinh": func(x float64) (float64, float64, bool) { return math.Sinh(x), math.Cosh(x), math.Abs(x) < 12 },
	"Cosh": func(x float64) (float64, float64, bool) { return math.Cosh(x), math.Sinh(x), math.Abs(x) < 12 },
	"Tanh": func(x float64) (float64, float64, bool) {
		t := math.Tanh(x)
		s := 1 / math.Cosh(x)
		return t, s * s, math.Abs(x) < 300
	},
	"Tan": func(x float64) (float64, float64, bool) {
		c := math.Cos(x)
		return math.Tan(x), 1 / (c * c), math.Abs(c) > 0.1 && math.Abs(x) < 1e4
	},
}

var unaryNames = []string{"Exp", "Log", "Sin", "Cos", "Sinh", "Cosh", "Tanh", "Tan"}
var reduceNames = []string{"SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong"}
var shapeNames = []string{"Slice", "Patch", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast"}
var arithNames = []string{"Add", "Sub", "Mul", "Div"}
var cmpNames = []string{"Eq", "Ne", "Gt", "Ge", "Lt", "Le"}

// operations that only move or select elements
var exactOps = map[string]bool{"Slice": true, "Patch": true, "Transpose": true, "Reshape": true, "UnSqueeze": true, "Squeeze": true,
	"Flatten": true, "Broadcast": true, "Concat": true, "MaxAlong": true, "MinAlong": true, "ElMax": true, "ElMin": true}

// powd: value and derivative of x^a where it is differentiable.
func powd(x, a float64) (y, d float64, ok bool) {
	switch a {
	case 0:
		return 1, 0, true
	case 1:
		return x, 1, true
	case 2:
		return x * x, 2 * x, true
	}
	y = math.Pow(x, a)
	d = a * math.Pow(x, a-1)
	if a == math.Trunc(a) {
		if a > 0 {
			return y, d, true
		}
		return y, d, math.Abs(x) > 0.05
	}
	return y, d, x > 0.02
}

// Apply evaluates one operation. ok=false: arguments invalid for the model.
// diff=false: some element sits at (or too near) a point of non-differentiability.
func Apply(s Step, in []*RT) (out *RT, jac [][]jent, diff, ok bool) {
	defer func() {
		if recover() != nil { // malformed (shrunk) step
			ok = false
		}
	}()
	diff = true
	x := in[0]
	exact := exactOps[s.Op]
	for _, t := range in {
		exact = exact && t.Ex
	}
	near := kink
	if exact { // operands known exactly: any difference counts
		near = 1e-200
	}
	defer func() {
		if out != nil {
			out.Ex = exact
		}
	}()
	jac = make([][]jent, len(in))
	mk := func(shape []int) *RT {
		return &RT{Shape: append([]int{}, shape...), V: make([]float64, nelems(shape))}
	}
	move := func(shape []int, src func(ix []int) int) {
		out = mk(shape)
		for k := range out.V {
			i := src(unravel(k, shape))
			out.V[k] = x.V[i]
			jac[0] = append(jac[0], jent{k, i, 1})
		}
	}

	if f, is := unaryOps[s.Op]; is {
		out = mk(x.Shape)
		for k, v := range x.V {
			y, d, good := f(v)
			out.V[k] = y
			jac[0] = append(jac[0], jent{k, k, d})
			diff = diff && good
		}
		return out, jac, diff, true
	}

	switch s.Op {
	case "Scale":
		out = mk(x.Shape)
		for k, v := range x.V {
			out.V[k] = v * s.f(0)
			jac[0] = append(jac[0], jent{k, k, s.f(0)})
		}
	case "Pow":
		out = mk(x.Shape)
		for k, v := range x.V {
			y, d, good := powd(v, s.f(0))
			out.V[k] = y
			jac[0] = append(jac[0], jent{k, k, d})
			diff = diff && good
		}
	case "Slice":
		if len(s.R) > len(x.Shape) {
			return nil, nil, false, false
		}
		shape := make([]int, len(x.Shape))
		lo := make([]int, len(x.Shape))
		for d := range shape {
			a, b := rangeAt(s.R, d, x.Shape[d])
			if a < 0 || b > x.Shape[d] || a >= b {
				return nil, nil, false, false
			}
			lo[d], shape[d] = a, b-a
		}
		move(shape, func(ix []int) int {
			j := make([]int, len(ix))
			for d := range ix {
				j[d] = ix[d] + lo[d]
			}
			return ravel(j, x.Shape)
		})
	case "Patch":
		p := in[1]
		if len(p.Shape) != len(x.Shape) || len(s.R) > len(x.Shape) {
			return nil, nil, false, false
		}
		lo := make([]int, len(x.Shape))
		for d := range lo {
			a, b := rangeAt(s.R, d, p.Shape[d])
			if a < 0 || b > x.Shape[d] || b-a != p.Shape[d] {
				return nil, nil, false, false
			}
			lo[d] = a
		}
		out = mk(x.Shape)
		for k := range out.V {
			ix := unravel(k, x.Shape)
			inside := true
			for d := range ix {
				ix[d] -= lo[d]
				if ix[d] < 0 || ix[d] >= p.Shape[d] {
					inside = false
				}
			}
			if inside {
				i := ravel(ix, p.Shape)
				out.V[k] = p.V[i]
				jac[1] = append(jac[1], jent{k, i, 1})
			} else {
				out.V[k] = x.V[k]
				jac[0] = append(jac[0], jent{k, k, 1})
			}
		}
	case "Transpose":
		n := len(x.Shape)
		if n < 2 {
			return nil, nil, false, false
		}
		shape := append([]int{}, x.Shape...)
		shape[n-1], shape[n-2] = shape[n-2], shape[n-1]
		move(shape, func(ix []int) int {
			ix[n-1], ix[n-2] = ix[n-2], ix[n-1]
			return ravel(ix, x.Shape)
		})
	case "Reshape":
		if nelems(s.I) != len(x.V) {
			return nil, nil, false, false
		}
		move(s.I, func(ix []int) int { return ravel(ix, s.I) })
	case "UnSqueeze":
		shape := append([]int{}, x.Shape[:s.I[0]]...)
		shape = append(append(shape, 1), x.Shape[s.I[0]:]...)
		move(shape, func(ix []int) int { return ravel(ix, shape) })
	case "Squeeze":
		if x.Shape[s.I[0]] != 1 {
			return nil, nil, false, false
		}
		shape := without(x.Shape, s.I[0])
		move(shape, func(ix []int) int { return ravel(ix, shape) })
	case "Flatten":
		shape := append([]int{}, x.Shape[:s.I[0]]...)
		shape = append(shape, nelems(x.Shape[s.I[0]:]))
		if s.I[0] >= len(x.Shape) {
			return nil, nil, false, false
		}
		move(shape, func(ix []int) int { return ravel(ix, shape) })
	case "Broadcast":
		b, good := bshape(x.Shape, s.I)
		if !good || !sameShape(b, s.I) {
			return nil, nil, false, false
		}
		move(s.I, func(ix []int) int { return bidx(ix, x.Shape) })
	case "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong":
		dim := s.I[0]
		if dim < 0 || dim >= len(x.Shape) {
			return nil, nil, false, false
		}
		shape := without(x.Shape, dim)
		out = mk(shape)
		n := x.Shape[dim]
		st := strides(x.Shape)[dim]
		for k := range out.V {
			ix := unravel(k, shape)
			full := append(append(append([]int{}, ix[:dim]...), 0), ix[dim:]...)
			base := ravel(full, x.Shape)
			at := func(j int) int { return base + j*st }
			switch s.Op {
			case "SumAlong", "AvgAlong", "MeanAlong":
				w := 1.
				if s.Op != "SumAlong" {
					w = 1 / float64(n)
				}
				for j := 0; j < n; j++ {
					out.V[k] += x.V[at(j)]
					jac[0] = append(jac[0], jent{k, at(j), w})
				}
				out.V[k] *= w
			case "MaxAlong", "MinAlong":
				sg := 1.
				if s.Op == "MinAlong" {
					sg = -1
				}
				best := 0
				for j := 1; j < n; j++ {
					if sg*x.V[at(j)] > sg*x.V[at(best)] {
						best = j
					}
				}
				for j := 0; j < n; j++ {
					if j != best && math.Abs(x.V[at(j)]-x.V[at(best)]) < near {
						diff = false
					}
				}
				out.V[k] = x.V[at(best)]
				jac[0] = append(jac[0], jent{k, at(best), 1})
			case "VarAlong", "StdAlong":
				if n == 1 {
					jac[0] = append(jac[0], jent{k, at(0), 0})
					break
				}
				m := 0.
				for j := 0; j < n; j++ {
					m += x.V[at(j)]
				}
				m /= float64(n)
				v := 0.
				for j := 0; j < n; j++ {
					v += (x.V[at(j)] - m) * (x.V[at(j)] - m)
				}
				v /= float64(n - 1)
				for j := 0; j < n; j++ { // rounding in the mean counts
					xx := x.V[at(j)] * x.V[at(j)]
					if v < 1e-13*xx || xx > 1e6 && v < 1e-8*xx {
						diff = false
					}
				}
				if s.Op == "VarAlong" {
					out.V[k] = v
					for j := 0; j < n; j++ {
						jac[0] = append(jac[0], jent{k, at(j), 2 * (x.V[at(j)] - m) / float64(n-1)})
					}
				} else {
					sd := math.Sqrt(v)
					out.V[k] = sd
					if sd < 1e-2 {
						diff = false
					}
					for j := 0; j < n; j++ {
						jac[0] = append(jac[0], jent{k, at(j), (x.V[at(j)] - m) / (float64(n-1) * sd)})
					}
				}
			}
		}
	case "Add", "Sub", "Mul", "Div":
		y := in[1]
		shape, good := bshape(x.Shape, y.Shape)
		if !good {
			return nil, nil, false, false
		}
		out = mk(shape)
		for k := range out.V {
			ix := unravel(k, shape)
			i, j := bidx(ix, x.Shape), bidx(ix, y.Shape)
			a, b := x.V[i], y.V[j]
			switch s.Op {
			case "Add":
				out.V[k] = a + b
				jac[0] = append(jac[0], jent{k, i, 1})
				jac[1] = append(jac[1], jent{k, j, 1})
			case "Sub":
				out.V[k] = a - b
				jac[0] = append(jac[0], jent{k, i, 1})
				jac[1] = append(jac[1], jent{k, j, -1})
			case "Mul":
				out.V[k] = a * b
				jac[0] = append(jac[0], jent{k, i, b})
				jac[1] = append(jac[1], jent{k, j, a})
			case "Div":
				out.V[k] = a / b
				if math.Abs(b) < 0.05 {
					diff = false
				}
				jac[0] = append(jac[0], jent{k, i, 1 / b})
				jac[1] = append(jac[1], jent{k, j, -a / (b * b)})
			}
		}
	case "ElMax", "ElMin":
		y := in[1]
		if !sameShape(x.Shape, y.Shape) {
			return nil, nil, false, false
		}
		out = mk(x.Shape)
		for k := range out.V {
			a, b := x.V[k], y.V[k]
			if s.In[0] == s.In[1] { // max(x, x) is x, however the two halves are attributed
				out.V[k] = a
				jac[0] = append(jac[0], jent{k, k, 0.5})
				jac[1] = append(jac[1], jent{k, k, 0.5})
				continue
			}
			if math.Abs(a-b) < near {
				diff = false
			}
			if (a > b) == (s.Op == "ElMax") {
				out.V[k] = a
				jac[0] = append(jac[0], jent{k, k, 1})
			} else {
				out.V[k] = b
				jac[1] = append(jac[1], jent{k, k, 1})
			}
		}
	case "Eq", "Ne", "Gt", "Ge", "Lt", "Le":
		y := in[1]
		if !sameShape(x.Shape, y.Shape) {
			return nil, nil, false, false
		}
		out = mk(x.Shape)
		for k := range out.V {
			a, b := x.V[k], y.V[k]
			t := map[string]bool{"Eq": a == b, "Ne": a != b, "Gt": a > b, "Ge": a >= b, "Lt": a < b, "Le": a <= b}[s.Op]
			if t {
				out.V[k] = 1
			}
		}
	case "Dot":
		y := in[1]
		na, nb := len(x.Shape), len(y.Shape)
		if na < 1 || nb < 1 || x.Shape[na-1] != y.Shape[nb-1] {
			return nil, nil, false, false
		}
		shape, good := bshape(x.Shape, y.Shape)
		if !good {
			return nil, nil, false, false
		}
		n := shape[len(shape)-1]
		lead := shape[:len(shape)-1]
		out = mk(lead)
		for k := range out.V {
			ix := append(unravel(k, lead), 0)
			for q := 0; q < n; q++ {
				ix[len(ix)-1] = q
				i, j := bidx(ix, x.Shape), bidx(ix, y.Shape)
				out.V[k] += x.V[i] * y.V[j]
				jac[0] = append(jac[0], jent{k, i, y.V[j]})
				jac[1] = append(jac[1], jent{k, j, x.V[i]})
			}
		}
	case "MatMul":
		y := in[1]
		na, nb := len(x.Shape), len(y.Shape)
		if na < 2 || nb < 2 || x.Shape[na-1] != y.Shape[nb-2] {
			return nil, nil, false, false
		}
		lead, good := bshape(x.Shape[:na-2], y.Shape[:nb-2])
		if !good {
			return nil, nil, false, false
		}
		m, n, p := x.Shape[na-2], x.Shape[na-1], y.Shape[nb-1]
		shape := append(append([]int{}, lead...), m, p)
		out = mk(shape)
		for k := range out.V {
			ix := unravel(k, shape)
			l := ix[:len(lead)]
			r, c := ix[len(lead)], ix[len(lead)+1]
			ba := bidx(l, x.Shape[:na-2]) * m * n
			bb := bidx(l, y.Shape[:nb-2]) * n * p
			for q := 0; q < n; q++ {
				i, j := ba+r*n+q, bb+q*p+c
				out.V[k] += x.V[i] * y.V[j]
				jac[0] = append(jac[0], jent{k, i, y.V[j]})
				jac[1] = append(jac[1], jent{k, j, x.V[i]})
			}
		}
	case "Concat":
		dim := s.I[0]
		shape := append([]int{}, x.Shape...)
		if dim < 0 || dim >= len(shape) || len(in) < 2 {
			return nil, nil, false, false
		}
		shape[dim] = 0
		for _, t := range in {
			if len(t.Shape) != len(shape) || !sameShape(without(t.Shape, dim), without(shape, dim)) {
				return nil, nil, false, false
			}
			shape[dim] += t.Shape[dim]
		}
		out = mk(shape)
		for k := range out.V {
			ix := unravel(k, shape)
			w := 0
			for ix[dim] >= in[w].Shape[dim] {
				ix[dim] -= in[w].Shape[dim]
				w++
			}
			i := ravel(ix, in[w].Shape)
			out.V[k] = in[w].V[i]
			jac[w] = append(jac[w], jent{k, i, 1})
		}
	default:
		if isComp(s.Op) {
			return compApply(s, in)
		}
		return nil, nil, false, false
	}
	return out, jac, diff, true
}

func maxAbs(v []float64) float64 {
	m := 0.
	for _, x := range v {
		if x != x || math.IsInf(x, 0) {
			return math.Inf(1)
		}
		if a := math.Abs(x); a > m {
			m = a
		}
	}
	return m
}
