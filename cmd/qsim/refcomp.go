package main

import "math"

// Reference formulas of the components, with exact partial derivatives. Written
// from the definitions, element by element.

const ckink = 1e-6

func compApply(s Step, in []*RT) (out *RT, jac [][]jent, diff, ok bool) {
	shape, good := compShape(s, in)
	if !good {
		return nil, nil, false, false
	}
	out = &RT{Shape: append([]int{}, shape...), V: make([]float64, nelems(shape))}
	jac = make([][]jent, len(in))
	diff = true
	x := in[0].V
	el := func(f func(v float64) (y, d float64, smooth bool)) {
		for i, v := range x {
			y, d, sm := f(v)
			out.V[i] = y
			if s.Op == "c.Sigmoid" || s.Op == "c.Tanh" {
				// y(1-y) and 1-y*y are as good as the textbook formulas: the rounding
				// error is relative to either term
				jac[0] = append(jac[0], jent{i, i, d + y*y}, jent{i, i, -y * y})
			} else {
				jac[0] = append(jac[0], jent{i, i, d})
			}
			diff = diff && sm
		}
	}
	// slack: where prediction and target nearly agree, what is left of their difference
	// carries the rounding errors of the prediction.
	slack := func(i int, m float64) {
		jac[0] = append(jac[0], jent{0, i, 1e-4 * m}, jent{0, i, -1e-4 * m})
	}
	switch s.Op {
	case "c.Input":
		el(func(v float64) (float64, float64, bool) { return v, 1, true })
	case "c.Relu":
		el(func(v float64) (float64, float64, bool) {
			if v > 0 {
				return v, 1, v > ckink
			}
			return 0, 0, v < -ckink
		})
	case "c.LeakyRelu":
		m := s.f(0)
		el(func(v float64) (float64, float64, bool) {
			if v > 0 {
				return v, 1, v > ckink
			}
			return m * v, m, v < -ckink
		})
	case "c.Sigmoid":
		el(func(v float64) (float64, float64, bool) {
			e := math.Exp(-math.Abs(v))
			y := 1 / (1 + e)
			if v < 0 {
				y = e / (1 + e)
			}
			return y, e / ((1 + e) * (1 + e)), math.Abs(v) < 600
		})
	case "c.Tanh":
		el(func(v float64) (float64, float64, bool) {
			y := math.Tanh(v)
			c := math.Cosh(v)
			return y, 1 / (c * c), math.Abs(v) < 300
		})
	case "c.Softmax":
		sh := in[0].Shape
		dim := s.I[0]
		st := strides(sh)[dim]
		n := sh[dim]
		for k := range x {
			if (k/st)%n != 0 {
				continue
			}
			sum := 0.
			for j := 0; j < n; j++ {
				sum += math.Exp(x[k+j*st])
			}
			if !(sum > 1e-130 && sum < 1e130) { // its square leaves the range of doubles
				diff = false
			}
			for i := 0; i < n; i++ {
				yi := math.Exp(x[k+i*st]) / sum
				out.V[k+i*st] = yi
				for j := 0; j < n; j++ {
					yj := math.Exp(x[k+j*st]) / sum
					jac[0] = append(jac[0], jent{k + i*st, k + j*st, -yi * yj})
					if i == j { // kept apart: the rounding error is relative to either term
						jac[0] = append(jac[0], jent{k + i*st, k + i*st, yi})
					}
				}
			}
		}
	case "c.FC":
		w, b, xx := in[0].V, in[1].V, in[2]
		B, D, O := xx.Shape[0], xx.Shape[1], len(w)
		for i := 0; i < B; i++ {
			sum := 0.
			for d := 0; d < D; d++ {
				sum += xx.V[i*D+d]
			}
			for o := 0; o < O; o++ {
				k := i*O + o
				out.V[k] = w[o]*sum + b[o]
				for d := 0; d < D; d++ {
					jac[2] = append(jac[2], jent{k, i*D + d, w[o]})
					jac[0] = append(jac[0], jent{k, o, xx.V[i*D+d]})
				}
				jac[1] = append(jac[1], jent{k, o, 1})
			}
		}
	case "c.MSE":
		t := in[1].V
		n := float64(len(x))
		for i := range x {
			d := x[i] - t[i]
			out.V[0] += d * d / n
			jac[0] = append(jac[0], jent{0, i, 2 * d / n})
			jac[1] = append(jac[1], jent{0, i, -2 * d / n})
			slack(i, (math.Abs(x[i])+math.Abs(t[i]))/n)
		}
	case "c.BCE", "c.CE":
		const eps = 1e-12
		t := in[1].V
		n := float64(in[0].Shape[0])
		for i := range x {
			y, dy := x[i], 1.
			switch {
			case y < eps:
				y, dy = eps, 0
				diff = diff && x[i] < eps*(1-1e-3)
			case y > 1-eps:
				y, dy = 1-eps, 0
				diff = diff && x[i] > 1-eps*0.9
			default:
				diff = diff && y > eps*(1+1e-3) && 1-y > ckink
			}
			u, du := t[i], 1.
			switch {
			case u < 0:
				u, du = 0, 0
			case u > 1:
				u, du = 1, 0
			case u == 0, u == 1:
				du = math.NaN() // a kink of the clipping; nobody differentiates there
			}
			if s.Op == "c.BCE" {
				out.V[0] -= (u*math.Log(y) + (1-u)*math.Log(1-y)) / n
				jac[0] = append(jac[0], jent{0, i, -dy * (u/y - (1-u)/(1-y)) / n})
				jac[1] = append(jac[1], jent{0, i, -du * (math.Log(y) - math.Log(1-y)) / n})
				if dy != 0 {
					slack(i, (u/y+(1-u)/(1-y))/n)
				}
			} else {
				out.V[0] -= u * math.Log(y) / n
				jac[0] = append(jac[0], jent{0, i, -dy * u / y / n})
				jac[1] = append(jac[1], jent{0, i, -du * math.Log(y) / n})
			}
		}
	}
	return out, jac, diff, true
}
