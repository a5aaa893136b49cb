package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// World C18: several clients draw from initializer objects and random constructors,
// in any order, out of one process-wide generator that the simulator owns. Faults:
// adversarial generator outputs (largest and smallest values, repetitions), rejected
// calls, results that their consumer back-propagates or untracks. Per-draw checks:
// shape, tracking, support. Over the history: every value is mapped through the
// distribution function it was asked for; distribution-free bounds (at about 1e-14
// each) on the empirical distribution, moments, extremes, coincidences and
// correlations between positions and between calls.

type randObj struct {
	kind   string
	lo, hi float64 // uniform
	mu, sd float64 // normal
	c      float64 // constant
	init   layers.Initializer
	tol    float64 // relative slack at the bounds
	track  bool    // results must be tracked
}

func (q *randObj) family() string {
	switch q.kind {
	case "Full":
		return "constant"
	case "Uniform", "HeUniform", "XavierUniform", "RandU":
		return "uniform"
	}
	return "normal"
}

var randKinds = []string{"Full", "Uniform", "Normal", "HeUniform", "HeNormal", "XavierUniform", "XavierNormal", "RandU", "RandN"}

func genShape18(r *Rng, limit int) []int {
	rank := r.Pick(0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6)
	s := make([]int, rank)
	n := 1
	for i := range s {
		m := limit / n
		s[i] = 1
		if m >= 2 && !r.P(0.15) {
			e := r.F()
			if rank > 1 {
				e /= float64(rank) / 1.5
			}
			s[i] = 1 + int(math.Pow(float64(m), math.Min(e, 1))*0.999)
			s[i] = min(s[i], m)
		}
		n *= s[i]
	}
	for i := range s {
		j := r.N(i + 1)
		s[i], s[j] = s[j], s[i]
	}
	return s
}

func genC18(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C18"), uint64(run))
	p := &Plan{Prop: "C18", Run: run, Seed: seed}
	id := 0
	emit := func(s Step) int {
		id++
		s.ID = id
		p.Steps = append(p.Steps, s)
		return id
	}
	fan := func() int {
		switch r.N(8) {
		case 0:
			return 1
		case 1:
			return int(math.Pow(2, r.Range(20, 62.9)))
		case 2:
			return math.MaxInt - r.N(3)
		}
		return int(math.Pow(10, r.Range(0, 4)))
	}
	adversary := r.P(0.35)
	make_ := func(kind string) int {
		s := Step{K: "make", Op: kind}
		switch kind {
		case "Full":
			s.B = r.P(0.15)
			s.F = fs([]float64{r.PickF(0, 1, -1, 0.05, math.Copysign(0, -1), 1e300, 5e-324, math.Inf(1), math.NaN(), r.Norm(), r.Norm()*1e-3)})
		case "Uniform", "RandU":
			s.B = kind == "Uniform" && r.P(0.15)
			var l, u float64
			switch r.N(12) {
			case 0, 1, 2:
				l, u = r.Range(-2, 0), r.Range(0.1, 2)
			case 10: // a bound of zero, or one that looks like a default
				l, u = r.PickF(0, -0.05, -1, -0.1, -1e-3, -r.F()), r.PickF(0, 0.05, 1, 0.1, r.F())
			case 11: // on the axis, of any scale
				if l, u = 0, math.Pow(10, r.Range(-6, 6)); r.P(0.5) {
					l, u = -u, 0
				}
			case 3:
				l, u = 0, 1
			case 4:
				w := math.Pow(10, r.Range(-9, 9))
				l = r.Norm() * w
				u = l + w
			case 5: // both on one side
				l = r.Range(1, 5)
				u = l + r.Range(0.01, 3)
				if r.P(0.5) {
					l, u = -u, -l
				}
			case 6: // a few representable values in the interval
				l = r.PickF(1, -1, 1e16, -1e16, 0.05, -3, 5e-324, 0)
				u = l
				for k := r.In(1, 6); k > 0; k-- {
					u = math.Nextafter(u, math.Inf(1))
				}
			case 7: // wider than the largest double
				l, u = -math.MaxFloat64*r.PickF(1, 0.6, 0.9), math.MaxFloat64*r.PickF(1, 0.5, 0.7)
			case 8:
				l, u = r.Range(-1e300, -1e290), r.Range(1e290, 1e300)
			case 9:
				l, u = -r.Range(0, 1e-300), r.Range(1e-308, 1e-300)
			}
			if !(l < u) {
				l, u = -1, 1
			}
			s.F = fs([]float64{l, u})
		case "Normal", "RandN":
			s.B = kind == "Normal" && r.P(0.15)
			m, d := r.Norm(), r.Range(0.01, 3)
			switch r.N(6) {
			case 0:
				m, d = 0, 1
			case 5:
				m, d = r.PickF(0, 0.05, -0.05, 1, -1), r.PickF(1, 0.05, 0.5, 2, 0.1)
			case 1:
				d = math.Pow(10, r.Range(-9, 9))
				m = r.Norm() * d * 10
			case 2:
				m = r.PickF(0, 100, -1000, 1e5)
			}
			s.F = fs([]float64{m, d})
		case "HeUniform", "HeNormal":
			s.I = []int{fan()}
		case "XavierUniform", "XavierNormal":
			s.I = []int{fan(), fan()}
			if r.P(0.15) {
				s.I[1] = s.I[0]
			}
		}
		return emit(s)
	}
	kind := func() string {
		if r.P(0.1) {
			return "Full"
		}
		return randKinds[1+r.N(len(randKinds)-1)]
	}
	big := 60000
	if tier == "thorough" {
		big = 1000000
	}
	type ob struct {
		id    int
		shape []int
		times int
	}
	var obs []*ob
	p.Kind = []string{"mixed", "mixed", "mixed", "one-shape", "one-shape", "one-kind", "big"}[r.N(7)]
	if p.Kind == "big" && !r.P(0.35) {
		p.Kind = "mixed"
	}
	if r.P(0.001) { // enough for the tails and the fourth moment
		p.Kind = "huge"
	}
	nobj, calls, limit := r.In(1, 7), r.In(5, 60), 120
	one := kind()
	switch p.Kind {
	case "one-shape": // the same small shape again and again
		nobj, calls, limit = r.In(1, 3), r.In(40, 150), 24
	case "big":
		nobj, calls, limit = r.In(1, 2), r.In(1, 3), big
		adversary = false
	case "huge":
		nobj, calls, adversary = 1, 0, false
		q := &ob{id: make_(randKinds[1+r.N(len(randKinds)-1)])}
		n := r.Pick(100000, 150000, 300000)
		total := 1500000
		if tier == "thorough" {
			total *= r.Pick(1, 2, 3)
		}
		sh := []int{n}
		if k := r.Pick(1, 10, 100, 1000); k > 1 {
			sh = []int{k, n / k}
		}
		emit(Step{C: r.N(3), K: "draw", In: []int{q.id}, I: sh, R: [][2]int{{total / n, 0}}, B: r.P(0.5)})
	}
	for k := 0; k < nobj && p.Kind != "huge"; k++ {
		kd := kind()
		if p.Kind == "one-kind" {
			kd = one
		}
		sh := genShape18(r, limit)
		if p.Kind == "big" {
			for try := 0; nelems(sh) < limit/4 && try < 50; try++ {
				sh = genShape18(r, limit)
			}
		}
		obs = append(obs, &ob{id: make_(kd), shape: sh})
	}
	if adversary && r.P(0.3) {
		emit(Step{K: "rng", I: []int{r.In(1, 5)}})
	}
	for k := 0; k < calls; k++ {
		q := obs[r.N(len(obs))]
		sh := q.shape
		times := 1
		switch p.Kind {
		case "one-shape":
			times = r.Pick(1, 1, 2, 3, 8, 20)
		case "mixed", "one-kind":
			if r.P(0.5) {
				sh = genShape18(r, limit)
			}
			if r.P(0.1) {
				times = r.In(2, 10)
			}
		}
		emit(Step{C: r.N(3), K: "draw", In: []int{q.id}, I: sh, R: [][2]int{{times, r.Pick(0, 0, 0, 1, 2)}}, B: r.P(0.5)})
		if adversary && r.P(0.15) {
			emit(Step{K: "rng", I: []int{r.Pick(0, 1, 1, 2, 3, 4, 5)}})
		}
		if r.P(0.06) {
			emit(Step{C: r.N(3), K: "bad", In: []int{q.id}, I: []int{r.N(6)}})
		}
		if r.P(0.04) && p.Kind != "big" {
			obs = append(obs, &ob{id: make_(kind()), shape: genShape18(r, limit)})
		}
		if r.P(0.04) {
			emit(Step{C: r.N(3), K: "other", I: []int{r.N(3), r.In(1, 5)}})
		}
	}
	return p
}

type sample struct {
	u []float64 // values mapped through the distribution function
	z []float64 // normal only
}

func execC18(p *Plan, o *Obs) *Violation {
	src, restore := ownGlobal(mix(p.Seed) ^ uint64(p.Run)*0x9e3779b97f4a7c15)
	defer restore()
	objs := map[int]*randObj{}
	groups := map[string]*sample{}
	add := func(key string, u, z float64, normal bool) {
		g := groups[key]
		if g == nil {
			g = &sample{}
			groups[key] = g
		}
		g.u = append(g.u, u)
		if normal {
			g.z = append(g.z, z)
		}
	}
	pairs := map[string][][2]float64{}
	prev := map[string][]float64{}
	var last []float64
	seen := map[T]int{}
	dups := map[string][]float64{} // family -> mapped values of the run
	draws, fairDraws := 0, 0
	defer func() { o.Add("generator-outputs", src.draws); o.Add("fault.generator-output-replaced", src.hit) }()
	for _, s := range p.Steps {
		switch s.K {
		case "rng":
			src.mode = s.I[0]
			o.Inc("rng." + rngNames[src.mode])
			o.LogStep(s)
		case "make":
			q, f := makeRand(s)
			if f != nil {
				return viol("valid-config-rejected", s.ID, "New%s(%v, %v, nil: %v): %s", s.Op, s.F, s.I, s.B, f)
			}
			objs[s.ID] = q
			o.Inc("make." + s.Op)
			o.LogStep(s)
		case "bad":
			q := objs[s.In[0]]
			if q == nil {
				continue
			}
			o.Inc("fault.rejected-call")
			badRand(q, s.I[0])
			o.LogStep(s)
		case "other":
			otherDraw(s.I[0], s.I[1])
			o.LogStep(s)
		case "draw":
			q := objs[s.In[0]]
			if q == nil {
				continue
			}
			for k := 0; k < s.R[0][0]; k++ {
				shape := append([]int{}, s.I...)
				var t T
				f := guard(func() (err error) {
					switch q.kind {
					case "RandU":
						t, err = tensor.RandU(shape, q.lo, q.hi, cfg(s.B))
					case "RandN":
						t, err = tensor.RandN(shape, q.mu, q.sd, cfg(s.B))
					default:
						t, err = q.init.Init(shape)
					}
					return
				})
				o.Inc("draw." + q.kind)
				if f != nil || isNil(t) {
					return viol("draw-fails", s.ID, "%s, shape %v: %s", q, s.I, f)
				}
				if was, ok := seen[t]; ok {
					return viol("same-tensor", s.ID, "%s, shape %v: the call returned the same tensor as the call at step %d", q, s.I, was)
				}
				seen[t] = s.ID
				o.State(hashStr(fmt.Sprint(q.kind, src.mode, s.I)))
				sh, v, f := read(t)
				if f != nil || !sameShape(sh, s.I) {
					return viol("shape", s.ID, "%s: asked for shape %v, got %v (%s)", q, s.I, sh, f)
				}
				draws += len(v)
				o.Add("elements", int64(len(v)))
				if len(v) <= 4096 {
					o.LogFs(v)
				}
				fair := src.mode == rngFair
				if x := q.support(v, fair); x != "" {
					return viol("support", s.ID, "%s, shape %v, generator outputs %s: %s", q, s.I, rngNames[src.mode], x)
				}
				if q.track && (k == 0 || len(v) < 64) {
					if x := trackedProbe(t, s.R[0][1], o); x != "" {
						return viol("tracked", s.ID, "%s, shape %v: %s", q, s.I, x)
					}
				}
				if q.family() == "constant" || !fair || !q.wellConditioned() {
					delete(prev, fmt.Sprint(s.In[0]))
					last = nil
					continue
				}
				fairDraws += len(v)
				fam := q.family()
				u := make([]float64, len(v))
				st := strides(s.I)
				for i, x := range v {
					var z float64
					u[i], z = q.pit(x)
					add(fmt.Sprintf("%s (object %d)", q, s.In[0]), u[i], z, fam == "normal")
					add("all "+fam+" draws", u[i], z, fam == "normal")
					if i == 0 {
						add("first element of "+fam+" draws", u[i], z, fam == "normal")
					}
					if i == len(v)-1 {
						add("last element of "+fam+" draws", u[i], z, fam == "normal")
					}
					if len(v) > 1 && len(v) <= 24 && p.Kind == "one-shape" {
						add(fmt.Sprintf("%s (object %d) element %d of shape %v", q, s.In[0], i, s.I), u[i], z, fam == "normal")
					}
					for d := range st {
						if (i/st[d])%s.I[d]%2 == 1 {
							key := fmt.Sprintf("neighbours along a dimension counted %d from the end", len(st)-d)
							pairs[key] = append(pairs[key], [2]float64{u[i-st[d]], u[i]})
						}
					}
				}
				if n := len(u); n > 1 {
					for i := range u {
						if j := n - 1 - i; i < j && n <= 4096 {
							pairs["mirrored positions of a call"] = append(pairs["mirrored positions of a call"], [2]float64{u[i], u[j]})
						}
						if j := i + n/2; i < n/2 && j < n && n <= 4096 {
							pairs["positions half a call apart"] = append(pairs["positions half a call apart"], [2]float64{u[i], u[j]})
						}
					}
				}
				if n := len(u); n > 1 && n <= 4096 { // what a call adds up to
					sum, sq, lo, hi := 0., 0., 1., 0.
					for _, x := range u {
						x = math.Min(math.Max(x, 1e-13), 1-1e-13)
						z := math.Sqrt2 * math.Erfinv(2*x-1)
						sum += z
						sq += z * z
						lo, hi = math.Min(lo, x), math.Max(hi, x)
					}
					z := sum / math.Sqrt(float64(n))
					add("sums of the elements of a call, "+fam, 0.5*math.Erfc(-z/math.Sqrt2), z, true)
					add("sums of the squares of the elements of a call, "+fam, gammaP(float64(n)/2, sq/2), 0, false)
					add("largest element of a call, "+fam, math.Pow(hi, float64(n)), 0, false)
					add("smallest element of a call, "+fam, 1-math.Pow(1-lo, float64(n)), 0, false)
				}
				if last != nil {
					n := min(len(last), len(u))
					for i := 0; i < n && n <= 4096; i++ {
						pairs["same position in consecutive calls of any object"] = append(pairs["same position in consecutive calls of any object"], [2]float64{last[i], u[i]})
					}
					last = nil
				} else {
					last = u
				}
				dups[fam] = append(dups[fam], u...)
				key := fmt.Sprint(s.In[0])
				if w := prev[key]; w != nil {
					for i := 0; i < len(w) && i < len(u); i++ {
						pairs["same position in consecutive calls"] = append(pairs["same position in consecutive calls"], [2]float64{w[i], u[i]})
					}
					delete(prev, key)
				} else {
					prev[key] = u
				}
			}
		}
	}
	o.Add("elements-in-distribution-tests", int64(fairDraws))
	o.NonTriv = draws >= 20 && len(p.Steps) > 2
	var keys []string
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if x := distTest(groups[k], o); x != "" {
			return viol("distribution", -1, "%s: %s", k, x)
		}
	}
	keys = keys[:0]
	for k := range pairs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if x := pairTest(pairs[k], o); x != "" {
			return viol("dependence", -1, "%s: %s", k, x)
		}
	}
	for _, fam := range []string{"normal", "uniform"} {
		if x := dupTest(dups[fam], o); x != "" {
			return viol("not-fresh", -1, "%s draws of the whole run: %s", fam, x)
		}
	}
	return nil
}

func (q *randObj) String() string {
	switch q.family() {
	case "constant":
		return fmt.Sprintf("%s(%v)", q.kind, q.c)
	case "uniform":
		return fmt.Sprintf("%s[%v, %v)", q.kind, q.lo, q.hi)
	}
	return fmt.Sprintf("%s(mean %v, deviation %v)", q.kind, q.mu, q.sd)
}

func makeRand(s Step) (q *randObj, f *Fail) {
	q = &randObj{kind: s.Op, track: true}
	var fan, both float64
	if len(s.I) > 0 {
		fan = float64(s.I[0])
		both = fan
	}
	if len(s.I) > 1 {
		both = fan + float64(s.I[1])
	}
	f = guard(func() (err error) {
		switch s.Op {
		case "Full":
			q.c = s.f(0)
			c := &initializers.FullConfig{Value: q.c}
			if s.B {
				q.c, c = 0, nil
			}
			q.init = initializers.NewFull(c)
		case "Uniform":
			q.lo, q.hi = s.f(0), s.f(1)
			c := &initializers.UniformConfig{Lower: q.lo, Upper: q.hi}
			if s.B {
				q.lo, q.hi, c = -0.05, 0.05, nil
			}
			q.init, err = initializers.NewUniform(c)
		case "Normal":
			q.mu, q.sd = s.f(0), s.f(1)
			c := &initializers.NormalConfig{Mean: q.mu, StdDev: q.sd}
			if s.B {
				q.mu, q.sd, c = 0, 0.05, nil
			}
			q.init, err = initializers.NewNormal(c)
		case "HeUniform":
			q.hi = math.Sqrt(6 / fan)
			q.lo, q.tol = -q.hi, 1e-12
			q.init, err = initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: s.I[0]})
		case "HeNormal":
			q.sd = math.Sqrt(2 / fan)
			q.init, err = initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: s.I[0]})
		case "XavierUniform":
			q.hi = math.Sqrt(6 / both)
			q.lo, q.tol = -q.hi, 1e-12
			q.init, err = initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: s.I[0], FanOut: s.I[1]})
		case "XavierNormal":
			q.sd = math.Sqrt(2 / both)
			q.init, err = initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: s.I[0], FanOut: s.I[1]})
		case "RandU":
			q.lo, q.hi, q.track = s.f(0), s.f(1), false
		case "RandN":
			q.mu, q.sd, q.track = s.f(0), s.f(1), false
		}
		return
	})
	return
}

// support checks single values. Under replaced generator outputs a normal draw may be
// any number.
func (q *randObj) support(v []float64, fair bool) string {
	for i, x := range v {
		switch q.family() {
		case "constant":
			if !sameBits(x, q.c) {
				return fmt.Sprintf("element %d is %v instead of %v", i, x, q.c)
			}
		case "uniform":
			s := q.tol * math.Abs(q.hi)
			if q.tol == 0 && !(x >= q.lo && x < q.hi) || !(x >= q.lo-s && x <= q.hi+s) {
				return fmt.Sprintf("element %d is %v, outside [%v, %v)", i, x, q.lo, q.hi)
			}
		default:
			if fair && !(math.Abs(x-q.mu) <= 12*q.sd+1e-9*math.Abs(q.mu)) {
				return fmt.Sprintf("element %d is %v, more than 12 standard deviations from the mean", i, x)
			}
		}
	}
	return ""
}

func (q *randObj) wellConditioned() bool {
	if q.family() == "uniform" {
		w := q.hi/2 - q.lo/2
		return w > 1e-6*math.Max(math.Abs(q.lo), math.Abs(q.hi)) && w > 1e-290
	}
	return q.sd > 1e-6*math.Abs(q.mu)
}

// pit maps a value through the distribution function it was asked for.
func (q *randObj) pit(x float64) (u, z float64) {
	if q.family() == "uniform" {
		return (x/2 - q.lo/2) / (q.hi/2 - q.lo/2), 0
	}
	z = (x - q.mu) / q.sd
	return 0.5 * math.Erfc(-z/math.Sqrt2), z
}

// trackedProbe: a result computed from t hands a gradient to t. after: what the
// consumer does with the tensor next.
func trackedProbe(t T, after int, o *Obs) (msg string) {
	f := guard(func() error {
		if g := t.Gradient(); !isNil(g) {
			msg = "the new tensor already has a gradient"
			return nil
		}
		if after == 2 { // untracked by its consumer instead
			t.ResetGradContext(false)
			return nil
		}
		y := t.Scale(3)
		if err := tensor.BackPropagate(y); err != nil {
			return err
		}
		if isNil(t.Gradient()) {
			msg = "no gradient after a back-propagation from a result computed from it: not tracked"
		}
		if after == 1 {
			t.ResetGradContext(true)
		}
		return nil
	})
	o.Inc(fmt.Sprintf("fault.consumer-%s", []string{"leaves-it-spent", "resets-it", "untracks-it"}[after]))
	if f != nil {
		return f.String()
	}
	return
}

func badRand(q *randObj, kind int) {
	guard(func() (err error) {
		switch kind {
		case 0:
			_, err = tensor.RandU([]int{2, 0}, 0, 1, nil)
		case 1:
			_, err = tensor.RandU([]int{2}, 1, 1, nil)
		case 2:
			_, err = tensor.RandN([]int{2}, 0, -1, nil)
		case 3:
			_, err = initializers.NewUniform(&initializers.UniformConfig{Lower: 2, Upper: -1})
		case 4:
			if q.init != nil {
				_, err = q.init.Init([]int{3, -1})
			}
		default:
			_, err = initializers.NewXavierNormal(nil)
		}
		return
	})
}

// otherDraw: somebody else uses the same generator, or changes the tensors around.
func otherDraw(kind, n int) {
	guard(func() (err error) {
		switch kind {
		case 0:
			_, err = layers.NewFC(&layers.FCConfig{Inputs: n, Outputs: n})
		case 1:
			for ; n > 0; n-- {
				globalRand.Float64()
			}
		default:
			_, err = tensor.Full([]int{n}, 3, nil)
		}
		return
	})
}

// gammaP: regularised lower incomplete gamma function.
func gammaP(a, x float64) float64 {
	if x <= 0 {
		return 0
	}
	lg, _ := math.Lgamma(a)
	f := math.Exp(a*math.Log(x) - x - lg)
	if x < a+1 {
		term, sum := 1/a, 1/a
		for k := 1; k < 100000 && term > sum*1e-15; k++ {
			term *= x / (a + float64(k))
			sum += term
		}
		return sum * f
	}
	// Lentz
	b := x + 1 - a
	c, d := 1e300, 1/b
	h := d
	for k := 1; k < 100000; k++ {
		an := -float64(k) * (float64(k) - a)
		b += 2
		if d = an*d + b; math.Abs(d) < 1e-300 {
			d = 1e-300
		}
		if c = b + an/c; math.Abs(c) < 1e-300 {
			c = 1e-300
		}
		d = 1 / d
		h *= d * c
		if math.Abs(d*c-1) < 1e-15 {
			break
		}
	}
	return 1 - f*h
}

// Bernstein's bound on the mean of n independent terms of variance v and size b.
func bern(n, v, b float64) float64 {
	const x = 33
	return b*x/3/n + math.Sqrt(b*x/3/n*b*x/3/n+2*v*x/n)
}

var quantiles = []float64{1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 0.01, 0.03, 0.1, 0.2, 0.3, 0.4, 0.5}

// Each test below raises a false alarm with probability about 1e-14 at most.

func distTest(g *sample, o *Obs) string {
	n := len(g.u)
	if n < 30 {
		return ""
	}
	o.Inc("tests.distribution")
	u := append([]float64{}, g.u...)
	sort.Float64s(u)
	d := 0.
	for i, x := range u {
		d = math.Max(d, math.Max(float64(i+1)/float64(n)-x, x-float64(i)/float64(n)))
	}
	lim := 4.1 / math.Sqrt(float64(n)) // Dvoretzky-Kiefer-Wolfowitz with Massart's constant
	if d > lim {
		return fmt.Sprintf("the empirical distribution function of %d draws is %.4f away from the configured one (bound %.4f)", n, d, lim)
	}
	ext := 33 / float64(n) // P(no draw in a tail of probability a) <= exp(-n a)
	if u[0] > ext || u[n-1] < 1-ext {
		return fmt.Sprintf("%d draws leave out a tail of the configured distribution: their quantiles lie in [%.6f, %.6f]", n, u[0], u[n-1])
	}
	for _, a := range quantiles { // shares of the tails
		lo := sort.SearchFloat64s(u, a)
		hi := n - sort.SearchFloat64s(u, 1-a)
		for i, k := range []int{lo, hi, lo + hi} {
			p := a
			if i == 2 {
				if p *= 2; p == 1 {
					continue
				}
			}
			got, lim := float64(k)/float64(n), bern(float64(n), p*(1-p), 1)
			if math.Abs(got-p) > lim {
				return fmt.Sprintf("of %d draws a share of %.6g lies in the %s that should hold %.6g (bound on the difference %.2g)", n, got, []string{"lower tail", "upper tail", "tails"}[i], p, lim)
			}
		}
	}
	if len(g.z) == n {
		m, v := 0., 0.
		for _, z := range g.z {
			m += z
			v += z * z
		}
		m /= float64(n)
		v /= float64(n)
		if math.Abs(m)*math.Sqrt(float64(n)) > 8.2 {
			return fmt.Sprintf("the mean of %d draws is %.4f standard deviations off", n, m)
		}
		x := 33. / float64(n) // Laurent-Massart
		if v > 1+2*math.Sqrt(x)+2*x || v < 1-2*math.Sqrt(x) {
			return fmt.Sprintf("the variance of %d draws about the configured mean is %.4f times the configured one", n, v)
		}
	}
	return ""
}

func pairTest(ps [][2]float64, o *Obs) string {
	n := float64(len(ps))
	if n < 40 {
		return ""
	}
	o.Inc("tests.dependence")
	c, s := 0., 0.
	for _, p := range ps {
		c += (p[0] - 0.5) * (p[1] - 0.5)
		s += (math.Abs(p[0]-0.5) - 0.25) * (math.Abs(p[1]-0.5) - 0.25)
	}
	if x := math.Abs(c / n); x > bern(n, 1./144, 0.25) {
		return fmt.Sprintf("over %.0f pairs the covariance of the quantiles is %.5f (bound %.5f; independent: 0)", n, c/n, bern(n, 1./144, 0.25))
	}
	if x := math.Abs(s / n); x > bern(n, 1./48/48, 1./16) {
		return fmt.Sprintf("over %.0f pairs the covariance of the distances from the median is %.5f (bound %.5f; independent: 0)", n, s/n, bern(n, 1./48/48, 1./16))
	}
	return ""
}

func dupTest(us []float64, o *Obs) string {
	n := len(us)
	if n < 16 {
		return ""
	}
	o.Inc("tests.freshness")
	k := make([]int64, n)
	for i, u := range us {
		k[i] = int64(math.Round(math.Abs(u-0.5) * (1 << 30)))
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	c := 0
	for i := 1; i < n; i++ {
		if k[i] == k[i-1] {
			c++
		}
	}
	mean := float64(n) * float64(n) / 2 / (1 << 29)
	if lim := 2*mean + 10 + 10*math.Sqrt(mean); float64(c) > lim {
		return fmt.Sprintf("%d of %d draws coincide with an earlier one, or with its mirror image, to 30 bits (%.2g expected)", c, n, mean)
	}
	return ""
}
