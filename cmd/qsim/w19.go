package main

import (
	"math"

	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// World C19: a stream of labelled pairs is delivered to several accumulators, each
// with its own batch boundaries and order; clients' mistakes and failing devices
// (calls that must be rejected) are interleaved. Reference: two integers.

func genC19(seed uint64, run int, tier string) *Plan {
	r := NewRng(seed, hashStr("C19"), uint64(run))
	p := &Plan{Prop: "C19", Run: run, Seed: seed, Kind: "stream"}
	id := 1
	add := func(s Step) int { s.ID = id; id++; p.Steps = append(p.Steps, s); return s.ID }
	n := r.In(1, 60)
	switch {
	case r.P(0.1):
		n = r.In(60, 400)
	case r.P(0.03):
		p.Kind = "long"
		n = r.In(1000, 4000)
		if tier == "thorough" {
			n = r.In(1000, 20000)
		}
	}
	if r.P(0.05) {
		n = 0
	}
	switch {
	case r.P(0.0001) || tier == "thorough" && r.P(0.0001): // about a dozen of a quick batch of runs
		p.Kind = "marathon"
		n = r.In(1, 30)
	case r.P(0.002):
		p.Kind = "bulk"
	}
	classes := r.Pick(2, 2, 3, 10, 1000)
	pEq := r.PickF(0, 0.1, 0.5, 0.9, 1)
	mode := r.N(5)
	yp, yt := make([]float64, n), make([]float64, n)
	label := func() float64 {
		switch mode {
		case 0, 1:
			return float64(r.N(classes))
		case 2:
			return r.Range(-3, 3)
		case 3:
			return float64(r.In(-classes, classes)) * 1e17
		}
		return r.PickF(0, math.Copysign(0, -1), 1, -1, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), 1e-100, 1e-30, 0.1, 1./3)
	}
	for i := range yt {
		yt[i] = label()
		yp[i] = yt[i]
		if !r.P(pEq) {
			yp[i] = label()
			if r.P(0.02) {
				yp[i] = math.NaN() // equal to nothing
			}
			if r.P(0.3) && yt[i] != 0 && math.Abs(yt[i]) > 1e-90 && math.Abs(yt[i]) < 1e300 { // nearly equal
				yp[i] = yt[i] * (1 + r.PickF(1, -1)*math.Pow(10, r.Range(-15.5, -3)))
			}
		}
	}
	k := r.In(1, 4)
	type job struct {
		acc    int
		lo, hi int
		order  []int
	}
	var jobs [][]job
	for a := 0; a < k; a++ {
		acc := add(Step{K: "acc", C: a})
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		if r.P(0.5) {
			order = r.Perm(n)
		}
		var js []job
		maxB := r.Pick(1, 2, 5, 16, 64, 100000)
		if n >= 1000 && maxB < 16 {
			maxB = 64
		}
		for lo := 0; lo < n; {
			hi := min(n, lo+r.In(1, maxB))
			js = append(js, job{acc, lo, hi, order})
			lo = hi
		}
		jobs = append(jobs, js)
	}
	pRej := r.PickF(0, 0.2, 0.6)
	pAgain := r.PickF(0, 0, 0.1, 0.4)
	var last []int // deliveries so far
	total := 0
	if p.Kind == "marathon" { // past the integers of single precision, then on in small steps
		size := 1 << r.Pick(15, 16, 17, 18)
		size += r.In(-1, 1)
		b := add(Step{K: "bulk", C: 0, In: []int{1}, I: []int{size, r.Pick(15, 16, 16), 16, r.N(1000), classes}})
		times := (1<<24 + 1<<20) / size
		if tier == "thorough" {
			times *= r.Pick(1, 1, 2, 5)
		}
		add(Step{K: "again", C: 0, In: []int{1, b}, I: []int{times}})
	}
	if p.Kind == "bulk" {
		for i := r.In(1, 2); i > 0; i-- {
			a := r.N(k)
			size := r.Pick(1<<16, 1<<16, 1<<15, 1<<17, 1e5, 2*65521) + r.Pick(0, 0, 1, -1, r.N(3000))
			last = append(last, add(Step{K: "bulk", C: a, In: []int{a + 1}, X: sources[r.N(len(sources))], I: []int{size, r.In(0, 16), 16, r.N(1000), classes}}))
		}
	}
	for _, j := range jobs {
		total += len(j)
	}
	for total > 0 || r.P(0.3) {
		if r.P(pRej) || total == 0 {
			a := r.N(k)
			s := Step{K: "reject", C: a, In: []int{a + 1}, Op: rejects[r.N(len(rejects))], I: []int{r.In(1, 6), r.In(1, 4)}, B: r.P(0.5)}
			for i := 0; i < s.I[0]; i++ {
				s.F = append(s.F, F64(label()))
			}
			add(s)
		}
		if r.P(0.2) {
			a := r.N(k)
			add(Step{K: "result", C: a, In: []int{a + 1}})
		}
		if len(last) > 0 && r.P(pAgain) { // the same objects once more, to whomever
			a, b := r.N(k), last[len(last)-1]
			if r.P(0.3) {
				b = last[r.N(len(last))]
			}
			if r.P(0.25) {
				add(Step{K: "mixed", C: a, In: []int{a + 1, b}, I: []int{r.In(1, 3)}, B: r.P(0.5)})
			} else {
				add(Step{K: "again", C: a, In: []int{a + 1, b}, I: []int{r.Pick(1, 1, 2, 5)}, B: r.P(0.2)})
			}
		}
		a := r.N(k)
		if len(jobs[a]) == 0 {
			continue
		}
		j := jobs[a][0]
		jobs[a] = jobs[a][1:]
		total--
		s := Step{K: "deliver", C: a, In: []int{j.acc}, X: sources[r.N(len(sources))]}
		for _, i := range j.order[j.lo:j.hi] {
			s.F = append(s.F, F64(yp[i]))
		}
		for _, i := range j.order[j.lo:j.hi] {
			s.F = append(s.F, F64(yt[i]))
		}
		last = append(last, add(s))
	}
	return p
}

// bulkVals: a batch too long to be written down.
func bulkVals(s Step) []float64 {
	if len(s.I) < 5 || s.I[0] < 1 || s.I[0] > 1<<20 || s.I[2] < 1 || s.I[4] < 1 {
		return nil
	}
	n, num, den, salt, classes := s.I[0], uint64(s.I[1]), uint64(s.I[2]), uint64(s.I[3]), uint64(s.I[4])
	v := make([]float64, 2*n)
	for i := 0; i < n; i++ {
		h := mix(salt<<32 + uint64(i))
		v[n+i] = float64(h >> 20 % classes)
		v[i] = v[n+i]
		if h%den >= num {
			v[i]++
		}
	}
	return v
}

var rejects = []string{"nil-pred", "nil-target", "nil-both", "rank0-pred", "rank0-target", "rank0-both", "rank2-pred", "rank2-target", "rank2-both", "column", "row", "length", "length1", "device-target", "device-pred", "device-both"}
var sources = []string{"", "", "tracked", "slice", "reshape", "result", "spent", "same"}

func vec(v []float64, how string) (T, error) {
	n := len(v)
	switch how {
	case "tracked":
		return tensor.TensorOf(append([]float64{}, v...), cfg(true))
	case "slice":
		w := append(append([]float64{7, 7}, v...), 9)
		t, err := tensor.TensorOf(w, cfg(false))
		if err != nil {
			return nil, err
		}
		return t.Slice([]tensor.Range{{From: 2, To: n + 2}})
	case "reshape":
		t, err := tensor.TensorOf([][]float64{append([]float64{}, v...)}, cfg(true))
		if err != nil {
			return nil, err
		}
		return t.Reshape([]int{n})
	case "result":
		t, err := tensor.TensorOf(append([]float64{}, v...), cfg(true))
		if err != nil {
			return nil, err
		}
		return t.Scale(1), nil
	case "spent":
		t, err := tensor.TensorOf(append([]float64{}, v...), cfg(true))
		if err != nil {
			return nil, err
		}
		if err = tensor.BackPropagate(t); err != nil {
			return nil, err
		}
		return t, nil
	}
	return tensor.TensorOf(append([]float64{}, v...), cfg(false))
}

func execC19(p *Plan, o *Obs) *Violation {
	type acc struct {
		m              *metrics.Accuracy
		total, correct int
	}
	accs := map[int]*acc{}
	type batch struct {
		p, t   T
		n, hit int
	}
	batches := map[int]*batch{}
	accepted, rejected := 0, 0
	check := func(s Step, what string) *Violation {
		for id, a := range accs {
			var x float64
			f := guard(func() (err error) { x, err = a.m.Result(); return err })
			if f != nil {
				return viol("result-fails", s.ID, "Result of accumulator %d after %d accepted positions: %s", id, a.total, f)
			}
			want := 0.
			if a.total > 0 {
				want = float64(a.correct) / float64(a.total)
			}
			if !(x >= 0 && x <= 1) {
				return viol("result-range", s.ID, "accumulator %d: Result is %v", id, x)
			}
			if math.Abs(x-want) > 1e-14*want {
				c := "result-value"
				if what == "rejected" {
					c = "rejected-call-counted"
				}
				return viol(c, s.ID, "accumulator %d after %s (%s): Result is %v, matched/total is %d/%d = %v", id, s.K, s.Op, x, a.correct, a.total, want)
			}
			if id == s.In[0] {
				o.LogF(x)
			}
		}
		return nil
	}
	for _, s := range p.Steps {
		switch s.K {
		case "acc":
			accs[s.ID] = &acc{m: metrics.NewAccuracy()}
			s.In = []int{s.ID}
			if v := check(s, "new"); v != nil {
				return v
			}
		case "result":
			if accs[s.In[0]] == nil {
				continue
			}
			if v := check(s, "result"); v != nil {
				return v
			}
		case "again", "mixed":
			if len(s.In) < 2 {
				continue
			}
			a, b := accs[s.In[0]], batches[s.In[1]]
			if a == nil || b == nil {
				continue
			}
			yp, yt := b.p, b.t
			if s.B {
				yp, yt = yt, yp
			}
			if s.K == "mixed" { // one half of an earlier batch with something that does not fit
				f := guard(func() (err error) {
					x, err := tensor.Full([]int{b.n + s.I[0]}, 1, cfg(false))
					if s.B {
						yp = x
					} else {
						yt = x
					}
					return err
				})
				if f != nil {
					continue
				}
				f = guard(func() error { return a.m.Accumulate(yp, yt) })
				o.LogStep(s)
				o.Inc("fault.length-of-earlier")
				if f == nil || f.Panic != "" {
					return viol("invalid-call-accepted", s.ID, "Accumulate of %d predictions or targets with %d: %v", b.n, b.n+s.I[0], f)
				}
				rejected++
				if v := check(s, "rejected"); v != nil {
					return v
				}
				continue
			}
			o.LogStep(s)
			for i := 0; i < s.I[0]; i++ {
				if f := guard(func() error { return a.m.Accumulate(yp, yt) }); f != nil {
					return viol("valid-call-rejected", s.ID, "Accumulate of %d valid pairs, once more: %s", b.n, f)
				}
				a.total += b.n
				a.correct += b.hit
				accepted++
				o.Inc("fault.redelivered")
				o.Add("positions", int64(b.n))
				if v := check(s, "accepted"); v != nil {
					return v
				}
			}
		case "deliver", "bulk":
			a := accs[s.In[0]]
			if a == nil {
				continue
			}
			v := unfs(s.F)
			if s.K == "bulk" {
				if v = bulkVals(s); v == nil {
					continue
				}
				o.Inc("bulk-batches")
			}
			n := len(v) / 2
			var yp, yt T
			f := guard(func() (err error) {
				if yp, err = vec(v[:n], s.X); err != nil {
					return
				}
				yt, err = vec(v[n:], s.X)
				return
			})
			if f != nil {
				o.Inc("dropped.batch")
				continue
			}
			if s.X == "same" { // one tensor as prediction and target
				yt = yp
				v = append(v[:n:n], v[:n]...)
			}
			f = guard(func() error { return a.m.Accumulate(yp, yt) })
			o.LogStep(s)
			if f != nil {
				return viol("valid-call-rejected", s.ID, "Accumulate of %d valid pairs (%s): %s", n, s.X, f)
			}
			b := &batch{p: yp, t: yt, n: n}
			for i := 0; i < n; i++ {
				if v[i] == v[n+i] {
					b.hit++
				}
			}
			batches[s.ID] = b
			a.total += n
			a.correct += b.hit
			accepted++
			o.State(mix(uint64(a.total)<<20 ^ uint64(a.correct)))
			o.Inc("batches")
			o.Add("positions", int64(n))
			if v := check(s, "accepted"); v != nil {
				return v
			}
		case "reject":
			a := accs[s.In[0]]
			if a == nil {
				continue
			}
			yp, yt, err := badBatch(s)
			if err != nil {
				o.Inc("dropped.reject")
				continue
			}
			f := guard(func() error { return a.m.Accumulate(yp, yt) })
			o.LogStep(s)
			o.Inc("fault." + s.Op)
			if f != nil && f.Panic != "" {
				return viol("panic", s.ID, "Accumulate with invalid input (%s): %s", s.Op, f)
			}
			if f == nil {
				return viol("invalid-call-accepted", s.ID, "Accumulate with invalid input (%s, sizes %v) was accepted", s.Op, s.I)
			}
			rejected++
			if v := check(s, "rejected"); v != nil {
				return v
			}
		}
	}
	o.NonTriv = accepted > 0 && rejected > 0
	return nil
}

func badBatch(s Step) (yp, yt T, err error) {
	v := unfs(s.F)
	n, k := s.I[0], s.I[1]
	if yp, err = vec(v, ""); err != nil {
		return
	}
	if yt, err = vec(v, ""); err != nil {
		return
	}
	mk := func(shape []int) (t T) {
		if err == nil {
			t, err = tensor.Full(shape, v[0], cfg(s.B))
		}
		return
	}
	switch s.Op {
	case "nil-pred":
		yp = nil
	case "nil-target":
		yt = nil
	case "nil-both":
		yp, yt = nil, nil
	case "rank0-pred":
		yp = mk([]int{})
	case "rank0-target":
		yt = mk([]int{})
	case "rank0-both":
		yp, yt = mk([]int{}), mk([]int{})
	case "rank2-pred":
		yp = mk([]int{n, k})
	case "rank2-target":
		yt = mk([]int{n, k})
	case "rank2-both":
		yp, yt = mk([]int{n, k}), mk([]int{n, k})
	case "column":
		yp, yt = mk([]int{n, 1}), mk([]int{n, 1})
	case "row":
		yp, yt = mk([]int{1, n}), mk([]int{1, n})
	case "length":
		yt = mk([]int{n + k})
	case "length1": // would broadcast
		if n == 1 {
			yt = mk([]int{2})
		} else {
			yt = mk([]int{1})
		}
	case "device-target":
		yt = &foreign{shape: []int{n}}
	case "device-pred":
		yp = &foreign{shape: []int{n}}
	case "device-both":
		yp, yt = &foreign{shape: []int{n}}, &foreign{shape: []int{n}}
	}
	if s.B && s.Op[:3] != "nil" && s.Op[:3] != "dev" {
		yp, yt = yt, yp
	}
	return
}
