package main

import (
	"fmt"
	"math"

	"qeepverif/simrt"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// Adapter between steps and the real library.

type T = tensor.Tensor

// Args remembers every slice handed to, or received from, the library so that an
// adversarial caller can write into it later.
type Args struct {
	ints   [][]int
	ranges [][]tensor.Range
	tens   [][]T
	flats  [][]float64
	nest   []any // outer levels of nested data

	was *Args // copies of the above as last written by the caller
}

// keep copies the slices as the caller left them (every Args once before the call).
func (a *Args) keep() {
	w := &Args{}
	for _, s := range a.ints {
		w.ints = append(w.ints, append([]int{}, s...))
	}
	for _, s := range a.ranges {
		w.ranges = append(w.ranges, append([]tensor.Range{}, s...))
	}
	for _, s := range a.tens {
		w.tens = append(w.tens, append([]T{}, s...))
	}
	for _, s := range a.flats {
		w.flats = append(w.flats, append([]float64{}, s...))
	}
	for _, n := range a.nest {
		w.nest = append(w.nest, rowIDs(n))
	}
	a.was = w
}

// rowIDs identifies the rows that nested data consist of.
func rowIDs(n any) []any {
	var out []any
	switch v := n.(type) {
	case [][]float64:
		for _, r := range v {
			out = append(out, len(r))
			if len(r) > 0 {
				out = append(out, &r[0])
			}
		}
	case [][][]float64:
		for _, r := range v {
			out = append(out, len(r))
			if len(r) > 0 {
				out = append(out, &r[0])
			}
		}
	case [][][][]float64:
		for _, r := range v {
			out = append(out, len(r))
			if len(r) > 0 {
				out = append(out, &r[0])
			}
		}
	}
	return out
}

// changed tells which of the caller's slices somebody else wrote into.
func (a *Args) changed() string {
	if a == nil || a.was == nil {
		return ""
	}
	w := a.was
	for k, s := range w.ints {
		if !sameShape(s, a.ints[k]) {
			return fmt.Sprintf("list %v became %v", s, a.ints[k])
		}
	}
	for k, s := range w.ranges {
		for i := range s {
			if s[i] != a.ranges[k][i] {
				return fmt.Sprintf("index %v became %v", s, a.ranges[k])
			}
		}
	}
	for k, s := range w.tens {
		for i := range s {
			if s[i] != a.tens[k][i] {
				return fmt.Sprintf("entry %d of a list of %d tensors was replaced", i, len(s))
			}
		}
	}
	for k, s := range w.flats {
		if i := sameBitsAll(s, a.flats[k]); i >= 0 {
			return fmt.Sprintf("data %v became %v", s, a.flats[k])
		}
	}
	for k, n := range w.nest {
		now := rowIDs(a.nest[k])
		for i, x := range n.([]any) {
			if i >= len(now) || now[i] != x {
				return "a row of nested data was replaced"
			}
		}
	}
	return ""
}

func (a *Args) n() int {
	if a == nil {
		return 0
	}
	return len(a.ints) + len(a.ranges) + len(a.tens) + len(a.flats) + len(a.nest)
}

func (a *Args) Ints(x []int) []int {
	c := append(make([]int, 0, len(x)+2), x...) // room behind, as appending callers have
	if x == nil {
		c = nil
	}
	if a != nil {
		a.ints = append(a.ints, c)
		a.keep()
	}
	return c
}

func (a *Args) Ranges(x [][2]int) []tensor.Range {
	if x == nil {
		return nil
	}
	c := make([]tensor.Range, len(x), len(x)+2)
	for i, r := range x {
		c[i] = tensor.Range{From: r[0], To: r[1]}
	}
	if a != nil {
		a.ranges = append(a.ranges, c)
		a.keep()
	}
	return c
}

func (a *Args) Tens(x []T) []T {
	c := append(make([]T, 0, len(x)+1), x...)
	if a != nil {
		a.tens = append(a.tens, c)
		a.keep()
	}
	return c
}

// scribble overwrites everything, in a way chosen by the mode.
func (a *Args) scribble(mode int, other T) {
	defer a.keep()
	for _, s := range a.ints {
		s = s[:cap(s)]
		for i := range s {
			switch mode % 4 {
			case 0:
				s[i]++
			case 1:
				s[i] = -7
			case 2:
				s[i] = 1
			default:
				s[i] = 1 << 20
			}
		}
	}
	for _, s := range a.ranges {
		s = s[:cap(s)]
		for i := range s {
			switch mode % 4 {
			case 0:
				s[i].From++
				s[i].To++
			case 1:
				s[i] = tensor.Range{From: -3, To: 99}
			case 2:
				s[i] = tensor.Range{From: 0, To: 1}
			default:
				s[i] = tensor.Range{}
			}
		}
	}
	for _, s := range a.tens {
		s = s[:cap(s)]
		for i := range s {
			if mode%2 == 0 {
				s[i] = nil
			} else {
				s[i] = other
			}
		}
	}
	for _, s := range a.flats {
		for i := range s {
			switch mode % 3 {
			case 0:
				s[i] = math.NaN()
			case 1:
				s[i] += 1000
			default:
				s[i] = -s[i] - 5
			}
		}
	}
	for _, n := range a.nest {
		switch v := n.(type) {
		case [][]float64:
			for i := range v {
				v[i] = []float64{-99}
			}
		case [][][]float64:
			for i := range v {
				v[i] = [][]float64{{-99}}
			}
		case [][][][]float64:
			for i := range v {
				v[i] = [][][]float64{{{-99}}}
			}
		}
	}
}

// Fail describes how a call ended when it did not return a result.
type Fail struct {
	Err   error
	Panic string
	Tick  bool
}

func (f *Fail) String() string {
	switch {
	case f == nil:
		return "ok"
	case f.Tick:
		return "deadline of simulated time exceeded"
	case f.Panic != "":
		return "panic: " + f.Panic
	}
	return "error: " + f.Err.Error()
}

func guard(f func() error) (fail *Fail) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case simrt.TickLimit:
				fail = &Fail{Tick: true}
			default:
				fail = &Fail{Panic: fmt.Sprint(x)}
			}
		}
	}()
	if err := f(); err != nil {
		return &Fail{Err: err}
	}
	return nil
}

func cfg(track bool) *tensor.Config { return &tensor.Config{Device: tensor.CPU, GradTrack: track} }

// leafOf makes a tensor with the given content.
func leafOf(shape []int, v []float64, track bool, a *Args) (t T, err error) {
	switch len(shape) {
	case 0:
		return tensor.TensorOf(v[0], cfg(track))
	case 1:
		d := append(make([]float64, 0, len(v)+1), v...)
		if a != nil {
			a.flats = append(a.flats, d)
			a.keep()
		}
		return tensor.TensorOf(d, cfg(track))
	case 2:
		d := nest2(shape, v, a)
		return tensor.TensorOf(d, cfg(track))
	case 3:
		d := nest3(shape, v, a)
		return tensor.TensorOf(d, cfg(track))
	case 4:
		m := nelems(shape[1:])
		d := make([][][][]float64, shape[0])
		for i := range d {
			d[i] = nest3(shape[1:], v[i*m:(i+1)*m], a)
		}
		if a != nil {
			a.nest = append(a.nest, d)
			a.keep()
		}
		return tensor.TensorOf(d, cfg(track))
	}
	f, err := tensor.TensorOf(append([]float64{}, v...), cfg(false))
	if err != nil {
		return nil, err
	}
	t, err = f.Reshape(a.Ints(shape))
	if err != nil {
		return nil, err
	}
	t.ResetGradContext(track)
	return t, nil
}

func nest2(shape []int, v []float64, a *Args) [][]float64 {
	d := make([][]float64, shape[0])
	all := append([]float64{}, v...)
	for i := range d { // rows of one array
		d[i] = all[i*shape[1] : (i+1)*shape[1]]
		if a != nil {
			a.flats = append(a.flats, d[i])
		}
	}
	if a != nil {
		a.nest = append(a.nest, d)
		a.keep()
	}
	return d
}

func nest3(shape []int, v []float64, a *Args) [][][]float64 {
	m := shape[1] * shape[2]
	d := make([][][]float64, shape[0])
	for i := range d {
		d[i] = nest2(shape[1:], v[i*m:(i+1)*m], a)
	}
	if a != nil {
		a.nest = append(a.nest, d)
		a.keep()
	}
	return d
}

// read returns shape and elements through the public accessors.
func read(t T) (shape []int, v []float64, fail *Fail) {
	fail = guard(func() error {
		shape = t.Shape()
		n := nelems(shape)
		if n < 0 || n > 1<<22 {
			return fmt.Errorf("absurd shape %v", shape)
		}
		v = make([]float64, n)
		ix := make([]int, len(shape))
		for k := 0; k < n; k++ {
			x, err := t.At(ix...)
			if err != nil {
				return err
			}
			v[k] = x
			for d := len(ix) - 1; d >= 0; d-- {
				ix[d]++
				if ix[d] < shape[d] {
					break
				}
				ix[d] = 0
			}
		}
		return nil
	})
	return
}

func isNil(t T) bool { return t == nil }

// libApply runs one operation of the real library.
func libApply(s Step, in []T, a *Args) (out T, fail *Fail) {
	fail = guard(func() (err error) {
		out, err = applyRaw(s, in, a)
		return err
	})
	if fail == nil && out == nil {
		fail = &Fail{Err: fmt.Errorf("nil result without an error")}
	}
	return
}

func applyRaw(s Step, in []T, a *Args) (T, error) {
	if isComp(s.Op) {
		return compRaw(s, in, a)
	}
	x := in[0]
	switch s.Op {
	case "Slice":
		return x.Slice(a.Ranges(s.R))
	case "Patch":
		return x.Patch(a.Ranges(s.R), in[1])
	case "Transpose":
		return x.Transpose()
	case "Reshape":
		return x.Reshape(a.Ints(s.I))
	case "UnSqueeze":
		return x.UnSqueeze(s.I[0])
	case "Squeeze":
		return x.Squeeze(s.I[0])
	case "Flatten":
		return x.Flatten(s.I[0])
	case "Broadcast":
		return x.Broadcast(a.Ints(s.I))
	case "SumAlong":
		return x.SumAlong(s.I[0])
	case "MaxAlong":
		return x.MaxAlong(s.I[0])
	case "MinAlong":
		return x.MinAlong(s.I[0])
	case "AvgAlong":
		return x.AvgAlong(s.I[0])
	case "VarAlong":
		return x.VarAlong(s.I[0])
	case "StdAlong":
		return x.StdAlong(s.I[0])
	case "MeanAlong":
		return x.MeanAlong(s.I[0])
	case "Scale":
		return x.Scale(s.f(0)), nil
	case "Pow":
		return x.Pow(s.f(0)), nil
	case "Exp":
		return x.Exp(), nil
	case "Log":
		return x.Log(), nil
	case "Sin":
		return x.Sin(), nil
	case "Cos":
		return x.Cos(), nil
	case "Tan":
		return x.Tan(), nil
	case "Sinh":
		return x.Sinh(), nil
	case "Cosh":
		return x.Cosh(), nil
	case "Tanh":
		return x.Tanh(), nil
	case "Eq":
		return x.Eq(in[1])
	case "Ne":
		return x.Ne(in[1])
	case "Gt":
		return x.Gt(in[1])
	case "Ge":
		return x.Ge(in[1])
	case "Lt":
		return x.Lt(in[1])
	case "Le":
		return x.Le(in[1])
	case "ElMax":
		return x.ElMax(in[1])
	case "ElMin":
		return x.ElMin(in[1])
	case "Add":
		return x.Add(in[1])
	case "Sub":
		return x.Sub(in[1])
	case "Mul":
		return x.Mul(in[1])
	case "Div":
		return x.Div(in[1])
	case "Dot":
		return x.Dot(in[1])
	case "MatMul":
		return x.MatMul(in[1])
	case "Concat":
		return tensor.Concat(a.Tens(in), s.I[0])
	}
	return nil, fmt.Errorf("unknown operation %q", s.Op)
}

// same compares two floats, NaN equal to NaN, bit for bit otherwise (but -0 == 0 not).
func sameBits(a, b float64) bool {
	if a != a && b != b {
		return true
	}
	return math.Float64bits(a) == math.Float64bits(b)
}

func sameBitsAll(a, b []float64) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if !sameBits(a[i], b[i]) {
			return i
		}
	}
	return -1
}
