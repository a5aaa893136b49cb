package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"strconv"
)

// ---- PRNG: every choice of a run is drawn from one of these ----

type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewRng(parts ...uint64) *Rng {
	s := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		s = mix(s + 0x9e3779b97f4a7c15 + p)
	}
	return &Rng{s}
}

func hashStr(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

func (r *Rng) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) In(lo, hi int) int            { return lo + r.N(hi-lo+1) }
func (r *Rng) F() float64                   { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) P(p float64) bool             { return r.F() < p }
func (r *Rng) Range(lo, hi float64) float64 { return lo + (hi-lo)*r.F() }
func (r *Rng) Pick(xs ...int) int           { return xs[r.N(len(xs))] }
func (r *Rng) PickF(xs ...float64) float64  { return xs[r.N(len(xs))] }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func (r *Rng) Norm() float64 {
	return math.Sqrt(-2*math.Log(1-r.F())) * math.Cos(2*math.Pi*r.F())
}

// ---- plans ----

// F64 survives JSON exactly, including NaN, infinities and negative zero.
type F64 float64

func (f F64) MarshalJSON() ([]byte, error) {
	x := float64(f)
	if math.IsNaN(x) || math.IsInf(x, 0) || (x == 0 && math.Signbit(x)) {
		return json.Marshal(strconv.FormatFloat(x, 'g', -1, 64))
	}
	return []byte(strconv.FormatFloat(x, 'g', -1, 64)), nil
}

func (f *F64) UnmarshalJSON(b []byte) error {
	s := string(b)
	if len(s) > 1 && s[0] == '"' {
		s = s[1 : len(s)-1]
	}
	x, err := strconv.ParseFloat(s, 64)
	*f = F64(x)
	return err
}

func fs(x []float64) []F64 {
	o := make([]F64, len(x))
	for i, v := range x {
		o[i] = F64(v)
	}
	return o
}

func unfs(x []F64) []float64 {
	o := make([]float64, len(x))
	for i, v := range x {
		o[i] = float64(v)
	}
	return o
}

// Step is one event of a simulated run: an operation of a client or a fault.
type Step struct {
	ID int      `json:"id"`
	C  int      `json:"c,omitempty"`  // client
	K  string   `json:"k"`            // kind
	Op string   `json:"op,omitempty"` // operation
	In []int    `json:"in,omitempty"` // ids of earlier steps whose results are used
	I  []int    `json:"i,omitempty"`
	F  []F64    `json:"f,omitempty"`
	R  [][2]int `json:"r,omitempty"`
	B  bool     `json:"b,omitempty"`
	X  string   `json:"x,omitempty"`
	O  int      `json:"o,omitempty"` // component object used (0: one of its own)
}

func (s Step) f(i int) float64 { return float64(s.F[i]) }

// vals are the values of a leaf: written out, one value for all elements, or, where
// they are many, drawn from the seed in the step.
func (s Step) vals() []float64 {
	n := nelems(s.I)
	switch {
	case len(s.F) == n || n < 0 || n > 1<<24:
	case len(s.F) == 4: // seed, bounds, share of ties
		r, v := NewRng(uint64(s.f(0)), 77), make([]float64, n)
		for i := range v {
			v[i] = r.Range(s.f(1), s.f(2))
			if r.P(s.f(3)) {
				v[i] = math.Round(v[i])
			}
		}
		return v
	case len(s.F) == 1:
		v := make([]float64, n)
		for i := range v {
			v[i] = s.f(0)
		}
		return v
	}
	return unfs(s.F)
}

func (s Step) String() string {
	b, _ := json.Marshal(s)
	return string(b)
}

// Plan is a complete run: replaying it needs nothing else.
type Plan struct {
	Prop   string         `json:"prop"`
	Kind   string         `json:"kind,omitempty"`
	Run    int            `json:"run"`
	Seed   uint64         `json:"seed"`
	Params map[string]int `json:"params,omitempty"`
	FParam map[string]F64 `json:"fparams,omitempty"`
	Steps  []Step         `json:"steps"`
	// C20 only
	Sched *SchedSpec `json:"sched,omitempty"`
}

func (p *Plan) clone() *Plan {
	q := *p
	q.Steps = append([]Step(nil), p.Steps...)
	if p.Sched != nil {
		s := *p.Sched
		q.Sched = &s
	}
	return &q
}

// Violation is what an oracle reports.
type Violation struct {
	Class  string `json:"class"`
	Step   int    `json:"step"`
	Detail string `json:"detail"`
}

func viol(class string, step int, format string, a ...any) *Violation {
	return &Violation{Class: class, Step: step, Detail: fmt.Sprintf(format, a...)}
}

// Obs collects what one or more runs did. Logging draws nothing from any PRNG.
type Obs struct {
	Counts     map[string]int64 `json:"counts"` // faults fired, probes, operations
	Ticks      uint64           `json:"ticks"`
	Digest     uint64           `json:"digest"` // of the event log
	States     map[uint64]bool  `json:"-"`      // distinct states / shapes of runs by the world's measure
	Cases      map[uint64]bool  `json:"-"`      // distinct non-trivial runs
	Hashes     []uint64         `json:"states"` // for transport
	CaseHashes []uint64         `json:"cases"`
	Known      map[string]int64 `json:"known"`   // known-finding hits
	Samples    []string         `json:"samples"` // written-out cases
	NonTriv    bool             `json:"-"`       // this run is non-trivial by the world's rule
}

func NewObs() *Obs {
	return &Obs{Counts: map[string]int64{}, States: map[uint64]bool{}, Cases: map[uint64]bool{}, Known: map[string]int64{}, Digest: 14695981039346656037}
}

func (o *Obs) Inc(k string)          { o.Counts[k]++ }
func (o *Obs) Add(k string, n int64) { o.Counts[k] += n }
func (o *Obs) State(h uint64)        { o.States[h] = true }
func (o *Obs) logU(x uint64) {
	o.Digest = (o.Digest ^ x) * 1099511628211
	o.Digest ^= o.Digest >> 29
}
func (o *Obs) LogS(s string) { o.logU(hashStr(s)) }
func (o *Obs) LogF(x float64) {
	if x != x {
		o.logU(0x7ff8000000000001)
		return
	}
	o.logU(math.Float64bits(x))
}
func (o *Obs) LogFs(xs []float64) {
	for _, x := range xs {
		o.LogF(x)
	}
}
func (o *Obs) LogStep(s Step) { o.LogS(s.K + "/" + s.Op); o.logU(uint64(s.ID)) }
