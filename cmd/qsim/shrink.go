package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"qeepverif/simrt"
)

// report turns the first violation of a batch into a minimised replay file.
func report(w *World, prop, tier string, seed uint64, b *batchOut, scratch, repDir string) string {
	os.MkdirAll(repDir, 0o755)
	path := filepath.Join(repDir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, b.ViolRun))
	write := func(plans []*Plan, v *Violation, note string) string {
		js, _ := json.MarshalIndent(Replay{Property: prop, Tier: tier, Seed: seed, Run: b.ViolRun, Class: v.Class, Detail: v.Detail, Note: note, Plans: plans}, "", " ")
		os.WriteFile(path, append(js, '\n'), 0o644)
		fmt.Printf("%s: class %s at step %d: %s\n", prop, v.Class, v.Step, v.Detail)
		if note != "" {
			fmt.Println(note)
		}
		return path
	}
	deadline := time.Now().Add(60 * time.Second)
	run := b.ViolRun
	if run < 0 { // the whole process went down: find the run
		for r := b.From; r < b.From+w.Batch; r++ {
			res := tryPlans(prop, []*Plan{w.Gen(seed, r, tier)}, scratch, 60*time.Second)
			if res.Viol != nil {
				run = r
				break
			}
		}
		if run < 0 {
			var plans []*Plan
			for r := b.From; r < b.From+w.Batch; r++ {
				plans = append(plans, w.Gen(seed, r, tier))
			}
			return write(plans, b.Viol, "the process ended abnormally only after several runs")
		}
		b.ViolRun = run
		path = filepath.Join(repDir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, run))
	}
	plan := w.Gen(seed, run, tier)
	plans := []*Plan{plan}
	// A plan that needs its schedule recorded is re-recorded by the world before shrinking.
	res := tryPlans(prop, plans, scratch, 60*time.Second)
	if res.Viol == nil {
		// does it need the runs before it in the same process?
		plans = nil
		for r := b.From; r <= run; r++ {
			plans = append(plans, w.Gen(seed, r, tier))
		}
		res = tryPlans(prop, plans, scratch, 120*time.Second)
		if res.Viol == nil {
			return write(plans, b.Viol, "not reproduced when replayed in a fresh process: behaviour depends on something outside the simulation")
		}
	}
	class := res.Viol.Class
	best := res.Viol
	attempts := 0
	ok := func(c []*Plan) bool {
		if time.Now().After(deadline) || attempts > 1500 {
			return false
		}
		attempts++
		r := tryPlans(prop, c, scratch, 60*time.Second)
		if r.Viol != nil && r.Viol.Class == class {
			best = r.Viol
			return true
		}
		return false
	}
	// whole earlier runs first
	for i := 0; len(plans) > 1 && i < len(plans)-1; {
		c := append(append([]*Plan{}, plans[:i]...), plans[i+1:]...)
		if ok(c) {
			plans = c
		} else {
			i++
		}
	}
	for pi := len(plans) - 1; pi >= 0; pi-- {
		set := func(steps []Step) []*Plan {
			c := append([]*Plan{}, plans...)
			q := c[pi].clone()
			q.Steps = steps
			c[pi] = q
			return c
		}
		for round := 0; round < 3; round++ {
			n0 := len(plans[pi].Steps)
			for chunk := (n0 + 1) / 2; chunk >= 1; chunk /= 2 {
				for i := len(plans[pi].Steps) - chunk; i >= 0; i -= chunk {
					st := plans[pi].Steps
					if i+chunk > len(st) {
						continue
					}
					c := set(append(append([]Step{}, st[:i]...), st[i+chunk:]...))
					if ok(c) {
						plans = c
					}
				}
			}
			if len(plans[pi].Steps) == n0 {
				break
			}
		}
	}
	if plan.Sched != nil {
		plans = shrinkSched(prop, plans, scratch, ok)
	}
	// the minimised file has to reproduce the violation once more
	if r := tryPlans(prop, plans, scratch, 60*time.Second); r.Viol != nil {
		best = r.Viol
	}
	return write(plans, best, fmt.Sprintf("minimised with %d executions", attempts))
}

// SchedSpec says how the scheduler of a C20 run decides.
type SchedSpec struct {
	Policy   int        `json:"policy"`
	Seed     uint64     `json:"seed"`
	Prob     uint32     `json:"prob,omitempty"`
	Depth    int        `json:"depth,omitempty"`
	Horizon  uint64     `json:"horizon,omitempty"`
	SiteAt   float64    `json:"site_at,omitempty"` // position among the statements of the library
	StallT   int        `json:"stall_task,omitempty"`
	StallAt  uint64     `json:"stall_at,omitempty"`
	StallFor uint64     `json:"stall_for,omitempty"`
	Switches []swRecord `json:"switches,omitempty"` // replay: the recorded decisions
}

type swRecord struct {
	At   uint64 `json:"at"`
	To   int    `json:"to"`
	Site uint32 `json:"site,omitempty"`
	Name string `json:"where,omitempty"`
}

// shrinkSched replaces the seeded schedule of the last plan by the recorded decisions
// and drops the decisions that are not needed.
func shrinkSched(prop string, plans []*Plan, scratch string, ok func([]*Plan) bool) []*Plan {
	last := len(plans) - 1
	res := tryPlans(prop, plans, scratch, 60*time.Second)
	if res.Viol == nil {
		return plans
	}
	with := func(sw []swRecord) []*Plan {
		c := append([]*Plan{}, plans...)
		q := c[last].clone()
		q.Sched.Policy = simrt.PolicyReplay
		q.Sched.Switches = sw
		c[last] = q
		return c
	}
	// fewest decisions first: none, then bisection over a growing prefix
	var sw []swRecord
	for _, w := range res.Switches {
		w.Name = siteName(w.Site)
		sw = append(sw, w)
	}
	if c := with(nil); ok(c) {
		return c
	}
	if !ok(with(sw)) {
		return plans // schedules longer than the record stay seeded
	}
	lo, hi := 0, len(sw)
	for hi-lo > 1 {
		mid := (lo + hi) / 2
		if ok(with(sw[:mid])) {
			hi = mid
		} else {
			lo = mid
		}
	}
	sw = sw[:hi]
	for chunk := (len(sw) + 1) / 2; chunk >= 1; chunk /= 2 {
		for i := len(sw) - chunk; i >= 0; i -= chunk {
			if i+chunk > len(sw) {
				continue
			}
			c := append(append([]swRecord{}, sw[:i]...), sw[i+chunk:]...)
			if ok(with(c)) {
				sw = c
			}
		}
	}
	return with(sw)
}
