package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"qeepverif/simrt"
)

// World is one simulated system with its oracles.
type World struct {
	Gen          func(seed uint64, run int, tier string) *Plan
	Exec         func(p *Plan, o *Obs) *Violation
	Batch        int // runs per worker process
	Quick        int // runs
	Thorough     int
	Race         bool
	Known        map[string]string // known-finding key -> what fails
	Rule         string            // what a case is, what makes one non-trivial
	Measure      string            // what a distinct history is
	StateMeasure string            // what else is counted as a distinct state or interleaving
	Real         []string
	Stub         []string
	Assume       []string
	Final        func(o *Obs) *Violation // oracle over everything a whole batch saw (optional)
}

var worlds = map[string]*World{}

type batchOut struct {
	From, To int
	Obs      *Obs
	NonTriv  int
	Viol     *Violation
	ViolRun  int
	Digests  []uint64
	Crash    string
	Race     string
}

// panickingFunc is the innermost function of a recovered panic that is not the run-time's.
func panickingFunc(stack string) string {
	_, rest, ok := strings.Cut(stack, "\npanic(")
	if !ok {
		return ""
	}
	for _, l := range strings.Split(rest, "\n")[1:] {
		if l == "" || l[0] == '\t' || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "math") || strings.HasPrefix(l, "slices") || strings.HasPrefix(l, "sync") {
			continue
		}
		return l[:strings.LastIndexByte(l+"(", '(')]
	}
	return ""
}

func runOne(w *World, p *Plan, o *Obs) (v *Violation) {
	o.NonTriv = false
	o.Digest = 14695981039346656037
	t0 := simrt.Ticks()
	race0 := simrt.RaceErrors()
	simrt.SetHorizon(horizon)
	defer func() {
		if r := recover(); r != nil {
			if simrt.PastHorizon() {
				v = endlessRun(o, t0)
				return
			}
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			if f := panickingFunc(string(buf)); strings.HasPrefix(f, "github.com/sahandsafizadeh/qeep/") {
				simrt.SetDeadline(0)
				simrt.SetHorizon(0)
				v = viol("library-panic", -1, "%s panicked: %v", f, r)
				return
			}
			fmt.Fprintf(os.Stderr, "qsim: internal error in run %d of %s: %v\n%s\n", p.Run, p.Prop, r, buf)
			os.Exit(3)
		}
	}()
	v = w.Exec(p, o)
	if simrt.PastHorizon() {
		return endlessRun(o, t0)
	}
	simrt.SetDeadline(0)
	simrt.SetHorizon(0)
	o.Ticks += simrt.Ticks() - t0
	if m := int64(simrt.Ticks() - t0); m > o.Counts["max.run-ticks"] {
		o.Counts["max.run-ticks"] = m
	}
	if n := simrt.RaceErrors() - race0; n > 0 && (v == nil || v.Class != "data-race") {
		v = viol("data-race", -1, "%d data race(s) reported by the race detector", n)
	}
	if v != nil {
		o.LogS(v.Class)
	}
	return v
}

// horizon is the simulated time a run may take. The longest run of the unchanged
// library takes a tenth of it.
const horizon = 8_000_000_000

// endlessRun: an operation of the library did not come to an end.
func endlessRun(o *Obs, t0 uint64) *Violation {
	o.Ticks += simrt.Ticks() - t0
	simrt.SetDeadline(0)
	simrt.SetHorizon(0)
	v := viol("does-not-finish", -1, "the run did not finish within %d ticks of simulated time", uint64(horizon))
	o.LogS(v.Class)
	return v
}

func structHash(p *Plan) uint64 {
	h := uint64(1469598103934665603)
	add := func(x uint64) { h = mix(h ^ x*0x9e3779b97f4a7c15) }
	for _, s := range p.Steps {
		add(hashStr(s.K + "|" + s.Op + "|" + s.X))
		add(uint64(s.C))
		for _, i := range s.In {
			add(uint64(i) + 77)
		}
		for _, i := range s.I {
			add(uint64(i) + 177)
		}
		for _, r := range s.R {
			add(uint64(r[0])<<20 + uint64(r[1]))
		}
		add(uint64(len(s.F)) + 7777)
		if s.B {
			add(5)
		}
	}
	return h
}

func worker(args []string) {
	fl := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Uint64("seed", 1, "")
	from := fl.Int("from", 0, "")
	to := fl.Int("to", 0, "")
	fl.Parse(args)
	w := worlds[*prop]
	b := batchOut{From: *from, To: *from, Obs: NewObs(), ViolRun: -1}
	for run := *from; run < *to; run++ {
		p := w.Gen(*seed, run, *tier)
		v := runOne(w, p, b.Obs)
		b.To = run + 1
		b.Digests = append(b.Digests, b.Obs.Digest)
		b.Obs.Inc("kind." + p.Kind)
		if b.Obs.NonTriv {
			b.NonTriv++
			b.Obs.Cases[structHash(p)] = true
			if len(b.Obs.Samples) < 1 && len(p.Steps) < 30 {
				js, _ := json.Marshal(p)
				b.Obs.Samples = append(b.Obs.Samples, string(js))
			}
		}
		if v != nil {
			b.Viol, b.ViolRun = v, run
			break
		}
	}
	if b.Viol == nil && w.Final != nil {
		if v := w.Final(b.Obs); v != nil {
			b.Viol, b.ViolRun = v, b.To-1
		}
	}
	for h := range b.Obs.States {
		b.Obs.Hashes = append(b.Obs.Hashes, h)
	}
	sort.Slice(b.Obs.Hashes, func(i, j int) bool { return b.Obs.Hashes[i] < b.Obs.Hashes[j] })
	for h := range b.Obs.Cases {
		b.Obs.CaseHashes = append(b.Obs.CaseHashes, h)
	}
	sort.Slice(b.Obs.CaseHashes, func(i, j int) bool { return b.Obs.CaseHashes[i] < b.Obs.CaseHashes[j] })
	js, err := json.Marshal(b)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Stdout.Write(js)
	os.Stdout.Write([]byte("\n"))
}

// Replay file: one or more plans executed in order in one fresh process; the
// last one violates.
type Replay struct {
	Property string    `json:"property"`
	Tier     string    `json:"tier"`
	Seed     uint64    `json:"seed"`
	Run      int       `json:"run"`
	Class    string    `json:"class"`
	Detail   string    `json:"detail"`
	Note     string    `json:"note,omitempty"`
	Plans    []*Plan   `json:"plans"`
	From     time.Time `json:"-"`
}

// execPlans runs the plans of a replay file in this process.
func execPlans(path string) (*Violation, *Obs) {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rp Replay
	if err := json.Unmarshal(data, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := worlds[rp.Property]
	o := NewObs()
	var v *Violation
	for _, p := range rp.Plans {
		if v = runOne(w, p, o); v != nil {
			return v, o
		}
	}
	if w.Final != nil {
		v = w.Final(o)
	}
	return v, o
}

func execCmd(args []string) {
	v, o := execPlans(args[0])
	js, _ := json.Marshal(map[string]any{"viol": v, "digest": o.Digest, "known": o.Known, "switches": lastSw})
	fmt.Println(string(js))
}

type execRes struct {
	Viol     *Violation
	Digest   uint64
	Crash    string
	Switches []swRecord // C20: the decisions of the last concurrent section
}

// try executes plans in a fresh process.
func tryPlans(prop string, plans []*Plan, dir string, timeout time.Duration) execRes {
	f, err := os.CreateTemp(dir, "cand*.json")
	if err != nil {
		fatal(err)
	}
	js, _ := json.Marshal(Replay{Property: prop, Plans: plans})
	f.Write(js)
	f.Close()
	defer os.Remove(f.Name())
	return tryFile(f.Name(), timeout)
}

func tryFile(path string, timeout time.Duration) execRes {
	out, errs, err := runProc(timeout, "exec", path)
	if err != nil {
		return execRes{Crash: crashText(err, errs), Viol: crashViol(err, errs)}
	}
	var r struct {
		Viol     *Violation
		Digest   uint64
		Switches []swRecord
	}
	if json.Unmarshal(out, &r) != nil {
		return execRes{Crash: "bad output: " + string(out)}
	}
	if r.Viol != nil && r.Viol.Class == "data-race" {
		r.Viol.Detail += "\n" + raceText(errs)
	}
	return execRes{Viol: r.Viol, Digest: r.Digest, Switches: r.Switches}
}

// stalled counts worker processes in which a goroutine waited for something the
// simulator does not control; those runs are repeated with plain goroutines.
var stalled atomic.Int64

const exitStalled = 77

func init() {
	simrt.Unscheduled = os.Getenv("QSIM_UNSCHED") != ""
	simrt.OnStall = func(stacks string) {
		fmt.Fprintf(os.Stderr, "qsim: stalled outside the simulator\n%s\n", stacks)
		os.Exit(exitStalled)
	}
}

func runProc(timeout time.Duration, args ...string) (stdout []byte, stderr string, err error) {
	if stalled.Load() < 10 {
		stdout, stderr, err = runProcEnv(timeout, nil, args...)
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != exitStalled {
			return
		}
		if stalled.Add(1) == 1 {
			fmt.Println("note: library code waits for something the simulator does not control; such runs are repeated with unscheduled goroutines")
			fmt.Fprintln(os.Stderr, head(stderr, 3000))
		}
	}
	return runProcEnv(timeout, []string{"QSIM_UNSCHED=1"}, args...)
}

func runProcEnv(timeout time.Duration, env []string, args ...string) (stdout []byte, stderr string, err error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), env...)
	cmd.Env = append(cmd.Env, "GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 history_size=3", "GOMAXPROCS=2", "GOTRACEBACK=all", "GOGC=200")
	var ob, eb strings.Builder
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err = cmd.Start(); err != nil {
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		err = fmt.Errorf("worker timed out after %v", timeout)
	}
	return []byte(ob.String()), eb.String(), err
}

func crashText(err error, errs string) string {
	if len(errs) > 4000 {
		errs = errs[:2000] + "\n...\n" + errs[len(errs)-2000:]
	}
	return err.Error() + "\n" + errs
}

// crashViol: a worker the library brought down (fatal error the runtime does not
// let anybody recover from) is a violation; an internal error of the simulator is not.
func crashViol(err error, errs string) *Violation {
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 && !strings.Contains(errs, "qsim: internal error") {
		switch {
		case strings.Contains(errs, "fatal error: stack overflow"), strings.Contains(errs, "stack exceeds"):
			return viol("process-crash", -1, "stack overflow\n%s", head(errs, 1500))
		case strings.Contains(errs, "fatal error: concurrent map"):
			return viol("process-crash", -1, "concurrent map access\n%s", head(errs, 1500))
		case strings.Contains(errs, "panic: "):
			return viol("process-crash", -1, "panic outside the calling goroutine\n%s", head(errs, 1500))
		case strings.Contains(errs, "all goroutines are asleep"):
			return viol("process-crash", -1, "deadlock\n%s", head(errs, 1500))
		}
	}
	return nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func raceText(errs string) string {
	i := strings.Index(errs, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s := errs[i:]
	if j := strings.Index(s[10:], "=================="); j > 0 {
		s = s[:j+10]
	}
	return head(s, 3000)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "qsim:", err)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: qsim check|replay|worker|exec|gen")
		os.Exit(2)
	}
	if os.Args[1] != "check" {
		seedable() // before anything is counted
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "exec":
		execCmd(os.Args[2:])
	case "gen":
		fl := flag.NewFlagSet("gen", flag.ExitOnError)
		prop := fl.String("prop", "", "")
		tier := fl.String("tier", "quick", "")
		seed := fl.Uint64("seed", 1, "")
		run := fl.Int("run", 0, "")
		fl.Parse(os.Args[2:])
		p := worlds[*prop].Gen(*seed, *run, *tier)
		js, _ := json.MarshalIndent(Replay{Property: *prop, Plans: []*Plan{p}}, "", " ")
		fmt.Println(string(js))
	case "survey": // development aid: every run in this process, all violations listed
		fl := flag.NewFlagSet("survey", flag.ExitOnError)
		prop := fl.String("prop", "", "")
		tier := fl.String("tier", "quick", "")
		seed := fl.Uint64("seed", 1, "")
		from := fl.Int("from", 0, "")
		to := fl.Int("to", 100, "")
		fl.Parse(os.Args[2:])
		w := worlds[*prop]
		o := NewObs()
		bad, nt := 0, 0
		t0 := time.Now()
		for r := *from; r < *to; r++ {
			p := w.Gen(*seed, r, *tier)
			if v := runOne(w, p, o); v != nil {
				bad++
				fmt.Printf("run %d kind %s class %s step %d: %s\n", r, p.Kind, v.Class, v.Step, head(v.Detail, 300))
			}
			if o.NonTriv {
				nt++
			}
		}
		js, _ := json.Marshal(o.Counts)
		fmt.Printf("%d violations, %d non-trivial, %.1fs\n%s\nknown %v\n", bad, nt, time.Since(t0).Seconds(), js, o.Known)
	case "check":
		check(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func replay(args []string) {
	data, err := os.ReadFile(args[0])
	if err != nil {
		fatal(err)
	}
	var rp Replay
	if err := json.Unmarshal(data, &rp); err != nil {
		fatal(err)
	}
	r := tryFile(args[0], 5*time.Minute)
	if r.Viol == nil {
		if r.Crash != "" {
			fmt.Println(r.Crash)
			os.Exit(2)
		}
		fmt.Printf("replay of %s: property %s held\n", args[0], rp.Property)
		return
	}
	fmt.Printf("class %s at step %d: %s\n", r.Viol.Class, r.Viol.Step, r.Viol.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
	os.Exit(1)
}

// ---- the check ----

type total struct {
	obs     *Obs
	runs    int
	nontriv int
	digests map[int]uint64
	batches int
	skipped int
}

func (t *total) merge(b *batchOut) {
	t.batches++
	t.runs += b.To - b.From
	t.nontriv += b.NonTriv
	for k, v := range b.Obs.Counts {
		if strings.HasPrefix(k, "max.") {
			if v > t.obs.Counts[k] {
				t.obs.Counts[k] = v
			}
		} else {
			t.obs.Counts[k] += v
		}
	}
	for k, v := range b.Obs.Known {
		t.obs.Known[k] += v
	}
	t.obs.Ticks += b.Obs.Ticks
	for _, h := range b.Obs.Hashes {
		t.obs.States[h] = true
	}
	for _, h := range b.Obs.CaseHashes {
		t.obs.Cases[h] = true
	}
	if len(t.obs.Samples) < 3 {
		t.obs.Samples = append(t.obs.Samples, b.Obs.Samples...)
	}
	for i, d := range b.Digests {
		t.digests[b.From+i] = d
	}
}

func runBatch(prop, tier string, seed uint64, from, to int, timeout time.Duration) *batchOut {
	out, errs, err := runProc(timeout, "worker", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to))
	b := &batchOut{From: from, To: from, Obs: NewObs(), ViolRun: -1}
	if err != nil {
		b.Crash = crashText(err, errs)
		b.Viol = crashViol(err, errs)
		return b
	}
	if e := json.Unmarshal(out, b); e != nil {
		b.Crash = fmt.Sprintf("unreadable output of a worker: %v\n%s", e, head(errs, 2000))
	}
	if b.Viol != nil && b.Viol.Class == "data-race" {
		b.Race = raceText(errs)
		b.Viol.Detail += "\n" + b.Race
	}
	return b
}

func check(args []string) {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Uint64("seed", 1, "")
	runs := fl.Int("runs", 0, "override the number of runs")
	dir := fl.String("evidence", "evidence", "")
	repDir := fl.String("replays", "", "")
	scratch := fl.String("scratch", os.TempDir(), "")
	known := fl.String("known", "known_findings.txt", "")
	capS := fl.Int("cap", 0, "wall-clock cap in seconds")
	workers := fl.Int("workers", runtime.NumCPU(), "")
	buildNote := fl.String("build", "", "")
	digestOut := fl.String("digests", "", "write run digests")
	noSelf := fl.Bool("noself", false, "")
	fl.Parse(args)
	w := worlds[*prop]
	if w == nil {
		fatal(fmt.Errorf("no world for %q", *prop))
	}
	t0 := time.Now()
	n := w.Quick
	if *tier == "thorough" {
		n = w.Thorough
	}
	if *runs > 0 {
		n = *runs
	}
	wall := 240 * time.Second
	if *tier == "thorough" {
		wall = 780 * time.Second
	}
	if *capS > 0 {
		wall = time.Duration(*capS) * time.Second
	}
	listed := readKnown(*known, *prop)

	tot := &total{obs: NewObs(), digests: map[int]uint64{}}
	var mu sync.Mutex
	next := 0
	stop := false
	var first *batchOut
	var crash *batchOut
	var wg sync.WaitGroup
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= n {
					mu.Unlock()
					return
				}
				if time.Since(t0) > wall {
					tot.skipped = n - next
					stop = true
					mu.Unlock()
					return
				}
				from := next
				next += w.Batch
				to := min(next, n)
				mu.Unlock()
				b := runBatch(*prop, *tier, *seed, from, to, 180*time.Second)
				mu.Lock()
				tot.merge(b)
				if b.Viol != nil && (first == nil || b.From < first.From) {
					first = b
					stop = true
				} else if b.Crash != "" && b.Viol == nil && crash == nil {
					crash = b
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(t0).Seconds()

	// determinism of the simulation itself: the same seeds, other processes, other batch boundaries
	detRuns, detBad := 0, []int{}
	if first == nil && crash == nil && !*noSelf {
		k := min(4*w.Batch, tot.runs, 200)
		off := 0
		for off < k {
			step := max(1, w.Batch/2+1)
			b := runBatch(*prop, *tier, *seed, off, min(off+step, k), 180*time.Second)
			for i, d := range b.Digests {
				detRuns++
				if d != tot.digests[off+i] {
					detBad = append(detBad, off+i)
				}
			}
			off += step
		}
	}

	ev := evidence(w, *prop, *tier, *seed, tot, searchS, detRuns, detBad, *buildNote)
	code := 0
	switch {
	case first != nil:
		code = 1
		path := report(w, *prop, *tier, *seed, first, *scratch, *repDir)
		ev["violations"] = 1
		defer func() {}()
		writeEvidence(*dir, *prop, ev, t0)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	case crash != nil:
		fmt.Fprintf(os.Stderr, "qsim: worker for runs %d.. failed:\n%s\n", crash.From, crash.Crash)
		code = 2
	default:
		keys := []string{}
		for k := range tot.obs.Known {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if !listed[k] {
				// found, but the committed list does not have it: a violation like any other
				fmt.Printf("unlisted finding %s: %s\n", k, w.Known[k])
				code = 1
			}
		}
		for k := range listed {
			if tot.obs.Known[k] > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s; %d hits)\n", *prop, w.Known[k], k, tot.obs.Known[k])
			} else {
				fmt.Printf("note: listed finding %s of %s was not met in this run\n", k, *prop)
			}
		}
		if code == 1 {
			path := filepath.Join(*repDir, *prop+"-unlisted.txt")
			os.MkdirAll(*repDir, 0o755)
			os.WriteFile(path, []byte(strings.Join(keys, "\n")+"\n"), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}
		writeEvidence(*dir, *prop, ev, t0)
		if len(detBad) > 0 {
			fmt.Printf("note: runs %v gave a different event log when repeated in another process\n", detBad)
		}
	}
	if *digestOut != "" {
		f, _ := os.Create(*digestOut)
		for i := 0; i < n; i++ {
			fmt.Fprintf(f, "%d %x\n", i, tot.digests[i])
		}
		f.Close()
	}
	fmt.Printf("%s %s seed=%d: %d runs, %d distinct non-trivial, %d ticks, %.1fs search, exit %d\n", *prop, *tier, *seed, tot.runs, len(tot.obs.Cases), tot.obs.Ticks, searchS, code)
	os.Exit(code)
}

func readKnown(path, prop string) map[string]bool {
	out := map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		fs := strings.Fields(l)
		var pr, key string
		for _, x := range fs {
			if v, ok := strings.CutPrefix(x, "property="); ok {
				pr = v
			}
			if v, ok := strings.CutPrefix(x, "key="); ok {
				key = v
			}
		}
		if pr == prop && key != "" {
			out[key] = true
		}
	}
	return out
}

func writeEvidence(dir, prop string, ev map[string]any, t0 time.Time) {
	ev["wall_s"] = time.Since(t0).Seconds()
	os.MkdirAll(dir, 0o755)
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(js, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

func evidence(w *World, prop, tier string, seed uint64, t *total, searchS float64, detRuns int, detBad []int, build string) map[string]any {
	faults := map[string]int64{}
	ops := map[string]int64{}
	other := map[string]int64{}
	for k, v := range t.obs.Counts {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[strings.TrimPrefix(k, "fault.")] = v
		case strings.HasPrefix(k, "op."):
			ops[strings.TrimPrefix(k, "op.")] = v
		default:
			other[k] = v
		}
	}
	perHour := 0.
	if searchS > 0 {
		perHour = float64(t.runs) / searchS * 3600
	}
	cov := map[string]any{
		"evaluations":                   t.runs,
		"distinct_nontrivial":           len(t.obs.Cases),
		"rule":                          w.Rule,
		"samples":                       t.obs.Samples,
		"nontrivial_runs":               t.nontriv,
		"distinct_measure":              w.Measure,
		"distinct_states":               len(t.obs.States),
		"distinct_states_measure":       w.StateMeasure,
		"runs_per_hour":                 int64(perHour),
		"seeds_per_hour":                int64(perHour),
		"seeds":                         fmt.Sprintf("one seed per run, derived from VERIF_SEED=%d, the property and the run index 0..%d", seed, t.runs-1),
		"simulated_time_ticks":          t.obs.Ticks,
		"simulated_time_unit":           "one tick per function entry or loop iteration of instrumented library code (per statement in the C20 build)",
		"faults_injected":               faults,
		"operations":                    ops,
		"counters":                      other,
		"worker_processes":              t.batches,
		"runs_not_done_within_wall_cap": t.skipped,
		"known_finding_hits":            t.obs.Known,
		"components_real":               w.Real,
		"components_stub":               w.Stub,
		"unscheduled_fallback_workers":  stalled.Load(),
		"determinism_selfcheck":         map[string]any{"runs_repeated_in_other_processes": detRuns, "different_event_logs": len(detBad)},
		"build":                         build,
	}
	return map[string]any{
		"property":    prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": w.Assume,
		"violations":  0,
	}
}
