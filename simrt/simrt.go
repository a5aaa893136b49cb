// Package simrt is the seam instrumented library code calls into. It owns
// simulated time (ticks), the scheduler that decides which task runs next, and
// the record of those decisions. Exactly one task runs at any moment; everything
// here is touched only by the running task, and every function is exempt from
// race instrumentation so that the simulator neither adds nor hides races.
package simrt

import (
	"os"
	"runtime"
	"sync"
	"time"
)

const MaxSites = 1 << 14

type TickLimit struct{}

func (TickLimit) Error() string { return "simulated-time deadline exceeded" }

var (
	ticks    uint64
	limit    uint64 // the nearer of soft and hard; 0: none
	soft     uint64
	hard     uint64
	apiCalls uint64
	hits     [MaxSites]uint32

	active bool
)

// ---- simulated time ----

//go:norace
func Ticks() uint64 { return ticks }

//go:norace
func APICalls() uint64 { return apiCalls }

// SetDeadline makes the library panic with TickLimit once n more ticks passed (0: none).
//
//go:norace
func SetDeadline(n uint64) {
	soft = 0
	if n != 0 {
		soft = ticks + n
	}
	setLimit()
}

// SetHorizon is SetDeadline for all that runs until the next SetHorizon, whatever
// deadlines are set meanwhile.
//
//go:norace
func SetHorizon(n uint64) {
	hard = 0
	if n != 0 {
		hard = ticks + n
	}
	setLimit()
}

// PastHorizon: the horizon was reached.
//
//go:norace
func PastHorizon() bool { return hard != 0 && ticks > hard }

//go:norace
func setLimit() {
	limit = soft
	if hard != 0 && (soft == 0 || hard < soft) {
		limit = hard
	}
}

//go:norace
func Hits(site int) uint32 { return hits[site] }

//go:norace
func P(site uint32) {
	ticks++
	hits[site&(MaxSites-1)]++
	if limit != 0 && ticks > limit {
		panic(TickLimit{})
	}
	if active && me() >= 0 {
		yield(site)
	}
}

// me is the task the calling goroutine is, or -1: a goroutine the simulator does not
// schedule (started before the section, or one of very many). A task that comes back
// from a wait in the runtime gets in line first.
//
//go:norace
func me() int {
	g := getg()
	if c := cur; c >= 0 && tasks[c].g == g {
		return c
	}
	for i := 0; i < ntask; i++ {
		if t := tasks[i]; t.g == g && !t.done {
			if t.native {
				join(t)
			}
			return i
		}
	}
	return -1
}

func getg() uintptr // the goroutine, as an opaque number

// A is P at the entry of an exported operation of the tensor implementation.
//
//go:norace
func A(site uint32) {
	apiCalls++
	P(site)
}

// ---- scheduler ----

// Switch is one scheduling decision: at the At-th decision point the processor
// goes to task To. Voluntary points are preemptions (Forced=false); at forced
// points (task end, blocked on a lock) somebody else has to run.
type Switch struct {
	At     uint64 `json:"at"`
	To     int    `json:"to"`
	From   int    `json:"from"`
	Site   uint32 `json:"site"`
	Forced bool   `json:"forced,omitempty"`
}

const (
	PolicyReplay = iota
	PolicyRandom // switch with probability Prob/65536 at every point
	PolicyPCT    // random priorities, Depth random priority drops
	PolicySite   // switch whenever Site is reached, else rarely
	PolicyStall  // as random, but one task is stalled from its StallAt-th point for StallFor points
	PolicyRound  // switch at every point, round robin
	PolicyOp     // switch only at operation boundaries (explicit OpPoint)
)

type Config struct {
	Policy   int
	Seed     uint64
	Prob     uint32
	Depth    int
	Horizon  uint64 // estimate of decision points, for PCT change points
	Site     uint32
	StallT   int
	StallAt  uint64
	StallFor uint64
	Replay   []Switch
}

const maxRec = 1 << 17
const MaxTasks = 128

// quantum: a task that made so many steps without a switch (it spins, perhaps) gives way.
const quantum = 100000

type task struct {
	g       uintptr
	gate    chan struct{}
	main    bool // the section ends when the main tasks have; the others are library goroutines
	done    bool
	blocked bool // waits for a simulated lock
	native  bool // waits inside the runtime (channel, timer)
	prio    uint64
	points  uint64
	run     uint64 // steps since it got the processor
	stall   uint64 // stalled until decision point
}

var (
	cfg      Config
	rng      uint64
	tasks    [MaxTasks]*task
	ntask    int
	cur      = -1       // who has the processor; -1: nobody, every task waits
	mu       sync.Mutex // around hand-overs in which somebody waits inside the runtime
	natives  int
	points   uint64
	rec      [maxRec]Switch
	nrec     int
	recOver  bool
	rp       int
	pct      [32]uint64
	npct     int
	lowPrio  uint64
	deadlock bool
	mains    *sync.WaitGroup
	stalls   int
	preempts int
	spin     uint64
	nspawn   int
	nnative  int
	lastWait time.Time
)

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Result of a scheduled section.
type Result struct {
	Switches   []Switch
	Points     uint64
	Preempts   int
	Stalls     int
	Spawned    int // goroutines the library started, run as tasks
	Natives    int // waits of tasks inside the runtime
	Deadlock   bool
	Overflowed bool
}

// Unscheduled makes Run start plain goroutines: for library code whose waits the
// simulator cannot see. The race detector and the comparisons still apply.
var Unscheduled bool

// OnStall is called when the task that has the processor made no step for a long
// (wall-clock) time: it waits for something the simulator does not control.
var OnStall = func(stacks string) { os.Exit(77) }

const (
	stallAfter    = 4 * time.Second
	deadlockAfter = 8 * time.Second
	lockOnlyAfter = 500 * time.Millisecond
)

// Run executes the functions as tasks of the simulator and returns when all have ended.
//
//go:norace
func Run(c Config, fns []func()) Result {
	if Unscheduled {
		return runPlain(fns)
	}
	cfg = c
	rng = c.Seed
	ntask, natives, nspawn, nnative, spin = 0, 0, 0, 0, 0
	points, nrec, rp, npct = 0, 0, 0, 0
	recOver, deadlock = false, false
	stalls, preempts = 0, 0
	lowPrio = 1 << 20
	mains = new(sync.WaitGroup)
	mains.Add(len(fns))
	ended := make(chan struct{})
	for i := range fns {
		newTask()
		tasks[i].main = true
	}
	if c.Policy == PolicyPCT {
		for npct = 0; npct < c.Depth && npct < len(pct); npct++ {
			pct[npct] = rnd() % (c.Horizon + 1)
		}
	}
	var up sync.WaitGroup
	up.Add(len(fns))
	for i, f := range fns {
		go taskMain(tasks[i], f, &up)
	}
	up.Wait()
	go func(g *sync.WaitGroup) { g.Wait(); close(ended) }(mains)
	first := pick(-1, true, 0)
	cur = first
	active = true
	raceOff()
	tasks[first].gate <- struct{}{}
	raceOn()
	watch(ended)
	raceOff()
	mu.Lock()
	active = false
	cur = -1
	for i := 0; i < ntask; i++ { // library goroutines still around go on by themselves
		if t := tasks[i]; !t.done {
			t.g = 0
			ext++
			select {
			case t.gate <- struct{}{}:
			default:
			}
		}
	}
	ntask = 0
	mu.Unlock()
	raceOn()
	out := make([]Switch, nrec)
	for i := 0; i < nrec; i++ {
		out[i] = rec[i]
	}
	return Result{Switches: out, Points: points, Preempts: preempts, Stalls: stalls, Spawned: nspawn, Natives: nnative, Deadlock: deadlock, Overflowed: recOver}
}

// watch waits for the end of the section. It moves the processor on when every task
// waits, and gives up on a task that waits where the simulator cannot see it.
//
//go:norace
func watch(ended chan struct{}) {
	tick := time.NewTimer(time.Millisecond)
	defer tick.Stop()
	lastP, lastT := points, time.Now()
	idle := time.Duration(0)
	for {
		select {
		case <-ended:
			return
		case <-tick.C:
		}
		tick.Reset(time.Millisecond)
		raceOff()
		mu.Lock()
		over := false
		if points != lastP {
			lastP, lastT, idle = points, time.Now(), 0
		} else if cur < 0 { // everybody waits: let those that wait for locks look again
			idle = time.Since(lastT)
			lockOnly := natives == 0 && ext == 0
			if deadlock || idle > deadlockAfter || lockOnly && idle > lockOnlyAfter {
				deadlock, over = true, true
			} else {
				unblockAll()
				if n := firstOther(-1); n >= 0 {
					cur = n
					tasks[n].run = 0
					tasks[n].gate <- struct{}{}
				}
			}
		} else if time.Since(lastT) > stallAfter {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			OnStall(string(buf))
			lastT = time.Now()
		}
		mu.Unlock()
		raceOn()
		if over {
			return
		}
	}
}

//go:norace
func newTask() int {
	t := &task{gate: make(chan struct{}, 1), prio: (1 << 21) + rnd()%(1<<30)}
	for i := 0; i < ntask; i++ {
		if tasks[i].done && !tasks[i].main {
			tasks[i] = t
			return i
		}
	}
	if ntask >= MaxTasks {
		return -1
	}
	tasks[ntask] = t
	ntask++
	return ntask - 1
}

//go:norace
func taskMain(t *task, f func(), up *sync.WaitGroup) {
	t.g = getg()
	if up != nil {
		up.Done()
	}
	raceOff()
	<-t.gate
	raceOn()
	defer taskEnd(t)
	f()
}

//go:norace
func taskEnd(t *task) {
	if t.native {
		join(t)
	}
	if t.g == 0 { // outlived the section
		return
	}
	g := mains
	t.done = true
	t.g = 0
	points++
	for i := 0; i < ntask; i++ {
		if tasks[i] == t {
			release(i)
			break
		}
	}
	if t.main {
		g.Done()
	}
}

// release gives the processor to somebody else for good or until the gate opens.
//
//go:norace
func release(i int) {
	raceOff()
	mu.Lock()
	next := pick(i, true, OpSite)
	cur = next
	if next >= 0 {
		tasks[next].run = 0
		tasks[next].gate <- struct{}{}
	}
	mu.Unlock()
	raceOn()
}

// leave: the calling task is about to wait inside the runtime.
//
//go:norace
func leave(t *task) {
	points++
	t.native = true
	natives++
	nnative++
	release(cur)
}

// join: a task is back from a wait inside the runtime and takes its turn.
//
//go:norace
func join(t *task) {
	raceOff()
	mu.Lock()
	if !t.native || t.g == 0 {
		t.native = false
		mu.Unlock()
		raceOn()
		return
	}
	t.native = false
	natives--
	points++
	mine := cur < 0
	if mine {
		for i := 0; i < ntask; i++ {
			if tasks[i] == t {
				cur = i
			}
		}
		t.run = 0
	}
	mu.Unlock()
	if !mine {
		<-t.gate
	}
	raceOn()
}

// settle gives tasks that an operation just woke the time to get in line, so that
// the schedule depends on the seed and not on the machine.
//
//go:norace
func settle() {
	if natives == 0 {
		return
	}
	raceOff()
	for k := 0; k < 3; k++ {
		runtime.Gosched()
	}
	time.Sleep(20 * time.Microsecond)
	raceOn()
}

//go:norace
func runnable(i int) bool {
	t := tasks[i]
	return !t.done && !t.blocked && !t.native && t.stall <= points
}

// pick chooses the next task; forced: the current one cannot continue.
//
//go:norace
func pick(from int, forced bool, site uint32) int {
	to := -1
	if cfg.Policy == PolicyReplay {
		for rp < len(cfg.Replay) && cfg.Replay[rp].At < points {
			rp++
		}
		if rp < len(cfg.Replay) && cfg.Replay[rp].At == points {
			t := cfg.Replay[rp].To
			rp++
			if t < ntask && runnable(t) && t != from {
				to = t
			}
		}
		if to < 0 && !forced {
			return from
		}
		if to < 0 {
			to = firstOther(from)
		}
	} else {
		var n int
		best := uint64(0)
		for i := 0; i < ntask; i++ {
			if i == from && forced {
				continue
			}
			if !runnable(i) {
				continue
			}
			if cfg.Policy == PolicyPCT {
				if to < 0 || tasks[i].prio > best {
					to, best = i, tasks[i].prio
				}
				continue
			}
			if i == from {
				continue
			}
			n++
			if cfg.Policy == PolicyRound {
				continue
			}
			if rnd()%uint64(n) == 0 {
				to = i
			}
		}
		if cfg.Policy == PolicyRound {
			for k := 1; k <= ntask; k++ {
				j := (from + k + ntask) % ntask
				if j != from && runnable(j) {
					to = j
					break
				}
			}
		}
		if to < 0 && forced {
			to = firstOther(from)
		}
		if to < 0 && !forced {
			return from
		}
	}
	if to < 0 {
		return -1
	}
	if to != from {
		if nrec < maxRec {
			rec[nrec] = Switch{At: points, To: to, From: from, Site: site, Forced: forced}
			nrec++
		} else {
			recOver = true
		}
		if !forced {
			preempts++
		}
	}
	return to
}

// firstOther ignores stalls: a stalled task resumes when nobody else can run.
//
//go:norace
func firstOther(from int) int {
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < ntask; i++ {
			t := tasks[i]
			if i == from || t.done || t.blocked || t.native {
				continue
			}
			if pass == 0 && t.stall > points {
				continue
			}
			t.stall = 0
			return i
		}
	}
	return -1
}

//go:norace
func yield(site uint32) {
	points++
	me := cur
	if me < 0 {
		return
	}
	t := tasks[me]
	t.points++
	t.run++
	if t.run >= quantum { // in every policy: whoever spins lets the others go on
		t.run = 0
		if lowPrio > 0 {
			lowPrio--
			t.prio = lowPrio
		}
		next := firstAfter(me)
		if next >= 0 {
			if nrec < maxRec {
				rec[nrec] = Switch{At: points, To: next, From: me, Site: site, Forced: true}
				nrec++
			}
			handoff(me, next)
		}
		return
	}
	want := false
	switch cfg.Policy {
	case PolicyReplay:
		for rp < len(cfg.Replay) && cfg.Replay[rp].At < points {
			rp++
		}
		want = rp < len(cfg.Replay) && cfg.Replay[rp].At == points
	case PolicyRandom:
		want = uint32(rnd()&0xffff) < cfg.Prob
	case PolicyPCT:
		for k := 0; k < npct; k++ {
			if pct[k] == points {
				lowPrio--
				t.prio = lowPrio
			}
		}
		want = true
	case PolicySite:
		want = site == cfg.Site || uint32(rnd()&0xffff) < cfg.Prob
	case PolicyStall:
		if me == cfg.StallT && t.points == cfg.StallAt {
			t.stall = points + cfg.StallFor
			stalls++
			want = true
		} else {
			want = uint32(rnd()&0xffff) < cfg.Prob
		}
	case PolicyRound:
		want = true
	case PolicyOp:
		want = site == OpSite && uint32(rnd()&0xffff) < cfg.Prob
	}
	if !want {
		return
	}
	next := pick(me, false, site)
	if next == me || next < 0 {
		return
	}
	handoff(me, next)
}

// OpSite is the pseudo-site of operation boundaries.
const OpSite = MaxSites - 1

//go:norace
func OpPoint() {
	if active {
		yield(OpSite)
	}
}

//go:norace
func firstAfter(from int) int {
	for k := 1; k < ntask; k++ {
		j := (from + k) % ntask
		if runnable(j) {
			return j
		}
	}
	return -1
}

//go:norace
func handoff(me, next int) {
	t := tasks[me]
	raceOff()
	if natives > 0 {
		mu.Lock()
		cur = next
		tasks[next].run = 0
		tasks[next].gate <- struct{}{}
		mu.Unlock()
	} else {
		cur = next
		tasks[next].run = 0
		tasks[next].gate <- struct{}{}
	}
	<-t.gate
	raceOn()
}

// Active says whether the caller is a task of the simulator.
//
//go:norace
func Active() bool { return active && me() >= 0 }

// Block is called by a simulated lock that cannot be taken right now: somebody
// else has to run.
//
//go:norace
func Block() {
	i := me()
	if !active || i < 0 {
		runtime.Gosched()
		return
	}
	if deadlock {
		panic(Deadlock{})
	}
	points++
	t := tasks[i]
	t.blocked = true
	spin++
	raceOff()
	mu.Lock()
	next := pick(i, true, OpSite)
	if next < 0 && natives == 0 && ext == 0 {
		// everyone is blocked or done: wake all blocked tasks once; if that has
		// already happened with no lock released in between, it is a deadlock
		unblockAll()
		if spin > uint64(4*ntask+8) {
			deadlock = true
			mu.Unlock()
			raceOn()
			panic(Deadlock{})
		}
		next = firstOther(i)
		if next < 0 { // alone: look again
			mu.Unlock()
			raceOn()
			return
		}
	}
	cur = next
	if next >= 0 {
		tasks[next].run = 0
		tasks[next].gate <- struct{}{}
	} else {
		points-- // nobody makes progress
	}
	mu.Unlock()
	<-t.gate
	raceOn()
	if deadlock {
		panic(Deadlock{})
	}
}

// ext counts goroutines of the library the simulator does not schedule.
var ext int

type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock: every task waits for a lock" }

//go:norace
func unblockAll() int {
	n := 0
	for i := 0; i < ntask; i++ {
		if tasks[i].blocked {
			tasks[i].blocked = false
			n++
		}
	}
	return n
}

// Wake is called when a simulated lock is released or a wait condition changes.
//
//go:norace
func Wake() {
	if !active || me() < 0 {
		return
	}
	spin = 0
	unblockAll()
}

// Go starts a goroutine of the library as one more task of the simulator.
//
//go:norace
func Go(f func()) {
	if !active || me() < 0 {
		ext++
		go f()
		return
	}
	i := newTask()
	if i < 0 {
		ext++
		go f()
		return
	}
	nspawn++
	go taskMain(tasks[i], f, nil)
}

func Go1[A any](f func(A), a A)                                  { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)                       { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C)            { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) { Go(func() { f(a, b, c, d) }) }

// ---- channels: the real ones, but a task that has to wait gives the processor away ----

//go:norace
func enter() *task {
	if !active {
		return nil
	}
	i := me()
	if i < 0 {
		return nil
	}
	yield(OpSite)
	return tasks[i]
}

// SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		t := enter()
		if t == nil {
			ch <- v
			return
		}
		select {
		case ch <- v:
		default:
			leave(t)
			ch <- v
			join(t)
		}
		settle()
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	t := enter()
	if t == nil {
		v, ok = <-ch
		return
	}
	select {
	case v, ok = <-ch:
	default:
		leave(t)
		v, ok = <-ch
		join(t)
	}
	settle()
	return
}

func Close[T any](ch chan<- T) {
	t := enter()
	close(ch)
	if t != nil {
		settle()
	}
}

// SelectEnter is called before a select without default, SelectExit in its branches.
//
//go:norace
func SelectEnter() {
	if t := enter(); t != nil {
		leave(t)
	}
}

//go:norace
func SelectExit() {
	if active && me() >= 0 { // gets in line
		settle()
	}
}

// RaceOff and RaceOn bracket what a simulated primitive does for its own bookkeeping.
//
//go:norace
func RaceOff() { raceOff() }

//go:norace
func RaceOn() { raceOn() }

// ---- plain goroutines ----

func runPlain(fns []func()) Result {
	var g sync.WaitGroup
	g.Add(len(fns))
	for _, f := range fns {
		go func() { defer g.Done(); f() }()
	}
	ok := make(chan struct{})
	go func() { g.Wait(); close(ok) }()
	select {
	case <-ok:
		return Result{}
	case <-time.After(60 * time.Second):
		return Result{Deadlock: true}
	}
}
