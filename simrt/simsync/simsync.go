// Package simsync stands in for package sync inside instrumented code: same
// semantics, but a task that has to wait hands the processor back to the
// simulator instead of blocking in the runtime. The real primitives are used
// underneath, so the race detector sees the real happens-before edges.
package simsync

import (
	"sync"
	"sync/atomic"

	"qeepverif/simrt"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

// Cond queues its waiters; a wake-up is ordered before the return of the Wait it ends.
type Cond struct {
	L Locker
	m sync.Mutex
	w []*ticket
}

type ticket struct {
	up atomic.Bool
	ch chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := &ticket{ch: make(chan struct{})}
	c.m.Lock()
	c.w = append(c.w, t)
	c.m.Unlock()
	c.L.Unlock()
	if simrt.Active() {
		for !t.up.Load() {
			simrt.Block()
		}
	} else {
		<-t.ch
	}
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	c.m.Lock()
	for ; n > 0 && len(c.w) > 0; n-- {
		c.w[0].up.Store(true)
		close(c.w[0].ch)
		c.w = c.w[1:]
	}
	c.m.Unlock()
	simrt.Wake()
}

func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(1 << 30) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		simrt.Block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); simrt.Wake() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		simrt.Block()
	}
}
func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.m.RLock()
		return
	}
	for !m.m.TryRLock() {
		simrt.Block()
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); simrt.Wake() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); simrt.Wake() }

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	n atomic.Int64
	w sync.WaitGroup
}

func (g *WaitGroup) Add(d int) { g.count(int64(d)); g.w.Add(d); simrt.Wake() }

// count is bookkeeping: only the real WaitGroup orders anything.
func (g *WaitGroup) count(d int64) int64 {
	simrt.RaceOff()
	n := g.n.Add(d)
	simrt.RaceOn()
	return n
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() { defer g.Done(); f() })
}
func (g *WaitGroup) Wait() {
	if simrt.Active() {
		for g.count(0) > 0 {
			simrt.Block()
		}
	}
	g.w.Wait()
}

// Pool is deterministic (LIFO); a Put is ordered before the Get that takes the item,
// and nothing else is.
type Pool struct {
	New func() any
	m   sync.Mutex
	top *item
}

type item struct {
	x    any
	next *item
	sync sync.Mutex
}

//go:norace
func (p *Pool) pop() *item {
	simrt.RaceOff()
	p.m.Lock()
	it := p.top
	if it != nil {
		p.top = it.next
	}
	p.m.Unlock()
	simrt.RaceOn()
	return it
}

//go:norace
func (p *Pool) push(it *item) {
	simrt.RaceOff()
	p.m.Lock()
	it.next = p.top
	p.top = it
	p.m.Unlock()
	simrt.RaceOn()
}

func (p *Pool) Get() any {
	if it := p.pop(); it != nil {
		it.sync.Lock()
		x := it.x
		it.sync.Unlock()
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	it := new(item)
	it.sync.Lock()
	it.x = x
	it.sync.Unlock()
	p.push(it)
}
