// Package simsync stands in for package sync in the system under test: real
// primitives (with their real happens-before edges), blocking decided by the
// simulator's scheduler.
package simsync

import (
	"sync"

	"verif.local/sim/rt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// Mutex stands in for sync.Mutex.
type Mutex struct{ m sync.Mutex }

//go:norace
func (m *Mutex) Lock() {
	if !rt.Active() {
		m.m.Lock()
		return
	}
	rt.YS()
	for !m.m.TryLock() {
		rt.Block("mutex")
	}
}

//go:norace
func (m *Mutex) TryLock() bool { rt.YS(); return m.m.TryLock() }

//go:norace
func (m *Mutex) Unlock() {
	m.m.Unlock()
	rt.Changed()
	rt.YS()
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	m       sync.RWMutex
	pending int
}

//go:norace
func (m *RWMutex) Lock() {
	if !rt.Active() {
		m.m.Lock()
		return
	}
	rt.YS()
	m.pending++
	for !m.m.TryLock() {
		rt.Block("rwmutex")
	}
	m.pending--
}

//go:norace
func (m *RWMutex) TryLock() bool { rt.YS(); return m.m.TryLock() }

//go:norace
func (m *RWMutex) Unlock() { m.m.Unlock(); rt.Changed(); rt.YS() }

//go:norace
func (m *RWMutex) RLock() {
	if !rt.Active() {
		m.m.RLock()
		return
	}
	rt.YS()
	// a waiting writer keeps new readers out
	for m.pending > 0 || !m.m.TryRLock() {
		rt.Block("rwmutex (read)")
	}
}

//go:norace
func (m *RWMutex) TryRLock() bool { rt.YS(); return m.m.TryRLock() }

//go:norace
func (m *RWMutex) RUnlock() { m.m.RUnlock(); rt.Changed(); rt.YS() }

//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	w sync.WaitGroup
	n int
}

//go:norace
func (w *WaitGroup) Add(n int) {
	w.n += n
	w.w.Add(n)
	rt.Changed()
	rt.YS()
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if rt.Active() {
		rt.YS()
		for w.n > 0 {
			rt.Block("waitgroup")
		}
	}
	w.w.Wait()
}

//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc stands in for sync.OnceFunc.
//
//go:norace
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue stands in for sync.OnceValue.
//
//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues stands in for sync.OnceValues.
//
//go:norace
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond stands in for sync.Cond.
type Cond struct {
	L     Locker
	seq   uint64 // tickets handed out
	woken uint64 // tickets released
	hb    Mutex
}

//go:norace
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := c.seq
	c.seq++
	c.L.Unlock()
	for c.woken <= t {
		rt.Block("cond")
	}
	c.hb.Lock()
	c.hb.Unlock()
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	c.hb.Lock()
	c.hb.Unlock()
	if c.woken < c.seq {
		c.woken++
	}
	rt.Changed()
}

//go:norace
func (c *Cond) Broadcast() {
	c.hb.Lock()
	c.hb.Unlock()
	c.woken = c.seq
	rt.Changed()
}

// PoolMode decides which pooled object is handed out: "lifo", "fifo", "new"
// (never reuse) or "random"; PoolSeed seeds the latter.
var (
	PoolMode = "lifo"
	PoolSeed uint64
	pools    []*Pool
)

// ResetPools empties all pools, as a garbage collection would.
//
//go:norace
func ResetPools() {
	for _, p := range pools {
		p.items, p.n = nil, 0
	}
}

type poolItem struct {
	v    any
	m    sync.Mutex // carries the happens-before edge from Put to Get
	next *poolItem
}

// Pool stands in for sync.Pool.
type Pool struct {
	New   func() any
	items *poolItem // newest first
	n     int
	known bool
}

//go:norace
func (p *Pool) Put(x any) {
	rt.YS()
	if x == nil {
		return
	}
	if !p.known {
		p.known = true
		np := make([]*Pool, len(pools)+1)
		for i := range pools { // copy() would be an access the race detector sees
			np[i] = pools[i]
		}
		np[len(pools)] = p
		pools = np
	}
	it := &poolItem{v: x, next: p.items}
	it.m.Lock()
	it.m.Unlock()
	p.items = it
	p.n++
	rt.YS()
}

//go:norace
func (p *Pool) Get() any {
	rt.YS()
	if p.n > 0 {
		k := 0
		switch PoolMode {
		case "fifo":
			k = p.n - 1
		case "new":
			k = -1
		case "random":
			PoolSeed = PoolSeed*6364136223846793005 + 1442695040888963407
			k = int((PoolSeed>>33)%uint64(p.n+1)) - 1
		}
		if k >= 0 {
			q := &p.items
			for ; k > 0; k-- {
				q = &(*q).next
			}
			it := *q
			*q = it.next
			p.n--
			it.m.Lock()
			it.m.Unlock()
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
