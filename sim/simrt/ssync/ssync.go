// Package ssync replaces package sync inside the simulation: blocking and
// wake-up order are decided by the seeded scheduler.
package ssync

import (
	"simrt"
	"sync"
)

type Locker = sync.Locker

// Map is a sync.Map with a preemption point before every operation and an order
// of Range that is a function of the seed.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Y(-10); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Y(-10); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Y(-10); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Y(-10); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Y(-10); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Y(-10); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.Y(-10)
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool { simrt.Y(-10); return m.m.CompareAndDelete(k, old) }
func (m *Map) Clear()                           { simrt.Y(-10); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y(-10)
	all := map[any]bool{}
	m.m.Range(func(k, _ any) bool { all[k] = true; return true })
	for _, k := range simrt.MapKeys(all) {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Mutex has the semantics of sync.Mutex (any task may unlock; barging allowed).
type Mutex struct {
	locked  bool
	waiters []*simrt.Task
}

func (m *Mutex) Lock() {
	simrt.Y(-2)
	for m.locked {
		if simrt.Aborting() {
			return
		}
		m.waiters = append(m.waiters, simrt.CurTask())
		simrt.Block("mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.Y(-3)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Aborting() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	ws := m.waiters
	m.waiters = nil
	for _, w := range ws {
		simrt.Ready(w)
	}
	simrt.Y(-4)
}

// RWMutex has the semantics of sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	wwait   int
	waiters []*simrt.Task
}

func (m *RWMutex) wake() {
	ws := m.waiters
	m.waiters = nil
	for _, w := range ws {
		simrt.Ready(w)
	}
}

func (m *RWMutex) park(why string) {
	m.waiters = append(m.waiters, simrt.CurTask())
	simrt.Block(why)
}

func (m *RWMutex) Lock() {
	simrt.Y(-2)
	m.wwait++
	for m.w || m.r > 0 {
		if simrt.Aborting() {
			return
		}
		m.park("rwmutex")
	}
	m.wwait--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	simrt.Y(-3)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Aborting() {
		m.w = false
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wake()
	simrt.Y(-4)
}

func (m *RWMutex) RLock() {
	simrt.Y(-2)
	for m.w || m.wwait > 0 {
		if simrt.Aborting() {
			return
		}
		m.park("rwmutex read")
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	simrt.Y(-3)
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Aborting() {
		return
	}
	if m.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		m.wake()
	}
	simrt.Y(-4)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup has the semantics of sync.WaitGroup.
type WaitGroup struct {
	n       int
	waiters []*simrt.Task
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 && !simrt.Aborting() {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		ws := w.waiters
		w.waiters = nil
		for _, t := range ws {
			simrt.Ready(t)
		}
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Y(-5)
	for w.n > 0 {
		if simrt.Aborting() {
			return
		}
		w.waiters = append(w.waiters, simrt.CurTask())
		simrt.Block("waitgroup")
	}
}

// Once has the semantics of sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	simrt.Y(-6)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond has the semantics of sync.Cond.
type Cond struct {
	L       Locker
	waiters []*simrt.Task
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.waiters = append(c.waiters, simrt.CurTask())
	c.L.Unlock()
	simrt.Block("cond")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		t := c.waiters[0]
		c.waiters = c.waiters[1:]
		simrt.Ready(t)
	}
}
func (c *Cond) Broadcast() {
	for _, t := range c.waiters {
		simrt.Ready(t)
	}
	c.waiters = nil
}

// Pool is a deterministic sync.Pool.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.Y(-7)
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) { p.items = append(p.items, v) }

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
