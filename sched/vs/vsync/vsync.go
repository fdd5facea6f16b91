// Package vsync stands in for sync.
package vsync

import (
	"sync"
	"unsafe"

	"verif/vs"
)

type Mutex struct {
	o      vs.Obj
	locked bool
	real   sync.Mutex
}

func (m *Mutex) Ready() bool {
	if m.o.Fresh() {
		m.locked = false
	}
	return !m.locked
}

func (m *Mutex) Lock() {
	if !vs.Active() {
		if !vs.Idle() {
			m.real.Lock()
		}
		return
	}
	vs.Op("lock", &m.o, true, m)
	m.locked = true
	vs.Acquire(unsafe.Pointer(&m.o))
}

func (m *Mutex) TryLock() bool {
	if !vs.Active() {
		return vs.Idle() || m.real.TryLock()
	}
	vs.Op("trylock", &m.o, true, nil)
	if !m.Ready() {
		return false
	}
	m.locked = true
	vs.Acquire(unsafe.Pointer(&m.o))
	return true
}

func (m *Mutex) Unlock() {
	if !vs.Active() {
		if !vs.Idle() {
			m.real.Unlock()
		}
		return
	}
	vs.Op("unlock", &m.o, true, nil)
	if m.Ready() {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	vs.Release(unsafe.Pointer(&m.o))
	m.locked = false
}

type RWMutex struct {
	o       vs.Obj
	writer  bool
	readers int
	real    sync.RWMutex
}

func (m *RWMutex) fresh() {
	if m.o.Fresh() {
		m.writer, m.readers = false, 0
	}
}

func (m *RWMutex) Ready() bool {
	m.fresh()
	return !m.writer && m.readers == 0
}

type reading RWMutex

func (r *reading) Ready() bool {
	(*RWMutex)(r).fresh()
	return !r.writer
}

func (m *RWMutex) Lock() {
	if !vs.Active() {
		if !vs.Idle() {
			m.real.Lock()
		}
		return
	}
	vs.Op("lock", &m.o, true, m)
	m.writer = true
	vs.Acquire(unsafe.Pointer(&m.o))
	vs.Acquire(unsafe.Pointer(&m.readers))
}

func (m *RWMutex) TryLock() bool {
	if !vs.Active() {
		return vs.Idle() || m.real.TryLock()
	}
	vs.Op("trylock", &m.o, true, nil)
	if !m.Ready() {
		return false
	}
	m.writer = true
	vs.Acquire(unsafe.Pointer(&m.o))
	vs.Acquire(unsafe.Pointer(&m.readers))
	return true
}

func (m *RWMutex) Unlock() {
	if !vs.Active() {
		if !vs.Idle() {
			m.real.Unlock()
		}
		return
	}
	vs.Op("unlock", &m.o, true, nil)
	m.fresh()
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	vs.Release(unsafe.Pointer(&m.o))
	m.writer = false
}

func (m *RWMutex) RLock() {
	if !vs.Active() {
		if !vs.Idle() {
			m.real.RLock()
		}
		return
	}
	vs.Op("rlock", &m.o, true, (*reading)(m))
	m.readers++
	vs.Acquire(unsafe.Pointer(&m.o))
}

func (m *RWMutex) TryRLock() bool {
	if !vs.Active() {
		return vs.Idle() || m.real.TryRLock()
	}
	vs.Op("tryrlock", &m.o, true, nil)
	if !(*reading)(m).Ready() {
		return false
	}
	m.readers++
	vs.Acquire(unsafe.Pointer(&m.o))
	return true
}

// readers release into an address of their own, which only writers acquire
func (m *RWMutex) RUnlock() {
	if !vs.Active() {
		if !vs.Idle() {
			m.real.RUnlock()
		}
		return
	}
	vs.Op("runlock", &m.o, true, nil)
	m.fresh()
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	vs.Release(unsafe.Pointer(&m.readers))
	m.readers--
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	o    vs.Obj
	n    int
	real sync.WaitGroup
}

func (g *WaitGroup) Ready() bool {
	if g.o.Fresh() {
		g.n = 0
	}
	return g.n == 0
}

func (g *WaitGroup) Add(delta int) {
	if !vs.Active() {
		if !vs.Idle() {
			g.real.Add(delta)
		}
		return
	}
	vs.Op("wg.Add", &g.o, true, nil)
	g.Ready()
	g.n += delta
	if delta < 0 {
		vs.Release(unsafe.Pointer(&g.o))
	}
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if !vs.Active() {
		if !vs.Idle() {
			g.real.Wait()
		}
		return
	}
	vs.Op("wg.Wait", &g.o, true, g)
	vs.Acquire(unsafe.Pointer(&g.o))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vs.Go("wg.Go", func() {
		defer g.Done()
		f()
	})
}

// Once is as sync.Once.
type Once struct {
	m    Mutex
	done bool
	o    vs.Obj
}

func (o *Once) Do(f func()) {
	vs.Op("once", &o.o, true, nil)
	if o.done {
		vs.Acquire(unsafe.Pointer(&o.o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			vs.Release(unsafe.Pointer(&o.o))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond is as sync.Cond.
type Cond struct {
	L       sync.Locker
	o       vs.Obj
	waiters []*waiter
	real    *sync.Cond
}

type waiter struct{ woken bool }

func (w *waiter) Ready() bool { return w.woken }

func NewCond(l sync.Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vs.Active() {
		if !vs.Idle() {
			c.real.L = c.L
			c.real.Wait()
		}
		return
	}
	w := &waiter{}
	vs.Op("cond.join", &c.o, true, nil)
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	vs.Op("cond.Wait", &c.o, true, w)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vs.Active() {
		if !vs.Idle() && c.real != nil {
			c.real.Signal()
		}
		return
	}
	vs.Op("cond.Signal", &c.o, true, nil)
	if len(c.waiters) > 0 {
		c.waiters[0].woken = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	if !vs.Active() {
		if !vs.Idle() && c.real != nil {
			c.real.Broadcast()
		}
		return
	}
	vs.Op("cond.Broadcast", &c.o, true, nil)
	for _, w := range c.waiters {
		w.woken = true
	}
	c.waiters = nil
}

// Pool is as sync.Pool, which never drops what is put into it.
type Pool struct {
	New   func() any
	o     vs.Obj
	items []any
	mx    sync.Mutex
}

func (p *Pool) Get() any {
	vs.Op("pool.Get", &p.o, true, nil)
	p.mx.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mx.Unlock()
		return x
	}
	p.mx.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vs.Op("pool.Put", &p.o, true, nil)
	p.mx.Lock()
	p.items = append(p.items, x)
	p.mx.Unlock()
}

// Map is as sync.Map.
type Map struct {
	o    vs.Obj
	real sync.Map
}

func (m *Map) op(write bool) { vs.Op("sync.Map", &m.o, write, nil) }

func (m *Map) Load(k any) (any, bool) { m.op(false); return m.real.Load(k) }
func (m *Map) Store(k, v any)         { m.op(true); m.real.Store(k, v) }
func (m *Map) Clear()                 { m.op(true); m.real.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op(true)
	return m.real.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { m.op(true); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { m.op(true); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { m.op(true); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool { m.op(true); return m.real.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool  { m.op(true); return m.real.CompareAndDelete(k, a) }
func (m *Map) Range(f func(k, v any) bool)     { m.op(false); m.real.Range(f) }
