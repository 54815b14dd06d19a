// Package simsync stands in for package sync in instrumented code: blocking
// goes through the simulated scheduler, and the happens-before edges of the
// real primitives are reported to the race detector.
package simsync

import (
	"sync"
	"unsafe"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map (it never blocks while tasks run one at a time), ranged over
// in an order decided by the run's seed.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)              { return m.m.Load(k) }
func (m *Map) Store(k, v any)                      { m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool)    { return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)     { return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                        { m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)           { return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool { return m.m.CompareAndSwap(k, old, new) }
func (m *Map) CompareAndDelete(k, old any) bool    { return m.m.CompareAndDelete(k, old) }
func (m *Map) Clear()                              { m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	for _, k := range simrt.Keys(all) {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Mutex simulates sync.Mutex.
type Mutex struct{ held bool }

//go:norace
func (m *Mutex) Lock() {
	for m.held {
		if simrt.Aborting() {
			return
		}
		simrt.Block(unsafe.Pointer(m))
	}
	m.held = true
	simrt.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if m.held {
		simrt.Poll()
		return false
	}
	m.held = true
	simrt.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		if simrt.Aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Release(unsafe.Pointer(m))
	m.held = false
	simrt.Wake(unsafe.Pointer(m))
}

// RWMutex simulates sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	waiting int // writers waiting: block new readers, as the real one does
	rsem    uint64
	wsem    uint64
}

//go:norace
func (m *RWMutex) Lock() {
	m.waiting++
	for m.w || m.readers > 0 {
		if simrt.Aborting() {
			return
		}
		simrt.Block(unsafe.Pointer(m))
	}
	m.waiting--
	m.w = true
	simrt.Acquire(unsafe.Pointer(&m.rsem))
	simrt.Acquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		simrt.Poll()
		return false
	}
	m.w = true
	simrt.Acquire(unsafe.Pointer(&m.rsem))
	simrt.Acquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		if simrt.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.rsem))
	simrt.Release(unsafe.Pointer(&m.wsem))
	m.w = false
	simrt.Wake(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RLock() {
	for m.w || m.waiting > 0 {
		if simrt.Aborting() {
			return
		}
		simrt.Block(unsafe.Pointer(m))
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.w || m.waiting > 0 {
		simrt.Poll()
		return false
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if simrt.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.wsem))
	m.readers--
	simrt.Wake(unsafe.Pointer(m))
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as for sync.RWMutex.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once simulates sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		simrt.Acquire(unsafe.Pointer(o))
		return true
	}
	return false
}

//go:norace
func (o *Once) setDone() {
	simrt.Release(unsafe.Pointer(o))
	o.done = true
}

// Do is sync.Once.Do.
func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup simulates sync.WaitGroup.
type WaitGroup struct{ n int }

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.Release(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

// Done is sync.WaitGroup.Done.
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	for w.n > 0 && !simrt.Aborting() {
		simrt.Block(unsafe.Pointer(w))
	}
	simrt.Acquire(unsafe.Pointer(w))
}

// Go is sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond simulates sync.Cond.
type Cond struct {
	L   Locker
	gen int
	sig int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) await() {
	g := c.gen
	for c.gen == g && c.sig == 0 && !simrt.Aborting() {
		simrt.Block(unsafe.Pointer(c))
	}
	if c.gen == g && c.sig > 0 {
		c.sig--
	}
}

// Wait is sync.Cond.Wait.
func (c *Cond) Wait() {
	c.L.Unlock()
	c.await()
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { c.sig++; simrt.Wake(unsafe.Pointer(c)) }

//go:norace
func (c *Cond) Broadcast() { c.gen++; c.sig = 0; simrt.Wake(unsafe.Pointer(c)) }

// Pool simulates sync.Pool: last in, first out, shared by all tasks.
type Pool struct {
	New   func() any
	items [64]any
	n     int
}

//go:norace
func (p *Pool) take() (any, bool) {
	if p.n == 0 {
		return nil, false
	}
	p.n--
	x := p.items[p.n]
	p.items[p.n] = nil
	simrt.Acquire(unsafe.Pointer(p))
	return x, true
}

// Get is sync.Pool.Get.
func (p *Pool) Get() any {
	if x, ok := p.take(); ok {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil || p.n == len(p.items) {
		return
	}
	simrt.Release(unsafe.Pointer(p))
	p.items[p.n] = x
	p.n++
}
