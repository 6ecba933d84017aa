// Package sync stands in for the standard package of that name: every
// operation is a scheduling point, and the happens-before edges are those of
// the standard package.
package sync

import (
	gosync "sync"
	"unsafe"

	"verifmc/shim/sched"
)

type Locker = gosync.Locker

// Mutex

type Mutex struct{ locked bool }

//go:norace
func (m *Mutex) Ready() bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	sched.Await("Mutex.Lock", uintptr(unsafe.Pointer(m)), m)
	m.locked = true
	sched.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	sched.Point("Mutex.TryLock", uintptr(unsafe.Pointer(m)))
	if m.locked {
		return false
	}
	m.locked = true
	sched.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	sched.Point("Mutex.Unlock", uintptr(unsafe.Pointer(m)))
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	sched.Release(unsafe.Pointer(m))
	m.locked = false
}

// RWMutex

type RWMutex struct {
	writer  bool
	waiting int32 // writers that wait keep new readers out
	readers int32
	rel     byte
}

type rwWriter RWMutex

//go:norace
func (m *rwWriter) Ready() bool { return !m.writer && m.readers == 0 }

//go:norace
func (m *RWMutex) Ready() bool { return !m.writer && m.waiting == 0 }

//go:norace
func (m *RWMutex) Lock() {
	p := uintptr(unsafe.Pointer(m))
	sched.Point("RWMutex.Lock", p)
	if m.writer || m.readers > 0 {
		m.waiting++
		sched.Await("RWMutex.Lock", p, (*rwWriter)(m))
		m.waiting--
	}
	m.writer = true
	sched.Acquire(unsafe.Pointer(m))
	sched.Acquire(unsafe.Pointer(&m.rel))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	sched.Point("RWMutex.TryLock", uintptr(unsafe.Pointer(m)))
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	sched.Acquire(unsafe.Pointer(m))
	sched.Acquire(unsafe.Pointer(&m.rel))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	sched.Point("RWMutex.Unlock", uintptr(unsafe.Pointer(m)))
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sched.Release(unsafe.Pointer(m))
	m.writer = false
}

//go:norace
func (m *RWMutex) RLock() {
	sched.Await("RWMutex.RLock", uintptr(unsafe.Pointer(m)), m)
	m.readers++
	sched.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	sched.Point("RWMutex.TryRLock", uintptr(unsafe.Pointer(m)))
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	sched.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	sched.Point("RWMutex.RUnlock", uintptr(unsafe.Pointer(m)))
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sched.Release(unsafe.Pointer(&m.rel))
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once

type Once struct {
	done, busy bool
}

//go:norace
func (o *Once) Ready() bool { return !o.busy }

//go:norace
func (o *Once) Do(f func()) {
	sched.Await("Once.Do", uintptr(unsafe.Pointer(o)), o)
	if o.done {
		sched.Acquire(unsafe.Pointer(o))
		return
	}
	o.busy = true
	defer o.end()
	f()
}

//go:norace
func (o *Once) end() {
	sched.Point("Once.Do end", uintptr(unsafe.Pointer(o)))
	o.done, o.busy = true, false
	sched.Release(unsafe.Pointer(o))
}

// OnceFunc, OnceValue and OnceValues do not keep the value of a panic.
func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	o := new(Once)
	var v T1
	var w T2
	return func() (T1, T2) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// WaitGroup

type WaitGroup struct {
	n       int64
	waiters int32
	sema    uint32
}

//go:norace
func (w *WaitGroup) Ready() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(delta int) {
	sched.Point("WaitGroup.Add", uintptr(unsafe.Pointer(w)))
	if delta < 0 {
		sched.Release(unsafe.Pointer(w))
	}
	w.n += int64(delta)
	if delta > 0 && w.n == int64(delta) {
		// As in the standard package: the first Add must not race with
		// a Wait.
		sched.RaceRead(unsafe.Pointer(&w.sema))
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	p := uintptr(unsafe.Pointer(w))
	sched.Point("WaitGroup.Wait", p)
	if w.n != 0 {
		if w.waiters == 0 {
			sched.RaceWrite(unsafe.Pointer(&w.sema))
		}
		w.waiters++
		sched.Await("WaitGroup.Wait blocked", p, w)
		w.waiters--
	}
	sched.Acquire(unsafe.Pointer(w))
}

// Cond

type Cond struct {
	L       Locker
	waiting int32
	tokens  int32
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Ready() bool { return c.tokens > 0 }

//go:norace
func (c *Cond) Wait() {
	c.waiting++
	c.L.Unlock()
	sched.Await("Cond.Wait", uintptr(unsafe.Pointer(c)), c)
	c.tokens--
	c.waiting--
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	sched.Point("Cond.Signal", uintptr(unsafe.Pointer(c)))
	if c.tokens < c.waiting {
		c.tokens++
	}
}

//go:norace
func (c *Cond) Broadcast() {
	sched.Point("Cond.Broadcast", uintptr(unsafe.Pointer(c)))
	c.tokens = c.waiting
}

// Map has the standard map inside.

type Map struct{ m gosync.Map }

//go:norace
func (m *Map) at(op string) { sched.Point(op, uintptr(unsafe.Pointer(m))) }

func (m *Map) Load(k any) (any, bool) { m.at("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { m.at("Map.Store"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.at("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.at("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any)              { m.at("Map.Delete"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) { m.at("Map.Swap"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.at("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.at("Map.CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	m.at("Map.Range")
	m.m.Range(func(k, v any) bool {
		m.at("Map.Range step")
		return f(k, v)
	})
}
func (m *Map) Clear() { m.at("Map.Clear"); m.m.Clear() }

// Pool keeps what it is given; whether Get finds it is the explorer's choice.

const poolMax = 64

type Pool struct {
	New   func() any
	n     int
	items [poolMax]any
}

type eface struct{ t, p unsafe.Pointer }

//go:norace
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	sched.Point("Pool.Put", uintptr(unsafe.Pointer(p)))
	if p.n == poolMax {
		return
	}
	sched.Release((*eface)(unsafe.Pointer(&v)).p)
	p.items[p.n] = v
	p.n++
}

//go:norace
func (p *Pool) Get() any {
	sched.Point("Pool.Get", uintptr(unsafe.Pointer(p)))
	k := 0
	switch {
	case p.n == 1:
		k = sched.Ask("pool (hit, miss)", 2)
	case p.n > 1:
		k = sched.Ask("pool (newest, miss, oldest)", 3)
	}
	if p.n == 0 || k == 1 {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	i := p.n - 1
	if k == 2 {
		i = 0
	}
	v := p.items[i]
	for ; i < p.n-1; i++ {
		p.items[i] = p.items[i+1]
	}
	p.n--
	p.items[p.n] = nil
	sched.Acquire((*eface)(unsafe.Pointer(&v)).p)
	return v
}
