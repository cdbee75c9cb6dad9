// Package vsync replaces package sync in the instrumented code: locks whose
// blocking is decided by the simulator's kernel.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/rt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

// wait blocks the calling thread on key. Outside the kernel there is only one
// thread, so that waiting means waiting for ever.
//
//go:norace
func wait(key unsafe.Pointer) {
	if !rt.Active() {
		panic("deadlock: lock acquired twice by the only thread")
	}
	rt.Block(key)
}

// Mutex is a mutual exclusion lock.
type Mutex struct {
	locked bool
	_      byte
}

//go:norace
func (m *Mutex) Lock() {
	for m.locked {
		wait(unsafe.Pointer(m))
	}
	m.locked = true
	rt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	rt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	rt.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	rt.Wake(unsafe.Pointer(m))
}

// RWMutex is a reader/writer lock; as in package sync, a waiting writer holds
// back new readers.
type RWMutex struct {
	writer  bool
	readers int
	pending int
	r       byte // address for the readers' side
}

//go:norace
func (m *RWMutex) Lock() {
	m.pending++
	for m.writer || m.readers > 0 {
		wait(unsafe.Pointer(m))
	}
	m.pending--
	m.writer = true
	rt.RaceAcquire(unsafe.Pointer(m))
	rt.RaceAcquire(unsafe.Pointer(&m.r))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	rt.RaceAcquire(unsafe.Pointer(m))
	rt.RaceAcquire(unsafe.Pointer(&m.r))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.RaceRelease(unsafe.Pointer(m))
	m.writer = false
	rt.Wake(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RLock() {
	for m.writer || m.pending > 0 {
		wait(unsafe.Pointer(m))
	}
	m.readers++
	rt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	rt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.RaceRelease(unsafe.Pointer(&m.r))
	m.readers--
	rt.Wake(unsafe.Pointer(m))
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the readers' side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() { o.done = true }

// WaitGroup waits for goroutines.
type WaitGroup struct{ n int }

//go:norace
func (w *WaitGroup) Add(d int) {
	rt.RaceRelease(unsafe.Pointer(w))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		rt.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f on a new thread.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

//go:norace
func (w *WaitGroup) Wait() {
	for w.n > 0 {
		wait(unsafe.Pointer(w))
	}
	rt.RaceAcquire(unsafe.Pointer(w))
}

// Cond is a condition variable.
type Cond struct {
	L     Locker
	seq   int
	first int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	me := c.seq
	c.seq++
	c.L.Unlock()
	for c.first <= me {
		wait(unsafe.Pointer(c))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.first < c.seq {
		c.first++
		rt.Wake(unsafe.Pointer(c))
	}
}

//go:norace
func (c *Cond) Broadcast() {
	c.first = c.seq
	rt.Wake(unsafe.Pointer(c))
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	ok := false
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			f, ok = nil, true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	once := OnceFunc(func() { r = f() })
	return func() T { once(); return r }
}

// OnceValues is like sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	once := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { once(); return r1, r2 }
}
