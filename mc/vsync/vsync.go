// Package vsync stands in for package sync, and for channel operations, go
// statements and timers, in the code under test: while a Sched runs they are
// scheduling points of the scheduler, which keeps its own hand-overs invisible
// to the race detector; otherwise they are the real ones. The package is
// compiled without race instrumentation.
package vsync

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

// Unchanged parts of package sync.
type (
	Map    = sync.Map
	Pool   = sync.Pool
	Locker = sync.Locker
)

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

var active atomic.Pointer[Sched]

// running returns the active scheduler. What a thread still does while it is
// being ended (deferred calls) has no effect.
func running() (s *Sched, ended bool) {
	s = active.Load()
	return s, s != nil && s.dying
}

// Mutex is sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held atomic.Bool
	s    *Sched
}

func (m *Mutex) in(s *Sched) {
	if m.s != s {
		old := m.s
		m.s = s
		if old == nil || !old.killed {
			return
		}
		m.held.Store(false)
	}
}

// Lock locks.
func (m *Mutex) Lock() {
	s, ended := running()
	if s == nil {
		m.real.Lock()
		return
	}
	if ended {
		return
	}
	m.in(s)
	raceDisable()
	s.point("Lock", m.free)
	m.held.Store(true)
	raceEnable()
	raceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) free() bool { return !m.held.Load() }

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	s, ended := running()
	if s == nil {
		return m.real.TryLock()
	}
	if ended {
		return false
	}
	m.in(s)
	raceDisable()
	s.point("TryLock", nil)
	ok := m.held.CompareAndSwap(false, true)
	raceEnable()
	if ok {
		raceAcquire(unsafe.Pointer(m))
	}
	return ok
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	s, ended := running()
	if s == nil {
		m.real.Unlock()
		return
	}
	if ended {
		return
	}
	m.in(s)
	raceRelease(unsafe.Pointer(m))
	raceDisable()
	ok := m.held.CompareAndSwap(true, false)
	raceEnable()
	if !ok {
		panic("unlock of unlocked mutex")
	}
}

// RWMutex is sync.RWMutex; as there, a waiting writer keeps new readers out.
type RWMutex struct {
	real    sync.RWMutex
	readers atomic.Int64
	waiting atomic.Int64
	writer  atomic.Bool
	r, w    byte
	s       *Sched
}

func (m *RWMutex) in(s *Sched) {
	if m.s != s {
		old := m.s
		m.s = s
		if old == nil || !old.killed {
			return
		}
		m.readers.Store(0)
		m.waiting.Store(0)
		m.writer.Store(false)
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	s, ended := running()
	if s == nil {
		m.real.Lock()
		return
	}
	if ended {
		return
	}
	m.in(s)
	raceDisable()
	s.point("Lock", nil)
	if !m.canWrite() {
		m.waiting.Add(1)
		s.point("Lock (waiting)", m.canWrite)
		m.waiting.Add(-1)
	}
	m.writer.Store(true)
	raceEnable()
	raceAcquire(unsafe.Pointer(&m.w))
	raceAcquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) canWrite() bool { return !m.writer.Load() && m.readers.Load() == 0 }
func (m *RWMutex) canRead() bool  { return !m.writer.Load() && m.waiting.Load() == 0 }

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	s, ended := running()
	if s == nil {
		m.real.Unlock()
		return
	}
	if ended {
		return
	}
	m.in(s)
	raceRelease(unsafe.Pointer(&m.w))
	raceDisable()
	ok := m.writer.CompareAndSwap(true, false)
	raceEnable()
	if !ok {
		panic("unlock of unlocked rwmutex")
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	s, ended := running()
	if s == nil {
		m.real.RLock()
		return
	}
	if ended {
		return
	}
	m.in(s)
	raceDisable()
	s.point("RLock", m.canRead)
	m.readers.Add(1)
	raceEnable()
	raceAcquire(unsafe.Pointer(&m.w))
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	s, ended := running()
	if s == nil {
		m.real.RUnlock()
		return
	}
	if ended {
		return
	}
	m.in(s)
	raceReleaseMerge(unsafe.Pointer(&m.r))
	raceDisable()
	n := m.readers.Add(-1)
	raceEnable()
	if n < 0 {
		panic("runlock of unlocked rwmutex")
	}
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	s, ended := running()
	if s == nil {
		return m.real.TryLock()
	}
	if ended {
		return false
	}
	m.in(s)
	raceDisable()
	s.point("TryLock", nil)
	ok := m.canWrite()
	if ok {
		m.writer.Store(true)
	}
	raceEnable()
	if ok {
		raceAcquire(unsafe.Pointer(&m.w))
		raceAcquire(unsafe.Pointer(&m.r))
	}
	return ok
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	s, ended := running()
	if s == nil {
		return m.real.TryRLock()
	}
	if ended {
		return false
	}
	m.in(s)
	raceDisable()
	s.point("TryRLock", nil)
	ok := m.canRead()
	if ok {
		m.readers.Add(1)
	}
	raceEnable()
	if ok {
		raceAcquire(unsafe.Pointer(&m.w))
	}
	return ok
}

// RLocker returns the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done atomic.Bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int64
	zero int64 // times it reached zero
	sema byte
	w    int64
	s    *Sched
}

func (g *WaitGroup) in(s *Sched) {
	if g.s != s {
		g.s, g.n, g.w = s, 0, 0
	}
}

// Add adds delta.
func (g *WaitGroup) Add(delta int) {
	s, ended := running()
	if s == nil {
		g.real.Add(delta)
		return
	}
	if ended {
		return
	}
	g.in(s)
	if delta < 0 {
		raceReleaseMerge(unsafe.Pointer(g))
	}
	raceDisable()
	if delta < 0 {
		s.point("WaitGroup.Done", nil)
	} else {
		s.point("WaitGroup.Add", nil)
	}
	if delta > 0 && g.n == 0 {
		raceRead(unsafe.Pointer(&g.sema))
	}
	g.n += int64(delta)
	if g.n == 0 {
		g.zero++
		g.w = 0
	}
	n := g.n
	raceEnable()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (g *WaitGroup) Done() { g.Add(-1) }

// Go runs f in a new goroutine that is waited for.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Wait waits until the counter is zero.
func (g *WaitGroup) Wait() {
	s, ended := running()
	if s == nil {
		g.real.Wait()
		return
	}
	if ended {
		return
	}
	g.in(s)
	raceDisable()
	s.point("WaitGroup.Wait", nil)
	if g.n > 0 {
		if g.w == 0 {
			raceWrite(unsafe.Pointer(&g.sema))
		}
		g.w++
		z := g.zero
		s.point("WaitGroup.Wait (waiting)", func() bool { return g.n == 0 || g.zero != z })
	}
	raceEnable()
	raceAcquire(unsafe.Pointer(g))
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	once sync.Once
	real *sync.Cond
	wait []*bool
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

// Wait is sync.Cond.Wait.
func (c *Cond) Wait() {
	s, ended := running()
	if s == nil {
		c.r().Wait()
		return
	}
	if ended {
		return
	}
	up := new(bool)
	c.wait = append(c.wait, up)
	c.L.Unlock()
	raceDisable()
	s.point("Cond.Wait", func() bool { return *up })
	raceEnable()
	c.L.Lock()
}

// Signal is sync.Cond.Signal.
func (c *Cond) Signal() {
	if s, ended := running(); s == nil {
		c.r().Signal()
	} else if !ended && len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}

// Broadcast is sync.Cond.Broadcast.
func (c *Cond) Broadcast() {
	if s, ended := running(); s == nil {
		c.r().Broadcast()
	} else if !ended {
		for _, up := range c.wait {
			*up = true
		}
		c.wait = nil
	}
}
