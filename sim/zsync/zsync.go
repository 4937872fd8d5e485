// Package zsync stands in for package sync in rewritten code: the same
// semantics, with the simulator deciding who proceeds.
package zsync

import (
	"unsafe"

	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ locked bool }

func (m *Mutex) p() unsafe.Pointer { return unsafe.Pointer(m) }

func (m *Mutex) Lock() {
	zrt.SyncPoint()
	zrt.CheckKilled()
	for m.locked {
		zrt.Block(m.p(), "mutex")
	}
	m.locked = true
	zrt.RaceAcquire(m.p())
}

func (m *Mutex) TryLock() bool {
	zrt.SyncPoint()
	zrt.CheckKilled()
	if m.locked {
		return false
	}
	m.locked = true
	zrt.RaceAcquire(m.p())
	return true
}

func (m *Mutex) Unlock() {
	if zrt.Killed() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	zrt.RaceRelease(m.p())
	m.locked = false
	zrt.Wake(m.p(), true)
	zrt.SyncPoint()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	writer  bool
	readers int
	wwait   int
	rsem    byte
}

func (m *RWMutex) p() unsafe.Pointer { return unsafe.Pointer(m) }
func (m *RWMutex) r() unsafe.Pointer { return unsafe.Pointer(&m.rsem) }

func (m *RWMutex) Lock() {
	zrt.SyncPoint()
	zrt.CheckKilled()
	m.wwait++
	for m.writer || m.readers > 0 {
		zrt.Block(m.p(), "rwmutex (write)")
	}
	m.wwait--
	m.writer = true
	zrt.RaceAcquire(m.p())
	zrt.RaceAcquire(m.r())
}

func (m *RWMutex) TryLock() bool {
	zrt.SyncPoint()
	zrt.CheckKilled()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	zrt.RaceAcquire(m.p())
	zrt.RaceAcquire(m.r())
	return true
}

func (m *RWMutex) Unlock() {
	if zrt.Killed() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	zrt.RaceRelease(m.p())
	m.writer = false
	zrt.Wake(m.p(), true)
	zrt.SyncPoint()
}

func (m *RWMutex) RLock() {
	zrt.SyncPoint()
	zrt.CheckKilled()
	// A blocked Lock call keeps new readers out.
	for m.writer || m.wwait > 0 {
		zrt.Block(m.p(), "rwmutex (read)")
	}
	m.readers++
	zrt.RaceAcquire(m.p())
}

func (m *RWMutex) TryRLock() bool {
	zrt.SyncPoint()
	zrt.CheckKilled()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	zrt.RaceAcquire(m.p())
	return true
}

func (m *RWMutex) RUnlock() {
	if zrt.Killed() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	zrt.RaceReleaseMerge(m.r())
	m.readers--
	zrt.Wake(m.p(), true)
	zrt.SyncPoint()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	s       byte
	tickets []*ticket
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) p() unsafe.Pointer { return unsafe.Pointer(&c.s) }

func (c *Cond) Wait() {
	zrt.CheckKilled()
	// Registering as a waiter and unlocking must be one step: a signal
	// between them must not be lost.  Unlock is a preemption point, so the
	// registration is a ticket.
	t := &ticket{}
	c.tickets = append(c.tickets, t)
	c.L.Unlock()
	for !t.fired {
		zrt.Block(unsafe.Pointer(t), "cond")
	}
	zrt.RaceAcquire(c.p())
	c.L.Lock()
}

type ticket struct {
	fired bool
	_     int
}

func (c *Cond) Signal() {
	zrt.SyncPoint()
	zrt.CheckKilled()
	zrt.RaceReleaseMerge(c.p())
	if l := c.tickets; len(l) > 0 {
		t := l[0]
		c.tickets = l[1:]
		t.fired = true
		zrt.Wake(unsafe.Pointer(t), true)
	}
}

func (c *Cond) Broadcast() {
	zrt.SyncPoint()
	zrt.CheckKilled()
	zrt.RaceReleaseMerge(c.p())
	l := c.tickets
	c.tickets = nil
	for _, t := range l {
		t.fired = true
		zrt.Wake(unsafe.Pointer(t), true)
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) p() unsafe.Pointer { return unsafe.Pointer(w) }

func (w *WaitGroup) Add(d int) {
	zrt.SyncPoint()
	if zrt.Killed() {
		return
	}
	if d < 0 {
		zrt.RaceReleaseMerge(w.p())
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		zrt.Wake(w.p(), true)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	zrt.SyncPoint()
	zrt.CheckKilled()
	for w.n > 0 {
		zrt.Block(w.p(), "waitgroup")
	}
	zrt.RaceAcquire(w.p())
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	zrt.SyncPoint()
	zrt.CheckKilled()
	if o.done {
		zrt.RaceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			zrt.RaceReleaseMerge(unsafe.Pointer(o))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Pool is sync.Pool: it may hand back any stored value or make a new one.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	zrt.SyncPoint()
	zrt.CheckKilled()
	if n := len(p.l); n > 0 && zrt.Misc().Intn(4) != 0 {
		i := zrt.Misc().Intn(n)
		v := p.l[i]
		p.l = append(p.l[:i:i], p.l[i+1:]...)
		zrt.RaceAcquire(unsafe.Pointer(p))
		return v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x interface{}) {
	if x == nil || zrt.Killed() {
		return
	}
	zrt.RaceReleaseMerge(unsafe.Pointer(p))
	p.l = append(p.l, x)
	zrt.SyncPoint()
}

// Map is sync.Map.
type Map struct {
	m map[interface{}]interface{}
	k []interface{}
}

func (m *Map) enter() {
	zrt.SyncPoint()
	zrt.CheckKilled()
	zrt.RaceAcquire(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}
func (m *Map) exit() { zrt.RaceReleaseMerge(unsafe.Pointer(m)) }

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.enter()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	m.enter()
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
	m.exit()
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.enter()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.k = append(m.k, k)
	m.m[k] = v
	m.exit()
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.enter()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i := range m.k {
			if m.k[i] == k {
				m.k = append(m.k[:i:i], m.k[i+1:]...)
				break
			}
		}
		m.exit()
	}
	return v, ok
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.enter()
	o, ok := m.m[k]
	if !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
	m.exit()
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.enter()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		m.exit()
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.enter()
	if c, ok := m.m[k]; ok && c == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.enter()
	m.m, m.k = map[interface{}]interface{}{}, nil
	m.exit()
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.enter()
	for _, k := range append([]interface{}(nil), m.k...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
