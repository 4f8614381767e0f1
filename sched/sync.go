//go:build go1.21

package zzsched

import (
	stdsync "sync"
	"unsafe"
)

// The types below stand for those of package sync.

type (
	Map  = stdsync.Map
	Pool = stdsync.Pool
)

type WaitGroup struct {
	o   object
	n   int
	tok int64
}

func (w *WaitGroup) obj() int {
	id, fresh := w.o.num()
	if fresh {
		w.n = 0
	}
	return id
}

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		raceRelease(unsafe.Pointer(&w.tok))
		point(&op{k: opDone, obj: w.obj()})
	} else {
		point(&op{k: opAdd, obj: w.obj()})
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	point(&op{k: opWait, obj: w.obj(), enabled: func() bool { return w.n == 0 }})
	raceAcquire(unsafe.Pointer(&w.tok))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Locker interface {
	Lock()
	Unlock()
}

type RWMutex struct {
	o       object
	locked  bool
	readers int
	tok     int64
	rtok    int64
}

func (m *RWMutex) obj() int {
	id, fresh := m.o.num()
	if fresh {
		m.locked, m.readers = false, 0
	}
	return id
}

func (m *RWMutex) Lock() {
	point(&op{k: opLock, obj: m.obj(), enabled: func() bool { return !m.locked && m.readers == 0 }})
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.tok))
	raceAcquire(unsafe.Pointer(&m.rtok))
}

func (m *RWMutex) TryLock() bool {
	point(&op{k: opTry, obj: m.obj()})
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.tok))
	raceAcquire(unsafe.Pointer(&m.rtok))
	return true
}

func (m *RWMutex) Unlock() {
	point(&op{k: opUnlock, obj: m.obj()})
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.tok))
	m.locked = false
}

func (m *RWMutex) RLock() {
	point(&op{k: opRLock, obj: m.obj(), enabled: func() bool { return !m.locked }})
	m.readers++
	raceAcquire(unsafe.Pointer(&m.tok))
}

func (m *RWMutex) TryRLock() bool {
	point(&op{k: opTry, obj: m.obj()})
	if m.locked {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.tok))
	return true
}

func (m *RWMutex) RUnlock() {
	point(&op{k: opRUnlock, obj: m.obj()})
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rtok))
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type Once struct {
	o             object
	running, done bool
	tok           int64
}

func (o *Once) Do(f func()) {
	id, _ := o.o.num()
	point(&op{k: opOnce, obj: id, enabled: func() bool { return !o.running }})
	if o.done {
		raceAcquire(unsafe.Pointer(&o.tok))
		return
	}
	o.running = true
	defer func() {
		o.running, o.done = false, true
		raceRelease(unsafe.Pointer(&o.tok))
	}()
	f()
	point(&op{k: opOnceEnd, obj: id})
}

type Cond struct {
	L   Locker
	o   object
	q   []*bool
	tok int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) obj() int {
	id, fresh := c.o.num()
	if fresh {
		c.q = nil
	}
	return id
}

func (c *Cond) Wait() {
	woken := new(bool)
	c.obj()
	c.q = append(c.q, woken)
	c.L.Unlock()
	point(&op{k: opCondWait, obj: c.obj(), enabled: func() bool { return *woken }})
	raceAcquire(unsafe.Pointer(&c.tok))
	c.L.Lock()
}

func (c *Cond) Signal() {
	point(&op{k: opWake, obj: c.obj()})
	raceRelease(unsafe.Pointer(&c.tok))
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	point(&op{k: opWake, obj: c.obj()})
	raceRelease(unsafe.Pointer(&c.tok))
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// atomics: every access is a point, all accesses of one address are ordered

type atom struct {
	p  unsafe.Pointer
	id int
}

func atomicPoint(p unsafe.Pointer, k kind) {
	if s == nil {
		panic("zzsched: used outside of Explore")
	}
	id := 0
	for _, a := range s.atoms {
		if a.p == p {
			id = a.id
		}
	}
	if id == 0 {
		id = newObj()
		s.atoms = append(s.atoms, atom{p, id})
	}
	point(&op{k: k, obj: id})
}

// AtomicR and AtomicW are called before native atomic operations.
func AtomicR(p unsafe.Pointer) { atomicPoint(p, opAtomicR) }
func AtomicW(p unsafe.Pointer) { atomicPoint(p, opAtomicW) }
