//go:build go1.21

package zzsched

import "unsafe"

type waiter struct {
	th     *thread
	o      *op
	caseNo int
	handed bool
	v      any
	tag    int
	ch     *core
}

// core is a channel without its type.
type core struct {
	o        object
	cap      int
	buf      []any
	tags     []int
	slots    []int64 // synchronisation tokens
	closed   bool
	closeTok int64
	sent     int
	waiting  []*waiter // receivers of an unbuffered channel
}

func newCore(n int) *core {
	if n < 0 {
		panic("makechan: size out of range")
	}
	k := n
	if k == 0 {
		k = 1
	}
	return &core{cap: n, slots: make([]int64, k)}
}

func (c *core) id() int {
	id, _ := c.o.num()
	return id
}

func (c *core) slot(tag int) unsafe.Pointer { return unsafe.Pointer(&c.slots[tag%len(c.slots)]) }

func (c *core) free(except *thread) []*waiter {
	var r []*waiter
	for _, w := range c.waiting {
		if !w.handed && !delivered(w) && w.th != except {
			r = append(r, w)
		}
	}
	return r
}

// a select waits on several channels, one delivery is enough
func delivered(w *waiter) bool {
	if w.o == nil {
		return false
	}
	for _, o := range w.o.ws {
		if o.handed {
			return true
		}
	}
	return false
}

func (c *core) canSend(me *thread) bool {
	return c.closed || len(c.buf) < c.cap || c.cap == 0 && len(c.free(me)) > 0
}

func (c *core) doSend(v any, o *op, variant int) {
	if c.closed {
		panic("send on closed channel")
	}
	o.tag = c.sent
	c.sent++
	raceAcquire(c.slot(o.tag))
	raceReleaseOne(c.slot(o.tag))
	if c.cap == 0 {
		w := c.free(s.cur)[variant]
		w.handed, w.v, w.tag = true, v, o.tag
		return
	}
	c.buf = append(c.buf, v)
	c.tags = append(c.tags, o.tag)
}

func (c *core) send(v any) {
	if c == nil {
		point(&op{k: opSend, enabled: func() bool { return false }})
	}
	me := s.cur
	o := &op{k: opSend, obj: c.id(), cap: c.cap, enabled: func() bool { return c.canSend(me) }}
	if c.cap == 0 {
		o.nvar = func() int {
			if c.closed {
				return 1
			}
			return len(c.free(me))
		}
	}
	point(o)
	c.doSend(v, o, o.variant)
}

func (c *core) register(o *op, no int) *waiter {
	w := &waiter{th: s.cur, o: o, caseNo: no, ch: c}
	c.waiting = append(c.waiting, w)
	raceRelease(c.slot(0))
	return w
}

func (c *core) unregister(w *waiter) {
	// Without copy and maps: in a race build the runtime reports their accesses as the caller's.
	rest := make([]*waiter, 0, len(c.waiting))
	for _, x := range c.waiting {
		if x != w {
			rest = append(rest, x)
		}
	}
	c.waiting = rest
}

func (c *core) canRecv(w *waiter) bool {
	return len(c.buf) > 0 || c.closed || w != nil && w.handed
}

func (c *core) doRecv(w *waiter, o *op) (any, bool) {
	if w != nil && w.handed {
		o.tag = w.tag
		raceAcquire(c.slot(w.tag))
		return w.v, true
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		o.tag = c.tags[0]
		c.buf, c.tags = c.buf[1:], c.tags[1:]
		raceAcquire(c.slot(o.tag))
		raceReleaseOne(c.slot(o.tag))
		return v, true
	}
	o.tag = -1
	raceAcquire(unsafe.Pointer(&c.closeTok))
	return nil, false
}

func (c *core) recv() (any, bool) {
	if c == nil {
		point(&op{k: opRecv, enabled: func() bool { return false }})
	}
	o := &op{k: opRecv, obj: c.id(), cap: c.cap}
	var w *waiter
	if c.cap == 0 {
		point(&op{k: opArrive, obj: c.id(), cap: c.cap})
		w = c.register(nil, 0)
	}
	o.enabled = func() bool { return c.canRecv(w) }
	point(o)
	if w != nil {
		c.unregister(w)
	}
	return c.doRecv(w, o)
}

func (c *core) close() {
	if c == nil {
		panic("close of nil channel")
	}
	point(&op{k: opClose, obj: c.id(), cap: c.cap})
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	raceRelease(unsafe.Pointer(&c.closeTok))
}

// Chan stands for chan T.
type Chan[T any] struct{ c *core }

func MakeChan[T any](n ...int) *Chan[T] {
	k := 0
	if len(n) > 0 {
		k = n[0]
	}
	return &Chan[T]{c: newCore(k)}
}

func (c *Chan[T]) core() *core {
	if c == nil {
		return nil
	}
	return c.c
}

func (c *Chan[T]) Send(v T) { c.core().send(any(v)) }

func conv[T any](v any, ok bool) (T, bool) {
	if !ok || v == nil {
		var z T
		return z, ok
	}
	return v.(T), ok
}

func (c *Chan[T]) Recv() T {
	v, _ := conv[T](c.core().recv())
	return v
}

func (c *Chan[T]) Recv2() (T, bool) { return conv[T](c.core().recv()) }

func (c *Chan[T]) Close() { c.core().close() }

func (c *Chan[T]) Len() int { return c.core().length() }

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

func (c *core) length() int {
	if c == nil {
		return 0
	}
	point(&op{k: opLen, obj: c.id(), cap: c.cap})
	return len(c.buf)
}

// Case is one case of a select.
type Case struct {
	send bool
	c    *core
	v    any
}

func (c *Chan[T]) SendCase(v T) Case { return Case{true, c.core(), any(v)} }
func (c *Chan[T]) RecvCase() Case    { return Case{false, c.core(), nil} }

// RecvVal gives the value received by a select its type.
func RecvVal[T any](_ *Chan[T], v any) T {
	r, _ := conv[T](v, true)
	return r
}

// Select returns the number of the case that went on (-1: default) and what it received.
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	o := &op{k: opSelect}
	me := s.cur
	ws := make([]*waiter, len(cases))
	for i, c := range cases {
		if !c.send && c.c != nil && c.c.cap == 0 {
			point(&op{k: opSelect})
			ws[i] = c.c.register(o, i)
			o.ws = append(o.ws, ws[i])
		}
	}
	type way struct{ i, variant int }
	ready := func() []way {
		var r []way
		for i := range cases {
			if ws[i] != nil && ws[i].handed {
				return []way{{i, 0}}
			}
		}
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			if c.send && c.c.canSend(me) {
				n := 1
				if c.c.cap == 0 && !c.c.closed {
					n = len(c.c.free(me))
				}
				for k := 0; k < n; k++ {
					r = append(r, way{i, k})
				}
			}
			if !c.send && c.c.canRecv(ws[i]) {
				r = append(r, way{i, 0})
			}
		}
		if len(r) == 0 && hasDefault {
			r = append(r, way{-1, 0})
		}
		return r
	}
	o.enabled = func() bool { return len(ready()) > 0 }
	o.nvar = func() int { return len(ready()) }
	point(o)
	w := ready()[o.variant]
	for i, x := range ws {
		if x != nil {
			cases[i].c.unregister(x)
		}
	}
	if w.i < 0 {
		return -1, nil, false
	}
	c := cases[w.i]
	if c.send {
		c.c.doSend(c.v, o, w.variant)
		return w.i, nil, false
	}
	v, ok := c.c.doRecv(ws[w.i], o)
	return w.i, v, ok
}

// Range is for loops over channels.
func Range[T any](c *Chan[T]) (*Chan[T], T) {
	var z T
	return c, z
}
