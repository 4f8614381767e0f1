//go:build go1.21

// Package zzsched replaces goroutines, channels and package sync in an instrumented copy of
// the code under test (see instr/): exactly one thread runs at a time, and every operation on
// a synchronisation object is a point where the explorer decides which thread goes on.
// Explore enumerates all schedules up to the order of independent operations (dynamic
// partial-order reduction of Flanagan and Godefroid with sleep sets).
package zzsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

type kind uint8

const (
	opStart kind = iota
	opSend
	opRecv
	opClose
	opLen
	opSelect
	opAdd  // WaitGroup.Add of a positive number
	opDone // WaitGroup.Add of a negative number
	opWait
	opLock
	opUnlock
	opTry
	opRLock
	opRUnlock
	opOnce
	opOnceEnd
	opAtomicR
	opAtomicW
	opWake // cond
	opCondWait
	opYield
	opArrive // at an unbuffered channel, before waiting for a sender
)

var kindName = []string{"start", "send", "recv", "close", "len", "select", "add", "done", "wait", "lock", "unlock", "trylock", "rlock", "runlock", "once", "once-end", "load", "store", "signal", "cond-wait", "yield", "arrive"}

type op struct {
	k       kind
	obj     int // 0: none
	enabled func() bool
	variant int // number of ways to go on, for select
	nvar    func() int
	tag     int // send, recv: item number; -1 closed
	cap     int
	ws      []*waiter // of a select on unbuffered channels
}

type thread struct {
	id    int
	wake  chan struct{}
	op    *op
	done  bool
	token int64 // orders what the thread did before the checks
}

type abortT struct{}

type sched struct {
	threads []*thread
	cur     *thread
	yield   chan *thread
	abort   bool
	panicS  string
	objs    int
	cpus    int
	steps   int
	atoms   []atom
}

var (
	s     *sched
	epoch int // number of the execution
)

// object gives synchronisation objects a number in the current execution.
type object struct{ id, epoch int }

// num reports whether the object is used for the first time in this execution.
func (o *object) num() (int, bool) {
	if s == nil {
		panic("zzsched: used outside of Explore")
	}
	if o.epoch != epoch || o.id == 0 {
		o.id, o.epoch = newObj(), epoch
		return o.id, true
	}
	return o.id, false
}

func newObj() int {
	if s == nil {
		return 0
	}
	s.objs++
	return s.objs
}

// NumCPU is the number of processors seen by the code under test.
func NumCPU() int {
	if s == nil {
		return runtime.NumCPU()
	}
	return s.cpus
}

func GOMAXPROCS(int) int { return NumCPU() }

func Gosched() { point(&op{k: opYield}) }

// point parks the running thread before the operation until the explorer lets it go on.
func point(o *op) {
	if s == nil {
		panic("zzsched: used outside of Explore")
	}
	if s.abort {
		panic(abortT{})
	}
	t := s.cur
	raceOff()
	t.op = o
	s.yield <- t
	<-t.wake
	t.op = nil
	raceOn()
	if s.abort {
		panic(abortT{})
	}
}

// Sleep lets others go on.
func Sleep(time.Duration) { point(&op{k: opYield}) }

// Go starts a thread.
func Go(f func()) {
	if s == nil {
		panic("zzsched: used outside of Explore")
	}
	if s.abort {
		panic(abortT{})
	}
	t := &thread{id: len(s.threads), wake: make(chan struct{})}
	s.threads = append(s.threads, t)
	t.op = &op{k: opStart}
	go run(t, f) // the go statement orders the parent before the child
}

func run(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	defer func() {
		r := recover()
		if r != nil {
			if _, ok := r.(abortT); !ok && s.panicS == "" {
				s.panicS = fmt.Sprintf("panic: %v at %s", r, site(string(debug.Stack())))
			}
		}
		raceRelease(unsafe.Pointer(&t.token))
		raceOff()
		t.done = true
		s.yield <- t
		raceOn()
	}()
	if s.abort {
		return
	}
	t.op = nil
	f()
}

func site(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") && !strings.Contains(l, "zzsched") && !strings.Contains(l, "/src/runtime/") {
			if i := strings.Index(l, " +"); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// ---- explorer ----

type step struct {
	tid, variant int
	k            kind
	obj, tag     int
	cap          int
	enabled      []bool // at the state before, by thread
	pend         []pendOp
}

type pendOp struct {
	ok       bool
	k        kind
	obj, tag int
	cap      int
}

type node struct {
	tid, variant int
	def          int // the choice of the default schedule
	nvar         int // variants of the chosen thread
	backtrack    map[int]bool
	done         map[int]bool
	sleep        map[int]bool // threads whose next step was explored before and is independent of what came since
}

// Result of one schedule.
type Result struct {
	Deadlock string // threads that can never go on
	Leak     string // threads still blocked when the main thread has ended
	Panic    string
	Races    int
	Hang     bool
	Aborted  bool // redundant
	Diverged bool // the code does not do the same again
	steps    []step
	final    []pendOp // blocked for ever
}

type Stats struct {
	Schedules, Redundant, Steps int
	Complete                    bool
}

// Explore runs body under every schedule; check is called after every complete one and returns
// false to stop. limit bounds the number of schedules (0: none).
// delays >= 0 bounds the number of deviations from the default schedule (run a thread until it
// blocks, then the one with the lowest number) and switches the reduction off.
func Explore(cpus, limit, delayBound int, body func(), check func(Result) bool) Stats {
	var st Stats
	var stack []*node
	for {
		res, steps := execute(cpus, &stack, body, delayBound)
		st.Steps += len(steps)
		if res.Diverged {
			check(res)
			return st
		}
		if res.Aborted {
			st.Redundant++
		} else {
			st.Schedules++
			if !check(res) {
				return st
			}
		}
		if delayBound < 0 {
			addBacktracks(stack, steps, res.final)
		}
		// next branch
		for len(stack) > 0 {
			nd := stack[len(stack)-1]
			if nd.variant+1 < nd.nvar {
				nd.variant++
				break
			}
			nd.done[nd.tid] = true
			nd.sleep[nd.tid] = true
			next := -1
			for t := range nd.backtrack {
				if !nd.done[t] && (delayBound >= 0 || !nd.sleep[t]) && (next < 0 || t < next) {
					next = t
				}
			}
			if next >= 0 {
				nd.tid, nd.variant, nd.nvar = next, 0, 0
				break
			}
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			st.Complete = true
			return st
		}
		if limit > 0 && st.Schedules >= limit {
			return st
		}
	}
}

func desc(o *op) pendOp {
	if o == nil {
		return pendOp{}
	}
	return pendOp{ok: true, k: o.k, obj: o.obj, tag: o.tag, cap: o.cap}
}

func (o *op) on() bool { return o.enabled == nil || o.enabled() }

func execute(cpus int, stack *[]*node, body func(), delayBound int) (res Result, steps []step) {
	epoch++
	s = &sched{yield: make(chan *thread), cpus: cpus}
	r0 := raceErrors()
	m := &thread{wake: make(chan struct{})}
	s.threads = []*thread{m}
	m.op = &op{k: opStart}
	go run(m, body)
	depth := 0
	last := -1
	delays := 0
	for {
		// who can go on?
		var en []bool
		var pend []pendOp
		any := false
		for _, t := range s.threads {
			e := !t.done && t.op.on()
			en = append(en, e)
			any = any || e
			if t.done {
				pend = append(pend, pendOp{})
			} else {
				pend = append(pend, desc(t.op))
			}
		}
		if !any {
			res.final = pend
			break
		}
		var nd *node
		if depth < len(*stack) {
			nd = (*stack)[depth]
		} else {
			nd = &node{tid: -1, backtrack: map[int]bool{}, done: map[int]bool{}, sleep: map[int]bool{}}
			if delayBound < 0 && depth > 0 {
				p := (*stack)[depth-1]
				ls := steps[depth-1]
				for q := range p.sleep {
					if q != ls.tid && q < len(ls.pend) && ls.pend[q].ok && swappable(ls.pend[q], pendOp{true, ls.k, ls.obj, ls.tag, ls.cap}) {
						nd.sleep[q] = true
					}
				}
			}
			pick := func(q int) bool {
				if q >= 0 && q < len(en) && en[q] && !nd.sleep[q] {
					nd.tid = q
					return true
				}
				return false
			}
			if !pick(last) {
				for q := range en {
					if pick(q) {
						break
					}
				}
			}
			if nd.tid < 0 { // every continuation was explored already
				res.Aborted = true
				res.final = pend
				break
			}
			nd.backtrack[nd.tid] = true
			nd.def = nd.tid
			if delayBound >= 0 && delays < delayBound {
				for q, e := range en {
					if e {
						nd.backtrack[q] = true
					}
				}
			}
			*stack = append(*stack, nd)
		}
		if nd.tid >= len(en) || !en[nd.tid] {
			res.Diverged = true
			break
		}
		t := s.threads[nd.tid]
		if nd.nvar == 0 {
			nd.nvar = 1
			if t.op.nvar != nil {
				nd.nvar = t.op.nvar()
			}
		}
		t.op.variant = nd.variant
		if nd.tid != nd.def {
			delays++
		}
		sp := step{tid: nd.tid, variant: nd.variant, enabled: en, pend: pend, k: t.op.k, obj: t.op.obj, cap: t.op.cap}
		o := t.op
		s.cur = t
		last = nd.tid
		raceOff()
		t.wake <- struct{}{}
		<-s.yield
		raceOn()
		sp.tag = o.tag
		steps = append(steps, sp)
		depth++
		if s.panicS != "" || depth > 100000 {
			if depth > 100000 {
				res.Hang = true
			}
			for _, t := range s.threads {
				if t.done || t.op == nil {
					res.final = append(res.final, pendOp{})
				} else {
					res.final = append(res.final, desc(t.op))
				}
			}
			break
		}
	}
	var blocked []string
	mainDone := m.done
	for _, t := range s.threads {
		if !t.done {
			blocked = append(blocked, fmt.Sprintf("%d:%s#%d", t.id, kindName[t.op.k], t.op.obj))
		}
	}
	if s.panicS == "" && !res.Aborted && !res.Diverged && !res.Hang && len(blocked) > 0 {
		if mainDone {
			res.Leak = strings.Join(blocked, " ")
		} else {
			res.Deadlock = strings.Join(blocked, " ")
		}
	}
	res.Panic = s.panicS
	// end what is left
	s.abort = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if !t.done {
			s.cur = t
			raceOff()
			t.wake <- struct{}{}
			<-s.yield
			raceOn()
		}
		raceAcquire(unsafe.Pointer(&t.token))
	}
	res.Races = raceErrors() - r0
	res.steps = steps
	s = nil
	return res, steps
}

// Format writes a schedule down.
func (r Result) Schedule() string {
	var b strings.Builder
	for _, st := range r.steps {
		if st.k == opStart {
			fmt.Fprintf(&b, "%d:start ", st.tid)
		} else {
			fmt.Fprintf(&b, "%d:%s#%d ", st.tid, kindName[st.k], st.obj)
		}
	}
	return strings.TrimSpace(b.String())
}

// dependent: may the two operations of different threads not be swapped?
func dependent(a, b pendOp) bool {
	if a.k == opSelect || b.k == opSelect {
		return a.k != opStart && b.k != opStart && a.k != opYield && b.k != opYield
	}
	if a.obj == 0 || a.obj != b.obj {
		return false
	}
	return a.k == opArrive || b.k == opArrive || a.k == opSend || a.k == opRecv || b.k == opSend || b.k == opRecv || conflict(a, b) || edge(a, b) || edge(b, a)
}

// asleep: both are enabled in one state and can be swapped there.
func swappable(a, b pendOp) bool {
	if a.k == opSelect || b.k == opSelect {
		return false
	}
	if a.obj == 0 || a.obj != b.obj {
		return true
	}
	if a.k == opSend && b.k == opRecv || a.k == opRecv && b.k == opSend {
		return a.cap > 0
	}
	switch {
	case a.k == b.k && (a.k == opAtomicR || a.k == opRLock || a.k == opRUnlock || a.k == opWait || a.k == opLen):
		return true
	}
	return false
}

// conflict: dependent and possibly enabled in one state, so that the order is a choice.
func conflict(a, b pendOp) bool {
	if a.k == opSelect || b.k == opSelect {
		return true
	}
	pair := func(x, y kind) bool { return a.k == x && b.k == y || a.k == y && b.k == x }
	switch {
	case pair(opDone, opWait), pair(opUnlock, opLock), pair(opUnlock, opUnlock), pair(opRUnlock, opLock), pair(opUnlock, opRLock),
		pair(opDone, opDone), pair(opWait, opWait), pair(opRLock, opRLock), pair(opRUnlock, opRUnlock), pair(opRLock, opRUnlock), pair(opAtomicR, opAtomicR), pair(opLen, opLen):
		return false
	case pair(opOnce, opOnceEnd):
		return false
	case pair(opSend, opRecv):
		return a.cap == 0 // buffered: they are different items, or one waits for the other
	case pair(opClose, opRecv):
		return false
	case a.k == opRecv && b.k == opRecv:
		return !(a.tag == -1 && b.tag == -1)
	}
	return true
}

// hb relation and races between the steps of one schedule
func addBacktracks(stack []*node, steps []step, final []pendOp) {
	n := len(steps)
	nt := 0
	for _, st := range steps {
		if len(st.enabled) > nt {
			nt = len(st.enabled)
		}
	}
	if len(final) > nt {
		nt = len(final)
	}
	nt++
	clocks := make([][]int, n) // clocks[i][t]: last step of thread t that happens before (or is) step i, plus one
	lastOf := make([]int, nt)
	for i := range lastOf {
		lastOf[i] = -1
	}
	spawned := map[int]int{} // thread -> step that created it
	prevThreads := 1
	merge := func(c []int, d []int) {
		for k, v := range d {
			if v > c[k] {
				c[k] = v
			}
		}
	}
	base := func(t int) []int {
		if l := lastOf[t]; l >= 0 {
			return clocks[l]
		}
		if sp, ok := spawned[t]; ok && sp >= 0 {
			return clocks[sp]
		}
		return make([]int, nt)
	}
	// races of operation p of thread t, which is about to run after the step last (source sets of
	// Abdulla, Aronis, Jonsson and Sagonas): for every step it could have preceded, one of the
	// threads that can begin the rest without that step is run instead of it.
	r0 := func(t int, p pendOp, last int, b []int) []int { // what happens before p
		c := append([]int{}, b...)
		for j := last; j >= 0; j-- {
			sj := steps[j]
			if sj.tid != t && edge(pendOp{true, sj.k, sj.obj, sj.tag, sj.cap}, p) {
				merge(c, clocks[j])
			}
		}
		return c
	}
	races := func(t int, p pendOp, last int) {
		r := append([]int{}, base(t)...)
		for j := last; j >= 0; j-- {
			sj := steps[j]
			other := pendOp{true, sj.k, sj.obj, sj.tag, sj.cap}
			if sj.tid == t || !dependent(p, other) || !conflict(other, p) {
				continue
			}
			if r[sj.tid] <= j && j < len(stack) {
				initials := map[int]bool{}
				seen := map[int]bool{}
				var v []int
				try := func(q int, clock []int) {
					if seen[q] {
						return
					}
					seen[q] = true
					for _, k := range v {
						if clock[steps[k].tid] > k {
							return
						}
					}
					initials[q] = true
				}
				for k := j + 1; k <= last; k++ {
					if clocks[k][sj.tid] <= j {
						try(steps[k].tid, clocks[k])
						v = append(v, k)
					}
				}
				try(t, append([]int{}, r0(t, p, last, base(t))...))
				have := false
				for q := range initials {
					have = have || stack[j].backtrack[q]
				}
				if !have {
					q := -1
					for c := range initials {
						if c < len(sj.enabled) && sj.enabled[c] && (q < 0 || c < q) {
							q = c
						}
					}
					if q >= 0 {
						stack[j].backtrack[q] = true
					} else {
						backtrack(stack[j], sj, t)
					}
				}
			}
			merge(r, clocks[j])
		}
	}
	for i, st := range steps {
		if len(st.enabled) > prevThreads {
			for t := prevThreads; t < len(st.enabled); t++ {
				spawned[t] = i - 1
			}
			prevThreads = len(st.enabled)
		}
		// every thread that is about to run or has to wait could have gone on earlier
		for t, p := range st.pend {
			if p.ok && (t == st.tid || !st.enabled[t]) {
				if t == st.tid {
					p = pendOp{true, st.k, st.obj, st.tag, st.cap}
				}
				races(t, p, i-1)
			}
		}
		me := pendOp{true, st.k, st.obj, st.tag, st.cap}
		c := r0(st.tid, me, i-1, base(st.tid))
		c[st.tid] = i + 1
		clocks[i] = c
		lastOf[st.tid] = i
	}
	for t, p := range final {
		if p.ok {
			races(t, p, n-1)
		}
	}
}

func backtrack(nd *node, st step, t int) {
	if t < len(st.enabled) && st.enabled[t] {
		nd.backtrack[t] = true
		return
	}
	for q, e := range st.enabled {
		if e {
			nd.backtrack[q] = true
		}
	}
}

// edge: does it matter that a comes before b?
func edge(a, b pendOp) bool {
	if a.k == opSelect || b.k == opSelect {
		return a.k != opStart && b.k != opStart && a.k != opYield && b.k != opYield
	}
	if a.obj == 0 || a.obj != b.obj {
		return false
	}
	switch {
	case a.k == opSend && b.k == opRecv && a.cap > 0:
		return a.tag == b.tag
	case a.k == opRecv && b.k == opSend && a.cap > 0:
		return a.tag >= 0 && b.tag >= a.tag+a.cap // frees the slot
	case a.k == opClose && b.k == opRecv:
		return b.tag == -1
	case a.k == opRecv && b.k == opClose:
		return false
	case a.k == opRecv && b.k == opRecv && a.tag == -1 && b.tag == -1:
		return false
	case a.k == b.k && (a.k == opAtomicR || a.k == opRLock || a.k == opRUnlock || a.k == opDone || a.k == opWait || a.k == opLen):
		return false
	}
	return true
}
