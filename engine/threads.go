package main

import (
	"fmt"
	"go/types"
)

// Logical threads: sym.Par runs closures as coroutines. The schedule is
// symbolic: at every write to shared memory and every synchronisation
// operation a fresh variable says whether the thread is preempted there, as
// long as the number of preemptions stays within the bound. A thread that is
// preempted before a plain write has that write pending; an access of an other
// thread to the same memory while the write is pending is a data race (nothing
// orders the two). Locks block, and if every thread is blocked that is a deadlock.

const (
	evLock = iota
	evUnlock
	evRLock
	evRUnlock
)

type lockKey struct {
	obj any
	off int
}

type lockState struct {
	owner   int // thread holding it for writing, -1 none
	readers map[int]int
}

type pending struct {
	obj    any
	off, n int
	where  string
}

type thread struct {
	id      int
	stack   []V
	sp      int
	frames  []*Frame
	depth   int
	curFn   *Code
	resume  chan bool
	started bool
	done    bool
	blocked *lockKey
	wantR   bool
	pend    *pending
	err     any
}

type threadState struct {
	ths    []*thread
	cur    *thread
	back   chan bool // a thread gives control back to the scheduler
	left   int       // preemptions left
	events int
	dead   bool
}

type killed struct{}

func (t *threadState) kill() {
	if t == nil || t.dead {
		return
	}
	t.dead = true
	for _, th := range t.ths {
		if th.started && !th.done {
			th.resume <- false
			<-t.back
		}
	}
}

func (m *Machine) spawn(f func()) { m.fail("go statement") }

// runPar runs the closures as logical threads until all are done.
func (m *Machine) runPar(fr *Frame, cls []V, preempt int) {
	if m.threads != nil {
		m.fail("nested threads")
	}
	ts := &threadState{back: make(chan bool), left: preempt}
	for i, c := range cls {
		m.publish(c)
		ts.ths = append(ts.ths, &thread{id: i, stack: make([]V, 1<<14), resume: make(chan bool)})
	}
	m.threads = ts
	// any thread may start
	next := ts.ths[int(m.schedChoice(len(cls)))]
	for {
		m.switchTo(ts, next, cls)
		th := ts.cur
		if th.err != nil {
			e := th.err
			ts.kill()
			panic(e)
		}
		next = nil
		if !th.done && th.blocked == nil {
			// preempted: an other thread goes on
			var cand []*thread
			for _, o := range ts.ths {
				if o != th && !o.done && m.enabled(o) {
					cand = append(cand, o)
				}
			}
			if len(cand) > 0 {
				next = cand[int(m.schedChoice(len(cand)))]
			} else {
				next = th
			}
		} else {
			var cand []*thread
			all := true
			for _, o := range ts.ths {
				if !o.done {
					all = false
					if m.enabled(o) {
						cand = append(cand, o)
					}
				}
			}
			if all {
				m.threads = nil
				return
			}
			if len(cand) == 0 {
				ts.kill()
				m.res.asserts++
				panic(violationFound{m.mkViolation("deadlock: every goroutine waits for a lock", nil)})
			}
			next = cand[int(m.schedChoice(len(cand)))]
		}
	}
}

// schedChoice is a symbolic scheduling choice below n.
func (m *Machine) schedChoice(n int) uint64 {
	if n <= 1 {
		return 0
	}
	v := m.newVar(8, "schedule")
	set := make([]byte, n)
	for i := range set {
		set[i] = byte(i)
	}
	m.assumeIn(v, string(set))
	for i := 0; i < n-1; i++ {
		if m.decide(m.ts.Eq(v.r.(*Term), m.ts.Const(uint64(i), 8))) {
			return uint64(i)
		}
	}
	return uint64(n - 1)
}

func (m *Machine) enabled(th *thread) bool {
	if th.blocked == nil {
		return true
	}
	l := m.lock(*th.blocked)
	return m.lockFree(l, th.id, th.wantR)
}

func (m *Machine) lockFree(l *lockState, id int, read bool) bool {
	if l.owner >= 0 {
		return false
	}
	if read {
		return true
	}
	return len(l.readers) == 0
}

func (m *Machine) lock(k lockKey) *lockState {
	if m.locks == nil {
		m.locks = map[lockKey]*lockState{}
	}
	l := m.locks[k]
	if l == nil {
		l = &lockState{owner: -1, readers: map[int]int{}}
		m.locks[k] = l
	}
	return l
}

// switchTo lets th run until it gives control back.
func (m *Machine) switchTo(ts *threadState, th *thread, cls []V) {
	ts.cur = th
	th.blocked = nil
	if th.started && th.pend != nil {
		th.pend = nil
	}
	s, sp, f, d, c, spec := m.stack, m.sp, m.frames, m.depth, m.curFn, m.spec
	m.stack, m.sp, m.frames, m.depth, m.curFn, m.spec = th.stack, th.sp, th.frames, th.depth, th.curFn, 0
	if !th.started {
		th.started = true
		go func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(killed); !ok {
						th.err = x
					}
				}
				th.done = true
				ts.back <- true
			}()
			m.callClosure(cls[th.id].r.(*Closure), nil, nil)
		}()
	} else {
		th.resume <- true
	}
	<-ts.back
	th.stack, th.sp, th.frames, th.depth, th.curFn = m.stack, m.sp, m.frames, m.depth, m.curFn
	m.stack, m.sp, m.frames, m.depth, m.curFn, m.spec = s, sp, f, d, c, spec
}

// pause gives control back to the scheduler.
func (ts *threadState) pause() {
	th := ts.cur
	ts.back <- true
	if !<-th.resume {
		panic(killed{})
	}
}

// event is a point where the running thread may be preempted.
func (m *Machine) event(p *pending) {
	ts := m.threads
	if ts == nil || ts.cur == nil || ts.dead || m.spec > 0 {
		return
	}
	ts.events++
	if ts.left == 0 {
		return
	}
	other := false
	for _, o := range ts.ths {
		if o != ts.cur && !o.done && m.enabled(o) {
			other = true
		}
	}
	if !other {
		return
	}
	if m.schedChoice(2) == 0 {
		return
	}
	ts.left--
	ts.cur.pend = p
	ts.pause()
}

// conflict reports an access while an other thread is about to write the same memory.
func (m *Machine) conflict(obj any, off, n int, write bool) {
	ts := m.threads
	for _, o := range ts.ths {
		if o == ts.cur || o.done || o.pend == nil || o.pend.obj != obj || off+n <= o.pend.off || o.pend.off+o.pend.n <= off {
			continue
		}
		k := "read"
		if write {
			k = "write"
		}
		m.res.asserts++
		panic(violationFound{m.mkViolation(fmt.Sprintf("data race: %s in %s while an other goroutine is about to write the same memory in %s", k, m.curName(), o.pend.where), nil)})
	}
}

func (m *Machine) accessAt(o *Obj, off, n int, write bool) {
	if o == nil || !o.shared || n == 0 || m.threads.cur == nil {
		return
	}
	m.conflict(o, off, n, write)
	if write {
		m.event(&pending{o, off, n, m.curName()})
	}
}

func (m *Machine) accessMap(o *MapObj, write bool) {
	if o == nil || !o.shared || m.threads.cur == nil {
		return
	}
	m.conflict(o, 0, 1, write)
	if write {
		m.event(&pending{o, 0, 1, m.curName()})
	}
}

// publish marks everything reachable from v as visible to all threads.
func (m *Machine) publish(v V) {
	switch r := v.r.(type) {
	case *Obj:
		if r == nil || r.shared {
			return
		}
		r.shared = true
		for _, c := range r.cells {
			m.publish(c)
		}
	case *SymPtr:
		m.publish(V{r: r.obj})
	case *Slice:
		m.publish(V{r: r.obj})
	case *Iface:
		m.publish(r.v)
	case *Closure:
		if r == nil {
			return
		}
		for _, c := range r.free {
			m.publish(c)
		}
	case *MapObj:
		if r == nil || r.shared {
			return
		}
		r.shared = true
		for _, e := range r.entries {
			m.publish(e.k)
			m.publish(e.v)
		}
	case *Agg:
		for _, c := range r.c {
			m.publish(c)
		}
	case Tuple:
		for _, c := range r {
			m.publish(c)
		}
	}
}

func (m *Machine) threadID() int {
	if m.threads != nil && m.threads.cur != nil {
		return m.threads.cur.id
	}
	return 0
}

func (m *Machine) lockEvent(p V, kind int) bool {
	o, i := atomicPtr(m, p)
	return m.lockOp(lockKey{o, i}, kind)
}

// lockOp models mutexes; Lock and RLock block (Try variants: kind+8).
func (m *Machine) lockOp(k lockKey, kind int) bool {
	if m.initing {
		return true
	}
	l := m.lock(k)
	id := m.threadID()
	try := kind >= 8
	kind &= 7
	switch kind {
	case evLock, evRLock:
		m.event(nil)
		for !m.lockFree(l, id, kind == evRLock) {
			if try {
				return false
			}
			if m.threads == nil || m.threads.cur == nil {
				m.res.asserts++
				panic(violationFound{m.mkViolation("deadlock: the lock is never released", nil)})
			}
			th := m.threads.cur
			kk := k
			th.blocked, th.wantR = &kk, kind == evRLock
			m.threads.pause()
		}
		if kind == evLock {
			l.owner = id
		} else {
			l.readers[id]++
		}
	case evUnlock:
		if l.owner < 0 {
			panic(&targetPanic{v: V{r: &Iface{t: rtype(types.Typ[types.String]), v: cstr("sync: unlock of unlocked mutex")}}, where: m.curName()})
		}
		l.owner = -1
	case evRUnlock:
		if l.readers[id] == 0 {
			panic(&targetPanic{v: V{r: &Iface{t: rtype(types.Typ[types.String]), v: cstr("sync: RUnlock of unlocked RWMutex")}}, where: m.curName()})
		}
		l.readers[id]--
		if l.readers[id] == 0 {
			delete(l.readers, id)
		}
	}
	return true
}
