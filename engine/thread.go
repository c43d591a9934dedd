package main

// Threads of the program under test run one at a time (baton passing);
// at scheduling points the engine forks over who runs next.

type Thread struct {
	id      int
	run     chan bool // true: go on; false: die
	done    bool
	blocked bool
	slab    []Value
	sp      int
	depth   int
	started bool
}

type threadKill struct{}

func (m *Machine) mainThread() *Thread {
	if m.th == nil {
		m.th = &Thread{id: 0, run: make(chan bool), started: true}
		m.threads = []*Thread{m.th}
	}
	return m.th
}

func (m *Machine) spawn(d *deferred) {
	cur := m.mainThread()
	t := &Thread{id: len(m.threads), run: make(chan bool), slab: make([]Value, 1<<14)}
	m.threads = append(m.threads, t)
	_ = cur
	go func() {
		if !<-t.run {
			t.done = true
			m.killAck <- true
			return
		}
		defer func() {
			r := recover()
			t.done = true
			if _, ok := r.(threadKill); ok {
				m.killAck <- true
				return
			}
			if r != nil {
				m.thErr = r
				m.switchTo(m.threads[0], nil)
				return
			}
			// hand the baton on
			n := m.pickRunnable(true)
			if n == nil {
				n = m.threads[0]
			}
			m.switchTo(n, nil)
		}()
		m.th = t
		m.callClosure(nil, d.fn, d.args)
	}()
	m.schedPoint()
}

// switchTo resumes n; self (if non-nil) waits for the baton.
func (m *Machine) switchTo(n *Thread, self *Thread) {
	if n == self {
		return
	}
	if self != nil {
		self.slab, self.sp, self.depth = m.slab, m.sp, m.depth
	}
	m.slab, m.sp, m.depth = n.slab, n.sp, n.depth
	if n.slab == nil {
		m.slab = make([]Value, 1<<14)
	}
	m.th = n
	n.run <- true
	if self != nil {
		if !<-self.run {
			panic(threadKill{})
		}
		if self.id == 0 && m.thErr != nil {
			e := m.thErr
			m.thErr = nil
			panic(e)
		}
	}
}

func (m *Machine) runnable() []*Thread {
	var out []*Thread
	for _, t := range m.threads {
		if !t.done && !t.blocked {
			out = append(out, t)
		}
	}
	return out
}

func (m *Machine) pickRunnable(must bool) *Thread {
	r := m.runnable()
	if len(r) == 0 {
		return nil
	}
	if len(r) == 1 {
		return r[0]
	}
	return r[m.chooseN(len(r))]
}

// chooseN forks over a schedule choice; it is a symbolic selector like any input.
func (m *Machine) chooseN(n int) int {
	v := m.newVar("sched", 8)
	m.assume(m.norm(m.tc.Cmp(OULt, v, m.tc.Const(uint64(n), 8))))
	return int(m.concretize(v))
}

// schedPoint lets another thread run (bounded number of preemptions).
func (m *Machine) schedPoint() {
	if m.threads == nil || len(m.threads) < 2 || m.opt["preempt"] == 0 {
		return
	}
	if m.preempt >= m.opt["preempt"] {
		return
	}
	r := m.runnable()
	if len(r) < 2 {
		return
	}
	k := m.chooseN(len(r))
	n := r[k]
	if n == m.th {
		return
	}
	m.preempt++
	m.switchTo(n, m.th)
}

// block parks the current thread until it is scheduled again.
func (m *Machine) block() {
	if m.threads == nil {
		panic(&goPanic{v: Iface{t: m.eng.ld.rtPlain, v: "all goroutines are asleep - deadlock!"}})
	}
	self := m.th
	self.blocked = true
	n := m.pickRunnable(true)
	if n == nil {
		self.blocked = false
		panic(&goPanic{v: Iface{t: m.eng.ld.rtPlain, v: "all goroutines are asleep - deadlock!"}})
	}
	m.switchTo(n, self)
}

// wake makes every parked thread runnable; each re-checks its condition.
func (m *Machine) wake() {
	for _, t := range m.threads {
		t.blocked = false
	}
}

func (m *Machine) drainThreads() {}

func (m *Machine) killThreads() {
	for _, t := range m.threads {
		if t.id != 0 && !t.done {
			t.run <- false
			<-m.killAck
		}
	}
	m.threads = nil
	m.th = nil
	m.thErr = nil
}
