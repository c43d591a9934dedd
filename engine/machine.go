package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A decision of a path, in order of occurrence.
type dec struct {
	kind byte // 't','f' branch; 'T','F' forced branch; 'v' value; 'V' forced value; 'n' not this value
	val  uint64
}

type endKind int

const (
	endDone endKind = iota
	endAssume
	endViolation
	endUnsupported
	endBudget
	endPanic
	endUnknown
)

type pathEnd struct {
	kind endKind
	msg  string
}

// goPanic is a panic of the program under test.
type goPanic struct {
	v     Value // Iface
	trace string
}

type Observation struct {
	label string
	vals  []Value
}

type Machine struct {
	eng     *Engine
	id      int
	tc      *TermCtx
	sol     *Solver
	globals []Value // cells, indexed by global number
	snap    []snapCell
	snapMap []snapMap

	// path state
	prefix  []dec
	pos     int
	log     []dec
	pcs     []*Term
	synced  int
	dom     map[*Term]*[4]uint64
	bnd     map[*Term]iv
	multi   map[*Term]bool
	model   map[*Term]uint64
	modelOK bool
	forks   int
	steps   int64
	maxStep int64
	inputs  []inputVar
	names   map[string]int
	decs    map[string]*Term // rendered decimals -> value term
	obs     []Observation
	reach   map[string]bool
	depth   int
	initing bool
	notes   map[string]bool
	extern  map[any]any
	asserts int
	opt     map[string]int

	slab []Value
	sp   int

	// threads
	th      *Thread
	threads []*Thread
	preempt int

	fnSeen   map[*cfn]bool
	cur      *frame   // for SYM_FORKS
	frames   []*frame // free
	allPCs   int
	curTblW  int16
	killAck  chan bool
	onceDone map[Ptr]bool
	warming  bool
	thErr    any
}

type inputVar struct {
	name string
	t    *Term
}

type snapCell struct {
	p Ptr
	v Value
}
type snapMap struct {
	mp   *Map
	ents []mapEntry
}

func (m *Machine) unsupported(msg string) pathEnd { return pathEnd{endUnsupported, msg} }

func (m *Machine) resetPath(prefix []dec) {
	m.tc.reset()
	m.sol.newPath()
	m.prefix = prefix
	m.pos = 0
	m.log = m.log[:0]
	m.pcs = m.pcs[:0]
	m.synced = 0
	m.dom = map[*Term]*[4]uint64{}
	m.bnd = map[*Term]iv{}
	m.multi = map[*Term]bool{}
	m.model = map[*Term]uint64{}
	m.modelOK = true
	m.forks = 0
	m.steps = 0
	m.inputs = m.inputs[:0]
	m.names = map[string]int{}
	m.decs = map[string]*Term{}
	m.obs = nil
	m.reach = map[string]bool{}
	m.notes = map[string]bool{}
	m.extern = map[any]any{}
	m.opt = map[string]int{}
	m.depth = 0
	m.sp = 0
	m.asserts = 0
	m.th = nil
	m.threads = nil
	m.preempt = 0
	for i := range m.slab {
		if m.slab[i] == nil {
			break
		}
		m.slab[i] = nil
	}
}

func collectVars(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if seen[t] || (t.v1 == nil && !t.mv) {
		return
	}
	seen[t] = true
	if t.op == OVar {
		out[t] = true
		return
	}
	if t.v1 != nil {
		out[t.v1] = true
		return
	}
	for _, a := range t.args {
		collectVars(a, seen, out)
	}
}

// addPC conjoins t to the path condition.
func (m *Machine) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	m.pcs = append(m.pcs, t)
	m.allPCs++
	if t.smallVar() {
		v := t.v1
		d := m.dom[v]
		if d == nil {
			d = fullDom(v.w)
			m.dom[v] = d
		}
		vec := t.vector()
		for i, x := range vec {
			if x == 0 {
				d[i>>6] &^= 1 << uint(i&63)
			}
		}
	} else {
		vs := map[*Term]bool{}
		collectVars(t, map[*Term]bool{}, vs)
		for v := range vs {
			m.multi[v] = true
		}
		m.learn(t, true)
	}
	if m.modelOK && m.evalModel(t) != 1 {
		m.modelOK = false
	}
}

func fullDom(w int16) *[4]uint64 {
	var d [4]uint64
	n := 2
	if w > 0 {
		n = 1 << uint(w)
	}
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << uint(i&63)
	}
	return &d
}

func (m *Machine) evalModel(t *Term) uint64 {
	if t.v1 != nil && t.vec != nil {
		return t.vec[m.model[t.v1]]
	}
	if t.op == OVar {
		return m.model[t]
	}
	if t.op == OConst {
		return t.val
	}
	return evalTerm(t, m.model, map[*Term]uint64{})
}

func (m *Machine) sync() {
	for m.synced < len(m.pcs) {
		m.sol.assert(m.pcs[m.synced])
		m.synced++
	}
}

// needModel makes m.model satisfy the path condition. false: none exists or unknown.
func (m *Machine) needModel() bool {
	if m.modelOK {
		return true
	}
	// cheap repair on unentangled small variables
	for v, d := range m.dom {
		if m.multi[v] {
			continue
		}
		x := m.model[v]
		if d[x>>6]&(1<<(x&63)) == 0 {
			ok := false
			for i := 0; i < 256; i++ {
				if d[i>>6]&(1<<uint(i&63)) != 0 {
					m.model[v] = uint64(i)
					ok = true
					break
				}
			}
			if !ok {
				return false
			}
		}
	}
	good := true
	for _, p := range m.pcs {
		if m.evalModel(p) != 1 {
			good = false
			break
		}
	}
	if good {
		m.modelOK = true
		return true
	}
	m.sync()
	r, vals := m.sol.check(nil, m.tc.vars)
	if r != 1 {
		return false
	}
	for i, v := range m.tc.vars {
		m.model[v] = vals[i]
	}
	m.modelOK = true
	return true
}

// check decides PC and t. The small-domain filter only answers when it is exact.
func (m *Machine) check(t *Term) int {
	if t.isConst() {
		if t.isTrue() {
			return 1
		}
		return -1
	}
	if t.smallVar() {
		v := t.v1
		d := m.dom[v]
		vec := t.vector()
		any := false
		for i, x := range vec {
			if x == 1 && (d == nil || d[i>>6]&(1<<uint(i&63)) != 0) {
				any = true
				break
			}
		}
		if !any {
			m.eng.stat.domQ.Add(1)
			return -1
		}
		if !m.multi[v] {
			m.eng.stat.domQ.Add(1)
			return 1
		}
	}
	if r := m.rng(t); r.hi == 0 {
		m.eng.stat.domQ.Add(1)
		m.cross(t, -1)
		return -1
	} else if r.lo == 1 && m.modelOK {
		m.eng.stat.domQ.Add(1)
		m.cross(m.tc.Not(t), -1)
		return 1
	}
	m.sync()
	t0 := time.Now()
	r, _ := m.sol.check(t, nil)
	if d := time.Since(t0); d > time.Second && os.Getenv("SYM_SLOW") != "" {
		fmt.Fprintln(os.Stderr, "slow:", d, r, t)
	}
	return r
}

var crossCheck = os.Getenv("SYM_CROSS") != ""

// cross asks the solver too, to test the filters above.
func (m *Machine) cross(t *Term, want int) {
	if !crossCheck {
		return
	}
	m.sync()
	if r, _ := m.sol.check(t, nil); r != 0 && r != want {
		panic(fmt.Sprint("filter and solver disagree: ", t))
	}
	m.eng.stat.crossed.Add(1)
}

func (m *Machine) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return m.branch(x)
	}
	panic(m.unsupported(fmt.Sprintf("truth of %T", v)))
}

func (m *Machine) branch(t *Term) bool {
	if t.isConst() {
		return t.val == 1
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.log = append(m.log, d)
		switch d.kind {
		case 't':
			m.addPC(t)
			return true
		case 'f':
			m.addPC(m.tc.Not(t))
			return false
		case 'T':
			return true
		case 'F':
			return false
		}
		panic(pathEnd{endUnsupported, "replay divergence (branch)"})
	}
	if !m.needModel() {
		panic(pathEnd{endUnknown, "no model for the path condition"})
	}
	side := m.evalModel(t) == 1
	other := m.tc.Not(t)
	if !side {
		other = t
	}
	r := m.check(other)
	if r < 0 {
		k := byte('F')
		if side {
			k = 'T'
		}
		m.log = append(m.log, dec{kind: k})
		return side
	}
	k, ok := byte('t'), byte('f')
	if !side {
		k, ok = 'f', 't'
	}
	m.fork(dec{kind: ok})
	m.log = append(m.log, dec{kind: k})
	if side {
		m.addPC(t)
	} else {
		m.addPC(m.tc.Not(t))
	}
	return side
}

func (m *Machine) fork(alt dec) {
	if m.initing {
		panic(m.unsupported("fork during init"))
	}
	m.forks++
	if forkStat {
		m.noteFork()
	}
	n := make([]dec, len(m.log)+1)
	copy(n, m.log)
	n[len(m.log)] = alt
	m.eng.push(n)
}

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	var cst func(v uint64) *Term
	if t.w == 0 {
		cst = func(v uint64) *Term { return m.tc.Bool(v == 1) }
	} else {
		cst = func(v uint64) *Term { return m.tc.Const(v, t.w) }
	}
	for {
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			m.pos++
			m.log = append(m.log, d)
			switch d.kind {
			case 'v':
				m.addPC(m.tc.Eq(t, cst(d.val)))
				return d.val
			case 'V':
				return d.val
			case 'n':
				m.addPC(m.tc.Not(m.tc.Eq(t, cst(d.val))))
				continue
			}
			panic(pathEnd{endUnsupported, "replay divergence (value)"})
		}
		if !m.needModel() {
			panic(pathEnd{endUnknown, "no model for the path condition"})
		}
		v := m.evalModel(t)
		eq := m.tc.Eq(t, cst(v))
		if m.check(m.tc.Not(eq)) < 0 {
			m.log = append(m.log, dec{'V', v})
			return v
		}
		m.fork(dec{'n', v})
		m.log = append(m.log, dec{'v', v})
		m.addPC(eq)
		return v
	}
}

// choose forks over 0..n-1 without a symbolic variable (schedules).
func (m *Machine) newVar(name string, w int16) *Term {
	k := m.names[name]
	m.names[name]++
	full := fmt.Sprintf("%s#%d", name, k)
	t := m.tc.Var(full, w)
	m.inputs = append(m.inputs, inputVar{full, t})
	return t
}

func (m *Machine) freshVar(name string, w int16) *Term {
	k := m.names[name]
	m.names[name]++
	return m.tc.Var(fmt.Sprintf("%s$%d", name, k), w)
}

func (m *Machine) assume(v Value) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathEnd{endAssume, ""})
		}
	case *Term:
		// an assumption never forks: the negative side is cut
		if m.pos < len(m.prefix) {
			// feasibility was established when the prefix was recorded
			d := m.prefix[m.pos]
			m.pos++
			m.log = append(m.log, d)
			if d.kind != 't' {
				panic(pathEnd{endUnsupported, "replay divergence (assume)"})
			}
			m.addPC(x)
			return
		}
		if m.needModel() && m.evalModel(x) == 1 {
			m.log = append(m.log, dec{kind: 't'})
			m.addPC(x)
			return
		}
		if m.check(x) < 0 {
			panic(pathEnd{endAssume, ""})
		}
		m.log = append(m.log, dec{kind: 't'})
		m.addPC(x)
	}
}

func (m *Machine) currentInputs() map[string]uint64 {
	out := map[string]uint64{}
	for _, iv := range m.inputs {
		out[iv.name] = m.model[iv.t]
	}
	return out
}

// assert discharges PC => cond with the solver.
func (m *Machine) assert(v Value, label string) {
	m.asserts++
	// a prefix replays assertions already discharged by the path that forked
	switch x := v.(type) {
	case bool:
		m.eng.stat.asserts.Add(1)
		if x {
			m.eng.stat.assertConst.Add(1)
			return
		}
		if !m.needModel() {
			panic(pathEnd{endUnknown, "assertion fails but no model: " + label})
		}
		m.eng.violation(m, "assert", label, m.currentInputs())
		panic(pathEnd{endViolation, label})
	case *Term:
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			m.pos++
			m.log = append(m.log, d)
			if d.kind == 't' {
				m.addPC(x)
			}
			return
		}
		m.eng.stat.asserts.Add(1)
		neg := m.tc.Not(x)
		m.sync()
		vars := m.tc.vars
		r, vals := m.sol.check(neg, vars)
		switch r {
		case -1:
			m.log = append(m.log, dec{kind: 'T'})
			m.eng.stat.assertUnsat.Add(1)
			return
		case 0:
			m.eng.stat.assertUnknown.Add(1)
			m.eng.note("assertion undecided (solver gave up): " + label)
			m.log = append(m.log, dec{kind: 't'})
			if m.check(x) < 0 {
				panic(pathEnd{endUnknown, "assertion"})
			}
			m.addPC(x)
			return
		}
		in := map[string]uint64{}
		mod := map[*Term]uint64{}
		for i, v := range vars {
			mod[v] = vals[i]
		}
		for _, iv := range m.inputs {
			in[iv.name] = mod[iv.t]
		}
		m.eng.violation(m, "assert", label, in)
		// continue where the assertion holds
		if m.check(x) < 0 {
			panic(pathEnd{endViolation, label})
		}
		m.log = append(m.log, dec{kind: 't'})
		m.addPC(x)
	default:
		panic(m.unsupported(fmt.Sprintf("assert of %T", v)))
	}
}

// ---------------------------------------------------------------- engine

type stats struct {
	paths, steps, forks                       atomic.Int64
	asserts, assertConst, assertUnsat         atomic.Int64
	assertUnknown, domQ, crossed, infeasible  atomic.Int64
	unsupported, budget, unknown, panics, pcs atomic.Int64
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Label   string            `json:"label"`
	Inputs  map[string]uint64 `json:"inputs"`
	Opt     map[string]int    `json:"-"`
	trace   string
}

type PathSample struct {
	Inputs map[string]uint64
	Obs    []string
	End    string
	Reach  []string
}

type Engine struct {
	ld                       *Loader
	harness                  string
	entry                    *cfn
	mu                       sync.Mutex
	cond                     *sync.Cond
	queue                    [][]dec
	active                   int
	stop                     bool
	stat                     stats
	viols                    []*Violation
	vcount                   map[string]int
	notes                    map[string]int
	reach                    map[string]int
	samples                  []*PathSample
	fnSeen                   map[string]int64
	unsup                    map[string]int
	partial                  []*PathSample // inputs of paths the encoding could not finish
	dead                     time.Time
	maxP                     int64
	seed                     uint64
	nsample                  int
	nsampled                 int64
	asLabel                  map[string]int
	timedOut                 bool
	early, cutShort, refuted bool
	firstViol                time.Time
	pops                     uint64
	thorough                 bool
}

func (e *Engine) push(p []dec) {
	e.mu.Lock()
	e.queue = append(e.queue, p)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Engine) violation(m *Machine, kind, label string, in map[string]uint64) {
	e.mu.Lock()
	defer e.mu.Unlock()
	key := kind + "|" + label
	e.vcount[key]++
	if e.vcount[key] > 8 {
		return
	}
	e.addViol(kind, label, in)
}

func (e *Engine) addViol(kind, label string, in map[string]uint64) {
	if len(e.viols) == 0 {
		e.firstViol = time.Now()
	}
	e.viols = append(e.viols, &Violation{Harness: e.harness, Kind: kind, Label: label, Inputs: in})
}

func (e *Engine) worker(m *Machine) {
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.queue) == 0 {
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		// mostly depth first, which keeps the queue short; now and then another
		// corner, which matters if the time runs out
		e.pops = e.pops*6364136223846793005 + e.seed
		if r := e.pops >> 33; r%8 == 0 {
			i, n := int(r/8)%len(e.queue), len(e.queue)-1
			e.queue[i], e.queue[n] = e.queue[n], e.queue[i]
		}
		p := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.active++
		e.mu.Unlock()

		m.runPath(p)

		e.mu.Lock()
		e.active--
		n := e.stat.paths.Load()
		if (time.Now().After(e.dead) || n >= e.maxP) && !e.stop && (len(e.queue) > 0 || e.active > 0) {
			e.stop = true
			e.timedOut = true
		}
		// a counterexample ends the search soon, if the real code confirms it
		if e.early && !e.stop && len(e.viols) > 0 && time.Since(e.firstViol) > 8*time.Second && (len(e.queue) > 0 || e.active > 0) {
			e.stop, e.timedOut, e.cutShort = true, true, true
		}
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

func (m *Machine) runPath(prefix []dec) {
	m.resetPath(prefix)
	m.restore()
	e := m.eng
	end := pathEnd{endDone, ""}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x
				case *goPanic:
					end = pathEnd{endPanic, m.panicString(x)}
				default:
					if e.ld.debug {
						panic(r)
					}
					end = pathEnd{endUnsupported, fmt.Sprintf("engine: %v", r)}
				}
			}
		}()
		m.callFn(nil, e.entry, nil, nil)
		m.drainThreads()
	}()
	m.killThreads()
	e.stat.paths.Add(1)
	e.stat.steps.Add(m.steps)
	e.stat.forks.Add(int64(m.forks))
	e.stat.pcs.Add(int64(len(m.pcs)))
	var in map[string]uint64
	if end.kind == endDone || end.kind == endPanic || end.kind == endUnsupported || end.kind == endBudget {
		if m.needModel() {
			in = m.currentInputs()
		}
	}
	var sample *PathSample
	if in != nil {
		sample = &PathSample{Inputs: in, End: endName(end)}
		for _, o := range m.obs {
			sample.Obs = append(sample.Obs, o.label+"="+m.showObs(o.vals))
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	for r := range m.reach {
		e.reach[r]++
		if sample != nil {
			sample.Reach = append(sample.Reach, r)
		}
	}
	switch end.kind {
	case endAssume:
		e.stat.infeasible.Add(1)
	case endUnsupported:
		e.stat.unsupported.Add(1)
		e.unsup[end.msg]++
		if sample != nil && len(e.partial) < 200 {
			e.partial = append(e.partial, sample)
		}
	case endBudget:
		e.stat.budget.Add(1)
		e.unsup["budget: "+end.msg]++
		if sample != nil && len(e.partial) < 200 {
			e.partial = append(e.partial, sample)
		}
	case endUnknown:
		e.stat.unknown.Add(1)
		e.unsup["unknown: "+end.msg]++
	case endPanic:
		e.stat.panics.Add(1)
		if in != nil {
			key := "panic|" + end.msg
			e.vcount[key]++
			if e.vcount[key] <= 8 {
				e.addViol("panic", end.msg, in)
			}
		}
	}
	if end.kind == endDone && sample != nil {
		// reservoir sample of completed paths for validation against the real code
		e.nsampled++
		if len(e.samples) < e.nsample {
			e.samples = append(e.samples, sample)
		} else {
			e.seed = e.seed*6364136223846793005 + 1442695040888963407
			k := (e.seed >> 17) % uint64(e.nsampled)
			if int(k) < e.nsample {
				e.samples[k] = sample
			}
		}
	}
}

func endName(p pathEnd) string {
	switch p.kind {
	case endDone:
		return "done"
	case endPanic:
		return "panic " + p.msg
	}
	return fmt.Sprintf("end%d %s", p.kind, p.msg)
}

func (m *Machine) panicString(g *goPanic) string {
	i, ok := g.v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	defer func() { recover() }()
	switch v := i.v.(type) {
	case string:
		return v
	}
	if m.implementsError(i.t) {
		return m.callErrorString(i)
	}
	return types.TypeString(i.t, nil)
}

func (m *Machine) showObs(vs []Value) string {
	var sb strings.Builder
	for i, v := range vs {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(m.showVal(v))
	}
	return sb.String()
}

// showVal renders a value under the current model.
func (m *Machine) showVal(v Value) string {
	switch x := v.(type) {
	case I:
		return fmt.Sprintf("%d", uint64(x))
	case bool:
		return fmt.Sprintf("%v", x)
	case string:
		return fmt.Sprintf("%q", x)
	case *Term:
		if x.w == 0 {
			return fmt.Sprintf("%v", m.evalModel(x) == 1)
		}
		return fmt.Sprintf("%d", m.evalModel(x))
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			if k, ok := e.(I); ok {
				b[i] = byte(k)
			} else {
				b[i] = byte(m.evalModel(e.(*Term)))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case *ChoiceStr:
		k := m.evalModel(x.sel)
		if int(k) < len(x.opts) {
			return fmt.Sprintf("%q", x.opts[k])
		}
		return "choice?"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return m.showVal(x.v)
	}
	return fmt.Sprintf("<%T>", v)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// SYM_FORKS=1 counts the forks by function.
var (
	forkStat  = os.Getenv("SYM_FORKS") != ""
	forkMu    sync.Mutex
	forkCount = map[string]int{}
)

func (m *Machine) noteFork() {
	s := ""
	n := 0
	for f := m.cur; f != nil && n < 4; f = f.caller {
		if f.c != nil {
			s += f.c.name + " < "
		}
		n++
	}
	forkMu.Lock()
	forkCount[s]++
	forkMu.Unlock()
}
