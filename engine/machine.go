package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one resolved fork of a path.
type Decision struct {
	conc    bool // concretisation: "t == val ?"
	val     uint64
	taken   bool
	implied bool // the other side was shown infeasible
	sig     uint32
}

// sig tells decisions over different terms apart when a path is replayed.
func sig(t *Term) uint32 { return sigd(t, 3) }

func sigd(t *Term, d int) uint32 {
	if t == nil {
		return 7
	}
	h := (uint32(2166136261)^uint32(t.op))*16777619 ^ uint32(t.w) ^ uint32(t.val)<<8
	for i := 0; i < len(t.name); i++ {
		h = h*16777619 ^ uint32(t.name[i])
	}
	if d == 0 {
		return h
	}
	x, y := sigd(t.a, d-1), sigd(t.b, d-1)
	switch t.op { // operands of these are ordered by creation
	case OpAnd, OpOr, OpEq, OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if x > y {
			x, y = y, x
		}
	}
	h = (h*16777619^x)*16777619 ^ y
	return h*16777619 ^ sigd(t.c, d-1)
}

type pending struct {
	prefix []Decision
	model  Model
	depth  int
}

type Violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Kind    string            `json:"kind"` // assert, panic, deadlock
	Detail  string            `json:"detail"`
	Inputs  map[string]any    `json:"inputs"`
	Sched   map[string]uint64 `json:"sched,omitempty"`
	Events  []string          `json:"events,omitempty"`
}

// Sample is a completed path with a concrete witness, used to validate the
// encoding against the native build.
type Sample struct {
	Inputs map[string]any `json:"inputs"`
	Events []string       `json:"events"`
}

type Stats struct {
	Paths       int64 // completed
	Pruned      int64 // ended by assume
	Incomplete  int64
	Forks       int64
	Steps       int64
	Asserts     int64 // assertion instances evaluated
	AssertSolv  int64 // discharged by a solver query (unsat)
	AssertConc  int64 // concrete on the path
	Concretised int64
}

func (a *Stats) add(b Stats) {
	a.Paths += b.Paths
	a.Pruned += b.Pruned
	a.Incomplete += b.Incomplete
	a.Forks += b.Forks
	a.Steps += b.Steps
	a.Asserts += b.Asserts
	a.AssertSolv += b.AssertSolv
	a.AssertConc += b.AssertConc
	a.Concretised += b.Concretised
}

type Options struct {
	MaxSteps     int64
	MaxPaths     int64
	Deadline     time.Time
	Workers      int
	Preempt      int // preemption bound; <0: no schedule exploration
	MaxViol      int
	Samples      int
	SolverBin    string
	SolverMs     int
	FallbackS    int
	Trace        bool
	MaxConcVals  int
	Params       map[string]int
	NoFeasChecks bool
}

// Explorer explores one harness.
type Explorer struct {
	prog    *Program
	harness *ssa.Function
	name    string
	opt     Options

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []pending
	active   int
	stop     bool
	stopWhy  string
	stats    Stats
	sstats   SolverStats
	viols    []Violation
	violSeen map[string]bool
	unsup    map[string]int64
	reach    map[string]int64
	samples  []Sample
	labels   map[string]int64 // assertion label -> times evaluated
	nPaths   int64
	fnSeen   map[*ssa.Function]bool
	unsupEx  map[string]string
}

func NewExplorer(p *Program, fn *ssa.Function, name string, opt Options) *Explorer {
	e := &Explorer{prog: p, harness: fn, name: name, opt: opt,
		violSeen: map[string]bool{}, unsup: map[string]int64{}, reach: map[string]int64{},
		labels: map[string]int64{}, fnSeen: map[*ssa.Function]bool{}, unsupEx: map[string]string{}}
	e.cond = sync.NewCond(&e.mu)
	e.queue = []pending{{}}
	return e
}

func (e *Explorer) Run() {
	var wg sync.WaitGroup
	for i := 0; i < e.opt.Workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			m := newM(e, id)
			defer m.close()
			for {
				it, ok := e.next()
				if !ok {
					break
				}
				m.runPath(it)
				e.finish()
			}
			e.mu.Lock()
			e.stats.add(m.stats)
			e.sstats.add(m.sol.stats)
			for k, v := range m.labels {
				e.labels[k] += v
			}
			for f := range m.fnSeen {
				e.fnSeen[f] = true
			}
			e.mu.Unlock()
		}(i)
	}
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if time.Now().After(e.opt.Deadline) {
					e.Stop("time bound")
				}
			}
		}
	}()
	wg.Wait()
	close(done)
}

func (e *Explorer) Stop(why string) {
	e.mu.Lock()
	if !e.stop {
		e.stop = true
		e.stopWhy = why
	}
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Explorer) stopped() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.stop
}

func (e *Explorer) next() (pending, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return pending{}, false
		}
		if n := len(e.queue); n > 0 {
			it := e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return pending{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) finish() {
	e.mu.Lock()
	e.active--
	e.mu.Unlock()
	e.cond.Broadcast()
	if n := atomic.AddInt64(&e.nPaths, 1); e.opt.MaxPaths > 0 && n >= e.opt.MaxPaths {
		e.Stop("path bound")
	}
}

func (e *Explorer) push(p pending) {
	e.mu.Lock()
	e.queue = append(e.queue, p)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pushAll(ps []pending) {
	if len(ps) == 0 {
		return
	}
	e.mu.Lock()
	e.queue = append(e.queue, ps...)
	e.mu.Unlock()
	e.cond.Broadcast()
}

type undoEnt struct {
	p   *Value
	old Value
}

type inputRec struct {
	name string
	kind string // bool,int,byte,str
	t    []*Term
	w    uint8
	sgn  bool
}

type rangeChk struct{ lo, hi int64 }

// M is a worker: interpreter state plus the state of the current path.
type M struct {
	e    *Explorer
	id   int
	prog *Program
	ctx  *TermCtx
	sol  *Solver

	globals  map[*ssa.Global]*Value
	pkgState map[*ssa.Package]int
	initMode bool
	methods  map[methKey]*ssa.Function
	fnSeen   map[*ssa.Function]bool
	labels   map[string]int64
	stats    Stats

	pend   []pendAssert
	failFr *frame // innermost frame of an aborted path
	// path state
	pathID  int
	undo    []undoEnt
	undoFns []func()
	pc      []*Term
	known   map[*Term]bool
	model   Model
	vars    []*Term
	inputs  []inputRec
	names   map[string]int
	events  []string
	prefix  []Decision
	dec     []Decision
	dpos    int
	steps   int64
	local   []pending
	reached map[string]bool
	preempt int
	spin    int

	gs       []*G
	cur      *G
	nextG    int
	doneCh   chan pathEnd
	now      int64
	timers   []*vtimer
	side     map[*Value]any // mutexes, waitgroups, ... keyed by address
	mapOrder int
	exploreG bool
	ended    bool
	ender    *G
	nowSet   bool
	hooks    map[string]Value
	blobs    []Value
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type pathEnd struct {
	ab pathAbort
	tp *targetPanic
}

func newM(e *Explorer, id int) *M {
	m := &M{e: e, id: id, prog: e.prog}
	m.ctx = NewTermCtx()
	m.sol = NewSolver(e.opt.SolverBin, m.ctx, e.opt.SolverMs, e.opt.FallbackS)
	m.globals = map[*ssa.Global]*Value{}
	m.pkgState = map[*ssa.Package]int{}
	m.methods = map[methKey]*ssa.Function{}
	m.fnSeen = map[*ssa.Function]bool{}
	m.labels = map[string]int64{}
	return m
}

func (m *M) close() { m.sol.Close() }

func (m *M) runPath(it pending) {
	if m.ctx.nextID > 3_000_000 {
		m.ctx = NewTermCtx()
		m.sol.Reset(m.ctx)
	}
	m.pathID++
	m.undo = m.undo[:0]
	m.undoFns = nil
	m.pc = nil
	m.known = map[*Term]bool{}
	m.model = Model{}
	for k, v := range it.model {
		m.model[k] = v
	}
	m.ctx.NewEval()
	m.vars = nil
	m.inputs = nil
	m.names = map[string]int{}
	m.events = nil
	m.failFr = nil
	m.pend = nil
	m.prefix = it.prefix
	m.dec = append([]Decision(nil), it.prefix...)
	m.dpos = 0
	m.steps = 0
	m.local = nil
	m.reached = map[string]bool{}
	m.preempt = 0
	m.gs = nil
	m.nextG = 0
	m.now = 0
	m.timers = nil
	m.side = map[*Value]any{}
	m.mapOrder = 0
	m.exploreG = m.e.opt.Preempt >= 0
	m.ended = false
	m.hooks = map[string]Value{}
	m.blobs = nil
	m.doneCh = make(chan pathEnd, 1)

	g := m.newG(func() {
		m.call(nil, m.e.harness, nil, nil)
		m.endPath(pathEnd{ab: pathAbort{abDone, ""}})
	})
	m.cur = g
	g.resume <- true
	end := <-m.doneCh
	// unwind the other goroutines
	// wait for all of them, so that none of this path's goroutines sees the next path
	for _, g := range m.gs {
		if g == m.ender || !g.finished {
			g.kill = true
			select {
			case g.resume <- true:
			default:
			}
		}
		<-g.exited
	}
	// restore init-era state
	for i := len(m.undo) - 1; i >= 0; i-- {
		*m.undo[i].p = m.undo[i].old
	}
	for i := len(m.undoFns) - 1; i >= 0; i-- {
		m.undoFns[i]()
	}
	m.stats.Steps += m.steps

	if end.ab.kind != abStop && end.ab.kind != abViolation && !m.flushAsserts() {
		end = pathEnd{ab: pathAbort{abViolation, ""}}
	}
	if end.tp != nil && end.tp.own {
		m.stats.Incomplete++
		m.noteUnsup("panic in the harness itself: " + end.tp.msg + " @" + end.tp.org)
	} else if end.tp != nil {
		m.violation("panic", "panic", end.tp.msg+" @"+end.tp.org)
		m.stats.Paths++
	} else {
		switch end.ab.kind {
		case abDone:
			m.stats.Paths++
			m.e.mu.Lock()
			for k := range m.reached {
				m.e.reach[k]++
			}
			need := len(m.e.samples) < m.e.opt.Samples || (m.stats.Paths%97 == 0 && m.e.opt.Samples > 0)
			if need {
				s := Sample{Inputs: m.concreteInputs(), Events: m.events}
				if len(m.e.samples) < m.e.opt.Samples {
					m.e.samples = append(m.e.samples, s)
				} else {
					m.e.samples[int(m.stats.Paths/97)%len(m.e.samples)] = s
				}
			}
			m.e.mu.Unlock()
		case abAssume, abInfeasible:
			m.stats.Pruned++
		case abUnsupported, abSteps:
			m.stats.Incomplete++
			m.e.mu.Lock()
			m.e.unsup[end.ab.msg]++
			if m.e.unsupEx[end.ab.msg] == "" {
				m.e.unsupEx[end.ab.msg] = fmt.Sprint(m.concreteInputs())
			}
			m.e.mu.Unlock()
		case abViolation:
			m.stats.Paths++
		case abStop:
		}
	}
	m.e.pushAll(m.local)
	m.local = nil
}

func (m *M) endPath(end pathEnd) {
	if m.ended {
		return
	}
	m.ended = true
	m.ender = m.cur
	m.doneCh <- end
}

func (m *M) concreteInputs() map[string]any {
	r := map[string]any{}
	for _, in := range m.inputs {
		switch in.kind {
		case "str":
			b := make([]byte, len(in.t))
			for i, t := range in.t {
				b[i] = byte(m.ctx.Eval(t, m.model))
			}
			r[in.name] = map[string]any{"bytes": fmt.Sprintf("%x", b)}
		case "bool":
			r[in.name] = m.ctx.Eval(in.t[0], m.model) != 0
		default:
			v := m.ctx.Eval(in.t[0], m.model)
			if in.sgn {
				r[in.name] = fmt.Sprint(sext(v, in.w))
			} else {
				r[in.name] = fmt.Sprint(v)
			}
		}
	}
	return r
}

func (m *M) violation(kind, label, detail string) {
	key := kind + "|" + label
	if kind == "panic" {
		key += "|" + detail
	}
	v := Violation{Harness: m.e.name, Label: label, Kind: kind, Detail: detail, Inputs: m.concreteInputs(), Events: append([]string(nil), m.events...), Sched: map[string]uint64{}}
	for _, t := range m.vars {
		if strings.Contains(t.name, "!") {
			v.Sched[t.name] = m.model[t.name]
		}
	}
	m.e.mu.Lock()
	if m.e.violSeen[key] {
		m.e.mu.Unlock()
		return
	}
	m.e.violSeen[key] = true
	m.e.viols = append(m.e.viols, v)
	n := len(m.e.viols)
	m.e.mu.Unlock()
	if n >= m.e.opt.MaxViol {
		m.e.Stop("violation found")
	}
}

// ---- path condition ----

func (m *M) replaying() bool { return m.dpos < len(m.prefix) }

func (m *M) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if m.known[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.note(t)
}

func (m *M) note(t *Term) {
	m.known[t] = true
	if t.op == OpAnd {
		m.note(t.a)
		m.note(t.b)
	}
	if t.op == OpNot && t.a.op == OpOr {
		m.note(m.ctx.Not(t.a.a))
		m.note(m.ctx.Not(t.a.b))
	}
}

func (m *M) setModel(mod Model) {
	n := Model{}
	for k, v := range m.model {
		n[k] = v
	}
	for k, v := range mod {
		n[k] = v
	}
	m.model = n
	m.ctx.NewEval()
}

func (m *M) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return m.branch(v)
	case Poison:
		unsupported("branch on poison: %s", v.why)
	}
	unsupported("truth of %T", v)
	return false
}

func (m *M) branch(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	if m.initMode {
		unsupported("symbolic branch in init")
	}
	if m.known[c] {
		return true
	}
	nc := m.ctx.Not(c)
	if m.known[nc] {
		return false
	}
	if m.replaying() {
		d := m.prefix[m.dpos]
		m.dpos++
		if d.conc || d.sig != sig(c) {
			panic(pathAbort{abUnsupported, "replay divergence (branch)"})
		}
		if d.taken {
			if d.implied {
				m.note(c)
			} else {
				m.addPC(c)
			}
		} else {
			if d.implied {
				m.note(nc)
			} else {
				m.addPC(nc)
			}
		}
		return d.taken
	}
	m.checkStop()
	m.flushOrAbort()
	if m.known[c] {
		return true
	}
	if m.known[nc] {
		return false
	}
	v := m.ctx.Eval(c, m.model) != 0
	other, mine := nc, c
	if !v {
		other, mine = c, nc
	}
	r, mod := m.sol.Check(m.pc, other, m.vars)
	sg := sig(c)
	d := Decision{taken: v, sig: sg}
	switch r {
	case Sat:
		m.stats.Forks++
		m.pushAlt(Decision{taken: !v, sig: sg}, mod)
		m.dec = append(m.dec, d)
		m.addPC(mine)
	case Unsat:
		d.implied = true
		m.dec = append(m.dec, d)
		m.note(mine)
	default:
		m.stats.Incomplete++
		m.noteUnsup("solver unknown: one side of a branch not explored")
		m.dec = append(m.dec, d)
		m.addPC(mine)
	}
	return v
}

func (m *M) noteUnsup(s string) {
	m.e.mu.Lock()
	m.e.unsup[s]++
	m.e.mu.Unlock()
}

func (m *M) pushAlt(d Decision, mod Model) {
	pre := make([]Decision, len(m.dec)+1)
	copy(pre, m.dec)
	pre[len(m.dec)] = d
	nm := Model{}
	for k, v := range m.model {
		nm[k] = v
	}
	for k, v := range mod {
		nm[k] = v
	}
	m.local = append(m.local, pending{prefix: pre, model: nm})
	// share work early when others are idle
	if len(m.local) >= 4 {
		m.e.pushAll(m.local)
		m.local = nil
	}
}

func (m *M) checkStop() {
	if m.e.stopped() {
		panic(pathAbort{abStop, ""})
	}
}

// concInt concretises an integer value, forking over its feasible values.
func (m *M) concInt(v Value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case bool:
		return b2u(v)
	case *Term:
		return m.concTerm(v)
	case Poison:
		unsupported("concretise poison: %s", v.why)
	}
	unsupported("concInt of %T", v)
	return 0
}

func (m *M) concTerm(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if t.w == 0 {
		return b2u(m.branch(t))
	}
	for n := 0; ; n++ {
		if m.e.opt.MaxConcVals > 0 && n >= m.e.opt.MaxConcVals {
			panic(pathAbort{abUnsupported, "too many values in concretisation"})
		}
		if m.replaying() {
			d := m.prefix[m.dpos]
			m.dpos++
			if !d.conc || d.sig != sig(t) {
				panic(pathAbort{abUnsupported, "replay divergence (concretise)"})
			}
			eq := m.ctx.Eq(t, m.ctx.BV(d.val, t.w))
			if d.taken {
				if d.implied {
					m.note(eq)
				} else {
					m.addPC(eq)
				}
				return d.val
			}
			m.addPC(m.ctx.Not(eq))
			continue
		}
		m.checkStop()
		m.flushOrAbort()
		val := m.ctx.Eval(t, m.model)
		eq := m.ctx.Eq(t, m.ctx.BV(val, t.w))
		if m.known[eq] {
			// recorded all the same: a replay cannot know the value
			m.dec = append(m.dec, Decision{conc: true, val: val, taken: true, implied: true, sig: sig(t)})
			return val
		}
		r, mod := m.sol.Check(m.pc, m.ctx.Not(eq), m.vars)
		sg := sig(t)
		d := Decision{conc: true, val: val, taken: true, sig: sg}
		switch r {
		case Sat:
			m.stats.Forks++
			m.stats.Concretised++
			m.pushAlt(Decision{conc: true, val: val, taken: false, sig: sg}, mod)
			m.dec = append(m.dec, d)
			m.addPC(eq)
		case Unsat:
			d.implied = true
			m.dec = append(m.dec, d)
			m.note(eq)
		default:
			m.stats.Incomplete++
			m.noteUnsup("solver unknown: values of a concretisation not explored")
			m.dec = append(m.dec, d)
			m.addPC(eq)
		}
		return val
	}
}

// assume restricts the path.
func (m *M) assume(v Value) {
	switch v := v.(type) {
	case bool:
		if !v {
			panic(pathAbort{abAssume, ""})
		}
		return
	case *Term:
		if m.known[v] {
			return
		}
		m.flushOrAbort()
		if m.ctx.Eval(v, m.model) == 0 {
			if m.replaying() {
				// the model satisfies the whole prefix; cannot happen
				panic(pathAbort{abUnsupported, "replay divergence (assume)"})
			}
			r, mod := m.sol.Check(m.pc, v, m.vars)
			switch r {
			case Unsat:
				panic(pathAbort{abAssume, ""})
			case Unknown:
				panic(pathAbort{abUnsupported, "solver unknown on assume"})
			}
			m.addPC(v)
			m.setModel(mod)
			return
		}
		m.addPC(v)
	default:
		unsupported("assume %T", v)
	}
}

func (m *M) assert(v Value, label string) {
	if m.replaying() {
		return // decided by the path this one was forked from
	}
	m.stats.Asserts++
	m.labels[label]++
	switch v := v.(type) {
	case bool:
		m.stats.AssertConc++
		if !v {
			m.violation("assert", label, "")
			panic(pathAbort{abViolation, label})
		}
	case *Term:
		if m.known[v] {
			m.stats.AssertSolv++
			return
		}
		if m.ctx.Eval(v, m.model) == 0 {
			m.violation("assert", label, "")
			panic(pathAbort{abViolation, label})
		}
		// decided together with its neighbours before the next decision
		m.pend = append(m.pend, pendAssert{v, label})
	default:
		unsupported("assert %T", v)
	}
}

type pendAssert struct {
	t     *Term
	label string
}

// flushAsserts decides the pending assertions; false if one is violated.
func (m *M) flushAsserts() bool {
	if len(m.pend) == 0 {
		return true
	}
	p := m.pend
	m.pend = nil
	bad := m.ctx.Not(p[0].t)
	for _, x := range p[1:] {
		bad = m.ctx.Or(bad, m.ctx.Not(x.t))
	}
	if bad.isConst() {
		if bad.val == 0 {
			return true
		}
	}
	r, mod := m.sol.Check(m.pc, bad, m.vars)
	switch r {
	case Sat:
		m.setModel(mod)
		for _, x := range p {
			if m.ctx.Eval(x.t, m.model) == 0 {
				m.violation("assert", x.label, "")
				return false
			}
		}
		m.stats.Incomplete++
		m.noteUnsup("solver model does not violate an assertion")
	case Unknown:
		if len(p) > 1 {
			// one at a time
			for _, x := range p {
				m.pend = append(m.pend[:0:0], x)
				if !m.flushAsserts() {
					return false
				}
			}
			return true
		}
		m.stats.Incomplete++
		m.noteUnsup("solver unknown on assertion " + p[0].label)
	default:
		for _, x := range p {
			// not noted: a path forked from here replays without deciding it again
			_ = x
			m.stats.AssertSolv++
		}
	}
	return true
}

func (m *M) flushOrAbort() {
	if !m.flushAsserts() {
		panic(pathAbort{abViolation, ""})
	}
}

// newVar makes a symbolic input.
func (m *M) newVar(name string, w uint8) *Term {
	t := m.ctx.Var(name, w)
	m.vars = append(m.vars, t)
	return t
}

func (m *M) uniq(name string) string {
	name = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' || r == '(' || r == ')' || r == ' ' {
			return '_'
		}
		return r
	}, name)
	n := m.names[name]
	m.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

// choose makes a fresh symbolic choice in [0,n) and concretises it.
func (m *M) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	nm := m.uniq(name + "!")
	t := m.newVar(nm, 8)
	if _, ok := m.model[nm]; !ok {
		m.model[nm] = 0
	}
	m.addPC(m.ctx.Cmp(OpUlt, t, m.ctx.BV(uint64(n), 8)))
	return int(m.concTerm(t))
}

// ---- goroutines ----

type G struct {
	id       int
	m        *M
	resume   chan bool
	exited   chan struct{}
	finished bool
	kill     bool
	ready    func() bool // nil: runnable
	depth    int
	what     string
	fr       *frame
}

func (m *M) newG(body func()) *G {
	g := &G{id: m.nextG, m: m, resume: make(chan bool, 1), exited: make(chan struct{})}
	m.nextG++
	m.gs = append(m.gs, g)
	go func() {
		<-g.resume
		defer func() {
			r := recover()
			g.finished = true
			switch r := r.(type) {
			case nil:
			case killG:
			case pathAbort:
				if r.kind == abUnsupported && m.failFr != nil {
					r.msg += " @" + m.frameWhere(m.failFr)
				}
				m.endPath(pathEnd{ab: r})
			case targetPanic:
				m.endPath(pathEnd{tp: &r})
			default:
				m.endPath(pathEnd{ab: pathAbort{abUnsupported, fmt.Sprintf("engine fault: %v at %s", r, stackHint())}})
				close(g.exited)
				return
			}
			if !g.kill && !m.ended {
				// finished normally: schedule somebody else
				func() {
					defer func() {
						if r := recover(); r != nil {
							if pa, ok := r.(pathAbort); ok {
								m.endPath(pathEnd{ab: pa})
							} else if tp, ok := r.(targetPanic); ok {
								m.endPath(pathEnd{tp: &tp})
							} else {
								m.endPath(pathEnd{ab: pathAbort{abUnsupported, fmt.Sprintf("engine fault: %v", r)}})
							}
						}
					}()
					if n := m.pick(g); n != nil {
						m.cur = n
						n.resume <- true
					}
				}()
			}
			close(g.exited)
		}()
		if g.kill {
			panic(killG{})
		}
		body()
	}()
	return g
}

type vtimer struct {
	when   int64
	period int64
	fire   func()
	active bool
	seq    int
	fired  int
}

func (m *M) addTimer(d int64, period int64, fire func()) *vtimer {
	t := &vtimer{when: m.now + d, period: period, fire: fire, active: true, seq: len(m.timers)}
	m.timers = append(m.timers, t)
	return t
}

const maxTickerFires = 3

// pick selects the next goroutine to run (nil: path ended by deadlock).
func (m *M) pick(from *G) *G {
	for {
		var run []*G
		for _, g := range m.gs {
			if g.finished {
				continue
			}
			if g.ready == nil || g.ready() {
				run = append(run, g)
			}
		}
		if len(run) > 0 {
			if len(run) == 1 {
				return run[0]
			}
			if m.exploreG {
				return run[m.choose("sched", len(run))]
			}
			// deterministic: next by id after the current one
			sort.Slice(run, func(i, j int) bool { return run[i].id < run[j].id })
			if from != nil {
				for _, g := range run {
					if g.id > from.id {
						return g
					}
				}
			}
			return run[0]
		}
		// advance virtual time
		var best *vtimer
		for _, t := range m.timers {
			if !t.active || (t.period > 0 && t.fired >= maxTickerFires) {
				continue
			}
			if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
				best = t
			}
		}
		if best == nil {
			var w []string
			for _, g := range m.gs {
				if !g.finished {
					w = append(w, fmt.Sprintf("g%d:%s", g.id, g.what))
				}
			}
			m.violation("deadlock", "deadlock", strings.Join(w, " "))
			m.endPath(pathEnd{ab: pathAbort{abViolation, "deadlock"}})
			return nil
		}
		if best.when > m.now {
			m.now = best.when
		}
		best.fired++
		if best.period > 0 {
			best.when += best.period
		} else {
			best.active = false
		}
		best.fire()
	}
}

// yieldTo switches to another goroutine; returns when this one is resumed.
func (m *M) switchFrom(g *G) {
	n := m.pick(g)
	if n == g {
		m.cur = g
		return
	}
	if n != nil {
		m.cur = n
		n.resume <- true
	}
	<-g.resume
	if g.kill {
		panic(killG{})
	}
	m.cur = g
}

// block waits until ready() holds.
func (m *M) block(what string, ready func() bool) {
	if m.initMode {
		unsupported("blocking in init")
	}
	g := m.cur
	if ready() && !m.wantPreempt() {
		return
	}
	g.ready = ready
	g.what = what
	for {
		m.switchFrom(g)
		if ready() {
			break
		}
	}
	g.ready = nil
}

// preemption point
func (m *M) syncPoint() {
	if m.initMode || !m.exploreG || len(m.gs) < 2 {
		return
	}
	if m.wantPreempt() {
		g := m.cur
		g.ready = nil
		m.switchFrom(g)
	}
}

func (m *M) wantPreempt() bool {
	if m.initMode || !m.exploreG || m.preempt >= m.e.opt.Preempt {
		return false
	}
	n := 0
	for _, g := range m.gs {
		if g != m.cur && !g.finished && (g.ready == nil || g.ready()) {
			n++
		}
	}
	if n == 0 {
		return false
	}
	if m.choose("preempt", 2) == 1 {
		m.preempt++
		return true
	}
	return false
}

func (m *M) frameWhere(fr *frame) string {
	s := ""
	for k := 0; fr != nil && k < 9; k, fr = k+1, fr.caller {
		if k > 0 {
			s += " < "
		}
		s += fr.c.name
		if fr.cur != nil {
			s += ":" + m.prog.pos(fr.cur.in.Pos())
		}
	}
	return s
}
