package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decK uint8

const (
	dBr decK = iota // branch on a symbolic condition
	dEq             // concretization: x == v
	dNe             // concretization: x != v
	dCh             // schedule or harness choice
)

type decision struct {
	k decK
	v uint64
}

// job is a path prefix to explore.
type job struct {
	dec   []decision
	model map[string]uint64
	devs  int
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Sched   []uint64          `json:"choices"`
	Trace   []string          `json:"trace"`
	Dec     []decision        `json:"-"`
	SchedN  int               `json:"preemptions"`
	SelN    int               `json:"select_choices"`
	Native  string            `json:"native_replay"`
	Alts    []*Violation      `json:"-"`
}

type inputRec struct {
	name string
	t    *Term
	conc uint64
}

type Worker struct {
	id int
	E  *Engine
	T  *Terms
	S  *Solver

	globals  map[*ssa.Global]Val
	initDone map[*ssa.Package]bool
	initMode bool
	undo     []undoRec
	mapUndo  []mapUndoRec
	nobj     int
	covFn    map[*Fn]bool

	// path state
	job       *job
	dec       []decision
	pos       int
	pc        []*Term
	pcset     map[*Term]bool
	model     Model
	modelOK   bool
	steps     int64
	inputs    []inputRec
	nameCnt   map[string]int
	covers    map[string]bool
	asserts   int
	trace     []string
	gs        []*G
	runq      []*G
	parked    []*G
	cur       *G
	now       int64
	timers    []*Timer
	tseq      int
	side      map[any]any // models' side tables, keyed by object
	idle      []*G
	exploreOn bool
	devLeft   int
	early     int64 // timers due within this many ns may fire before runnable goroutines run
	budget    int64 // bytes that may be allocated from now on; 0: any number
	spent     int64
	nPreempt  int
	nSel      int
	schedVals []uint64
	mapOrder  bool
	race      bool
	raceSoft  bool // races add preemption points instead of being reported
	shadow    map[shKey]*shadow
	syncVC    map[any][]uint32
	nchoice   int
	ended     bool
	horizon   int64
	touching  bool
	V         *Solver
	valid     map[*Term]bool
	replaying bool
}

func newWorker(e *Engine, id int) *Worker {
	w := &Worker{id: id, E: e, T: newTerms(), globals: map[*ssa.Global]Val{}, initDone: map[*ssa.Package]bool{}, covFn: map[*Fn]bool{}}
	w.S = newSolver(w.T, e.cfg.SolverMs)
	w.V = newSolver(w.T, e.cfg.SolverMs)
	w.V.bit = 2
	w.valid = map[*Term]bool{}
	return w
}

func (w *Worker) pathReset(j *job) {
	w.job = j
	w.dec = append([]decision(nil), j.dec...)
	w.pos = 0
	w.pc = w.pc[:0]
	w.pcset = map[*Term]bool{}
	w.model = Model{}
	for n, v := range j.model {
		// name:width
		i := strings.LastIndexByte(n, ':')
		var wd int
		fmt.Sscan(n[i+1:], &wd)
		w.model[w.T.Var(n[:i], uint8(wd))] = v
	}
	w.T.newEval()
	w.modelOK = len(j.dec) == 0
	w.steps = 0
	w.inputs = nil
	w.nameCnt = map[string]int{}
	w.trace = nil
	w.gs = nil
	w.runq = nil
	w.parked = nil
	w.cur = nil
	w.now = timeBase
	w.timers = nil
	w.tseq = 0
	w.side = map[any]any{}
	w.idle = nil
	w.exploreOn = false
	w.devLeft = 0
	w.early = 0
	w.budget = 0
	w.nPreempt = 0
	w.nSel = 0
	w.schedVals = nil
	w.mapOrder = false
	w.race = false
	w.raceSoft = false
	w.shadow = nil
	w.syncVC = nil
	w.nchoice = 0
	w.asserts = 0
	w.ended = false
	w.horizon = int64(2 * time.Hour)
}

func (w *Worker) pathUndo() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		r := w.undo[i]
		r.o.e[r.i] = r.old
	}
	w.undo = w.undo[:0]
	for i := len(w.mapUndo) - 1; i >= 0; i-- {
		r := w.mapUndo[i]
		*r.m = *r.old
	}
	w.mapUndo = w.mapUndo[:0]
}

func (w *Worker) addPC(c *Term) {
	if c.isC() {
		return
	}
	if c.op == OAnd {
		w.addPC(c.a)
		w.addPC(c.b)
		return
	}
	if w.pcset[c] {
		return
	}
	w.pcset[c] = true
	w.pc = append(w.pc, c)
}

// ensureModel makes w.model satisfy the path condition.
func (w *Worker) ensureModel() {
	if w.modelOK {
		return
	}
	ok := true
	w.T.newEval()
	for _, c := range w.pc {
		if w.T.eval(c, w.model) == 0 {
			ok = false
			break
		}
	}
	if !ok {
		res, m := w.S.check(w.pc, nil)
		switch res {
		case rUnsat:
			w.end("infeasible")
		case rUnknown:
			w.E.note("solver-unknown")
			w.end("unknown")
		}
		w.model = m
		w.T.newEval()
	}
	w.modelOK = true
}

func (w *Worker) end(why string) {
	w.E.pathEnd(why)
	panic(pathEnd{})
}

func (w *Worker) portable(m Model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for t, v := range m {
		if t.op == OVar {
			r[fmt.Sprintf("%s:%d", t.name, t.w)] = v
		}
	}
	return r
}

func (w *Worker) pushSibling(d decision, m Model, dev int) {
	dec := make([]decision, len(w.dec)+1)
	copy(dec, w.dec)
	dec[len(w.dec)] = d
	w.E.push(&job{dec: dec, model: w.portable(m), devs: w.job.devs + dev})
}

// decide picks the truth value of a symbolic condition, forking when both are possible.
func (w *Worker) decide(c *Term) bool {
	if c.isC() {
		return c.n != 0
	}
	if w.initMode {
		panic(w.unsupported("symbolic branch in init"))
	}
	n := w.T.Not(c)
	if w.pcset[c] {
		return true
	}
	if w.pcset[n] {
		return false
	}
	if w.pos < len(w.dec) {
		d := w.dec[w.pos]
		if d.k != dBr {
			panic(w.unsupported(fmt.Sprintf("replay divergence: want branch, have %d", d.k)))
		}
		w.pos++
		if d.v != 0 {
			w.addPC(c)
		} else {
			w.addPC(n)
		}
		return d.v != 0
	}
	w.ensureModel()
	v := w.T.eval(c, w.model) != 0
	taken, other := c, n
	if !v {
		taken, other = n, c
	}
	res, m := w.S.check(w.pc, other)
	switch res {
	case rSat:
		w.pushSibling(decision{dBr, b2u(!v)}, m, 0)
	case rUnknown:
		w.E.note("solver-unknown")
		w.pushSibling(decision{dBr, b2u(!v)}, w.model, 0)
	}
	w.dec = append(w.dec, decision{dBr, b2u(v)})
	w.pos++
	w.addPC(taken)
	return v
}

// conc makes a value concrete, forking over the alternatives.
func (w *Worker) conc(v Val, width uint8) uint64 {
	if v.x == nil {
		return v.n
	}
	x, ok := v.x.(*Term)
	if !ok {
		panic(w.unsupported(fmt.Sprintf("concretize %T", v.x)))
	}
	return w.concT(x)
}

func (w *Worker) concT(x *Term) uint64 {
	if x.isC() {
		return x.n
	}
	for w.pos < len(w.dec) {
		d := w.dec[w.pos]
		w.pos++
		e := w.T.Eq(x, w.T.Const(x.w, d.v))
		switch d.k {
		case dEq:
			w.addPC(e)
			return d.v
		case dNe:
			w.addPC(w.T.Not(e))
		default:
			panic(w.unsupported("replay divergence: want concretization"))
		}
	}
	w.ensureModel()
	val := w.T.eval(x, w.model)
	e := w.T.Eq(x, w.T.Const(x.w, val))
	ne := w.T.Not(e)
	if !w.pcset[e] && !e.isC() {
		res, m := w.S.check(w.pc, ne)
		switch res {
		case rSat:
			w.pushSibling(decision{dNe, val}, m, 0)
		case rUnknown:
			w.E.note("solver-unknown")
			w.pushSibling(decision{dNe, val}, w.model, 0)
		}
	}
	w.dec = append(w.dec, decision{dEq, val})
	w.pos++
	w.addPC(e)
	return val
}

// choice is a nondeterministic value in [0,n): a fresh symbolic variable whose
// value this path fixes; the alternatives become sibling paths.
func (w *Worker) choice(kind string, n int) uint64 {
	if n <= 1 {
		return 0
	}
	if w.initMode {
		return 0
	}
	w.nchoice++
	v := w.T.Var(fmt.Sprintf("%s#%d", kind, w.nchoice), 8)
	var k uint64
	if w.pos < len(w.dec) {
		d := w.dec[w.pos]
		if d.k != dCh {
			panic(w.unsupported(fmt.Sprintf("replay divergence: want choice %s, have %d", kind, d.k)))
		}
		w.pos++
		k = d.v
	} else {
		w.ensureModel()
		dev := 0
		if kind == "sched" {
			dev = 1
		}
		for i := n - 1; i >= 1; i-- {
			w.pushSibling(decision{dCh, uint64(i)}, w.model, dev)
		}
		w.dec = append(w.dec, decision{dCh, 0})
		w.pos++
	}
	w.E.addStat("choices", 1)
	w.addPC(w.T.Eq(v, w.T.Const(8, k)))
	w.model[v] = k
	w.T.newEval()
	if kind == "select" {
		w.nSel++
	}
	w.schedVals = append(w.schedVals, k)
	return k
}

func (w *Worker) assume(c *Term) {
	if c.isC() {
		if c.n == 0 {
			w.end("assume-false")
		}
		return
	}
	if w.pcset[c] {
		return
	}
	w.addPC(c)
	if w.pos < len(w.dec) {
		w.modelOK = false
		return
	}
	if w.modelOK && w.T.eval(c, w.model) != 0 {
		return
	}
	w.modelOK = false
	w.ensureModelAssume()
}

func (w *Worker) ensureModelAssume() {
	res, m := w.S.check(w.pc, nil)
	switch res {
	case rUnsat:
		w.end("assume-false")
	case rUnknown:
		w.E.note("solver-unknown")
		w.end("unknown")
	}
	w.model = m
	w.T.newEval()
	w.modelOK = true
}

func (w *Worker) assert(c *Term, label string) {
	w.asserts++
	if c.isC() {
		if c.n != 0 {
			w.E.assertOK(label, false)
			return
		}
		w.violation("assert", label, w.pcModel())
		panic(pathEnd{})
	}
	if w.pcset[c] {
		w.E.assertOK(label, false)
		return
	}
	n := w.T.Not(c)
	if w.pos < len(w.dec) {
		// already discharged when the prefix was first explored
		w.addPC(c)
		return
	}
	// a goal that is valid on its own holds under every path condition: the
	// solver's verdict is kept for the life of the term table
	ok, seen := w.valid[c]
	if !seen {
		r, _ := w.V.check(nil, n)
		ok = r == rUnsat
		w.valid[c] = ok
	}
	if ok {
		w.E.assertOK(label, true)
		w.addPC(c)
		return
	}
	res, m := w.S.check(w.pc, n)
	switch res {
	case rUnsat:
		w.E.assertOK(label, true)
		w.addPC(c)
	case rSat:
		w.addPC(n)
		w.model = m
		w.violation("assert", label, m)
		panic(pathEnd{})
	default:
		w.E.note("solver-unknown")
		w.E.note("assert-unknown " + label)
		w.addPC(c)
		w.modelOK = false
	}
}

// pcModel returns a model of the current path condition.
func (w *Worker) pcModel() Model {
	if w.modelOK {
		return w.model
	}
	res, m := w.S.check(w.pc, nil)
	if res == rUnsat {
		w.end("infeasible")
	}
	if res == rSat {
		w.model = m
		w.modelOK = true
		w.T.newEval()
		return m
	}
	return nil
}

func (w *Worker) fail(kind, msg string) {
	w.E.note(kind + ": " + msg)
	w.E.pathEnd(kind)
}

func (w *Worker) stepLimit(g *G) {
	w.violation("steps", fmt.Sprintf("no termination within %d steps%s", w.E.cfg.MaxSteps, w.stackOf(g)), w.pcModel())
	panic(pathEnd{})
}

func (w *Worker) violation(kind, msg string, m Model) {
	if w.initMode {
		panic(w.unsupported("violation during init: " + msg))
	}
	v := &Violation{Harness: w.E.harness, Kind: kind, Msg: msg, Inputs: map[string]uint64{}, SchedN: w.nPreempt, SelN: w.nSel}
	w.T.newEval()
	for _, in := range w.inputs {
		if in.t == nil {
			v.Inputs[in.name] = in.conc
		} else {
			v.Inputs[in.name] = w.T.eval(in.t, m)
		}
	}
	v.Sched = append([]uint64(nil), w.schedVals...)
	v.Trace = append([]string(nil), w.trace...)
	v.Dec = append([]decision(nil), w.dec[:w.pos]...)
	w.E.report(v)
	w.E.pathEnd("violation")
}

// runPath executes the harness along one prefix.
func (w *Worker) runPath(j *job, entry *Fn) {
	w.pathReset(j)
	defer w.pathUndo()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); !ok {
				w.E.note(fmt.Sprintf("unsupported: engine panic: %v", r))
				w.E.pathEnd("unsupported")
				if w.E.cfg.Debug {
					panic(r)
				}
			}
		}
		w.E.addStat("steps", w.steps)
		w.E.addStat("nodes", int64(len(w.dec)-len(j.dec)+1))
	}()
	main := w.spawn(nil, &deferred{fn: entry}, token.NoPos)
	for {
		g := w.pick()
		if g == nil {
			if w.wakeIdle() {
				continue
			}
			if len(w.timers) > 0 && w.timers[0].when-timeBase <= w.horizon {
				w.fireTimer()
				continue
			}
			w.deadlock(main)
		}
		w.cur = g
		w.runG(g, false)
		if main.done {
			w.E.pathEnd("complete")
			w.vacuity()
			w.sampleOf()
			return
		}
	}
}

// vacuity asks the solver for a model of a completed path's condition: paths
// that no input can take would discharge their assertions for nothing.
func (w *Worker) vacuity() {
	w.E.st.mu.Lock()
	w.E.st.stat["vacuity"]++
	n := w.E.st.stat["vacuity"]
	w.E.st.mu.Unlock()
	if n > 64 && n%512 != 0 {
		return
	}
	res, _ := w.S.check(w.pc, nil)
	switch res {
	case rSat:
		w.E.addStat("vacuity-sat", 1)
	case rUnsat:
		w.E.note("unsupported: completed path with an unsatisfiable condition")
		w.E.pathEnd("unsupported")
	}
}

func (w *Worker) pick() *G {
	// after a block or an end: the first runnable goroutine, or with a
	// deviation any other one
	if len(w.runq) == 0 {
		if len(w.parked) == 0 {
			return nil
		}
		w.runq = append(w.runq, w.parked[0])
		w.parked = w.parked[1:]
	}
	g := w.runq[0]
	if nt := w.earlyTimer(); w.exploreOn && w.devLeft > 0 && len(w.runq)+nt > 1 && (w.cur == nil || !w.cur.skip) {
		k := int(w.choice("sched", len(w.runq)+nt))
		if k == len(w.runq) {
			w.fireEarly()
			k = len(w.runq) - 1
			g = w.runq[k]
			w.runq = w.runq[:k:k]
			g.queued = false
			return g
		}
		if k > 0 {
			w.devLeft--
			w.nPreempt++
			g = w.runq[k]
			w.runq = append(w.runq[:k:k], w.runq[k+1:]...)
			g.queued = false
			w.note(fmt.Sprintf("schedule g%d", g.id))
			return g
		}
	}
	w.runq = w.runq[1:]
	g.queued = false
	return g
}

func (w *Worker) wakeIdle() bool {
	if len(w.idle) == 0 {
		return false
	}
	g := w.idle[0]
	w.idle = w.idle[1:]
	g.woken = true
	w.ready(g)
	return true
}

func (w *Worker) deadlock(main *G) {
	var sb strings.Builder
	for _, g := range w.gs {
		if g.done || g.blocked == "" {
			continue
		}
		fmt.Fprintf(&sb, "\n  g%d (%s) %s%s", g.id, g.name, g.blocked, w.stackOf(g))
	}
	w.violation("deadlock", "harness blocked forever:"+sb.String(), w.pcModel())
	panic(pathEnd{})
}

// ---- engine-wide state of one harness run ----

type pathStats struct {
	mu       sync.Mutex
	stat     map[string]int64
	ends     map[string]int64
	notes    map[string]int64
	asserts  map[string]int64
	provedBy map[string]int64
	covers   map[string]int64
	viol     []*Violation
	violKeys map[string]*Violation
	violCnt  map[string]int
	samples  []*Sample
}

func newStats() *pathStats {
	return &pathStats{stat: map[string]int64{}, ends: map[string]int64{}, notes: map[string]int64{}, asserts: map[string]int64{}, provedBy: map[string]int64{}, covers: map[string]int64{}, violKeys: map[string]*Violation{}, violCnt: map[string]int{}}
}

func (e *Engine) addStat(k string, n int64) {
	e.st.mu.Lock()
	e.st.stat[k] += n
	e.st.mu.Unlock()
}
func (e *Engine) note(k string) {
	e.st.mu.Lock()
	e.st.notes[k]++
	e.st.mu.Unlock()
}
func (e *Engine) pathEnd(k string) {
	e.st.mu.Lock()
	e.st.ends[k]++
	e.st.mu.Unlock()
}
func (e *Engine) assertOK(label string, solver bool) {
	e.st.mu.Lock()
	e.st.asserts[label]++
	if solver {
		e.st.provedBy[label]++
	}
	e.st.mu.Unlock()
}
func (e *Engine) coverHit(label string) {
	e.st.mu.Lock()
	e.st.covers[label]++
	e.st.mu.Unlock()
}

func (e *Engine) report(v *Violation) {
	e.st.mu.Lock()
	defer e.st.mu.Unlock()
	key := v.Kind + "|" + firstLine(v.Msg)
	e.st.stat["violating-paths"]++
	if f := e.st.violKeys[key]; f != nil {
		// a few more examples, spread over the search, for the case that the
		// native replay of the first cannot settle it
		n := e.st.violCnt[key] + 1
		e.st.violCnt[key] = n
		if n&(n-1) == 0 && len(f.Alts) < 12 {
			f.Alts = append(f.Alts, v)
		}
		return
	}
	e.st.violKeys[key] = v
	e.st.viol = append(e.st.viol, v)
	if len(e.st.viol) >= e.cfg.MaxViol {
		e.stop = true
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (e *Engine) push(j *job) {
	e.jmu.Lock()
	e.jobs = append(e.jobs, j)
	e.jmu.Unlock()
	e.jcond.Signal()
}

// pop hands out work: even workers take the newest prefix, odd workers the
// oldest, so a run that ends on its time budget has seen both deep and early
// alternatives.
func (e *Engine) pop(w *Worker) *job {
	e.jmu.Lock()
	defer e.jmu.Unlock()
	for {
		if e.stop {
			return nil
		}
		if len(e.jobs) > 0 {
			i := len(e.jobs) - 1
			if w.id%4 == 3 {
				i = 0
			}
			j := e.jobs[i]
			if i == 0 {
				e.jobs = e.jobs[1:]
			} else {
				e.jobs = e.jobs[:i]
			}
			e.busy++
			return j
		}
		if e.busy == 0 {
			e.jcond.Broadcast()
			return nil
		}
		e.jcond.Wait()
	}
}

func (e *Engine) doneJob() {
	e.jmu.Lock()
	e.busy--
	if e.busy == 0 && len(e.jobs) == 0 {
		e.jcond.Broadcast()
	}
	e.jmu.Unlock()
}

// runHarness explores one harness until exhaustion or the deadline. If two accesses of
// the library race, the harness runs again with them as preemption points.
func (e *Engine) runHarness(name string, entry *Fn, budget time.Duration) *HarnessResult {
	e.softRace = os.Getenv("GOSYM_NOSOFT") == ""
	e.racyNew = map[*instr]bool{}
	var marked []*instr
	defer func() {
		for _, in := range marked {
			in.racy = false
		}
	}()
	t0 := time.Now()
	for round := 0; ; round++ {
		r := e.runOnce(name, entry, max(budget-time.Since(t0), budget/3))
		if len(r.Viol) > 0 || round == 3 || len(e.racyNew) == 0 {
			r.Wall = time.Since(t0).Seconds()
			return r
		}
		n := 0
		for in := range e.racyNew {
			if !in.racy {
				in.racy = true
				marked = append(marked, in)
				if e.cfg.Debug || os.Getenv("GOSYM_RACY") != "" {
					fmt.Println("racy:", name, e.fset.Position(in.pos), in.src)
				}
				n++
			}
		}
		e.racyNew = map[*instr]bool{}
		if n == 0 {
			return r
		}
	}
}

func (e *Engine) runOnce(name string, entry *Fn, budget time.Duration) *HarnessResult {
	e.harness = name
	e.st = newStats()
	e.stop = false
	e.jobs = []*job{{}}
	e.busy = 0
	t0 := time.Now()
	timer := time.AfterFunc(budget, func() {
		e.jmu.Lock()
		e.stop = true
		e.timedOut = true
		e.jmu.Unlock()
		e.jcond.Broadcast()
	})
	e.timedOut = false
	var wg sync.WaitGroup
	var q0, s0, u0, k0 int64
	var tm0 time.Duration
	for _, w := range e.workers {
		for _, s := range []*Solver{w.S, w.V} {
			q0 += s.Queries
			s0 += s.Sat
			u0 += s.Unsat
			k0 += s.Unknown
			tm0 += s.Time
		}
	}
	for _, w := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j := e.pop(w)
				if j == nil {
					return
				}
				e.addStat("paths", 1)
				w.runPath(j, entry)
				if w.T.next > 3000000 {
					w.T = newTerms()
					w.S.t = w.T
					w.V.t = w.T
					w.valid = map[*Term]bool{}
					w.S.restart()
					w.V.restart()
				}
				e.doneJob()
			}
		}()
	}
	wg.Wait()
	timer.Stop()
	r := &HarnessResult{Name: name, Wall: time.Since(t0).Seconds()}
	for _, w := range e.workers {
		for _, s := range []*Solver{w.S, w.V} {
			r.Queries += s.Queries
			r.Sat += s.Sat
			r.Unsat += s.Unsat
			r.Unknown += s.Unknown
			r.SolverS += s.Time.Seconds()
		}
	}
	r.Queries -= q0
	r.Sat -= s0
	r.Unsat -= u0
	r.Unknown -= k0
	r.SolverS -= tm0.Seconds()
	r.Paths = e.st.stat["paths"]
	r.Steps = e.st.stat["steps"]
	r.Choices = e.st.stat["choices"]
	r.Ends = e.st.ends
	r.Notes = e.st.notes
	r.Covers = e.st.covers
	r.Asserts = e.st.asserts
	r.Proved = e.st.provedBy
	r.Viol = e.st.viol
	r.Feasible = e.st.stat["vacuity-sat"]
	r.Nodes = e.st.stat["nodes"]
	r.Samples = e.st.samples
	r.TimedOut = e.timedOut
	r.Left = len(e.jobs)
	r.Exhaustive = !e.timedOut && len(e.jobs) == 0 && e.st.ends["unsupported"] == 0 && e.st.ends["unknown"] == 0
	for k := range e.st.notes {
		if strings.HasPrefix(k, "assert-unknown") {
			r.Exhaustive = false
		}
	}
	sort.Slice(r.Viol, func(i, j int) bool { return r.Viol[i].Msg < r.Viol[j].Msg })
	return r
}

type HarnessResult struct {
	Bounds     string           `json:"bounds,omitempty"`
	Nodes      int64            `json:"tree_nodes"`
	Feasible   int64            `json:"path_conditions_checked_satisfiable"`
	Validated  int64            `json:"paths_validated_natively"`
	Samples    []*Sample        `json:"-"`
	Name       string           `json:"name"`
	Wall       float64          `json:"wall_s"`
	Paths      int64            `json:"paths"`
	Steps      int64            `json:"instructions"`
	Choices    int64            `json:"schedule_and_choice_decisions"`
	Queries    int64            `json:"queries"`
	Sat        int64            `json:"sat"`
	Unsat      int64            `json:"unsat"`
	Unknown    int64            `json:"unknown"`
	SolverS    float64          `json:"solver_s"`
	Ends       map[string]int64 `json:"path_ends"`
	Notes      map[string]int64 `json:"notes,omitempty"`
	Covers     map[string]int64 `json:"covers"`
	Asserts    map[string]int64 `json:"assertions_discharged"`
	Proved     map[string]int64 `json:"assertions_by_solver"`
	Viol       []*Violation     `json:"violations,omitempty"`
	TimedOut   bool             `json:"timed_out"`
	Left       int              `json:"unexplored_prefixes"`
	Exhaustive bool             `json:"exhaustive_within_bounds"`
}
