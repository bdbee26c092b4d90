package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
)

// ---- channels ----

type waiter struct {
	g    *G
	val  Val
	idx  int // select case, -1 for a plain operation
	sel  *bool
	seq  int
	ch   *ChanObj
	send bool
}

type ChanObj struct {
	id     int
	cap    int
	et     *TInfo
	buf    []Val
	bufVC  [][]uint32
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	timer  *Timer
	vc     []uint32 // clock of the close
	rvc    []uint32 // clock of receives
}

func (w *Worker) newChan(n int, et *TInfo) *ChanObj {
	w.nobj++
	return &ChanObj{id: w.nobj, cap: n, et: et}
}

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel != nil {
			if *x.sel {
				continue
			}
			*x.sel = true
		}
		return x
	}
	return nil
}

func liveW(q []*waiter) bool {
	for _, x := range q {
		if x.sel == nil || !*x.sel {
			return true
		}
	}
	return false
}

func (w *Worker) wake(x *waiter, v Val, ok bool) {
	x.g.woken = true
	x.g.wakeVal = v
	x.g.wakeOK = ok
	x.g.wakeIdx = x.idx
	w.ready(x.g)
}

func (w *Worker) chanOf(v Val) *ChanObj {
	if v.x == nil {
		return nil
	}
	c, ok := v.x.(*ChanObj)
	if !ok {
		panic(w.unsupported(fmt.Sprintf("channel operation on %T %v", v.x, v.x)))
	}
	return c
}

// trySend performs a send if it can proceed at once.
func (w *Worker) trySend(g *G, c *ChanObj, v Val) bool {
	if c.closed {
		panic(&goPanic{w.rtError("send on closed channel")})
	}
	if x := popW(&c.recvq); x != nil {
		if w.hb(g) && g != nil {
			w.vcJoin(&x.g.vc, g.vc)
			w.vcJoin(&g.vc, x.g.vc)
			w.vcTick(g)
			w.vcTick(x.g)
		}
		w.wake(x, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		if w.race {
			c.normVC()
		}
		c.buf = append(c.buf, v)
		if w.race {
			if g != nil && w.hb(g) {
				w.vcJoin(&g.vc, c.rvc)
				c.bufVC = append(c.bufVC, append([]uint32(nil), g.vc...))
				w.vcTick(g)
			} else {
				c.bufVC = append(c.bufVC, nil)
			}
		}
		return true
	}
	return false
}

// tryRecv performs a receive if it can proceed at once.
func (w *Worker) tryRecv(g *G, c *ChanObj) (v Val, ok, done bool) {
	if len(c.buf) > 0 {
		if w.race {
			c.normVC()
		}
		v = c.buf[0]
		c.buf = append([]Val(nil), c.buf[1:]...)
		if w.race && !w.hb(g) {
			c.bufVC = append([][]uint32(nil), c.bufVC[1:]...)
		}
		if w.hb(g) {
			w.vcJoin(&g.vc, c.bufVC[0])
			c.bufVC = append([][]uint32(nil), c.bufVC[1:]...)
			w.vcJoin(&c.rvc, g.vc)
			w.vcTick(g)
		}
		if x := popW(&c.sendq); x != nil {
			c.buf = append(c.buf, x.val)
			if w.race {
				w.vcJoin(&x.g.vc, c.rvc)
				c.bufVC = append(c.bufVC, append([]uint32(nil), x.g.vc...))
				w.vcTick(x.g)
			}
			w.wake(x, Val{}, true)
		}
		return v, true, true
	}
	if x := popW(&c.sendq); x != nil {
		if w.hb(g) {
			w.vcJoin(&g.vc, x.g.vc)
			w.vcJoin(&x.g.vc, g.vc)
			w.vcTick(g)
			w.vcTick(x.g)
		}
		w.wake(x, Val{}, true)
		return x.val, true, true
	}
	if c.closed {
		if w.hb(g) {
			w.vcJoin(&g.vc, c.vc)
		}
		return w.zero(c.et), false, true
	}
	return
}

// chanSend returns false when g blocked. A woken sender finishes here.
func (w *Worker) chanSend(g *G, cv, v Val) bool {
	if g.woken {
		g.woken = false
		if !g.wakeOK {
			panic(&goPanic{w.rtError("send on closed channel")})
		}
		return true
	}
	c := w.chanOf(cv)
	if c == nil {
		w.block(g, "chan send (nil chan)", nil)
		return false
	}
	v = w.copyVal(v)
	if w.trySend(g, c, v) {
		return true
	}
	c.sendq = append(c.sendq, &waiter{g: g, val: v, idx: -1, ch: c, send: true})
	w.block(g, "chan send", c)
	return false
}

func (w *Worker) chanRecv(g *G, cv Val, et *TInfo) (Val, bool, bool) {
	if g.woken {
		g.woken = false
		return g.wakeVal, g.wakeOK, true
	}
	c := w.chanOf(cv)
	if c == nil {
		w.block(g, "chan receive (nil chan)", nil)
		return Val{}, false, false
	}
	v, ok, done := w.tryRecv(g, c)
	if done {
		return v, ok, true
	}
	c.recvq = append(c.recvq, &waiter{g: g, idx: -1, ch: c})
	w.block(g, "chan receive", c)
	return Val{}, false, false
}

func (w *Worker) chanClose(g *G, cv Val) {
	c := w.chanOf(cv)
	if c == nil {
		panic(&goPanic{w.rtError("close of nil channel")})
	}
	if c.closed {
		panic(&goPanic{w.rtError("close of closed channel")})
	}
	c.closed = true
	if w.hb(g) {
		c.vc = append([]uint32(nil), g.vc...)
		w.vcTick(g)
	}
	for {
		x := popW(&c.recvq)
		if x == nil {
			break
		}
		if w.hb(g) {
			w.vcJoin(&x.g.vc, c.vc)
		}
		w.wake(x, w.zero(c.et), false)
	}
	for {
		x := popW(&c.sendq)
		if x == nil {
			break
		}
		w.wake(x, Val{}, false)
	}
}

func (w *Worker) selectResult(in *instr, idx int, ok bool, v Val) Val {
	t := Tuple{Val{n: uint64(int64(idx))}, vbool(ok)}
	k := 2
	for i := range in.states {
		if in.states[i].send {
			continue
		}
		if i == idx {
			t = append(t, v)
		} else {
			t = append(t, w.zero(in.t.fields[k]))
		}
		k++
	}
	return Val{x: t}
}

func (w *Worker) selectOp(g *G, fr *Frame, in *instr) bool {
	if g.woken {
		g.woken = false
		s := in.states[g.wakeIdx]
		if s.send && !g.wakeOK {
			panic(&goPanic{w.rtError("send on closed channel")})
		}
		fr.regs[in.dst] = w.selectResult(in, g.wakeIdx, g.wakeOK && !s.send, g.wakeVal)
		return true
	}
	var ready []int
	chs := make([]*ChanObj, len(in.states))
	for i := range in.states {
		s := &in.states[i]
		c := w.chanOf(w.op(fr, &s.ch))
		chs[i] = c
		if c == nil {
			continue
		}
		if s.send {
			if c.closed || liveW(c.recvq) || len(c.buf) < c.cap {
				ready = append(ready, i)
			}
		} else if len(c.buf) > 0 || liveW(c.sendq) || c.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			// Go picks uniformly at random: every ready case is explored
			k = int(w.choice("select", len(ready)))
		}
		i := ready[k]
		s := &in.states[i]
		if s.send {
			if !w.trySend(g, chs[i], w.copyVal(w.op(fr, &s.v))) {
				panic("select send")
			}
			fr.regs[in.dst] = w.selectResult(in, i, false, Val{})
		} else {
			v, ok, done := w.tryRecv(g, chs[i])
			if !done {
				panic("select recv")
			}
			fr.regs[in.dst] = w.selectResult(in, i, ok, v)
		}
		return true
	}
	if !in.ok { // default
		fr.regs[in.dst] = w.selectResult(in, -1, false, Val{})
		return true
	}
	sel := new(bool)
	for i := range in.states {
		c := chs[i]
		if c == nil {
			continue
		}
		s := &in.states[i]
		x := &waiter{g: g, idx: i, sel: sel, ch: c, send: s.send}
		if s.send {
			x.val = w.copyVal(w.op(fr, &s.v))
			c.sendq = append(c.sendq, x)
		} else {
			c.recvq = append(c.recvq, x)
		}
	}
	w.block(g, "select", sel)
	return false
}

// ---- goroutines ----

func (w *Worker) block(g *G, why string, obj any) {
	if g.id < 0 {
		panic(w.unsupported("blocking operation during initialisation"))
	}
	g.blocked = why
	g.blkObj = obj
}

func (w *Worker) ready(g *G) {
	g.blocked = ""
	g.blkObj = nil
	if !g.queued && !g.done {
		g.queued = true
		w.runq = append(w.runq, g)
	}
}

func (w *Worker) spawn(parent *G, d *deferred, pos token.Pos) *G {
	g := &G{id: len(w.gs), name: d.fn.name, atPos: pos}
	if parent != nil {
		g.parent = parent.id
		parent.child++
		g.path = fmt.Sprintf("%s.%d", parent.path, parent.child)
		if w.race {
			g.vc = append([]uint32(nil), parent.vc...)
			w.vcTick(parent)
		}
	} else {
		g.path = "0"
	}
	w.gs = append(w.gs, g)
	if w.race {
		w.vcTick(g)
	}
	w.pushCall(g, d.fn, d.cl, d.args, -1)
	w.ready(g)
	return g
}

// schedPoint offers a preemption before a visible operation of g. It returns
// true when g was switched out; g then repeats the instruction later.
func (w *Worker) schedPoint(g *G, fr *Frame) bool {
	if g.skip {
		g.skip = false
		return false
	}
	if w.initMode || g.id < 0 || g.woken || !w.exploreOn || !fr.fn.preempt {
		return false
	}
	g.opn++
	if w.devLeft <= 0 {
		return false
	}
	nt := w.earlyTimer()
	if len(w.runq)+nt == 0 {
		return false
	}
	np := 0
	if len(w.runq) > 0 && !noPark {
		np = 1
	}
	k := int(w.choice("sched", 1+len(w.runq)+nt+np))
	if k == 0 {
		return false
	}
	if k > len(w.runq)+nt {
		// g stays off the processor until everything else is blocked
		w.devLeft--
		w.nPreempt++
		g.skip = true
		g.queued = true
		w.parked = append(w.parked, g)
		w.note(fmt.Sprintf("park g%d at %s", g.id, w.posStr(w.framePos(fr))))
		return true
	}
	if k > len(w.runq) {
		n := len(w.runq)
		w.fireEarly()
		if len(w.runq) == n {
			return false
		}
		x := w.runq[n]
		w.runq = append(append([]*G{x}, w.runq[:n]...), g)
		g.skip = true
		g.queued = true
		return true
	}
	w.devLeft--
	w.nPreempt++
	n := w.runq[k-1]
	rest := append([]*G(nil), w.runq[:k-1]...)
	rest = append(rest, w.runq[k:]...)
	w.runq = append([]*G{n}, rest...)
	g.skip = true
	g.queued = true
	w.runq = append(w.runq, g)
	w.note(fmt.Sprintf("preempt g%d at %s -> g%d", g.id, w.posStr(w.framePos(fr)), n.id))
	return true
}

var noPark = os.Getenv("GOSYM_NOPARK") != ""

// earlyTimer is 1 when a timer is close enough to fire although goroutines
// can still run (they were just slow).
func (w *Worker) earlyTimer() int {
	if w.early > 0 && len(w.timers) > 0 && w.timers[0].when <= w.now+w.early {
		return 1
	}
	return 0
}

func (w *Worker) fireEarly() {
	w.devLeft--
	w.nPreempt++
	w.early -= max(0, w.timers[0].when-w.now)
	w.note("timer fires early")
	w.fireTimer()
}

func (w *Worker) note(s string) {
	if len(w.trace) < 4000 {
		w.trace = append(w.trace, s)
	}
}

// ---- virtual time ----

type Timer struct {
	when   int64
	period int64
	ch     *ChanObj
	fn     *Closure
	g      *G // sleeping goroutine
	active bool
	seq    int
	obj    *Obj
	vc     []uint32
}

func (w *Worker) addTimer(t *Timer) {
	w.tseq++
	t.seq = w.tseq
	t.active = true
	w.timers = append(w.timers, t)
	sort.SliceStable(w.timers, func(i, j int) bool {
		if w.timers[i].when != w.timers[j].when {
			return w.timers[i].when < w.timers[j].when
		}
		return w.timers[i].seq < w.timers[j].seq
	})
}

func (w *Worker) delTimer(t *Timer) bool {
	was := t.active
	t.active = false
	for i, x := range w.timers {
		if x == t {
			w.timers = append(w.timers[:i:i], w.timers[i+1:]...)
			break
		}
	}
	return was
}

func (w *Worker) fireTimer() {
	t := w.timers[0]
	if t.when > w.now {
		w.now = t.when
	}
	w.delTimer(t)
	if t.period > 0 {
		t.when += t.period
		if t.when <= w.now {
			t.when = w.now + t.period
		}
		w.addTimer(t)
	}
	switch {
	case t.g != nil:
		t.g.woken = true
		w.ready(t.g)
	case t.ch != nil:
		if len(t.ch.buf) < 1 {
			v := w.timeVal()
			if x := popW(&t.ch.recvq); x != nil {
				if w.race {
					w.vcJoin(&x.g.vc, t.vc)
				}
				w.wake(x, v, true)
			} else {
				if w.race {
					t.ch.normVC()
					t.ch.bufVC = append(t.ch.bufVC, t.vc)
				}
				t.ch.buf = append(t.ch.buf, v)
			}
		}
	case t.fn != nil:
		g := w.spawn(nil, &deferred{fn: t.fn.fn, cl: t.fn}, token.NoPos)
		g.path = fmt.Sprintf("t%d", t.seq)
		if w.race {
			w.vcJoin(&g.vc, t.vc)
		}
	}
}

const timeBase = int64(946684800) * 1e9 // 2000-01-01, as in testing/synctest

// timeVal builds a time.Time for the current instant (UTC, no monotonic part).
func (w *Worker) timeVal() Val {
	o := w.newObj(3)
	sec := w.now/1e9 + 62135596800
	o.e[0] = Val{n: uint64(w.now % 1e9)}
	o.e[1] = Val{n: uint64(sec)}
	return Val{n: aggN, x: o}
}

// ---- race detection ----

type shKey struct {
	o any
	i int
}
type shadow struct {
	wg   int
	wc   uint32
	wpos token.Pos
	win  *instr
	rin  map[int]*instr
	r    map[int]uint32
	rpos map[int]token.Pos
}

func (w *Worker) vcTick(g *G) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (w *Worker) vcJoin(d *[]uint32, s []uint32) {
	for len(*d) < len(s) {
		*d = append(*d, 0)
	}
	for i, x := range s {
		if x > (*d)[i] {
			(*d)[i] = x
		}
	}
}

func vcGet(v []uint32, i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (w *Worker) raceAll(o *Obj, wr bool) {
	for i := range o.e {
		if o.e[i].n == aggN {
			if s, ok := o.e[i].x.(*Obj); ok {
				w.raceAll(s, wr)
				continue
			}
		}
		w.raceAcc(o, i, wr)
	}
}

func (w *Worker) raceAcc(o any, i int, wr bool) {
	g := w.cur
	if g == nil || g.id < 0 || w.initMode || g.top == nil {
		return
	}
	if ob, ok := o.(*Obj); ok && ob.frozen {
		return
	}
	fr := g.top
	if raceExempt(fr.fn.pkg) && !w.touching {
		return
	}
	k := shKey{o, i}
	s := w.shadow[k]
	if s == nil {
		s = &shadow{wg: -1}
		w.shadow[k] = s
	}
	pos := w.framePos(fr)
	var in *instr
	if fr.fn.inRepo {
		in = &fr.fn.code[fr.pc]
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > vcGet(g.vc, s.wg) {
		if w.raceSoft {
			w.E.racyPair(s.win, in)
		} else {
			w.raceReport(s.wpos, pos, true, wr, s.wg, g.id)
		}
	}
	if wr {
		for rg, rc := range s.r {
			if rg != g.id && rc > vcGet(g.vc, rg) {
				if w.raceSoft {
					w.E.racyPair(s.rin[rg], in)
				} else {
					w.raceReport(s.rpos[rg], pos, false, true, rg, g.id)
				}
			}
		}
		s.wg, s.wc, s.wpos, s.win = g.id, vcGet(g.vc, g.id), pos, in
		s.r, s.rpos, s.rin = nil, nil, nil
		return
	}
	if s.r == nil {
		s.r = map[int]uint32{}
		s.rpos = map[int]token.Pos{}
		s.rin = map[int]*instr{}
	}
	s.r[g.id] = vcGet(g.vc, g.id)
	s.rpos[g.id] = pos
	s.rin[g.id] = in
}

// racyPair records two conflicting unsynchronised accesses of the library: they become
// preemption points in a further run of the harness.
func (e *Engine) racyPair(a, b *instr) {
	if a == nil || b == nil || a.racy && b.racy {
		return
	}
	e.racyMu.Lock()
	e.racyNew[a], e.racyNew[b] = true, true
	e.racyMu.Unlock()
}

// softTurn selects the paths on which races are looked for: the first ones and a fixed
// quarter of the others (which accesses are ordered hardly depends on the schedule).
func (w *Worker) softTurn() bool {
	w.E.st.mu.Lock()
	n := w.E.st.ends["complete"]
	w.E.st.mu.Unlock()
	if n < 4000 {
		return true
	}
	h := uint64(14695981039346656037)
	for _, d := range w.dec {
		h = (h ^ d.v) * 1099511628211
	}
	return h>>20%4 == 0
}

// startSoftRace starts race detection in the middle of a path.
func (w *Worker) startSoftRace() {
	w.race, w.raceSoft = true, true
	w.shadow = map[shKey]*shadow{}
	w.syncVC = map[any][]uint32{}
	for _, g := range w.gs {
		g.vc = nil
	}
	for _, g := range w.gs {
		if !g.done {
			w.vcTick(g)
		}
	}
}

// normVC makes the clocks of the buffered values match the values.
func (c *ChanObj) normVC() {
	if len(c.bufVC) != len(c.buf) {
		c.bufVC = make([][]uint32, len(c.buf))
	}
}

func raceExempt(pkg string) bool {
	switch pkg {
	case "sync", "sync/atomic", "internal/sync", "harness/sym", "harness/models", "harness/fake", "context", "time", "fmt", "os":
		return true
	}
	return false
}

func (w *Worker) raceReport(p1, p2 token.Pos, w1, w2 bool, g1, g2 int) {
	k := func(b bool) string {
		if b {
			return "write"
		}
		return "read"
	}
	a, b := k(w1)+" at "+w.posStr(p1), k(w2)+" at "+w.posStr(p2)
	w.violation("race", fmt.Sprintf("data race: %s (g%d) / %s (g%d)%s", a, g1, b, g2, w.stackOf(w.cur)), w.pcModel())
	panic(pathEnd{})
}

// hb: synchronisation by g counts as a happens-before edge. The fake transport's
// own locking does not: a network connection orders nothing for the library.
func (w *Worker) hb(g *G) bool {
	return w.race && (g == nil || g.top == nil || g.top.fn.pkg != "harness/fake")
}

// sync objects' clocks, keyed by object
func (w *Worker) vcAcquire(g *G, k any) {
	if w.hb(g) {
		w.vcJoin(&g.vc, w.syncVC[k])
	}
}

func (w *Worker) vcRelease(g *G, k any) {
	if w.hb(g) {
		v := w.syncVC[k]
		w.vcJoin(&v, g.vc)
		w.syncVC[k] = v
		w.vcTick(g)
	}
}
