package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type retMode uint8

const (
	rmNormal  retMode = iota
	rmUnwind          // deferred call run while panicking
	rmRecover         // deferred call run after a recovered panic
)

type Frame struct {
	fn     *Fn
	regs   []Val
	pc     int
	retDst int
	caller *Frame
	defers []*deferred
	pan    *panicState // set when run as deferred call of a panicking frame
	rm     retMode
	base   bool
	onRet  func(v Val)
	depth  int
}

type deferred struct {
	fn   *Fn
	cl   *Closure
	args []Val
}

type panicState struct {
	val       Val
	recovered bool
	prev      *panicState
	where     string
}

type G struct {
	id      int
	name    string
	top     *Frame
	pan     *panicState
	done    bool
	blocked string // why, "" when runnable
	blkObj  any
	queued  bool
	skip    bool
	// wake-up delivery
	woken   bool
	wakeVal Val
	wakeOK  bool
	wakeIdx int
	selDone *bool
	ret     Val
	vc      []uint32
	atPos   token.Pos
	parent  int
	child   int
	path    string
	opn     int
}

type unsup struct{ msg string }
type goPanic struct{ v Val }
type pathEnd struct{}

func (w *Worker) unsupported(m string) *unsup { return &unsup{m} }

func (w *Worker) rtPanic(msg string) {
	panic(&goPanic{w.rtError(msg)})
}

// rtError builds a runtime.Error value.
func (w *Worker) rtError(msg string) Val {
	o := w.newObj(1)
	o.e[0] = vstr(msg)
	return Val{x: &Iface{w.E.rtErrT, Val{n: aggN, x: o}}}
}

func (w *Worker) op(fr *Frame, o *opnd) Val {
	switch o.k {
	case okReg:
		return fr.regs[o.i]
	case okConst:
		return o.v
	case okZero:
		return w.zero(o.t)
	}
	return w.globalPtr(o.gl)
}

func (w *Worker) globalPtr(g *ssa.Global) Val {
	if v, ok := w.globals[g]; ok {
		return v
	}
	// allocate all globals of the package, then run its initializer
	p := g.Pkg
	w.initPkg(p)
	if v, ok := w.globals[g]; ok {
		return v
	}
	panic(w.unsupported("global " + g.String()))
}

func (w *Worker) initPkg(p *ssa.Package) {
	if w.initDone[p] {
		return
	}
	w.initDone[p] = true
	p.Build()
	save := w.initMode
	w.initMode = true
	defer func() { w.initMode = save }()
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			w.allocGlobal(g)
		}
	}
	if f := p.Func("init"); f != nil {
		if skipInit[p.Pkg.Path()] {
			return
		}
		w.callSync(getFn(f), nil, true)
	}
	if h, ok := initHooks[p.Pkg.Path()]; ok {
		h(w, p)
	}
}

func (w *Worker) allocGlobal(g *ssa.Global) {
	t := tinfo(deref(g.Type()))
	z := w.zero(t)
	if t.agg() {
		w.globals[g] = Val{n: ptrWhole, x: z.x}
		return
	}
	o := w.newObj(1)
	o.e[0] = z
	w.globals[g] = Val{x: o}
}

// callSync runs fn to completion on a private goroutine. init selects the
// tolerant mode of package initialisation.
func (w *Worker) callSync(fn *Fn, args []Val, init bool) Val {
	g := &G{id: -1, name: "sync:" + fn.name}
	w.pushCall(g, fn, nil, args, -1)
	g.top.base = true
	saveG := w.cur
	w.cur = g
	defer func() { w.cur = saveG }()
	for g.top != nil {
		w.runG(g, init)
		if g.blocked != "" {
			panic(w.unsupported("blocking in synchronous call of " + fn.name))
		}
	}
	return g.ret
}

func (w *Worker) getRegs(n int) []Val {
	return make([]Val, n)
}

func (w *Worker) pushCall(g *G, fn *Fn, cl *Closure, args []Val, dst int) *Frame {
	fn.compile()
	if fn.nocode {
		panic(w.unsupported(fn.err))
	}
	if fn.inRepo || w.E.traceFns {
		w.cover(fn)
	}
	fr := &Frame{fn: fn, regs: make([]Val, fn.nregs), retDst: dst, caller: g.top}
	copy(fr.regs, args)
	if cl != nil {
		copy(fr.regs[fn.freeOff:], cl.free)
	}
	if fr.caller != nil {
		fr.depth = fr.caller.depth + 1
		if fr.depth > 4000 {
			w.violation("stack", "stack overflow (4000 frames)"+w.stackOf(g), w.pcModel())
			panic(pathEnd{})
		}
	}
	g.top = fr
	return fr
}

func (w *Worker) cover(fn *Fn) {
	if !w.covFn[fn] {
		w.covFn[fn] = true
	}
}

// runG executes g until it blocks, is preempted, or ends.
func (w *Worker) runG(g *G, init bool) {
	for w.runG1(g, init) {
	}
}

func (w *Worker) runG1(g *G, init bool) (again bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch p := r.(type) {
		case *goPanic:
			if init && g.top != nil { // a package whose initialiser is out of reach in part
				w.poisonStep(g, "panic")
				again = true
				return
			}
			w.startPanic(g, p.v)
			again = true
			return
		case *unsup:
			if init && g.top != nil {
				w.poisonStep(g, p.msg)
				again = true
				return
			}
			w.fail("unsupported", p.msg+w.stackOf(g))
			panic(pathEnd{})
		case pathEnd:
			panic(r)
		}
		if init && g.top != nil {
			w.poisonStep(g, fmt.Sprint(r))
			again = true
			return
		}
		if os.Getenv("GOSYM_DEBUG") != "" {
			debug.PrintStack()
		}
		w.fail("unsupported", fmt.Sprintf("engine: %v%s", r, w.stackOf(g)))
		panic(pathEnd{})
	}()
	w.exec(g, init)
	return false
}

func (w *Worker) poisonStep(g *G, why string) {
	fr := g.top
	in := &fr.fn.code[fr.pc]
	if w.E.debugInit {
		fmt.Fprintf(os.Stderr, "init poison: %s at %s: %s\n", why, fr.fn.name, in.src)
	}
	switch in.op {
	case iIf, iJump, iReturn, iPanic:
		var v Val
		if len(fr.fn.results) == 1 {
			v = Val{x: &Poison{why}}
		} else if len(fr.fn.results) > 1 {
			t := make(Tuple, len(fr.fn.results))
			for i := range t {
				t[i] = Val{x: &Poison{why}}
			}
			v = Val{x: t}
		}
		fr.defers = nil
		w.ret(g, v)
		return
	}
	if in.dst >= 0 {
		if in.op == iCall && in.t != nil && in.t.k == KTuple && len(in.t.fields) > 1 {
			t := make(Tuple, len(in.t.fields))
			for i := range t {
				t[i] = Val{x: &Poison{why}}
			}
			fr.regs[in.dst] = Val{x: t}
		} else {
			fr.regs[in.dst] = Val{x: &Poison{why}}
		}
	}
	fr.pc++
}

func (w *Worker) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.E.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (w *Worker) framePos(fr *Frame) token.Pos {
	pc := fr.pc
	if pc >= len(fr.fn.code) {
		pc = len(fr.fn.code) - 1
	}
	for i := pc; i >= 0; i-- {
		if fr.fn.code[i].pos.IsValid() {
			return fr.fn.code[i].pos
		}
	}
	return fr.fn.ssa.Pos()
}

func (w *Worker) stackOf(g *G) string {
	var sb strings.Builder
	n := 0
	for fr := g.top; fr != nil && n < 24; fr = fr.caller {
		sb.WriteString("\n    ")
		sb.WriteString(fr.fn.name)
		sb.WriteString(" ")
		sb.WriteString(w.posStr(w.framePos(fr)))
		n++
	}
	return sb.String()
}

// ---- panics ----

func (w *Worker) startPanic(g *G, v Val) {
	g.pan = &panicState{val: v, prev: g.pan, where: w.stackOf(g)}
	w.unwind(g)
}

func (w *Worker) unwind(g *G) {
	for {
		fr := g.top
		if fr == nil {
			w.uncaught(g)
			return
		}
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			nf := w.pushCall(g, d.fn, d.cl, d.args, -1)
			nf.rm = rmUnwind
			nf.pan = g.pan
			return
		}
		g.top = fr.caller
		if fr.base {
			g.top = nil
		}
	}
}

func (w *Worker) uncaught(g *G) {
	if g.id < 0 && w.initMode {
		g.ret = Val{x: &Poison{"panic in init"}}
		return
	}
	msg := w.panicString(g.pan.val)
	w.violation("panic", "uncaught panic: "+msg+g.pan.where, w.pcModel())
	panic(pathEnd{})
}

func (w *Worker) panicString(v Val) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "<panic value>"
		}
	}()
	if v.x == nil {
		return "nil"
	}
	i := v.x.(*Iface)
	if i.t == w.E.rtErrT {
		return "runtime error: " + i.v.x.(*Obj).e[0].x.(string)
	}
	return w.goFmt(v)
}

// ret returns v from the top frame.
func (w *Worker) ret(g *G, v Val) {
	fr := g.top
	g.top = fr.caller
	if fr.onRet != nil {
		fr.onRet(v)
	}
	switch fr.rm {
	case rmUnwind:
		if g.pan != nil && g.pan == fr.pan && g.pan.recovered {
			g.pan = g.pan.prev
			w.afterRecover(g)
			return
		}
		g.pan = fr.pan
		w.unwind(g)
		return
	case rmRecover:
		w.afterRecover(g)
		return
	}
	if fr.base {
		g.ret = v
		g.top = nil
		return
	}
	if g.top != nil && fr.retDst >= 0 {
		g.top.regs[fr.retDst] = v
	}
}

func (w *Worker) afterRecover(g *G) {
	fr := g.top
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		nf := w.pushCall(g, d.fn, d.cl, d.args, -1)
		nf.rm = rmRecover
		return
	}
	if fr.fn.recover_ >= 0 {
		fr.pc = fr.fn.recover_
		return
	}
	var v Val
	if len(fr.fn.results) == 1 {
		v = w.zero(fr.fn.results[0])
	} else if len(fr.fn.results) > 1 {
		t := make(Tuple, len(fr.fn.results))
		for i := range t {
			t[i] = w.zero(fr.fn.results[i])
		}
		v = Val{x: t}
	}
	w.ret(g, v)
}

// ---- method lookup ----

func (w *Worker) method(t *TInfo, m *types.Func) *Fn {
	if f, ok := t.methods.Load(m); ok {
		return f.(*Fn)
	}
	lookupMu.Lock()
	defer lookupMu.Unlock()
	s := w.E.prog.LookupMethod(t.T, m.Pkg(), m.Name())
	if s == nil {
		panic(w.unsupported("no method " + m.Name() + " on " + t.String()))
	}
	f := getFn(s)
	t.methods.Store(m, f)
	return f
}

var lookupMu sync.Mutex

func (w *Worker) implements(t, it *TInfo) bool {
	if b, ok := t.impl.Load(it); ok {
		return b.(bool)
	}
	lookupMu.Lock()
	b := types.Implements(t.T, it.T.Underlying().(*types.Interface))
	lookupMu.Unlock()
	t.impl.Store(it, b)
	return b
}

// stub wraps a builtin or intrinsic call so that it can run as a goroutine or
// a deferred call.
var stubs sync.Map

func stubFor(fr *Frame, in *instr) *Fn {
	if s, ok := stubs.Load(in); ok {
		return s.(*Fn)
	}
	f := &Fn{name: fr.fn.name + "$stub", ssa: fr.fn.ssa, recover_: -1, pkg: fr.fn.pkg, preempt: fr.fn.preempt}
	f.once.Do(func() {})
	c := *in
	c.op = iCall
	c.dst = -1
	n := 0
	if in.bi == "" && in.fn == nil {
		c.a = opnd{k: okReg, i: n}
		n++
	}
	c.args = nil
	for range in.args {
		c.args = append(c.args, opnd{k: okReg, i: n})
		n++
	}
	f.nregs = n
	f.freeOff = n
	f.params = n
	f.code = []instr{c, {op: iReturn, dst: -1, pos: in.pos}}
	stubs.Store(in, f)
	return f
}

// callee resolves the target of a go/defer/call instruction.
func (w *Worker) deferredCall(fr *Frame, in *instr) *deferred {
	args := make([]Val, len(in.args))
	for i := range in.args {
		args[i] = w.op(fr, &in.args[i])
	}
	if in.bi != "" || (in.fn != nil && in.fn.intr != nil) {
		return &deferred{fn: stubFor(fr, in), args: args}
	}
	if in.fn != nil {
		return &deferred{fn: in.fn, args: args}
	}
	v := w.op(fr, &in.a)
	if in.meth != nil {
		if v.x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		i, ok := v.x.(*Iface)
		if !ok {
			panic(w.unsupported(fmt.Sprintf("invoke on %T", v.x)))
		}
		f := w.method(i.t, in.meth)
		if f.intr != nil {
			return &deferred{fn: stubFor(fr, in), args: append([]Val{v}, args...)}
		}
		return &deferred{fn: f, args: append([]Val{i.v}, args...)}
	}
	if v.x == nil {
		// a nil func: the panic happens when the deferred call runs
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	cl, ok := v.x.(*Closure)
	if !ok {
		panic(w.unsupported(fmt.Sprintf("call of %T", v.x)))
	}
	if cl.bi != nil || cl.fn.intr != nil {
		return &deferred{fn: stubFor(fr, in), args: append([]Val{v}, args...)}
	}
	return &deferred{fn: cl.fn, cl: cl, args: args}
}

type ist uint8

const (
	stDone ist = iota
	stBlocked
	stPushed
	stSwitched
)

type Intrinsic struct {
	name  string
	vis   bool // a scheduling point
	model string
	f     func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist)
}

// exec runs g until it leaves the running state.
func (w *Worker) exec(g *G, init bool) {
	for {
		fr := g.top
		if fr == nil {
			g.done = true
			return
		}
		w.steps++
		if w.steps > w.E.cfg.MaxSteps {
			w.stepLimit(g)
		}
		if w.steps&0xffff == 0 && w.E.stop && !init {
			w.end("stopped")
		}
		in := &fr.fn.code[fr.pc]
		if in.racy && !init && w.schedPoint(g, fr) {
			return
		}
		switch in.op {
		case iAlloc:
			z := w.zero(in.t)
			if in.t.agg() {
				fr.regs[in.dst] = Val{n: ptrWhole, x: z.x}
			} else {
				o := w.newObj(1)
				o.e[0] = z
				fr.regs[in.dst] = Val{x: o}
			}
		case iBin:
			fr.regs[in.dst] = w.binop(in.tok, in.t, in.t2, w.op(fr, &in.a), w.op(fr, &in.b))
		case iNot:
			v := w.op(fr, &in.a)
			if v.x == nil {
				fr.regs[in.dst] = Val{n: v.n ^ 1}
			} else {
				fr.regs[in.dst] = vterm(w.T.Not(w.boolTerm(v)))
			}
		case iNeg:
			v := w.op(fr, &in.a)
			if in.t.k == KFloat {
				fr.regs[in.dst] = vfloat(-fl(v))
			} else if v.x == nil {
				fr.regs[in.dst] = Val{n: -v.n & msk(in.t.w)}
			} else {
				fr.regs[in.dst] = vterm(w.T.Sub(w.T.Const(in.t.w, 0), w.term(v, in.t)))
			}
		case iCompl:
			v := w.op(fr, &in.a)
			if v.x == nil {
				fr.regs[in.dst] = Val{n: ^v.n & msk(in.t.w)}
			} else {
				fr.regs[in.dst] = vterm(w.T.Bnot(w.term(v, in.t)))
			}
		case iLoad:
			fr.regs[in.dst] = w.load(w.op(fr, &in.a), in.t)
		case iStore:
			w.store(w.op(fr, &in.a), w.op(fr, &in.b))
		case iMove:
			fr.regs[in.dst] = w.op(fr, &in.a)
		case iConvert:
			fr.regs[in.dst] = w.convert(in.t2, in.t, w.op(fr, &in.a))
		case iExtract:
			v := w.op(fr, &in.a)
			t, ok := v.x.(Tuple)
			if !ok {
				panic(w.unsupported(fmt.Sprintf("extract from %T", v.x)))
			}
			fr.regs[in.dst] = t[in.n]
		case iField:
			v := w.op(fr, &in.a)
			o, ok := v.x.(*Obj)
			if !ok {
				panic(w.unsupported(fmt.Sprintf("field of %T", v.x)))
			}
			fr.regs[in.dst] = o.e[in.n]
		case iFieldAddr:
			fr.regs[in.dst] = w.fieldAddr(w.op(fr, &in.a), in.n, in.t)
		case iIndexAddr:
			fr.regs[in.dst] = w.indexAddr(in, w.op(fr, &in.a), w.op(fr, &in.b))
		case iIndex:
			fr.regs[in.dst] = w.index(in, w.op(fr, &in.a), w.op(fr, &in.b))
		case iJump:
			w.jump(fr, in, 0)
			continue
		case iIf:
			v := w.op(fr, &in.a)
			k := 1
			if v.x == nil {
				if v.n != 0 {
					k = 0
				}
			} else if w.decide(w.boolTerm(v)) {
				k = 0
			}
			w.jump(fr, in, k)
			continue
		case iReturn:
			var v Val
			switch len(in.args) {
			case 0:
			case 1:
				v = w.op(fr, &in.args[0])
			default:
				t := make(Tuple, len(in.args))
				for i := range in.args {
					t[i] = w.op(fr, &in.args[i])
				}
				v = Val{x: t}
			}
			w.ret(g, v)
			continue
		case iCall:
			if !w.call(g, fr, in, init) {
				return
			}
			continue
		case iGo:
			if init {
				fr.pc++
				continue
			}
			if !g.skip {
				d := w.deferredCall(fr, in)
				w.spawn(g, d, in.pos)
			}
			// a scheduling point after the new goroutine exists
			if w.schedPoint(g, fr) {
				return
			}
		case iDefer:
			d := w.deferredCall(fr, in)
			tf := fr
			if in.ok {
				tf = w.op(fr, &in.b).x.(*Frame)
			}
			tf.defers = append(tf.defers, d)
		case iRunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				w.pushCall(g, d.fn, d.cl, d.args, -1)
				continue
			}
		case iPanic:
			v := w.op(fr, &in.a)
			w.startPanic(g, v)
			if g.top == nil {
				return
			}
			continue
		case iLookup:
			fr.regs[in.dst] = w.lookup(in, w.op(fr, &in.a), w.op(fr, &in.b))
		case iMakeChan:
			n := int(int64(w.conc(w.op(fr, &in.a), 64)))
			if n < 0 {
				w.rtPanic("makechan: size out of range")
			}
			fr.regs[in.dst] = Val{x: w.newChan(n, in.t.elem)}
		case iMakeClosure:
			cl := &Closure{fn: in.fn}
			for i := range in.args {
				cl.free = append(cl.free, w.op(fr, &in.args[i]))
			}
			fr.regs[in.dst] = Val{x: cl}
		case iMakeIface:
			fr.regs[in.dst] = Val{x: &Iface{in.t, w.op(fr, &in.a)}}
		case iMakeMap:
			fr.regs[in.dst] = Val{x: w.newMap(in.t.key, in.t.elem)}
		case iMakeSlice:
			fr.regs[in.dst] = w.makeSlice(in.t.elem, w.op(fr, &in.a), w.op(fr, &in.b))
		case iMapUpdate:
			v := w.op(fr, &in.a)
			if v.x == nil {
				w.rtPanic("assignment to entry in nil map")
			}
			m, ok := v.x.(*MapObj)
			if !ok {
				panic(w.unsupported(fmt.Sprintf("map update on %T", v.x)))
			}
			if w.race {
				w.raceAcc(m, 0, true)
			}
			w.mapSet(m, w.op(fr, &in.b), w.op(fr, &in.c))
		case iRange:
			fr.regs[in.dst] = w.rangeInit(in, w.op(fr, &in.a))
		case iNext:
			fr.regs[in.dst] = w.next(in, w.op(fr, &in.a))
		case iSlice:
			fr.regs[in.dst] = w.slice(fr, in)
		case iS2A:
			v := w.op(fr, &in.a)
			if v.x == nil {
				if in.t.n == 0 {
					fr.regs[in.dst] = Val{}
					break
				}
				w.rtPanic("cannot convert slice to array pointer")
			}
			s := v.x.(*SliceV)
			if s.len < in.t.n {
				w.rtPanic("cannot convert slice with length too small to array or pointer to array")
			}
			if s.off == 0 && len(s.o.e) == in.t.n {
				fr.regs[in.dst] = Val{n: ptrWhole, x: s.o}
			} else {
				if !in.ok {
					panic(w.unsupported("writing through a pointer to a part of a slice as an array"))
				}
				// reads only: a copy
				c := w.objOf(append([]Val(nil), s.o.e[s.off:s.off+in.t.n]...))
				fr.regs[in.dst] = Val{n: ptrWhole, x: c}
			}
		case iTypeAssert:
			fr.regs[in.dst] = w.typeAssert(in, w.op(fr, &in.a))
		case iSend:
			if w.schedPoint(g, fr) {
				return
			}
			if !w.chanSend(g, w.op(fr, &in.a), w.op(fr, &in.b)) {
				return
			}
		case iRecv:
			if w.schedPoint(g, fr) {
				return
			}
			v, ok, done := w.chanRecv(g, w.op(fr, &in.a), in.t2)
			if !done {
				return
			}
			if in.ok {
				fr.regs[in.dst] = Val{x: Tuple{v, vbool(ok)}}
			} else {
				fr.regs[in.dst] = v
			}
		case iSelect:
			if w.schedPoint(g, fr) {
				return
			}
			if !w.selectOp(g, fr, in) {
				return
			}
		case iNop:
		default:
			panic(w.unsupported(in.why))
		}
		fr.pc++
	}
}

func (w *Worker) jump(fr *Frame, in *instr, k int) {
	mv := in.moves[k]
	switch len(mv) {
	case 0:
	case 1:
		fr.regs[mv[0].dst] = w.op(fr, &mv[0].src)
	default:
		var buf [8]Val
		tmp := buf[:0]
		for i := range mv {
			tmp = append(tmp, w.op(fr, &mv[i].src))
		}
		for i := range mv {
			fr.regs[mv[i].dst] = tmp[i]
		}
	}
	fr.pc = in.succ[k]
}

// call executes a call instruction; false means g left the running state.
func (w *Worker) call(g *G, fr *Frame, in *instr, init bool) bool {
	var fn *Fn
	var cl *Closure
	var args []Val
	if in.bi != "" {
		args = make([]Val, len(in.args))
		for i := range in.args {
			args[i] = w.op(fr, &in.args[i])
		}
		if in.bi == "close" && w.schedPoint(g, fr) {
			return false
		}
		v := w.builtin(g, fr, in, args)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		fr.pc++
		return true
	}
	if in.meth != nil {
		v := w.op(fr, &in.a)
		if v.x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		i, ok := v.x.(*Iface)
		if !ok {
			panic(w.unsupported(fmt.Sprintf("invoke %s on %T (%v)", in.meth.Name(), v.x, v.x)))
		}
		fn = w.method(i.t, in.meth)
		args = make([]Val, 1+len(in.args))
		args[0] = i.v
		for j := range in.args {
			args[j+1] = w.op(fr, &in.args[j])
		}
	} else {
		args = make([]Val, len(in.args))
		for i := range in.args {
			args[i] = w.op(fr, &in.args[i])
		}
		if in.fn != nil {
			fn = in.fn
			if init && fn.ssa.Name() == "init" && fn.ssa.Signature.Recv() == nil && fn.ssa.Synthetic != "" {
				fr.pc++
				return true
			}
		} else {
			v := w.op(fr, &in.a)
			if v.x == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			c, ok := v.x.(*Closure)
			if !ok {
				panic(w.unsupported(fmt.Sprintf("call of %T %v", v.x, v.x)))
			}
			if c.bi != nil {
				r := c.bi(w, g, args)
				if in.dst >= 0 {
					fr.regs[in.dst] = r
				}
				fr.pc++
				return true
			}
			fn, cl = c.fn, c
		}
	}
	if fn.intr != nil && fn.intr.f != nil {
		if fn.intr.vis && w.schedPoint(g, fr) {
			return false
		}
		v, st := fn.intr.f(w, g, fr, in, args)
		switch st {
		case stDone:
			if in.dst >= 0 {
				fr.regs[in.dst] = v
			}
			fr.pc++
			return true
		case stPushed:
			return true
		default:
			return false
		}
	}
	if fr.fn.preempt && visPkg(fn.pkg) && w.schedPoint(g, fr) {
		return false
	}
	fr.pc++
	w.pushCall(g, fn, cl, args, in.dst)
	return true
}

func visPkg(p string) bool { return p == "sync" || p == "sync/atomic" }
