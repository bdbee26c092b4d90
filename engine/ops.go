package main

import (
	"fmt"
	"go/token"
	"math"
	"strings"
	"unicode/utf8"
)

func (w *Worker) binop(op token.Token, t, t2 *TInfo, a, b Val) Val {
	switch op {
	case token.EQL:
		return w.eq(t, a, b)
	case token.NEQ:
		e := w.eq(t, a, b)
		if e.x == nil {
			return Val{n: e.n ^ 1}
		}
		return vterm(w.T.Not(w.boolTerm(e)))
	}
	switch t.k {
	case KInt:
		if op == token.SHL || op == token.SHR {
			return w.shift(op, t, t2, a, b)
		}
		if a.x == nil && b.x == nil {
			return w.intop(op, t, a.n, b.n)
		}
		return w.symop(op, t, w.term(a, t), w.term(b, t))
	case KFloat:
		if a.x != nil || b.x != nil {
			panic(w.unsupported("symbolic float"))
		}
		x, y := fl(a), fl(b)
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return vbool(x < y)
		case token.LEQ:
			return vbool(x <= y)
		case token.GTR:
			return vbool(x > y)
		case token.GEQ:
			return vbool(x >= y)
		default:
			panic(w.unsupported("float op " + op.String()))
		}
		if t.w == 32 {
			r = float64(float32(r))
		}
		return vfloat(r)
	case KString:
		switch op {
		case token.ADD:
			sa, ok1 := a.x.(string)
			sb, ok2 := b.x.(string)
			if ok1 && ok2 {
				return vstr(sa + sb)
			}
			ba := append([]Val(nil), w.strBytes(a)...)
			return mkStr(append(ba, w.strBytes(b)...))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x, y := w.concStr(a), w.concStr(b)
			switch op {
			case token.LSS:
				return vbool(x < y)
			case token.LEQ:
				return vbool(x <= y)
			case token.GTR:
				return vbool(x > y)
			}
			return vbool(x >= y)
		}
	case KBool:
		x, y := w.boolTerm(a), w.boolTerm(b)
		switch op {
		case token.AND, token.LAND:
			return vterm(w.T.And(x, y))
		case token.OR, token.LOR:
			return vterm(w.T.Or(x, y))
		}
	}
	panic(w.unsupported(fmt.Sprintf("binop %s on %s", op, t)))
}

func (w *Worker) shift(op token.Token, t, t2 *TInfo, a, b Val) Val {
	if b.x == nil {
		n := b.n
		if t2.signed && sx(n, t2.w) < 0 {
			w.rtPanic("negative shift amount")
		}
		if a.x == nil {
			if op == token.SHL {
				if n >= 64 {
					return Val{}
				}
				return Val{n: a.n << n & msk(t.w)}
			}
			if t.signed {
				if n > 63 {
					n = 63
				}
				return Val{n: uint64(sx(a.n, t.w)>>n) & msk(t.w)}
			}
			if n >= 64 {
				return Val{}
			}
			return Val{n: a.n >> n}
		}
		x := w.term(a, t)
		if n >= uint64(t.w) {
			if op == token.SHR && t.signed {
				n = uint64(t.w) - 1
			} else {
				return Val{}
			}
		}
		c := w.T.Const(t.w, n)
		if op == token.SHL {
			return vterm(w.T.Shl(x, c))
		}
		if t.signed {
			return vterm(w.T.Ashr(x, c))
		}
		return vterm(w.T.Lshr(x, c))
	}
	y := w.term(b, t2)
	if t2.signed {
		if w.decide(w.T.Slt(y, w.T.Const(t2.w, 0))) {
			w.rtPanic("negative shift amount")
		}
	}
	x := w.term(a, t)
	// bring the amount to t's width, saturating
	var yy *Term
	if t2.w > t.w {
		big := w.T.Ule(w.T.Const(t2.w, uint64(t.w)), y)
		yy = w.T.Ite(big, w.T.Const(t.w, uint64(t.w)), w.T.Extract(y, t.w-1, 0))
	} else {
		yy = w.T.Zext(y, t.w)
	}
	// for w < 8 bits impossible; t.w itself fits in t.w bits for w >= 8
	if op == token.SHL {
		return vterm(w.T.Shl(x, yy))
	}
	if t.signed {
		return vterm(w.T.Ashr(x, yy))
	}
	return vterm(w.T.Lshr(x, yy))
}

func (w *Worker) intop(op token.Token, t *TInfo, a, b uint64) Val {
	m := msk(t.w)
	switch op {
	case token.ADD:
		return Val{n: (a + b) & m}
	case token.SUB:
		return Val{n: (a - b) & m}
	case token.MUL:
		return Val{n: (a * b) & m}
	case token.QUO, token.REM:
		if b == 0 {
			w.rtPanic("integer divide by zero")
		}
		if t.signed {
			x, y := sx(a, t.w), sx(b, t.w)
			if y == -1 {
				if op == token.QUO {
					return Val{n: uint64(-x) & m}
				}
				return Val{}
			}
			if op == token.QUO {
				return Val{n: uint64(x/y) & m}
			}
			return Val{n: uint64(x%y) & m}
		}
		if op == token.QUO {
			return Val{n: a / b}
		}
		return Val{n: a % b}
	case token.AND:
		return Val{n: a & b}
	case token.OR:
		return Val{n: a | b}
	case token.XOR:
		return Val{n: a ^ b}
	case token.AND_NOT:
		return Val{n: a &^ b}
	}
	if t.signed {
		x, y := sx(a, t.w), sx(b, t.w)
		switch op {
		case token.LSS:
			return vbool(x < y)
		case token.LEQ:
			return vbool(x <= y)
		case token.GTR:
			return vbool(x > y)
		case token.GEQ:
			return vbool(x >= y)
		}
	}
	switch op {
	case token.LSS:
		return vbool(a < b)
	case token.LEQ:
		return vbool(a <= b)
	case token.GTR:
		return vbool(a > b)
	case token.GEQ:
		return vbool(a >= b)
	}
	panic(w.unsupported("int op " + op.String()))
}

func (w *Worker) symop(op token.Token, t *TInfo, a, b *Term) Val {
	T := w.T
	switch op {
	case token.ADD:
		return vterm(T.Add(a, b))
	case token.SUB:
		return vterm(T.Sub(a, b))
	case token.MUL:
		return vterm(T.Mul(a, b))
	case token.QUO, token.REM:
		if w.decide(T.Eq(b, T.Const(t.w, 0))) {
			w.rtPanic("integer divide by zero")
		}
		if t.signed {
			if op == token.QUO {
				return vterm(T.Sdiv(a, b))
			}
			return vterm(T.Srem(a, b))
		}
		if op == token.QUO {
			return vterm(T.Udiv(a, b))
		}
		return vterm(T.Urem(a, b))
	case token.AND:
		return vterm(T.Band(a, b))
	case token.OR:
		return vterm(T.Bor(a, b))
	case token.XOR:
		return vterm(T.Bxor(a, b))
	case token.AND_NOT:
		return vterm(T.Band(a, T.Bnot(b)))
	}
	if t.signed {
		switch op {
		case token.LSS:
			return vterm(T.Slt(a, b))
		case token.LEQ:
			return vterm(T.Sle(a, b))
		case token.GTR:
			return vterm(T.Slt(b, a))
		case token.GEQ:
			return vterm(T.Sle(b, a))
		}
	}
	switch op {
	case token.LSS:
		return vterm(T.Ult(a, b))
	case token.LEQ:
		return vterm(T.Ule(a, b))
	case token.GTR:
		return vterm(T.Ult(b, a))
	case token.GEQ:
		return vterm(T.Ule(b, a))
	}
	panic(w.unsupported("sym op " + op.String()))
}

// ---- memory ----

func (w *Worker) nilDeref() { w.rtPanic("invalid memory address or nil pointer dereference") }

func (w *Worker) load(p Val, t *TInfo) Val {
	switch o := p.x.(type) {
	case *Obj:
		if p.n == ptrWhole {
			if w.race {
				w.raceAll(o, false)
			}
			if t.agg() {
				return Val{n: aggN, x: w.copyObj(o)}
			}
			// pointer to a one-element aggregate viewed as scalar: unsafe
			panic(w.unsupported("load of " + t.String() + " through whole pointer"))
		}
		if p.n >= uint64(len(o.e)) {
			panic(w.unsupported("pointer out of object"))
		}
		if w.race {
			w.raceAcc(o, int(p.n), false)
		}
		return w.copyVal(o.e[p.n])
	case *SymPtr:
		return w.symLoad(o, t)
	case nil:
		w.nilDeref()
	}
	panic(w.unsupported(fmt.Sprintf("load through %T %v", p.x, p.x)))
}

// symLoad reads o[off+idx] for symbolic idx as nested ITEs over equal runs.
func (w *Worker) symLoad(p *SymPtr, t *TInfo) Val {
	e := p.o.e[p.off : p.off+p.n]
	wd := p.idx.w
	if w.race {
		for i := range e {
			w.raceAcc(p.o, p.off+i, false)
		}
	}
	width := t.w
	get := func(v Val) *Term {
		if t.k == KBool {
			return w.boolTerm(v)
		}
		return w.termW(v, width)
	}
	// runs
	end := len(e)
	r := get(e[end-1])
	i := end - 1
	for i >= 0 {
		j := i
		cur := get(e[i])
		for j > 0 && get(e[j-1]) == cur {
			j--
		}
		// run [j,i]
		if i == end-1 {
			r = cur
		} else {
			r = w.T.Ite(w.T.Ule(p.idx, w.T.Const(wd, uint64(i))), cur, r)
		}
		i = j - 1
	}
	return vterm(r)
}

func (w *Worker) concPtr(p *SymPtr) Val {
	i := w.conc(Val{x: p.idx}, p.idx.w)
	return Val{n: uint64(p.off) + i, x: p.o}
}

func (w *Worker) store(p, v Val) {
	switch o := p.x.(type) {
	case *Obj:
		if p.n == ptrWhole {
			s, ok := v.x.(*Obj)
			if !ok || v.n != aggN {
				if _, bad := v.x.(*Poison); bad && w.initMode {
					return
				}
				panic(w.unsupported(fmt.Sprintf("store of %T to whole pointer", v.x)))
			}
			if w.race {
				w.raceAll(o, true)
			}
			w.storeAgg(o, s)
			return
		}
		if p.n >= uint64(len(o.e)) {
			panic(w.unsupported("pointer out of object"))
		}
		if w.race {
			w.raceAcc(o, int(p.n), true)
		}
		w.storeInto(o, int(p.n), v)
		return
	case *SymPtr:
		w.store(w.concPtr(o), v)
		return
	case nil:
		w.nilDeref()
	}
	panic(w.unsupported(fmt.Sprintf("store through %T", p.x)))
}

func (w *Worker) fieldAddr(p Val, n int, t *TInfo) Val {
	o, ok := p.x.(*Obj)
	if !ok {
		if p.x == nil {
			w.nilDeref()
		}
		panic(w.unsupported(fmt.Sprintf("field address of %T", p.x)))
	}
	if p.n != ptrWhole {
		panic(w.unsupported("field address through scalar pointer"))
	}
	return w.elemPtr(o, n)
}

func (w *Worker) elemPtr(o *Obj, i int) Val {
	if o.e[i].n == aggN {
		if s, ok := o.e[i].x.(*Obj); ok {
			return Val{n: ptrWhole, x: s}
		}
	}
	return Val{n: uint64(i), x: o}
}

// idx checks bounds and returns a concrete index, or ok=false with a symbolic term.
func (w *Worker) boundsIdx(v Val, it *TInfo, n int) (int, *Term) {
	if v.x == nil {
		i := int64(v.n)
		if it.signed {
			i = sx(v.n, it.w)
		}
		if i < 0 || i >= int64(n) || (!it.signed && v.n >= uint64(n)) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	x := w.term(v, it)
	// unsigned comparison covers negatives
	var in *Term
	if it.w < 64 && uint64(n) > msk(it.w) {
		in = w.T.True
		if it.signed {
			in = w.T.Sle(w.T.Const(it.w, 0), x)
		}
	} else {
		in = w.T.Ult(x, w.T.Const(it.w, uint64(n)))
	}
	if !w.decide(in) {
		w.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return 0, x
}

func (w *Worker) indexAddr(in *instr, a, iv Val) Val {
	var o *Obj
	off, n := 0, 0
	switch in.t.k {
	case KSlice:
		if a.x == nil {
			n = 0
		} else {
			s, ok := a.x.(*SliceV)
			if !ok {
				panic(w.unsupported(fmt.Sprintf("index of %T %v", a.x, a.x)))
			}
			o, off, n = s.o, s.off, s.len
		}
	case KPtr:
		if a.x == nil {
			w.nilDeref()
		}
		ob, ok := a.x.(*Obj)
		if !ok {
			panic(w.unsupported(fmt.Sprintf("index of %T %v", a.x, a.x)))
		}
		o, n = ob, len(ob.e)
	default:
		panic(w.unsupported("indexaddr on " + in.t.String()))
	}
	i, sym := w.boundsIdx(iv, in.t2, n)
	if sym != nil {
		et := in.t.elem
		if in.t.k == KPtr {
			et = in.t.elem.elem
		}
		if et.k == KInt || et.k == KBool {
			return Val{x: &SymPtr{o, off, n, sym}}
		}
		i = int(w.conc(Val{x: sym}, sym.w))
	}
	return w.elemPtr(o, off+i)
}

func (w *Worker) index(in *instr, a, iv Val) Val {
	switch in.t.k {
	case KString:
		return w.strIndex(a, iv, in.t2)
	case KArray:
		o := a.x.(*Obj)
		i, sym := w.boundsIdx(iv, in.t2, len(o.e))
		if sym != nil {
			if in.t.elem.k == KInt || in.t.elem.k == KBool {
				return w.symLoad(&SymPtr{o, 0, len(o.e), sym}, in.t.elem)
			}
			i = int(w.conc(Val{x: sym}, sym.w))
		}
		return o.e[i]
	}
	panic(w.unsupported("index on " + in.t.String()))
}

func (w *Worker) strIndex(a, iv Val, it *TInfo) Val {
	i, sym := w.boundsIdx(iv, it, w.strLen(a))
	if sym != nil {
		b := w.strBytes(a)
		o := &Obj{e: b}
		r := w.race
		w.race = false
		v := w.symLoad(&SymPtr{o, 0, len(b), sym}, w.E.byteT)
		w.race = r
		return v
	}
	switch s := a.x.(type) {
	case string:
		return Val{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic(w.unsupported("string index"))
}

func (w *Worker) lookup(in *instr, a, k Val) Val {
	if in.t.k == KString {
		return w.strIndex(a, k, in.t2)
	}
	var v Val
	ok := false
	if a.x != nil {
		m, isM := a.x.(*MapObj)
		if !isM {
			panic(w.unsupported(fmt.Sprintf("lookup in %T", a.x)))
		}
		if w.race {
			w.raceAcc(m, 0, false)
		}
		if i := w.mapFind(m, k); i >= 0 {
			v = w.copyVal(m.vals[i])
			ok = true
		}
	}
	if !ok {
		v = w.zero(in.t.elem)
	}
	if in.ok {
		return Val{x: Tuple{v, vbool(ok)}}
	}
	return v
}

func (t *TInfo) gcSize() int {
	t.sizeOnce.Do(func() {
		t.size, t.ptrs = int(gcSizes.Sizeof(t.T)), hasPtr(t.T)
	})
	return t.size
}

// spend counts an allocation of n elements against the budget, if there is one.
func (w *Worker) spend(et *TInfo, n Val) {
	if w.budget == 0 {
		return
	}
	sz := int64(max(1, et.gcSize()))
	left := (w.budget - w.spent) / sz
	if t, ok := n.x.(*Term); ok && !t.isC() {
		if w.decide(w.T.Ult(w.T.Const(t.w, uint64(left)), t)) {
			w.assert(w.T.False, "allocates out of proportion to the bytes received")
		}
		return // counted once concrete
	}
	k := int64(w.conc(n, 64))
	if k < 0 || k > left {
		w.assert(w.T.False, "allocates out of proportion to the bytes received")
	}
	w.spent += k * sz
}

func (w *Worker) makeSlice(et *TInfo, l, c Val) Val {
	if w.budget != 0 {
		w.spend(et, c)
	}
	n := int64(w.conc(l, 64))
	k := int64(w.conc(c, 64))
	if n < 0 || n > 1<<26 {
		w.rtPanic("makeslice: len out of range")
	}
	if k < n || k > 1<<26 {
		w.rtPanic("makeslice: cap out of range")
	}
	if w.budget != 0 && c.x != nil {
		w.spend(et, vint(int(k)))
	}
	o := w.newObj(int(k))
	w.zeroFill(o.e, et)
	return Val{x: &SliceV{o, 0, int(n), int(k)}}
}

func (w *Worker) concI(v Val) int64 { return int64(w.conc(v, 64)) }

func (w *Worker) slice(fr *Frame, in *instr) Val {
	a := w.op(fr, &in.a)
	lo, hi, max := int64(0), int64(-1), int64(-1)
	if in.n&1 != 0 {
		lo = w.concI(w.op(fr, &in.b))
	}
	if in.n&2 != 0 {
		hi = w.concI(w.op(fr, &in.c))
		if hi < 0 {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d]", hi))
		}
	}
	if in.n&4 != 0 {
		max = w.concI(w.op(fr, &in.args[0]))
		if max < 0 {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d]", max))
		}
	}
	if in.t.k == KString {
		n := int64(w.strLen(a))
		if hi < 0 {
			hi = n
		}
		if hi > n || lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		switch s := a.x.(type) {
		case string:
			return vstr(s[lo:hi])
		case *SymStr:
			return mkStr(s.b[lo:hi:hi])
		}
		return Val{x: emptyStr}
	}
	var o *Obj
	var off, ln, cp int64
	switch in.t.k {
	case KSlice:
		if a.x != nil {
			s, ok := a.x.(*SliceV)
			if !ok {
				panic(w.unsupported(fmt.Sprintf("slice of %T", a.x)))
			}
			o, off, ln, cp = s.o, int64(s.off), int64(s.len), int64(s.cap)
		}
	case KPtr:
		if a.x == nil {
			w.nilDeref()
		}
		ob, ok := a.x.(*Obj)
		if !ok {
			panic(w.unsupported(fmt.Sprintf("slice of %T", a.x)))
		}
		o, ln, cp = ob, int64(len(ob.e)), int64(len(ob.e))
	default:
		panic(w.unsupported("slice of " + in.t.String()))
	}
	if hi < 0 {
		hi = ln
	}
	if max < 0 {
		max = cp
	}
	if max > cp || hi > max || lo < 0 || lo > hi {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with length %d capacity %d", lo, hi, max, ln, cp))
	}
	if o == nil {
		return Val{}
	}
	return Val{x: &SliceV{o, int(off + lo), int(hi - lo), int(max - lo)}}
}

// ---- iteration ----

type mapIter struct {
	m     *MapObj
	order []int
	i     int
}

type strIter struct {
	b []Val
	s string
	i int
}

func (w *Worker) rangeInit(in *instr, a Val) Val {
	if in.t.k == KString {
		switch s := a.x.(type) {
		case string:
			return Val{x: &strIter{s: s}}
		case *SymStr:
			return Val{x: &strIter{b: s.b}}
		}
		return Val{x: &strIter{}}
	}
	if a.x == nil {
		return Val{x: &mapIter{}}
	}
	m, ok := a.x.(*MapObj)
	if !ok {
		panic(w.unsupported(fmt.Sprintf("range over %T", a.x)))
	}
	if w.race {
		w.raceAcc(m, 0, false)
	}
	it := &mapIter{m: m}
	for i := range m.keys {
		if !m.dead[i] {
			it.order = append(it.order, i)
		}
	}
	if w.mapOrder && len(it.order) > 1 && !w.initMode {
		// Go starts at a random position: choose the rotation
		k := int(w.choice("maporder", len(it.order)))
		it.order = append(append([]int(nil), it.order[k:]...), it.order[:k]...)
	}
	return Val{x: it}
}

func (w *Worker) next(in *instr, a Val) Val {
	switch it := a.x.(type) {
	case *mapIter:
		if it.m != nil && w.race {
			w.raceAcc(it.m, 0, false)
		}
		for it.m != nil && it.i < len(it.order) {
			j := it.order[it.i]
			it.i++
			if it.m.dead[j] {
				continue
			}
			return Val{x: Tuple{vbool(true), w.copyVal(it.m.keys[j]), w.copyVal(it.m.vals[j])}}
		}
		return Val{x: Tuple{vbool(false), Val{}, Val{}}}
	case *strIter:
		if it.b == nil {
			if it.i >= len(it.s) {
				return Val{x: Tuple{vbool(false), Val{}, Val{}}}
			}
			r, n := utf8.DecodeRuneInString(it.s[it.i:])
			p := it.i
			it.i += n
			return Val{x: Tuple{vbool(true), vint(p), Val{n: uint64(uint32(r))}}}
		}
		if it.i >= len(it.b) {
			return Val{x: Tuple{vbool(false), Val{}, Val{}}}
		}
		p := it.i
		b0 := it.b[p]
		if b0.x != nil {
			if w.decide(w.T.Ult(w.termW(b0, 8), w.T.Const(8, 0x80))) {
				it.i++
				return Val{x: Tuple{vbool(true), vint(p), vterm(w.T.Zext(w.termW(b0, 8), 32))}}
			}
		}
		// non-ASCII: concretize up to four bytes
		var buf []byte
		for j := p; j < len(it.b) && j < p+4; j++ {
			buf = append(buf, byte(w.conc(it.b[j], 8)))
			if utf8.FullRune(buf) {
				break
			}
		}
		r, n := utf8.DecodeRune(buf)
		it.i += n
		return Val{x: Tuple{vbool(true), vint(p), Val{n: uint64(uint32(r))}}}
	}
	panic(w.unsupported(fmt.Sprintf("next on %T", a.x)))
}

func (w *Worker) typeAssert(in *instr, v Val) Val {
	ok := false
	var r Val
	var dyn *TInfo
	if v.x != nil {
		i, isI := v.x.(*Iface)
		if !isI {
			panic(w.unsupported(fmt.Sprintf("type assertion on %T", v.x)))
		}
		dyn = i.t
		if in.t.k == KIface {
			if w.implements(i.t, in.t) {
				ok = true
				r = v
			}
		} else if i.t == in.t {
			ok = true
			r = i.v
		}
	}
	if in.ok {
		if !ok {
			r = w.zero(in.t)
		}
		return Val{x: Tuple{r, vbool(ok)}}
	}
	if !ok {
		d := "nil"
		if dyn != nil {
			d = dyn.String()
		}
		w.rtPanic("interface conversion: interface is " + d + ", not " + in.t.String())
	}
	return r
}

// ---- conversions ----

func (w *Worker) convert(from, to *TInfo, v Val) Val {
	switch {
	case to.k == KInt && from.k == KInt:
		if v.x == nil {
			if from.signed {
				return Val{n: uint64(sx(v.n, from.w)) & msk(to.w)}
			}
			return Val{n: v.n & msk(to.w)}
		}
		x := w.term(v, from)
		switch {
		case to.w < from.w:
			x = w.T.Extract(x, to.w-1, 0)
		case to.w > from.w:
			if from.signed {
				x = w.T.Sext(x, to.w)
			} else {
				x = w.T.Zext(x, to.w)
			}
		}
		return vterm(x)
	case to.k == KFloat && from.k == KInt:
		n := w.conc(v, from.w)
		var f float64
		if from.signed {
			f = float64(sx(n, from.w))
		} else {
			f = float64(n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return vfloat(f)
	case to.k == KInt && from.k == KFloat:
		f := fl(v)
		if to.signed {
			return Val{n: uint64(int64(f)) & msk(to.w)}
		}
		if f >= math.MaxInt64 {
			return Val{n: uint64(f) & msk(to.w)}
		}
		return Val{n: uint64(int64(f)) & msk(to.w)}
	case to.k == KFloat && from.k == KFloat:
		f := fl(v)
		if to.w == 32 {
			f = float64(float32(f))
		}
		return vfloat(f)
	case to.k == KString && from.k == KString:
		return v
	case to.k == KString && from.k == KInt:
		n := w.conc(v, from.w)
		return vstr(string(rune(sx(n, from.w))))
	case to.k == KString && from.k == KSlice:
		if from.elem.w == 8 {
			b := w.sliceBytes(v)
			if w.race && v.x != nil {
				s := v.x.(*SliceV)
				for i := 0; i < s.len; i++ {
					w.raceAcc(s.o, s.off+i, false)
				}
			}
			return mkStr(append([]Val(nil), b...))
		}
		var sb strings.Builder
		for _, r := range w.sliceBytes(v) {
			sb.WriteRune(rune(int32(w.conc(r, 32))))
		}
		return vstr(sb.String())
	case to.k == KSlice && from.k == KString:
		if to.elem.w == 8 {
			return w.mkBytes(append([]Val(nil), w.strBytes(v)...))
		}
		s := w.concStr(v)
		var e []Val
		for _, r := range s {
			e = append(e, Val{n: uint64(uint32(r))})
		}
		return w.mkBytes(e)
	case to.k == KUnsafe || from.k == KUnsafe:
		return v
	case to.k == from.k:
		return v
	case to.k == KInt && (from.k == KPtr):
		return v
	}
	panic(w.unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
}
