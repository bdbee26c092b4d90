package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// ---- type information ----

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KUnsafe
	KOther
)

type TInfo struct {
	T        types.Type
	id       int
	k        Kind
	w        uint8 // bit width for ints, floats (bool: 0)
	signed   bool
	elem     *TInfo
	sizeOnce sync.Once
	size     int  // of T in bytes, set by growCap
	ptrs     bool // T contains pointers
	key      *TInfo
	fields   []*TInfo
	n        int
	methods  sync.Map // *types.Func id -> *Fn
	impl     sync.Map // iface *TInfo -> bool
}

func (t *TInfo) agg() bool { return t.k == KStruct || t.k == KArray }

func (t *TInfo) String() string {
	return types.TypeString(t.T, func(p *types.Package) string { return p.Name() })
}

var (
	tiMu  sync.Mutex
	tiMap typeutil.Map
	tiN   int
)

func tinfo(t types.Type) *TInfo {
	tiMu.Lock()
	defer tiMu.Unlock()
	return tinfoL(t)
}

func tinfoL(t types.Type) *TInfo {
	t = types.Unalias(t)
	if r := tiMap.At(t); r != nil {
		return r.(*TInfo)
	}
	tiN++
	r := &TInfo{T: t, id: tiN}
	tiMap.Set(t, r)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Bool || u.Kind() == types.UntypedBool:
			r.k = KBool
		case u.Kind() == types.UnsafePointer:
			r.k = KUnsafe
		case u.Info()&types.IsString != 0:
			r.k = KString
		case u.Info()&types.IsInteger != 0:
			r.k = KInt
			r.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.w = 32
			default:
				r.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			r.k = KFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			r.k = KComplex
		case u.Kind() == types.UntypedNil:
			r.k = KPtr
		default:
			r.k = KOther
		}
	case *types.Pointer:
		r.k = KPtr
		r.elem = tinfoL(u.Elem())
	case *types.Slice:
		r.k = KSlice
		r.elem = tinfoL(u.Elem())
	case *types.Array:
		r.k = KArray
		r.elem = tinfoL(u.Elem())
		r.n = int(u.Len())
	case *types.Map:
		r.k = KMap
		r.key = tinfoL(u.Key())
		r.elem = tinfoL(u.Elem())
	case *types.Chan:
		r.k = KChan
		r.elem = tinfoL(u.Elem())
	case *types.Signature:
		r.k = KFunc
	case *types.Interface:
		r.k = KIface
	case *types.Struct:
		r.k = KStruct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, tinfoL(u.Field(i).Type()))
		}
	case *types.Tuple:
		r.k = KTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, tinfoL(u.At(i).Type()))
		}
	default:
		r.k = KOther
	}
	return r
}

// ---- values ----

// Val is one Go value. Integers, bools and floats live in n (masked to their
// width) unless symbolic, when x is a *Term. Strings: x is string or *SymStr.
// Pointers: x is *Obj (n = element index or ptrWhole) or *SymPtr. Struct and
// array values: x is *Obj, n = aggN. Everything else: x, nil when nil.
type Val struct {
	n uint64
	x any
}

const (
	ptrWhole = uint64(1) << 62
	aggN     = uint64(1) << 63
)

type Obj struct {
	e      []Val
	frozen bool
	id     int
}

type SliceV struct {
	o             *Obj
	off, len, cap int
}

type SymStr struct{ b []Val }

// SymPtr points at o.e[off+idx] for a symbolic idx in [0,n).
type SymPtr struct {
	o      *Obj
	off, n int
	idx    *Term
}

type Iface struct {
	t *TInfo
	v Val
}

type Closure struct {
	fn   *Fn
	free []Val
	bi   func(w *Worker, g *G, args []Val) Val // engine-made function
}

type Poison struct{ why string }

type MapObj struct {
	kt, vt *TInfo
	idx    map[any]int
	keys   []Val
	vals   []Val
	dead   []bool
	live   int
	sym    bool // some key is symbolic
	frozen bool
	id     int
}

type Tuple []Val

var emptyStr any = ""

func vint(n int) Val    { return Val{n: uint64(n)} }
func vbool(b bool) Val  { return Val{n: b2u(b)} }
func vstr(s string) Val { return Val{x: s} }
func vterm(t *Term) Val {
	if t.op == OConst {
		return Val{n: t.n}
	}
	return Val{x: t}
}
func vfloat(f float64) Val { return Val{n: math.Float64bits(f)} }

func (v Val) isSym() bool { _, ok := v.x.(*Term); return ok }

func (w *Worker) zero(t *TInfo) Val {
	switch t.k {
	case KString:
		return Val{x: emptyStr}
	case KStruct:
		o := w.newObj(len(t.fields))
		for i, f := range t.fields {
			if f.k == KString || f.agg() {
				o.e[i] = w.zero(f)
			}
		}
		return Val{n: aggN, x: o}
	case KArray:
		o := w.newObj(t.n)
		w.zeroFill(o.e, t.elem)
		return Val{n: aggN, x: o}
	}
	return Val{}
}

func (w *Worker) zeroFill(e []Val, t *TInfo) {
	if t.k == KString {
		for i := range e {
			e[i] = Val{x: emptyStr}
		}
	} else if t.agg() {
		for i := range e {
			e[i] = w.zero(t)
		}
	}
}

// copyVal deep-copies aggregates, other values are returned as they are.
func (w *Worker) copyVal(v Val) Val {
	if v.n == aggN {
		if o, ok := v.x.(*Obj); ok {
			return Val{n: aggN, x: w.copyObj(o)}
		}
	}
	return v
}

func (w *Worker) copyObj(o *Obj) *Obj {
	c := w.newObj(len(o.e))
	copy(c.e, o.e)
	for i := range c.e {
		if c.e[i].n == aggN {
			if s, ok := c.e[i].x.(*Obj); ok {
				c.e[i].x = w.copyObj(s)
			}
		}
	}
	return c
}

func (w *Worker) newObj(n int) *Obj {
	w.nobj++
	return &Obj{e: make([]Val, n), frozen: w.initMode, id: w.nobj}
}

func (w *Worker) objOf(e []Val) *Obj {
	w.nobj++
	return &Obj{e: e, frozen: w.initMode, id: w.nobj}
}

func (w *Worker) set(o *Obj, i int, v Val) {
	if o.frozen && !w.initMode {
		w.undo = append(w.undo, undoRec{o, i, o.e[i]})
	}
	o.e[i] = v
}

// storeInto writes v into o.e[i], keeping the identity of nested aggregates.
func (w *Worker) storeInto(o *Obj, i int, v Val) {
	if v.n == aggN {
		if s, ok := v.x.(*Obj); ok {
			if d, ok := o.e[i].x.(*Obj); ok && o.e[i].n == aggN {
				w.storeAgg(d, s)
				return
			}
			w.set(o, i, w.copyVal(v))
			return
		}
	}
	w.set(o, i, v)
}

func (w *Worker) storeAgg(d, s *Obj) {
	if d == s {
		return
	}
	for j := range s.e {
		w.storeInto(d, j, s.e[j])
	}
}

type undoRec struct {
	o   *Obj
	i   int
	old Val
}

// ---- strings ----

func (w *Worker) strLen(v Val) int {
	switch s := v.x.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(w.unsupported(fmt.Sprintf("string value %T", v.x)))
}

func (w *Worker) strBytes(v Val) []Val {
	switch s := v.x.(type) {
	case string:
		b := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	case nil:
		return nil
	case *SliceV: // bytes seen as a string through an unsafe pointer
		return s.o.e[s.off : s.off+s.len]
	}
	panic(w.unsupported(fmt.Sprintf("string value %T", v.x)))
}

func mkStr(b []Val) Val {
	for i := range b {
		if b[i].x != nil {
			return Val{x: &SymStr{b}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for i := range b {
		sb.WriteByte(byte(b[i].n))
	}
	return Val{x: sb.String()}
}

func (w *Worker) sliceBytes(v Val) []Val {
	if v.x == nil {
		return nil
	}
	s := v.x.(*SliceV)
	return s.o.e[s.off : s.off+s.len]
}

func (w *Worker) mkBytes(b []Val) Val {
	o := w.objOf(b)
	return Val{x: &SliceV{o, 0, len(b), len(b)}}
}

func (w *Worker) mkGoBytes(b []byte) Val {
	e := make([]Val, len(b))
	for i := range b {
		e[i].n = uint64(b[i])
	}
	return w.mkBytes(e)
}

// concStr concretizes a string.
func (w *Worker) concStr(v Val) string {
	switch s := v.x.(type) {
	case string:
		return s
	case nil:
		return ""
	case *SymStr:
		b := make([]byte, len(s.b))
		for i := range s.b {
			b[i] = byte(w.conc(s.b[i], 8))
		}
		return string(b)
	}
	panic(w.unsupported("string"))
}

func (w *Worker) concBytes(v Val) []byte {
	bs := w.sliceBytes(v)
	b := make([]byte, len(bs))
	for i := range bs {
		b[i] = byte(w.conc(bs[i], 8))
	}
	return b
}

// ---- equality ----

// eq returns the truth value of a == b as a bool Val, possibly symbolic.
func (w *Worker) eq(t *TInfo, a, b Val) Val {
	switch t.k {
	case KBool, KInt:
		if a.x == nil && b.x == nil {
			return vbool(a.n == b.n)
		}
		return vterm(w.T.Eq(w.term(a, t), w.term(b, t)))
	case KFloat:
		return vbool(fl(a) == fl(b))
	case KString:
		sa, ok1 := a.x.(string)
		sb, ok2 := b.x.(string)
		if ok1 && ok2 {
			return vbool(sa == sb)
		}
		ba, bb := w.strBytes(a), w.strBytes(b)
		if len(ba) != len(bb) {
			return vbool(false)
		}
		return vterm(w.bytesEq(ba, bb))
	case KPtr, KUnsafe:
		return vbool(ptrEq(a, b))
	case KChan:
		return vbool(a.x == b.x)
	case KMap, KSlice, KFunc:
		// only comparison with nil is legal
		if a.x == nil || b.x == nil {
			return vbool(a.x == nil && b.x == nil)
		}
		w.rtPanic("comparing uncomparable type " + t.String())
	case KIface:
		if a.x == nil || b.x == nil {
			return vbool(a.x == nil && b.x == nil)
		}
		ia, ib := a.x.(*Iface), b.x.(*Iface)
		if ia.t != ib.t {
			return vbool(false)
		}
		switch ia.t.k {
		case KMap, KSlice, KFunc:
			w.rtPanic("comparing uncomparable type " + ia.t.String())
		}
		return w.eq(ia.t, ia.v, ib.v)
	case KStruct:
		oa, ob := a.x.(*Obj), b.x.(*Obj)
		r := w.T.True
		for i, f := range t.fields {
			e := w.eq(f, oa.e[i], ob.e[i])
			r = w.T.And(r, w.boolTerm(e))
		}
		return vterm(r)
	case KArray:
		oa, ob := a.x.(*Obj), b.x.(*Obj)
		r := w.T.True
		for i := range oa.e {
			e := w.eq(t.elem, oa.e[i], ob.e[i])
			r = w.T.And(r, w.boolTerm(e))
		}
		return vterm(r)
	}
	panic(w.unsupported("== on " + t.String()))
}

func ptrEq(a, b Val) bool {
	if a.x == nil || b.x == nil {
		return a.x == nil && b.x == nil
	}
	return a.x == b.x && a.n == b.n
}

func (w *Worker) bytesEq(a, b []Val) *Term {
	r := w.T.True
	for i := range a {
		if a[i].x == nil && b[i].x == nil {
			if a[i].n != b[i].n {
				return w.T.False
			}
			continue
		}
		r = w.T.And(r, w.T.Eq(w.termW(a[i], 8), w.termW(b[i], 8)))
		if r == w.T.False {
			return r
		}
	}
	return r
}

func fl(v Val) float64 { return math.Float64frombits(v.n) }

func (w *Worker) term(v Val, t *TInfo) *Term {
	if v.x == nil {
		if t.k == KBool {
			return w.T.Bool(v.n != 0)
		}
		return w.T.Const(t.w, v.n)
	}
	if x, ok := v.x.(*Term); ok {
		return x
	}
	panic(w.unsupported(fmt.Sprintf("scalar expected, have %T", v.x)))
}

func (w *Worker) termW(v Val, width uint8) *Term {
	if v.x == nil {
		return w.T.Const(width, v.n)
	}
	if x, ok := v.x.(*Term); ok {
		return x
	}
	panic(w.unsupported(fmt.Sprintf("scalar expected, have %T", v.x)))
}

func (w *Worker) boolTerm(v Val) *Term {
	if v.x == nil {
		return w.T.Bool(v.n != 0)
	}
	if x, ok := v.x.(*Term); ok {
		return x
	}
	panic(w.unsupported(fmt.Sprintf("bool expected, have %T", v.x)))
}

// ---- maps ----

type hk2 struct{ a, b any }
type hkPtr struct {
	o any
	n uint64
}

// hkey returns a comparable Go key; ok=false when v has symbolic parts.
func (w *Worker) hkey(t *TInfo, v Val) (any, bool) {
	switch t.k {
	case KBool, KInt:
		if v.x != nil {
			return nil, false
		}
		return v.n, true
	case KFloat:
		return fl(v), true
	case KString:
		switch s := v.x.(type) {
		case string:
			return s, true
		case nil:
			return "", true
		}
		return nil, false
	case KPtr, KUnsafe:
		return hkPtr{v.x, v.n}, true
	case KChan:
		return v.x, true
	case KIface:
		if v.x == nil {
			return nil, true
		}
		i := v.x.(*Iface)
		switch i.t.k {
		case KMap, KSlice, KFunc:
			w.rtPanic("hash of unhashable type " + i.t.String())
		}
		k, ok := w.hkey(i.t, i.v)
		return hk2{i.t, k}, ok
	case KStruct, KArray:
		o := v.x.(*Obj)
		var r any = t
		for i := range o.e {
			ft := t.elem
			if t.k == KStruct {
				ft = t.fields[i]
			}
			k, ok := w.hkey(ft, o.e[i])
			if !ok {
				return nil, false
			}
			r = hk2{r, k}
		}
		return r, true
	}
	panic(w.unsupported("map key " + t.String()))
}

func (w *Worker) newMap(kt, vt *TInfo) *MapObj {
	w.nobj++
	return &MapObj{kt: kt, vt: vt, idx: map[any]int{}, frozen: w.initMode, id: w.nobj}
}

// find returns the entry index of k, or -1. Symbolic keys fork.
func (w *Worker) mapFind(m *MapObj, k Val) int {
	hk, ok := w.hkey(m.kt, k)
	if ok && !m.sym {
		if i, ok := m.idx[hk]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		e := w.eq(m.kt, m.keys[i], k)
		if w.decide(w.boolTerm(e)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapTouch(m *MapObj) {
	if m.frozen && !w.initMode {
		// save a copy, restored at path end
		c := *m
		c.idx = make(map[any]int, len(m.idx))
		for k, v := range m.idx {
			c.idx[k] = v
		}
		c.keys = append([]Val(nil), m.keys...)
		c.vals = append([]Val(nil), m.vals...)
		c.dead = append([]bool(nil), m.dead...)
		w.mapUndo = append(w.mapUndo, mapUndoRec{m, &c})
		m.frozen = false
	}
}

type mapUndoRec struct{ m, old *MapObj }

func (w *Worker) mapSet(m *MapObj, k, v Val) {
	w.mapTouch(m)
	i := w.mapFind(m, k)
	if i >= 0 {
		m.vals[i] = w.copyVal(v)
		return
	}
	hk, ok := w.hkey(m.kt, k)
	if ok {
		m.idx[hk] = len(m.keys)
	} else {
		m.sym = true
	}
	m.keys = append(m.keys, w.copyVal(k))
	m.vals = append(m.vals, w.copyVal(v))
	m.dead = append(m.dead, false)
	m.live++
}

func (w *Worker) mapDel(m *MapObj, k Val) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	if hk, ok := w.hkey(m.kt, m.keys[i]); ok {
		delete(m.idx, hk)
	}
	m.dead[i] = true
	m.live--
}
