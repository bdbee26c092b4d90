package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
)

// builtin executes a Go builtin (or an ssa: helper).
func (w *Worker) builtin(g *G, fr *Frame, in *instr, a []Val) Val {
	switch in.bi {
	case "append":
		return w.appendB(in, a)
	case "len":
		return vint(w.lenOf(a[0], in.t))
	case "cap":
		switch x := a[0].x.(type) {
		case nil:
			return vint(0)
		case *SliceV:
			return vint(x.cap)
		case *ChanObj:
			return vint(x.cap)
		case *Obj:
			return vint(len(x.e))
		}
	case "copy":
		return w.copyB(a[0], a[1])
	case "close":
		w.chanClose(g, a[0])
		return Val{}
	case "delete":
		if a[0].x == nil {
			return Val{}
		}
		m, ok := a[0].x.(*MapObj)
		if !ok {
			panic(w.unsupported(fmt.Sprintf("delete on %T", a[0].x)))
		}
		if w.race {
			w.raceAcc(m, 0, true)
		}
		w.mapDel(m, a[1])
		return Val{}
	case "clear":
		switch x := a[0].x.(type) {
		case nil:
		case *MapObj:
			w.mapTouch(x)
			x.idx = map[any]int{}
			x.keys, x.vals, x.dead, x.live, x.sym = nil, nil, nil, 0, false
		case *SliceV:
			for i := 0; i < x.len; i++ {
				w.storeInto(x.o, x.off+i, w.zero(in.t.elem))
			}
		}
		return Val{}
	case "min", "max":
		r := a[0]
		for _, b := range a[1:] {
			var lt Val
			if in.bi == "min" {
				lt = w.binop(token.LSS, in.t, in.t, b, r)
			} else {
				lt = w.binop(token.LSS, in.t, in.t, r, b)
			}
			if lt.x == nil {
				if lt.n != 0 {
					r = b
				}
			} else if in.t.k == KInt {
				r = vterm(w.T.Ite(w.boolTerm(lt), w.term(b, in.t), w.term(r, in.t)))
			} else if w.decide(w.boolTerm(lt)) {
				r = b
			}
		}
		return r
	case "print", "println":
		return Val{}
	case "recover":
		if fr.pan != nil && !fr.pan.recovered && fr.rm == rmUnwind {
			fr.pan.recovered = true
			return fr.pan.val
		}
		return Val{}
	case "ssa:wrapnilchk":
		if a[0].x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return a[0]
	case "ssa:deferstack":
		return Val{x: fr}
	case "SliceData":
		if s, ok := a[0].x.(*SliceV); ok {
			if s.off < len(s.o.e) {
				return Val{n: uint64(s.off), x: s.o}
			}
			return Val{x: w.newObj(1)}
		}
		return Val{}
	case "StringData":
		o := w.objOf(append([]Val(nil), w.strBytes(a[0])...))
		return Val{x: o}
	case "String":
		n := int(w.conc(a[1], 64))
		if n == 0 {
			return Val{x: emptyStr}
		}
		o := a[0].x.(*Obj)
		return mkStr(append([]Val(nil), o.e[a[0].n:a[0].n+uint64(n)]...))
	case "Slice":
		n := int(w.conc(a[1], 64))
		if a[0].x == nil {
			return Val{}
		}
		o := a[0].x.(*Obj)
		return Val{x: &SliceV{o, int(a[0].n), n, n}}
	}
	panic(w.unsupported("builtin " + in.bi))
}

func (w *Worker) lenOf(v Val, t *TInfo) int {
	switch x := v.x.(type) {
	case nil:
		if t != nil && t.k == KPtr && t.elem != nil && t.elem.k == KArray {
			return t.elem.n
		}
		return 0
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	case *SliceV:
		return x.len
	case *MapObj:
		if w.race {
			w.raceAcc(x, 0, false)
		}
		if x.sym {
			n := 0
			for i := range x.keys {
				if !x.dead[i] {
					n++
				}
			}
			return n
		}
		return x.live
	case *ChanObj:
		return len(x.buf)
	case *Obj:
		return len(x.e)
	}
	panic(w.unsupported(fmt.Sprintf("len of %T", v.x)))
}

func (w *Worker) appendB(in *instr, a []Val) Val {
	if len(a) == 1 {
		return a[0]
	}
	var src []Val
	switch x := a[1].x.(type) {
	case nil:
		return a[0]
	case string, *SymStr:
		src = w.strBytes(a[1])
	case *SliceV:
		src = x.o.e[x.off : x.off+x.len]
		if w.race {
			for i := range src {
				w.raceAcc(x.o, x.off+i, false)
			}
		}
	default:
		panic(w.unsupported(fmt.Sprintf("append of %T", a[1].x)))
	}
	if len(src) == 0 {
		return a[0]
	}
	agg := in.t.elem.agg()
	var d *SliceV
	if a[0].x != nil {
		var ok bool
		if d, ok = a[0].x.(*SliceV); !ok {
			panic(w.unsupported(fmt.Sprintf("append to %T", a[0].x)))
		}
	}
	if d != nil && d.len+len(src) <= d.cap {
		tmp := append([]Val(nil), src...)
		for i := range tmp {
			if w.race {
				w.raceAcc(d.o, d.off+d.len+i, true)
			}
			w.storeInto(d.o, d.off+d.len+i, tmp[i])
		}
		return Val{x: &SliceV{d.o, d.off, d.len + len(src), d.cap}}
	}
	n := 0
	if d != nil {
		n = d.len
		if w.race {
			for i := 0; i < n; i++ {
				w.raceAcc(d.o, d.off+i, false)
			}
		}
	}
	need := n + len(src)
	c := 0
	if d != nil {
		c = d.cap
	}
	c = growCap(c, need, in.t.elem)
	if w.budget != 0 {
		w.spend(in.t.elem, vint(c))
	}
	o := w.newObj(c)
	if d != nil {
		copy(o.e, d.o.e[d.off:d.off+n])
	}
	copy(o.e[n:], src)
	if agg {
		for i := 0; i < need; i++ {
			o.e[i] = w.copyVal(o.e[i])
		}
	}
	w.zeroFill(o.e[need:], in.t.elem)
	return Val{x: &SliceV{o, 0, need, c}}
}

func (w *Worker) copyB(dv, sv Val) Val {
	d, _ := dv.x.(*SliceV)
	if d == nil {
		return vint(0)
	}
	var src []Val
	switch x := sv.x.(type) {
	case nil:
		return vint(0)
	case string, *SymStr:
		src = w.strBytes(sv)
	case *SliceV:
		n := min(x.len, d.len)
		src = x.o.e[x.off : x.off+n]
		if w.race {
			for i := range src {
				w.raceAcc(x.o, x.off+i, false)
			}
		}
	default:
		panic(w.unsupported(fmt.Sprintf("copy of %T", sv.x)))
	}
	n := min(d.len, len(src))
	if n == 0 {
		return vint(0)
	}
	if w.race {
		for i := 0; i < n; i++ {
			w.raceAcc(d.o, d.off+i, true)
		}
	}
	if !d.o.frozen && src[0].n != aggN {
		copy(d.o.e[d.off:d.off+n], src[:n])
		return vint(n)
	}
	tmp := append([]Val(nil), src[:n]...)
	for i := range tmp {
		w.storeInto(d.o, d.off+i, w.copyVal(tmp[i]))
	}
	return vint(n)
}

// growCap is the capacity append gives a slice that has to grow (runtime.growslice).
func growCap(old, need int, elem *TInfo) int {
	c := old
	switch {
	case need > 2*old:
		c = need
	case old < 256:
		c = 2 * old
	default:
		for c < need {
			c += (c + 3*256) >> 2
		}
	}
	elem.sizeOnce.Do(func() {
		elem.size, elem.ptrs = int(gcSizes.Sizeof(elem.T)), hasPtr(elem.T)
	})
	if elem.size == 0 {
		return max(c, need)
	}
	b, hdr := c*elem.size, 0
	if b <= 32768-8 {
		if elem.ptrs && b > 512 {
			hdr = 8
		}
		b = sizeClasses[sort.SearchInts(sizeClasses, b+hdr)]
	} else {
		b = (b + 8191) &^ 8191
	}
	return (b - hdr) / elem.size
}

var gcSizes = types.SizesFor("gc", "amd64")

// runtime's size classes
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPtr(u.Elem())
	case *types.Struct:
		for i := range u.NumFields() {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}
