package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Native stand-ins for encoding/json's reflection-driven core: values are
// concretised, encoded or decoded by the real encoding/json of the host, and
// converted back. Scanning and buffering stay interpreted.

func (w *Worker) toGo(t *TInfo, v Val) any {
	switch t.k {
	case KIface:
		if v.x == nil {
			return nil
		}
		i := v.x.(*Iface)
		return w.toGo(i.t, i.v)
	case KBool:
		return w.conc(v, 8) != 0
	case KInt:
		n := w.conc(v, t.w)
		if t.signed {
			return sx(n, t.w)
		}
		return n
	case KFloat:
		return fl(v)
	case KString:
		return w.concStr(v)
	case KPtr:
		if v.x == nil {
			return nil
		}
		return w.toGo(t.elem, w.load(v, t.elem))
	case KSlice:
		if v.x == nil {
			return nil
		}
		s := v.x.(*SliceV)
		if t.elem.k == KInt && t.elem.w == 8 {
			b := w.concBytes(v)
			if nm, ok := t.T.(*types.Named); ok && nm.Obj().Name() == "RawMessage" {
				return json.RawMessage(b)
			}
			return b
		}
		r := make([]any, s.len)
		for i := range r {
			r[i] = w.toGo(t.elem, s.o.e[s.off+i])
		}
		return r
	case KArray:
		o := v.x.(*Obj)
		r := make([]any, len(o.e))
		for i := range r {
			r[i] = w.toGo(t.elem, o.e[i])
		}
		return r
	case KMap:
		if v.x == nil {
			return nil
		}
		m := v.x.(*MapObj)
		r := map[string]any{}
		for i := range m.keys {
			if !m.dead[i] {
				r[fmt.Sprint(w.toGo(m.kt, m.keys[i]))] = w.toGo(m.vt, m.vals[i])
			}
		}
		return r
	case KStruct:
		o := v.x.(*Obj)
		st := t.T.Underlying().(*types.Struct)
		var sb strings.Builder
		sb.WriteByte('{')
		first := true
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() {
				continue
			}
			name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
			if name == "-" {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			b, err := marshal(w.toGo(t.fields[i], o.e[i]))
			if err != nil {
				return make(chan int)
			}
			if !first {
				sb.WriteByte(',')
			}
			first = false
			k, _ := json.Marshal(name)
			sb.Write(k)
			sb.WriteByte(':')
			sb.Write(b)
		}
		sb.WriteByte('}')
		return json.RawMessage(sb.String())
	case KChan, KFunc, KComplex:
		return make(chan int)
	}
	panic(w.unsupported("json of " + t.String()))
}

// fromGo converts a decoded JSON value to a value of type t.
func (w *Worker) fromGo(t *TInfo, g any, old Val) (Val, bool) {
	switch t.k {
	case KIface:
		switch x := g.(type) {
		case nil:
			return Val{}, true
		case bool:
			return Val{x: &Iface{tb(types.Bool), vbool(x)}}, true
		case float64:
			return Val{x: &Iface{tb(types.Float64), vfloat(x)}}, true
		case string:
			return Val{x: &Iface{tb(types.String), vstr(x)}}, true
		case []any:
			st := tinfo(types.NewSlice(types.NewInterfaceType(nil, nil)))
			v, _ := w.fromGo(st, x, Val{})
			return Val{x: &Iface{st, v}}, true
		case map[string]any:
			mt := tinfo(types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)))
			v, _ := w.fromGo(mt, x, Val{})
			return Val{x: &Iface{mt, v}}, true
		}
	case KBool:
		if b, ok := g.(bool); ok {
			return vbool(b), true
		}
	case KInt:
		if f, ok := g.(float64); ok && f == float64(int64(f)) {
			return Val{n: uint64(int64(f)) & msk(t.w)}, true
		}
	case KFloat:
		if f, ok := g.(float64); ok {
			return vfloat(f), true
		}
	case KString:
		if s, ok := g.(string); ok {
			return vstr(s), true
		}
	case KSlice:
		if a, ok := g.([]any); ok {
			o := w.newObj(len(a))
			w.zeroFill(o.e, t.elem)
			for i := range a {
				v, ok := w.fromGo(t.elem, a[i], o.e[i])
				if !ok {
					return Val{}, false
				}
				o.e[i] = v
			}
			return Val{x: &SliceV{o, 0, len(a), len(a)}}, true
		}
	case KMap:
		if m, ok := g.(map[string]any); ok {
			r := w.newMap(t.key, t.elem)
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				v, ok := w.fromGo(t.elem, m[k], w.zero(t.elem))
				if !ok {
					return Val{}, false
				}
				w.mapSet(r, vstr(k), v)
			}
			return Val{x: r}, true
		}
	case KStruct:
		if m, ok := g.(map[string]any); ok {
			st := t.T.Underlying().(*types.Struct)
			c := w.copyVal(old)
			o := c.x.(*Obj)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
				if name == "" {
					name = f.Name()
				}
				for k, x := range m {
					if strings.EqualFold(k, name) {
						v, ok := w.fromGo(t.fields[i], x, o.e[i])
						if !ok {
							return Val{}, false
						}
						w.storeInto(o, i, v)
					}
				}
			}
			return c, true
		}
	}
	if g == nil {
		return old, true
	}
	return Val{}, false
}

func (w *Worker) mkErr(msg string) Val {
	o := w.newObj(1)
	o.e[0] = vstr(msg)
	return Val{x: &Iface{w.E.jsonErrT, Val{n: ptrWhole, x: o}}}
}

// marshal encodes v without escaping what HTML needs escaped.
func marshal(v any) ([]byte, error) {
	var bb bytes.Buffer
	e := json.NewEncoder(&bb)
	e.SetEscapeHTML(false)
	err := e.Encode(v)
	return bytes.TrimSuffix(bb.Bytes(), []byte("\n")), err
}

func jsonIntrinsics() {
	reg("(*encoding/json.encodeState).marshal", fn1(func(w *Worker, a []Val) Val {
		// a[0]: *encodeState whose first field is the embedded bytes.Buffer
		i, _ := a[1].x.(*Iface)
		var gv any
		if i != nil {
			gv = w.toGo(i.t, i.v)
		}
		b, err := marshal(gv)
		if o, ok := a[2].x.(*Obj); err == nil && ok && w.conc(o.e[1], 8) != 0 {
			var bb bytes.Buffer
			json.HTMLEscape(&bb, b)
			b = bb.Bytes()
		}
		if err != nil {
			return w.mkErr(err.Error())
		}
		bo := a[0].x.(*Obj).e[0].x.(*Obj)
		w.set(bo, 0, w.mkGoBytes(b))
		w.set(bo, 1, vint(0))
		return Val{}
	}))
	reg("(*encoding/json.decodeState).unmarshal", fn1(func(w *Worker, a []Val) Val {
		data := w.concBytes(a[0].x.(*Obj).e[0])
		i, ok := a[1].x.(*Iface)
		if !ok || i.t.k != KPtr || i.v.x == nil {
			return w.mkErr("json: Unmarshal(non-pointer)")
		}
		var gv any
		if err := json.Unmarshal(data, &gv); err != nil {
			return w.mkErr(err.Error())
		}
		v, ok := w.fromGo(i.t.elem, gv, w.load(i.v, i.t.elem))
		if !ok {
			return w.mkErr("json: cannot unmarshal value into Go value of type " + i.t.elem.String())
		}
		w.store(i.v, v)
		return Val{}
	}))
}
