package main

import (
	"crypto/sha1"
	"fmt"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"
)

type ifn = func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist)

var intrinsics = map[string]*Intrinsic{}

// models maps a function to the harness/models function that stands for it.
var modelNames = map[string]string{
	"fmt.Errorf":     "Errorf",
	"fmt.Sprintf":    "Sprintf",
	"fmt.Sprint":     "Sprint",
	"fmt.Sprintln":   "Sprintln",
	"fmt.Fprintf":    "Fprintf",
	"fmt.Fprint":     "Fprint",
	"fmt.Fprintln":   "Fprintln",
	"fmt.Println":    "Println",
	"fmt.Printf":     "Printf",
	"fmt.Print":      "Println",
	"log.Printf":     "Printf",
	"log.Println":    "Println",
	"log.Print":      "Println",
	"errors.Is":      "Is",
	"errors.As":      "As",
	"net/http.Error": "HTTPError",

	"sort.Slice":         "SortSlice",
	"sort.SliceStable":   "SortSlice",
	"sort.SliceIsSorted": "SortSliceIsSorted",

	"(*sync.Map).Load":             "MapLoad",
	"(*sync.Map).Store":            "MapStore",
	"(*sync.Map).Swap":             "MapSwap",
	"(*sync.Map).Clear":            "MapClear",
	"(*sync.Map).LoadOrStore":      "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":    "MapLoadAndDelete",
	"(*sync.Map).Delete":           "MapDelete",
	"(*sync.Map).CompareAndSwap":   "MapCompareAndSwap",
	"(*sync.Map).CompareAndDelete": "MapCompareAndDelete",
	"(*sync.Map).Range":            "MapRange",
}

var skipInit = map[string]bool{}
var initHooks = map[string]func(w *Worker, p any){}

func reg(names string, f ifn)  { regV(names, false, f) }
func regv(names string, f ifn) { regV(names, true, f) }
func regV(names string, vis bool, f ifn) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = &Intrinsic{name: n, vis: vis, f: f}
	}
}

func fn1(f func(w *Worker, a []Val) Val) ifn {
	return func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) { return f(w, a), stDone }
}

var nop ifn = func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) { return Val{}, stDone }

func tb(k types.BasicKind) *TInfo { return tinfo(types.Typ[k]) }

// objKey identifies the object a pointer designates.
func objKey(v Val) any {
	if v.n == ptrWhole {
		return v.x
	}
	return shKey{v.x, int(v.n)}
}

// ---- sync state ----

// rdKey is where the readers of an RWMutex leave their clocks for the next writer.
type rdKey struct{ k any }

type muState struct {
	locked  bool
	wait    []*G
	readers int
	rwait   []*G
	wwait   []*G
}

func (w *Worker) muOf(v Val) *muState {
	if v.x == nil {
		w.nilDeref()
	}
	k := objKey(v)
	if s, ok := w.side[k]; ok {
		return s.(*muState)
	}
	s := &muState{}
	w.side[k] = s
	return s
}

type wgState struct {
	n    int64
	wait []*G
}

type poolState struct{ items []Val }

type notifyState struct {
	wait []*G
	next uint64
}

func (w *Worker) wakeG(g *G) {
	g.woken = true
	g.wakeOK = false
	w.ready(g)
}

// wakeGrant wakes g with the resource already handed over.
func (w *Worker) wakeGrant(g *G) {
	g.woken = true
	g.wakeOK = true
	w.ready(g)
}

func init() {
	// --- mutexes ---
	regv("(*sync.Mutex).Lock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		first := g.woken
		g.woken = false
		if !s.locked {
			s.locked = true
			w.vcAcquire(g, objKey(a[0]))
			return Val{}, stDone
		}
		if first {
			s.wait = append([]*G{g}, s.wait...)
		} else {
			s.wait = append(s.wait, g)
		}
		w.block(g, "mutex lock", a[0].x)
		return Val{}, stBlocked
	})
	regv("(*sync.Mutex).TryLock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		if s.locked {
			return vbool(false), stDone
		}
		s.locked = true
		w.vcAcquire(g, objKey(a[0]))
		return vbool(true), stDone
	})
	regv("(*sync.Mutex).Unlock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		if !s.locked {
			w.violation("panic", "fatal error: sync: unlock of unlocked mutex"+w.stackOf(g), w.pcModel())
			panic(pathEnd{})
		}
		s.locked = false
		w.vcRelease(g, objKey(a[0]))
		if len(s.wait) > 0 {
			x := s.wait[0]
			s.wait = s.wait[1:]
			w.wakeG(x)
		}
		return Val{}, stDone
	})
	regv("(*sync.RWMutex).Lock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		if g.woken {
			g.woken = false
			w.vcAcquire(g, objKey(a[0]))
			w.vcAcquire(g, rdKey{objKey(a[0])})
			return Val{}, stDone
		}
		if !s.locked && s.readers == 0 {
			s.locked = true
			w.vcAcquire(g, objKey(a[0]))
			w.vcAcquire(g, rdKey{objKey(a[0])})
			return Val{}, stDone
		}
		s.wwait = append(s.wwait, g)
		w.block(g, "rwmutex lock", a[0].x)
		return Val{}, stBlocked
	})
	regv("(*sync.RWMutex).RLock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		if g.woken {
			g.woken = false
			w.vcAcquire(g, objKey(a[0]))
			return Val{}, stDone
		}
		if !s.locked && len(s.wwait) == 0 {
			s.readers++
			w.vcAcquire(g, objKey(a[0]))
			return Val{}, stDone
		}
		s.rwait = append(s.rwait, g)
		w.block(g, "rwmutex rlock", a[0].x)
		return Val{}, stBlocked
	})
	rwTry := func(s *muState, w *Worker) {
		if s.locked || s.readers > 0 {
			return
		}
		if len(s.wwait) > 0 {
			x := s.wwait[0]
			s.wwait = s.wwait[1:]
			s.locked = true
			w.wakeGrant(x)
		}
	}
	regv("(*sync.RWMutex).Unlock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		if !s.locked {
			w.violation("panic", "fatal error: sync: Unlock of unlocked RWMutex"+w.stackOf(g), w.pcModel())
			panic(pathEnd{})
		}
		s.locked = false
		w.vcRelease(g, objKey(a[0]))
		for _, x := range s.rwait {
			s.readers++
			w.wakeGrant(x)
		}
		s.rwait = nil
		rwTry(s, w)
		return Val{}, stDone
	})
	regv("(*sync.RWMutex).RUnlock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		if s.readers == 0 {
			w.violation("panic", "fatal error: sync: RUnlock of unlocked RWMutex"+w.stackOf(g), w.pcModel())
			panic(pathEnd{})
		}
		s.readers--
		// later readers are not ordered after this one
		w.vcRelease(g, rdKey{objKey(a[0])})
		rwTry(s, w)
		return Val{}, stDone
	})
	regv("(*sync.RWMutex).TryLock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		if s.locked || s.readers > 0 {
			return vbool(false), stDone
		}
		s.locked = true
		w.vcAcquire(g, objKey(a[0]))
		w.vcAcquire(g, rdKey{objKey(a[0])})
		return vbool(true), stDone
	})
	regv("(*sync.RWMutex).TryRLock", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := w.muOf(a[0])
		if s.locked || len(s.wwait) > 0 {
			return vbool(false), stDone
		}
		s.readers++
		w.vcAcquire(g, objKey(a[0]))
		return vbool(true), stDone
	})
	// --- wait groups ---
	wgOf := func(w *Worker, v Val) *wgState {
		k := objKey(v)
		if s, ok := w.side[k]; ok {
			return s.(*wgState)
		}
		s := &wgState{}
		w.side[k] = s
		return s
	}
	wgAdd := func(w *Worker, g *G, v Val, d int64) {
		s := wgOf(w, v)
		s.n += d
		if d < 0 {
			w.vcRelease(g, objKey(v))
		}
		if s.n < 0 {
			panic(&goPanic{w.rtError("sync: negative WaitGroup counter")})
		}
		if s.n == 0 {
			for _, x := range s.wait {
				w.wakeG(x)
			}
			s.wait = nil
		}
	}
	regv("(*sync.WaitGroup).Add", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		wgAdd(w, g, a[0], int64(w.conc(a[1], 64)))
		return Val{}, stDone
	})
	regv("(*sync.WaitGroup).Done", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		wgAdd(w, g, a[0], -1)
		return Val{}, stDone
	})
	regv("(*sync.WaitGroup).Wait", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := wgOf(w, a[0])
		if g.woken || s.n == 0 {
			g.woken = false
			w.vcAcquire(g, objKey(a[0]))
			return Val{}, stDone
		}
		s.wait = append(s.wait, g)
		w.block(g, "waitgroup", a[0].x)
		return Val{}, stBlocked
	})
	// --- cond (runtime notify list) ---
	nl := func(w *Worker, v Val) *notifyState {
		k := objKey(v)
		if s, ok := w.side[k]; ok {
			return s.(*notifyState)
		}
		s := &notifyState{}
		w.side[k] = s
		return s
	}
	reg("(*sync.copyChecker).check", nop)
	reg("sync.runtime_notifyListAdd", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := nl(w, a[0])
		s.next++
		return Val{n: s.next}, stDone
	})
	reg("sync.runtime_notifyListWait", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		if g.woken {
			g.woken = false
			return Val{}, stDone
		}
		s := nl(w, a[0])
		s.wait = append(s.wait, g)
		w.block(g, "cond wait", a[0].x)
		return Val{}, stBlocked
	})
	reg("sync.runtime_notifyListNotifyAll", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := nl(w, a[0])
		for _, x := range s.wait {
			w.wakeG(x)
		}
		s.wait = nil
		return Val{}, stDone
	})
	reg("sync.runtime_notifyListNotifyOne", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s := nl(w, a[0])
		if len(s.wait) > 0 {
			x := s.wait[0]
			s.wait = s.wait[1:]
			w.wakeG(x)
		}
		return Val{}, stDone
	})
	// --- pool: LIFO, the recycling order that reuses a buffer soonest ---
	pool := func(w *Worker, v Val) *poolState {
		k := objKey(v)
		if s, ok := w.side[k]; ok {
			return s.(*poolState)
		}
		s := &poolState{}
		w.side[k] = s
		return s
	}
	regv("(*sync.Pool).Get", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		if a[0].x == nil {
			w.nilDeref()
		}
		s := pool(w, a[0])
		if n := len(s.items); n > 0 {
			v := s.items[n-1]
			s.items = s.items[:n-1]
			w.vcAcquire(g, objKey(a[0]))
			return v, stDone
		}
		o := a[0].x.(*Obj)
		nf := o.e[len(o.e)-1]
		if nf.x == nil {
			return Val{}, stDone
		}
		cl := nf.x.(*Closure)
		fr.pc++
		w.pushCall(g, cl.fn, cl, nil, in.dst)
		return Val{}, stPushed
	})
	regv("(*sync.Pool).Put", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		if a[1].x == nil {
			return Val{}, stDone
		}
		if a[0].x == nil {
			w.nilDeref()
		}
		s := pool(w, a[0])
		s.items = append(s.items, a[1])
		w.vcRelease(g, objKey(a[0]))
		return Val{}, stDone
	})

	// --- atomics ---
	for _, k := range []struct {
		s string
		t types.BasicKind
	}{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}, {"Pointer", types.UnsafePointer}} {
		k := k
		for _, pkg := range []string{"sync/atomic."} {
			regv(pkg+"Load"+k.s, func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
				v := w.atomLoad(a[0], tb(k.t))
				w.vcAcquire(g, objKey(a[0]))
				return v, stDone
			})
			regv(pkg+"Store"+k.s, func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
				w.atomStore(a[0], a[1])
				w.vcRelease(g, objKey(a[0]))
				return Val{}, stDone
			})
			regv(pkg+"Swap"+k.s, func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
				v := w.atomLoad(a[0], tb(k.t))
				w.atomStore(a[0], a[1])
				w.vcAcquire(g, objKey(a[0]))
				w.vcRelease(g, objKey(a[0]))
				return v, stDone
			})
			regv(pkg+"CompareAndSwap"+k.s, func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
				t := tb(k.t)
				v := w.atomLoad(a[0], t)
				e := w.eq(t, v, a[1])
				w.vcAcquire(g, objKey(a[0]))
				if w.decide(w.boolTerm(e)) {
					w.atomStore(a[0], a[2])
					w.vcRelease(g, objKey(a[0]))
					return vbool(true), stDone
				}
				return vbool(false), stDone
			})
			if k.s != "Pointer" {
				regv(pkg+"Add"+k.s, func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
					t := tb(k.t)
					v := w.atomLoad(a[0], t)
					v = vterm(w.T.Add(w.term(v, t), w.term(a[1], t)))
					w.atomStore(a[0], v)
					w.vcAcquire(g, objKey(a[0]))
					w.vcRelease(g, objKey(a[0]))
					return v, stDone
				})
				for _, op := range []string{"And", "Or"} {
					op := op
					regv(pkg+op+k.s, func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
						t := tb(k.t)
						v := w.atomLoad(a[0], t)
						x, y := w.term(v, t), w.term(a[1], t)
						if op == "And" {
							x = w.T.Band(x, y)
						} else {
							x = w.T.Bor(x, y)
						}
						w.atomStore(a[0], vterm(x))
						w.vcAcquire(g, objKey(a[0]))
						w.vcRelease(g, objKey(a[0]))
						return v, stDone
					})
				}
			}
		}
	}
	valOf := func(w *Worker, v Val) *Obj {
		o, ok := v.x.(*Obj)
		if !ok {
			w.nilDeref()
		}
		return o
	}
	regv("(*sync/atomic.Value).Load", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		o := valOf(w, a[0])
		w.vcAcquire(g, objKey(a[0]))
		return o.e[0], stDone
	})
	regv("(*sync/atomic.Value).Store", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		o := valOf(w, a[0])
		w.set(o, 0, a[1])
		w.vcRelease(g, objKey(a[0]))
		return Val{}, stDone
	})
	regv("(*sync/atomic.Value).Swap", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		o := valOf(w, a[0])
		r := o.e[0]
		w.set(o, 0, a[1])
		w.vcAcquire(g, objKey(a[0]))
		w.vcRelease(g, objKey(a[0]))
		return r, stDone
	})
	regv("(*sync/atomic.Value).CompareAndSwap", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		o := valOf(w, a[0])
		w.vcAcquire(g, objKey(a[0]))
		e := w.eq(tinfo(types.NewInterfaceType(nil, nil)), o.e[0], a[1])
		if w.decide(w.boolTerm(e)) {
			w.set(o, 0, a[2])
			w.vcRelease(g, objKey(a[0]))
			return vbool(true), stDone
		}
		return vbool(false), stDone
	})

	// --- time ---
	timeIntrinsics()

	// --- bytealg & friends ---
	idx := func(w *Worker, b []Val, c Val) Val {
		ct := w.termW(c, 8)
		for i := range b {
			if b[i].x == nil && c.x == nil {
				if b[i].n == c.n {
					return vint(i)
				}
				continue
			}
			if w.decide(w.T.Eq(w.termW(b[i], 8), ct)) {
				return vint(i)
			}
		}
		return Val{n: ^uint64(0)}
	}
	reg("internal/bytealg.IndexByte", fn1(func(w *Worker, a []Val) Val { return idx(w, w.sliceBytes(a[0]), a[1]) }))
	reg("internal/bytealg.IndexByteString", fn1(func(w *Worker, a []Val) Val { return idx(w, w.strBytes(a[0]), a[1]) }))
	cnt := func(w *Worker, b []Val, c Val) Val {
		n := 0
		for i := range b {
			if w.decide(w.T.Eq(w.termW(b[i], 8), w.termW(c, 8))) {
				n++
			}
		}
		return vint(n)
	}
	reg("internal/bytealg.Count", fn1(func(w *Worker, a []Val) Val { return cnt(w, w.sliceBytes(a[0]), a[1]) }))
	reg("internal/bytealg.CountString", fn1(func(w *Worker, a []Val) Val { return cnt(w, w.strBytes(a[0]), a[1]) }))
	reg("internal/bytealg.Equal bytes.Equal", fn1(func(w *Worker, a []Val) Val {
		x, y := w.sliceBytes(a[0]), w.sliceBytes(a[1])
		if len(x) != len(y) {
			return vbool(false)
		}
		return vterm(w.bytesEq(x, y))
	}))
	cmp := func(w *Worker, x, y []Val) Val {
		n := min(len(x), len(y))
		for i := 0; i < n; i++ {
			p, q := w.termW(x[i], 8), w.termW(y[i], 8)
			if w.decide(w.T.Eq(p, q)) {
				continue
			}
			if w.decide(w.T.Ult(p, q)) {
				return Val{n: ^uint64(0)}
			}
			return vint(1)
		}
		switch {
		case len(x) < len(y):
			return Val{n: ^uint64(0)}
		case len(x) > len(y):
			return vint(1)
		}
		return vint(0)
	}
	reg("internal/bytealg.Compare bytes.Compare", fn1(func(w *Worker, a []Val) Val { return cmp(w, w.sliceBytes(a[0]), w.sliceBytes(a[1])) }))
	reg("internal/bytealg.CompareString strings.Compare", fn1(func(w *Worker, a []Val) Val { return cmp(w, w.strBytes(a[0]), w.strBytes(a[1])) }))
	ind := func(w *Worker, x, y []Val) Val {
		for i := 0; i+len(y) <= len(x); i++ {
			if w.decide(w.bytesEq(x[i:i+len(y)], y)) {
				return vint(i)
			}
		}
		return Val{n: ^uint64(0)}
	}
	reg("internal/bytealg.Index bytes.Index", fn1(func(w *Worker, a []Val) Val { return ind(w, w.sliceBytes(a[0]), w.sliceBytes(a[1])) }))
	reg("internal/bytealg.IndexString strings.Index", fn1(func(w *Worker, a []Val) Val { return ind(w, w.strBytes(a[0]), w.strBytes(a[1])) }))
	reg("internal/bytealg.MakeNoZero", fn1(func(w *Worker, a []Val) Val {
		n := int(w.conc(a[0], 64))
		return Val{x: &SliceV{w.newObj(n), 0, n, n}}
	}))
	reg("unicode/utf8.Valid", fn1(func(w *Worker, a []Val) Val { return w.utf8Valid(w.sliceBytes(a[0])) }))
	reg("unicode/utf8.ValidString", fn1(func(w *Worker, a []Val) Val { return w.utf8Valid(w.strBytes(a[0])) }))

	for _, e := range []string{"bigEndian", "littleEndian"} {
		big := e == "bigEndian"
		for _, n := range []int{2, 4, 8} {
			n := n
			reg(fmt.Sprintf("(encoding/binary.%s).Uint%d", e, n*8), fn1(func(w *Worker, a []Val) Val {
				s, _ := a[1].x.(*SliceV)
				if s == nil || s.len < n {
					w.rtPanic(fmt.Sprintf("index out of range [%d]", n-1))
				}
				var t *Term
				for i := 0; i < n; i++ {
					j := i
					if !big {
						j = n - 1 - i
					}
					if w.race {
						w.raceAcc(s.o, s.off+j, false)
					}
					b := w.termW(s.o.e[s.off+j], 8)
					if t == nil {
						t = b
					} else {
						t = w.T.Concat(t, b)
					}
				}
				return vterm(t)
			}))
			reg(fmt.Sprintf("(encoding/binary.%s).PutUint%d", e, n*8), fn1(func(w *Worker, a []Val) Val {
				s, _ := a[1].x.(*SliceV)
				if s == nil || s.len < n {
					w.rtPanic(fmt.Sprintf("index out of range [%d]", n-1))
				}
				v := w.termW(a[2], uint8(n*8))
				for i := 0; i < n; i++ {
					j := i // byte i counted from the least significant
					p := j
					if big {
						p = n - 1 - j
					}
					if w.race {
						w.raceAcc(s.o, s.off+p, true)
					}
					w.set(s.o, s.off+p, vterm(w.T.Extract(v, uint8(8*j+7), uint8(8*j))))
				}
				return Val{}
			}))
		}
	}
	sha := func(w *Worker, bs []Val) *Obj {
		o := w.newObj(20)
		var args []*Term
		sym := false
		raw := make([]byte, len(bs))
		for i, b := range bs {
			args = append(args, w.termW(b, 8))
			if b.x != nil {
				sym = true
			}
			raw[i] = byte(b.n)
		}
		if !sym {
			h := sha1.Sum(raw)
			for i := range h {
				o.e[i].n = uint64(h[i])
			}
		} else {
			for i := range o.e {
				o.e[i] = vterm(w.T.UF(fmt.Sprintf("sha1_%d_%d", len(bs), i), 8, args))
			}
		}
		return o
	}
	reg("crypto/sha1.Sum", fn1(func(w *Worker, a []Val) Val {
		return Val{n: aggN, x: sha(w, w.sliceBytes(a[0]))}
	}))
	// a hash in progress keeps what was written in place of its length
	type shaText []Val
	reg("(*crypto/sha1.digest).Write", fn1(func(w *Worker, a []Val) Val {
		d := a[0].x.(*Obj)
		t, _ := d.e[3].x.(shaText)
		b := w.sliceBytes(a[1])
		t = append(append(shaText(nil), t...), b...)
		w.set(d, 3, Val{n: uint64(len(t)), x: t})
		return Val{x: Tuple{vint(len(b)), Val{}}}
	}))
	reg("(*crypto/sha1.digest).Reset", fn1(func(w *Worker, a []Val) Val {
		w.set(a[0].x.(*Obj), 3, Val{})
		return Val{}
	}))
	reg("(*crypto/sha1.digest).Sum (*crypto/sha1.digest).ConstantTimeSum", fn1(func(w *Worker, a []Val) Val {
		t, _ := a[0].x.(*Obj).e[3].x.(shaText)
		l := append(append([]Val(nil), w.sliceBytes(a[1])...), sha(w, t).e...)
		return Val{x: &SliceV{w.objOf(l), 0, len(l), len(l)}}
	}))
	overlap := fn1(func(w *Worker, a []Val) Val {
		x, _ := a[0].x.(*SliceV)
		y, _ := a[1].x.(*SliceV)
		return vbool(x != nil && y != nil && x.o == y.o && x.off < y.off+y.len && y.off < x.off+x.len)
	})
	reg("slices.overlaps crypto/internal/fips140/alias.AnyOverlap", overlap)
	reg("crypto/subtle.XORBytes", fn1(func(w *Worker, a []Val) Val {
		d, _ := a[0].x.(*SliceV)
		x, y := w.sliceBytes(a[1]), w.sliceBytes(a[2])
		n := min(len(x), len(y))
		if n == 0 {
			return vint(0)
		}
		if d == nil || d.len < n {
			w.rtPanic("subtle.XORBytes: dst too short")
		}
		r := make([]Val, n)
		for i := range r {
			r[i] = vterm(w.T.Bxor(w.termW(x[i], 8), w.termW(y[i], 8)))
		}
		for i := range r {
			if w.race {
				w.raceAcc(d.o, d.off+i, true)
			}
			w.set(d.o, d.off+i, r[i])
		}
		return vint(n)
	}))
	reg("internal/reflectlite.TypeOf", fn1(func(w *Worker, a []Val) Val {
		p := w.E.prog.ImportedPackage("internal/reflectlite")
		if i, ok := a[0].x.(*Iface); !ok || p == nil {
			return Val{}
		} else if !types.Comparable(i.t.T) {
			panic(w.unsupported("reflectlite.TypeOf of a type that can't be compared"))
		}
		t := tinfo(p.Type("rtype").Type())
		return Val{x: &Iface{t, w.zero(t)}}
	}))
	reg("runtime.Stack runtime.Callers", fn1(func(w *Worker, a []Val) Val { return vint(0) }))
	reg("(internal/reflectlite.rtype).Comparable", fn1(func(w *Worker, a []Val) Val { return vbool(true) }))
	reg("math/rand.runtime_rand math/rand/v2.runtime_rand", fn1(func(w *Worker, a []Val) Val {
		return w.fresh("rand", 64)
	}))
	reg("(*os.File).Write", fn1(func(w *Worker, a []Val) Val {
		n := 0
		if s, ok := a[1].x.(*SliceV); ok {
			n = s.len
		}
		return Val{x: Tuple{vint(n), Val{}}}
	}))
	anySlice := func(w *Worker, v Val) *SliceV {
		i, ok := v.x.(*Iface)
		if !ok || i.t.k != KSlice {
			panic(w.unsupported("sorting something else than a slice"))
		}
		s, _ := i.v.x.(*SliceV)
		return s
	}
	reg("harness/models.sliceLen", fn1(func(w *Worker, a []Val) Val {
		if s := anySlice(w, a[0]); s != nil {
			return vint(s.len)
		}
		return vint(0)
	}))
	reg("harness/models.sliceSwap", fn1(func(w *Worker, a []Val) Val {
		s := anySlice(w, a[0])
		i, j := s.off+int(a[1].n), s.off+int(a[2].n)
		if w.race {
			w.raceAcc(s.o, i, true)
			w.raceAcc(s.o, j, true)
		}
		x, y := w.copyVal(s.o.e[i]), w.copyVal(s.o.e[j])
		w.storeInto(s.o, i, y)
		w.storeInto(s.o, j, x)
		return Val{}
	}))
	reg("crypto/rand.Read", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		s, _ := a[0].x.(*SliceV)
		n := 0
		if s != nil {
			n = s.len
			for i := 0; i < n; i++ {
				w.set(s.o, s.off+i, w.fresh("rand", 8))
			}
		}
		return Val{x: Tuple{vint(n), Val{}}}, stDone
	})
	reg("maps.clone", fn1(func(w *Worker, a []Val) Val {
		i, ok := a[0].x.(*Iface)
		if !ok || i.v.x == nil {
			return a[0]
		}
		m := i.v.x.(*MapObj)
		if w.race {
			w.raceAcc(m, 0, false)
		}
		c := w.newMap(m.kt, m.vt)
		for j := range m.keys {
			if m.dead[j] {
				continue
			}
			if k, ok := w.hkey(m.kt, m.keys[j]); ok {
				c.idx[k] = len(c.keys)
			} else {
				c.sym = true
			}
			c.keys = append(c.keys, m.keys[j])
			c.vals = append(c.vals, w.copyVal(m.vals[j]))
			c.dead = append(c.dead, false)
			c.live++
		}
		return Val{x: &Iface{i.t, Val{x: c}}}
	}))
	// --- runtime and misc ---
	reg(`(*strings.Builder).copyCheck runtime.KeepAlive runtime.GC runtime.SetFinalizer
		runtime.LockOSThread runtime.UnlockOSThread (*internal/godebug.Setting).IncNonDefault
		internal/race.Acquire internal/race.Release internal/race.Disable internal/race.Enable
		internal/race.ReadRange internal/race.WriteRange internal/race.Read internal/race.Write
		sync.runtime_registerPoolCleanup internal/godebug.registerMetric internal/godebug.setUpdate
		(*internal/godebug.Setting).register os.runtime_args runtime/debug.SetGCPercent`, nop)
	regv("runtime.Gosched", nop)
	reg("(*internal/godebug.Setting).Value os.Getenv", fn1(func(w *Worker, a []Val) Val { return Val{x: emptyStr} }))
	reg("runtime.NumCPU", fn1(func(w *Worker, a []Val) Val { return vint(8) }))
	reg("runtime.GOMAXPROCS", fn1(func(w *Worker, a []Val) Val { return vint(8) }))
	reg("runtime.NumGoroutine", fn1(func(w *Worker, a []Val) Val { return vint(w.liveGs()) }))
	reg("internal/abi.NoEscape internal/abi.Escape", fn1(func(w *Worker, a []Val) Val { return a[0] }))
	// --- math ---
	m1 := func(n string, f func(float64) float64) {
		reg("math."+n, fn1(func(w *Worker, a []Val) Val { return vfloat(f(fl(a[0]))) }))
	}
	m1("Floor", math.Floor)
	m1("Ceil", math.Ceil)
	m1("Trunc", math.Trunc)
	m1("Sqrt", math.Sqrt)
	m1("Abs", math.Abs)
	reg("math.Float64bits", fn1(func(w *Worker, a []Val) Val { return Val{n: math.Float64bits(fl(a[0]))} }))
	reg("math.Float64frombits", fn1(func(w *Worker, a []Val) Val { return vfloat(math.Float64frombits(w.conc(a[0], 64))) }))
	reg("math.Max", fn1(func(w *Worker, a []Val) Val { return vfloat(math.Max(fl(a[0]), fl(a[1]))) }))
	reg("math.Min", fn1(func(w *Worker, a []Val) Val { return vfloat(math.Min(fl(a[0]), fl(a[1]))) }))
	// --- json ---
	jsonIntrinsics()
	// --- harness API ---
	symIntrinsics()
}

func (w *Worker) atomLoad(p Val, t *TInfo) Val {
	o, ok := p.x.(*Obj)
	if !ok {
		if p.x == nil {
			w.nilDeref()
		}
		panic(w.unsupported(fmt.Sprintf("atomic access through %T", p.x)))
	}
	if p.n == ptrWhole {
		panic(w.unsupported("atomic access to aggregate"))
	}
	return o.e[p.n]
}

func (w *Worker) atomStore(p, v Val) {
	o, ok := p.x.(*Obj)
	if !ok {
		if p.x == nil {
			w.nilDeref()
		}
		panic(w.unsupported(fmt.Sprintf("atomic access through %T", p.x)))
	}
	w.set(o, int(p.n), v)
}

// utf8Valid encodes UTF-8 validity as the acceptance of the standard automaton,
// one boolean term per automaton state and position.
func (w *Worker) utf8Valid(bs []Val) Val {
	sym := false
	raw := make([]byte, len(bs))
	for i := range bs {
		if bs[i].x != nil {
			sym = true
		}
		raw[i] = byte(bs[i].n)
	}
	if !sym {
		return vbool(utf8.Valid(raw))
	}
	T := w.T
	const (
		acc = iota
		n1
		n2
		n3
		e0
		ed
		f0
		f4
		ns
	)
	st := [ns]*Term{}
	for i := range st {
		st[i] = T.False
	}
	st[acc] = T.True
	rng := func(b *Term, lo, hi uint64) *Term {
		return T.And(T.Ule(T.Const(8, lo), b), T.Ule(b, T.Const(8, hi)))
	}
	for i := range bs {
		b := w.termW(bs[i], 8)
		cont := rng(b, 0x80, 0xbf)
		var nx [ns]*Term
		nx[acc] = T.Or(T.And(st[acc], T.Ule(b, T.Const(8, 0x7f))), T.And(st[n1], cont))
		nx[n1] = T.Or(T.Or(T.And(st[acc], rng(b, 0xc2, 0xdf)), T.And(st[n2], cont)),
			T.Or(T.And(st[e0], rng(b, 0xa0, 0xbf)), T.And(st[ed], rng(b, 0x80, 0x9f))))
		nx[n2] = T.Or(T.Or(T.And(st[acc], T.Or(rng(b, 0xe1, 0xec), rng(b, 0xee, 0xef))), T.And(st[n3], cont)),
			T.Or(T.And(st[f0], rng(b, 0x90, 0xbf)), T.And(st[f4], rng(b, 0x80, 0x8f))))
		nx[n3] = T.And(st[acc], rng(b, 0xf1, 0xf3))
		nx[e0] = T.And(st[acc], T.Eq(b, T.Const(8, 0xe0)))
		nx[ed] = T.And(st[acc], T.Eq(b, T.Const(8, 0xed)))
		nx[f0] = T.And(st[acc], T.Eq(b, T.Const(8, 0xf0)))
		nx[f4] = T.And(st[acc], T.Eq(b, T.Const(8, 0xf4)))
		st = nx
	}
	return vterm(st[acc])
}

func (w *Worker) liveGs() int {
	n := 0
	for _, g := range w.gs {
		if !g.done {
			n++
		}
	}
	return n
}

// ---- time ----

func (w *Worker) mkTimer(d int64, period int64) (*Obj, *Timer) {
	o := w.newObj(2)
	c := w.newChan(1, w.E.timeT)
	t := &Timer{when: w.now + max(d, 0), period: period, ch: c, obj: o}
	c.timer = t
	if w.race && w.cur != nil {
		t.vc = append([]uint32(nil), w.cur.vc...)
	}
	o.e[0] = Val{x: c}
	o.e[1] = vbool(true)
	w.side[o] = t
	w.addTimer(t)
	return o, t
}

func timeIntrinsics() {
	reg("time.Now", fn1(func(w *Worker, a []Val) Val { return w.timeVal() }))
	reg("time.Since", fn1(func(w *Worker, a []Val) Val {
		o := a[0].x.(*Obj)
		sec, ns := int64(o.e[1].n)-62135596800, int64(o.e[0].n&(1<<30-1))
		return Val{n: uint64(w.now - (sec*1e9 + ns))}
	}))
	reg("time.Until", fn1(func(w *Worker, a []Val) Val {
		o := a[0].x.(*Obj)
		sec, ns := int64(o.e[1].n)-62135596800, int64(o.e[0].n&(1<<30-1))
		return Val{n: uint64((sec*1e9 + ns) - w.now)}
	}))
	reg("time.runtimeNano runtime.nanotime time.runtimeNow", fn1(func(w *Worker, a []Val) Val { return Val{n: uint64(w.now)} }))
	regv("time.Sleep", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		if g.woken {
			g.woken = false
			return Val{}, stDone
		}
		d := int64(w.conc(a[0], 64))
		if d <= 0 {
			return Val{}, stDone
		}
		w.addTimer(&Timer{when: w.now + d, g: g})
		w.block(g, "sleep", nil)
		return Val{}, stBlocked
	})
	reg("time.NewTimer", fn1(func(w *Worker, a []Val) Val {
		o, _ := w.mkTimer(int64(w.conc(a[0], 64)), 0)
		return Val{n: ptrWhole, x: o}
	}))
	reg("time.NewTicker", fn1(func(w *Worker, a []Val) Val {
		d := int64(w.conc(a[0], 64))
		if d <= 0 {
			panic(&goPanic{w.rtError("non-positive interval for NewTicker")})
		}
		o, _ := w.mkTimer(d, d)
		return Val{n: ptrWhole, x: o}
	}))
	reg("time.AfterFunc", fn1(func(w *Worker, a []Val) Val {
		d := int64(w.conc(a[0], 64))
		o := w.newObj(2)
		t := &Timer{when: w.now + max(d, 0), fn: a[1].x.(*Closure), obj: o}
		if w.race && w.cur != nil {
			t.vc = append([]uint32(nil), w.cur.vc...)
		}
		o.e[1] = vbool(true)
		w.side[o] = t
		w.addTimer(t)
		return Val{n: ptrWhole, x: o}
	}))
	get := func(w *Worker, v Val) *Timer {
		if v.x == nil {
			w.nilDeref()
		}
		t, ok := w.side[v.x]
		if !ok {
			panic(&goPanic{w.rtError("time: use of uninitialized Timer")})
		}
		return t.(*Timer)
	}
	stop := func(w *Worker, t *Timer) bool {
		was := w.delTimer(t)
		if t.ch != nil && len(t.ch.buf) > 0 {
			t.ch.buf, t.ch.bufVC = nil, nil
			was = true
		}
		return was
	}
	regv("(*time.Timer).Stop", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		return vbool(stop(w, get(w, a[0]))), stDone
	})
	regv("(*time.Ticker).Stop", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		stop(w, get(w, a[0]))
		return Val{}, stDone
	})
	regv("(*time.Timer).Reset", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		t := get(w, a[0])
		was := stop(w, t)
		t.when = w.now + max(int64(w.conc(a[1], 64)), 0)
		if w.race {
			t.vc = append([]uint32(nil), g.vc...)
		}
		w.addTimer(t)
		return vbool(was), stDone
	})
	regv("(*time.Ticker).Reset", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		t := get(w, a[0])
		stop(w, t)
		d := int64(w.conc(a[1], 64))
		if d <= 0 {
			panic(&goPanic{w.rtError("non-positive interval for Ticker.Reset")})
		}
		t.period = d
		t.when = w.now + d
		w.addTimer(t)
		return Val{}, stDone
	})
}

// ---- harness API ----

func (w *Worker) inName(base string) string {
	n := w.nameCnt[base]
	w.nameCnt[base]++
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, n)
}

func (w *Worker) fresh(base string, width uint8) Val {
	name := w.inName(base)
	t := w.T.Var(name, width)
	w.inputs = append(w.inputs, inputRec{name: name, t: t})
	return Val{x: t}
}

func symIntrinsics() {
	const p = "harness/sym."
	nm := func(w *Worker, v Val) string { return w.concStr(v) }
	reg(p+"Byte", fn1(func(w *Worker, a []Val) Val { return w.fresh(nm(w, a[0]), 8) }))
	reg(p+"Uint16", fn1(func(w *Worker, a []Val) Val { return w.fresh(nm(w, a[0]), 16) }))
	reg(p+"Uint32", fn1(func(w *Worker, a []Val) Val { return w.fresh(nm(w, a[0]), 32) }))
	reg(p+"Uint64", fn1(func(w *Worker, a []Val) Val { return w.fresh(nm(w, a[0]), 64) }))
	reg(p+"Bool", fn1(func(w *Worker, a []Val) Val {
		v := w.fresh(nm(w, a[0]), 8)
		w.assume(w.T.Ule(v.x.(*Term), w.T.Const(8, 1)))
		return vterm(w.T.Eq(v.x.(*Term), w.T.Const(8, 1)))
	}))
	reg(p+"Int", fn1(func(w *Worker, a []Val) Val {
		v := w.fresh(nm(w, a[0]), 64)
		lo, hi := w.conc(a[1], 64), w.conc(a[2], 64)
		t := v.x.(*Term)
		w.assume(w.T.And(w.T.Sle(w.T.Const(64, lo), t), w.T.Sle(t, w.T.Const(64, hi))))
		return v
	}))
	reg(p+"Pick", fn1(func(w *Worker, a []Val) Val {
		n := int(w.conc(a[1], 64))
		name := w.inName(nm(w, a[0]))
		k := w.choice("pick:"+name, n)
		w.inputs = append(w.inputs, inputRec{name: name, conc: k})
		return Val{n: k}
	}))
	reg(p+"Bytes", fn1(func(w *Worker, a []Val) Val {
		n := int(w.conc(a[1], 64))
		base := nm(w, a[0])
		e := make([]Val, n)
		for i := range e {
			e[i] = w.fresh(fmt.Sprintf("%s.%d", base, i), 8)
		}
		return w.mkBytes(e)
	}))
	reg(p+"Assume", fn1(func(w *Worker, a []Val) Val {
		w.assume(w.boolTerm(a[0]))
		return Val{}
	}))
	reg(p+"Assert", fn1(func(w *Worker, a []Val) Val {
		w.assert(w.boolTerm(a[0]), w.concStr(a[1])+"")
		return Val{}
	}))
	reg(p+"Fail", fn1(func(w *Worker, a []Val) Val {
		w.assert(w.T.False, w.concStr(a[0]))
		return Val{}
	}))
	reg(p+"Cover", fn1(func(w *Worker, a []Val) Val {
		l := w.concStr(a[0])
		w.E.coverHit(l)
		return Val{}
	}))
	reg(p+"Conc", fn1(func(w *Worker, a []Val) Val { return Val{n: w.conc(a[0], 64)} }))
	reg(p+"IsSym", fn1(func(w *Worker, a []Val) Val {
		if i, ok := a[0].x.(*Iface); ok {
			switch i.v.x.(type) {
			case *Term, *SymStr:
				return vbool(true)
			}
		}
		return vbool(false)
	}))
	reg(p+"Note", fn1(func(w *Worker, a []Val) Val {
		w.note(w.concStrSafe(a[0]))
		return Val{}
	}))
	reg(p+"Native", fn1(func(w *Worker, a []Val) Val { return vbool(false) }))
	regv(p+"Yield", nop)
	reg(p+"Lock", nop)
	reg(p+"Unlock", nop)
	reg(p+"Idle", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		if g.woken {
			g.woken = false
			return Val{}, stDone
		}
		w.idle = append(w.idle, g)
		w.block(g, "idle", nil)
		return Val{}, stBlocked
	})
	reg(p+"Explore", fn1(func(w *Worker, a []Val) Val {
		n := int(w.conc(a[0], 64))
		w.exploreOn = n > 0
		w.devLeft = n
		if n > 0 && !w.race && w.E.softRace && w.softTurn() {
			w.startSoftRace()
		}
		return Val{}
	}))
	reg(p+"Early", fn1(func(w *Worker, a []Val) Val {
		w.early = int64(w.conc(a[0], 64))
		return Val{}
	}))
	reg(p+"Budget", fn1(func(w *Worker, a []Val) Val {
		w.budget = int64(w.conc(a[0], 64))
		w.spent = 0
		return Val{}
	}))
	reg(p+"MapOrder", fn1(func(w *Worker, a []Val) Val {
		w.mapOrder = true
		return Val{}
	}))
	reg(p+"Race", func(w *Worker, g *G, fr *Frame, in *instr, a []Val) (Val, ist) {
		w.race = true
		w.shadow = map[shKey]*shadow{}
		w.syncVC = map[any][]uint32{}
		w.vcTick(g)
		return Val{}, stDone
	})
	reg(p+"Tier", fn1(func(w *Worker, a []Val) Val { return vint(w.E.cfg.Tier) }))
	reg(p+"Reaches", fn1(func(w *Worker, a []Val) Val {
		t, ok := a[1].x.(*Iface)
		if !ok {
			return vbool(false)
		}
		o, ok := t.v.x.(*Obj)
		if !ok {
			panic(w.unsupported("Reaches target"))
		}
		return vbool(w.reaches(a[0], o, map[any]bool{}))
	}))
	reg(p+"Touch", fn1(func(w *Worker, a []Val) Val {
		if w.race {
			if s, ok := a[0].x.(*SliceV); ok {
				w.touching = true
				for i := 0; i < s.len; i++ {
					w.raceAcc(s.o, s.off+i, a[1].n != 0)
				}
				w.touching = false
			}
		}
		return Val{}
	}))
	reg(p+"Goroutines", fn1(func(w *Worker, a []Val) Val { return vint(w.liveGs()) }))
	reg(p+"Dump", fn1(func(w *Worker, a []Val) Val {
		if w.E.cfg.Debug {
			var sb strings.Builder
			for _, g := range w.gs {
				if !g.done {
					fmt.Fprintf(&sb, "g%d %s [%s]%s\n", g.id, g.name, g.blocked, w.stackOf(g))
				}
			}
			fmt.Println(sb.String())
		}
		return Val{}
	}))
	reg(p+"Stacks", fn1(func(w *Worker, a []Val) Val {
		var sb strings.Builder
		for _, g := range w.gs {
			if !g.done && g != w.cur {
				fmt.Fprintf(&sb, "\n  g%d %s [%s]%s", g.id, g.name, g.blocked, w.stackOf(g))
			}
		}
		return vstr(sb.String())
	}))
	reg("harness/models.asAssign", fn1(func(w *Worker, a []Val) Val {
		e, ok1 := a[0].x.(*Iface)
		t, ok2 := a[1].x.(*Iface)
		if !ok1 || !ok2 || t.t.k != KPtr {
			panic(w.unsupported("errors.As arguments"))
		}
		tt := t.t.elem
		if tt.k == KIface {
			if w.implements(e.t, tt) {
				w.store(t.v, a[0])
				return vbool(true)
			}
			return vbool(false)
		}
		if e.t == tt {
			w.store(t.v, e.v)
			return vbool(true)
		}
		return vbool(false)
	}))
	reg("harness/models.typeName", fn1(func(w *Worker, a []Val) Val {
		if i, ok := a[0].x.(*Iface); ok {
			return vstr(i.t.String())
		}
		return vstr("<nil>")
	}))
	reg("harness/models.kindOf", fn1(func(w *Worker, a []Val) Val {
		// 1 int 2 uint 3 string 4 bytes 5 bool 0 other, with symbolic flag 16
		i, ok := a[0].x.(*Iface)
		if !ok {
			return vint(0)
		}
		s := 0
		if _, ok := i.v.x.(*Term); ok {
			s = 16
		}
		switch i.t.k {
		case KInt:
			if i.t.signed {
				return vint(1 + s)
			}
			return vint(2 + s)
		case KString:
			return vint(3)
		case KBool:
			return vint(5 + s)
		case KSlice:
			if i.t.elem.k == KInt && i.t.elem.w == 8 {
				return vint(4)
			}
		}
		return vint(0)
	}))
	reg("harness/models.intOf", fn1(func(w *Worker, a []Val) Val {
		i := a[0].x.(*Iface)
		n := w.conc(i.v, i.t.w)
		if i.t.signed {
			n = uint64(sx(n, i.t.w))
		}
		return Val{n: n}
	}))
	reg("harness/models.strOf", fn1(func(w *Worker, a []Val) Val {
		i := a[0].x.(*Iface)
		if i.t.k == KSlice {
			return mkStr(append([]Val(nil), w.sliceBytes(i.v)...))
		}
		return i.v
	}))
}

// reaches walks the heap from v looking for object t.
func (w *Worker) reaches(v Val, t *Obj, seen map[any]bool) bool {
	switch x := v.x.(type) {
	case *Obj:
		if x == t {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, e := range x.e {
			if w.reaches(e, t, seen) {
				return true
			}
		}
	case *SymPtr:
		return w.reaches(Val{x: x.o}, t, seen)
	case *Iface:
		return w.reaches(x.v, t, seen)
	case *SliceV:
		return w.reaches(Val{x: x.o}, t, seen)
	case Tuple:
		for _, e := range x {
			if w.reaches(e, t, seen) {
				return true
			}
		}
	case *Closure:
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, e := range x.free {
			if w.reaches(e, t, seen) {
				return true
			}
		}
	case *ChanObj:
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, e := range x.buf {
			if w.reaches(e, t, seen) {
				return true
			}
		}
	case *MapObj:
		if seen[x] {
			return false
		}
		seen[x] = true
		for i := range x.keys {
			if !x.dead[i] && (w.reaches(x.keys[i], t, seen) || w.reaches(x.vals[i], t, seen)) {
				return true
			}
		}
	}
	return false
}

func (w *Worker) concStrSafe(v Val) string {
	if s, ok := v.x.(string); ok {
		return s
	}
	if s, ok := v.x.(*SymStr); ok {
		var sb strings.Builder
		for _, b := range s.b {
			if b.x != nil {
				sb.WriteByte('?')
			} else {
				sb.WriteByte(byte(b.n))
			}
		}
		return sb.String()
	}
	return ""
}

// goFmt renders a value for messages.
func (w *Worker) goFmt(v Val) string {
	i, ok := v.x.(*Iface)
	if !ok {
		return fmt.Sprint(v.n)
	}
	switch i.t.k {
	case KString:
		return w.concStrSafe(i.v)
	case KInt:
		return fmt.Sprint(int64(i.v.n))
	}
	if o, ok := i.v.x.(*Obj); ok && len(o.e) > 0 {
		if s, ok := o.e[0].x.(string); ok {
			return i.t.String() + "{" + s + "}"
		}
	}
	return i.t.String()
}
