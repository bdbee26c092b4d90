package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opK uint8

const (
	okReg opK = iota
	okConst
	okGlobal
	okZero // aggregate zero constant, fresh per use
)

type opnd struct {
	k  opK
	i  int
	v  Val
	t  *TInfo
	gl *ssa.Global
}

type iop uint8

const (
	iAlloc iop = iota
	iBin
	iNot
	iNeg
	iCompl
	iLoad
	iRecv
	iCall
	iChangeIface
	iMove
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iS2A
	iStore
	iTypeAssert
	iUnsup
	iNop
)

type phiMove struct {
	dst int
	src opnd
}

type instr struct {
	op      iop
	dst     int
	a, b, c opnd
	args    []opnd
	t, t2   *TInfo
	tok     token.Token
	n       int
	ok      bool // CommaOk etc.
	// control flow
	succ  [2]int
	moves [2][]phiMove
	// calls
	fn     *Fn
	intr   *Intrinsic
	bi     string
	meth   *types.Func
	spread bool
	states []selState
	pos    token.Pos
	src    ssa.Instruction
	why    string
	blk    int
	// an access that was seen to race: a preemption point (set between runs)
	racy bool
}

type selState struct {
	send bool
	ch   opnd
	v    opnd
}

type Fn struct {
	ssa      *ssa.Function
	name     string
	once     sync.Once
	code     []instr
	nregs    int
	params   int
	freeOff  int
	recover_ int // pc of the recover block, -1
	results  []*TInfo
	intr     *Intrinsic
	nocode   bool
	pkg      string
	preempt  bool
	inRepo   bool
	blkPC    []int
	err      string
	nblocks  int
}

var (
	fnMu  sync.Mutex
	fnMap = map[*ssa.Function]*Fn{}
)

func getFn(f *ssa.Function) *Fn {
	fnMu.Lock()
	defer fnMu.Unlock()
	if r, ok := fnMap[f]; ok {
		return r
	}
	r := &Fn{ssa: f, name: f.String(), recover_: -1}
	if f.Pkg != nil {
		r.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		r.pkg = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		r.pkg = f.Object().Pkg().Path()
	} else if p := f.Parent(); p != nil {
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil {
			r.pkg = p.Pkg.Pkg.Path()
		} else if o := p.Origin(); o != nil && o.Pkg != nil {
			r.pkg = o.Pkg.Pkg.Path()
		}
	}
	r.preempt = preemptPkg(r.pkg)
	r.inRepo = r.pkg == repoPkg
	key := r.name
	if o := f.Origin(); o != nil {
		key = o.String()
	}
	if in, ok := intrinsics[key]; ok {
		r.intr = in
	} else if in, ok := intrinsics[r.name]; ok {
		r.intr = in
	} else if strings.HasPrefix(r.pkg, "harness/sym") && intrinsics[key] == nil && f.Blocks == nil {
	}
	fnMap[f] = r
	return r
}

const repoPkg = "github.com/Atheer-Ganayem/SnapWS"

func preemptPkg(p string) bool {
	return p == repoPkg || strings.HasPrefix(p, "harness/h") || p == "harness/fake"
}

var buildMu sync.Mutex

func (f *Fn) compile() {
	f.once.Do(func() {
		if m, ok := modelFor(f); ok {
			g := getFn(m)
			g.compile()
			f.code, f.nregs, f.params, f.freeOff, f.recover_, f.results = g.code, g.nregs, g.params, g.freeOff, g.recover_, g.results
			f.nocode, f.err = g.nocode, g.err
			return
		}
		f.compile0()
	})
}

func (f *Fn) compile0() {
	s := f.ssa
	if s.Blocks == nil {
		p := s.Pkg
		if p == nil {
			if o := s.Origin(); o != nil {
				p = o.Pkg
			}
		}
		if p != nil {
			p.Build()
		}
	}
	if s.Blocks == nil && s.Origin() != nil {
		s.Prog.Build() // an instance that belongs to a package not built so far
	}
	if s.Blocks == nil {
		f.nocode = true
		f.err = "no body: " + f.name
		return
	}
	c := &fcomp{f: f, slot: map[ssa.Value]int{}}
	c.run()
}

type fcomp struct {
	f    *Fn
	slot map[ssa.Value]int
}

func (c *fcomp) newSlot(v ssa.Value) int {
	if i, ok := c.slot[v]; ok {
		return i
	}
	i := c.f.nregs
	c.f.nregs++
	c.slot[v] = i
	return i
}

func (c *fcomp) run() {
	s := c.f.ssa
	for _, p := range s.Params {
		c.newSlot(p)
	}
	c.f.params = len(s.Params)
	c.f.freeOff = c.f.nregs
	for _, p := range s.FreeVars {
		c.newSlot(p)
	}
	res := s.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.f.results = append(c.f.results, tinfo(res.At(i).Type()))
	}
	for _, b := range s.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.newSlot(v)
			}
		}
	}
	blkPC := make([]int, len(s.Blocks))
	n := 0
	for i, b := range s.Blocks {
		blkPC[i] = n
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			default:
				n++
			}
		}
	}
	code := make([]instr, 0, n)
	for _, b := range s.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			x := c.ins(b, in, blkPC)
			x.pos = in.Pos()
			x.src = in
			x.blk = b.Index
			code = append(code, x)
		}
	}
	if s.Recover != nil {
		c.f.recover_ = blkPC[s.Recover.Index]
	}
	c.f.blkPC = blkPC
	c.f.nblocks = len(s.Blocks)
	c.f.code = code
}

func (c *fcomp) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		t := tinfo(v.Type())
		if t.agg() {
			return opnd{k: okZero, t: t}
		}
		return opnd{k: okConst, v: constVal(v, t), t: t}
	case *ssa.Global:
		return opnd{k: okGlobal, gl: v}
	case *ssa.Function:
		return opnd{k: okConst, v: Val{x: &Closure{fn: getFn(v)}}, t: tinfo(v.Type())}
	case *ssa.Builtin:
		return opnd{k: okConst, v: Val{x: &Poison{"builtin value"}}}
	}
	i, ok := c.slot[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v, c.f.name))
	}
	return opnd{k: okReg, i: i, t: nil}
}

func constVal(v *ssa.Const, t *TInfo) Val {
	if v.Value == nil { // nil or zero
		if t.k == KString {
			return Val{x: emptyStr}
		}
		return Val{}
	}
	switch t.k {
	case KBool:
		return vbool(constant.BoolVal(v.Value))
	case KInt:
		if i, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
			return Val{n: uint64(i) & msk(t.w)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(v.Value))
		return Val{n: u & msk(t.w)}
	case KFloat:
		f, _ := constant.Float64Val(v.Value)
		if t.w == 32 {
			f = float64(float32(f))
		}
		return Val{n: math.Float64bits(f)}
	case KString:
		if v.Value.Kind() == constant.String {
			return Val{x: constant.StringVal(v.Value)}
		}
		i, _ := constant.Int64Val(v.Value)
		return Val{x: string(rune(i))}
	case KIface, KComplex, KUnsafe:
		return Val{x: &Poison{"const " + t.String()}}
	}
	return Val{x: &Poison{"const " + t.String()}}
}

func (c *fcomp) moves(from, to *ssa.BasicBlock, occurrence int) []phiMove {
	var r []phiMove
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			if occurrence == 0 {
				idx = i
				break
			}
			occurrence--
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, phiMove{c.slot[phi], c.op(phi.Edges[idx])})
	}
	return r
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (c *fcomp) call(x *instr, cc *ssa.CallCommon) {
	x.t = tinfo(cc.Signature().Results())
	if cc.IsInvoke() {
		x.meth = cc.Method
		x.a = c.op(cc.Value)
		for _, a := range cc.Args {
			x.args = append(x.args, c.op(a))
		}
		return
	}
	for _, a := range cc.Args {
		x.args = append(x.args, c.op(a))
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		x.bi = f.Name()
		if len(cc.Args) > 0 {
			x.t = tinfo(cc.Args[0].Type())
		}
		if len(cc.Args) > 1 {
			x.t2 = tinfo(cc.Args[1].Type())
		}
		if cc.Signature().Results().Len() > 0 && (x.bi == "append" || x.bi == "min" || x.bi == "max") {
			x.t = tinfo(cc.Signature().Results().At(0).Type())
		}
		return
	case *ssa.Function:
		x.fn = getFn(f)
		return
	}
	x.a = c.op(cc.Value)
}

func (c *fcomp) ins(b *ssa.BasicBlock, in ssa.Instruction, blkPC []int) (x instr) {
	x.dst = -1
	if v, ok := in.(ssa.Value); ok {
		x.dst = c.slot[v]
	}
	switch v := in.(type) {
	case *ssa.Alloc:
		x.op = iAlloc
		x.t = tinfo(deref(v.Type()))
	case *ssa.BinOp:
		x.op = iBin
		x.tok = v.Op
		x.a, x.b = c.op(v.X), c.op(v.Y)
		x.t, x.t2 = tinfo(v.X.Type()), tinfo(v.Y.Type())
		// comparisons of nil-typed constants take the other side's type
		if x.t.k == KPtr && x.t.elem == nil {
			x.t = x.t2
		}
		if x.t.k != KIface && x.t2.k == KIface {
			x.t = x.t2
		}
	case *ssa.UnOp:
		x.a = c.op(v.X)
		x.t = tinfo(v.Type())
		switch v.Op {
		case token.NOT:
			x.op = iNot
		case token.SUB:
			x.op = iNeg
		case token.XOR:
			x.op = iCompl
		case token.MUL:
			x.op = iLoad
		case token.ARROW:
			x.op = iRecv
			x.ok = v.CommaOk
			x.t2 = tinfo(v.X.Type().Underlying().(*types.Chan).Elem())
		default:
			x.op = iUnsup
			x.why = "unop " + v.Op.String()
		}
	case *ssa.Call:
		x.op = iCall
		c.call(&x, &v.Call)
	case *ssa.Go:
		x.op = iGo
		c.call(&x, &v.Call)
	case *ssa.Defer:
		x.op = iDefer
		c.call(&x, &v.Call)
		if v.DeferStack != nil {
			x.ok = true
			x.b = c.op(v.DeferStack)
		}
	case *ssa.ChangeInterface:
		x.op = iMove
		x.a = c.op(v.X)
	case *ssa.ChangeType:
		x.op = iMove
		x.a = c.op(v.X)
	case *ssa.Convert:
		x.op = iConvert
		x.a = c.op(v.X)
		x.t, x.t2 = tinfo(v.Type()), tinfo(v.X.Type())
	case *ssa.MultiConvert:
		x.op = iUnsup
		x.why = "multiconvert"
	case *ssa.Extract:
		x.op = iExtract
		x.a = c.op(v.Tuple)
		x.n = v.Index
	case *ssa.Field:
		x.op = iField
		x.a = c.op(v.X)
		x.n = v.Field
	case *ssa.FieldAddr:
		x.op = iFieldAddr
		x.a = c.op(v.X)
		x.n = v.Field
		x.t = tinfo(deref(v.Type()))
	case *ssa.If:
		x.op = iIf
		x.a = c.op(v.Cond)
		s0, s1 := b.Succs[0], b.Succs[1]
		x.succ = [2]int{blkPC[s0.Index], blkPC[s1.Index]}
		x.moves[0] = c.moves(b, s0, 0)
		if s0 == s1 {
			x.moves[1] = c.moves(b, s1, 1)
		} else {
			x.moves[1] = c.moves(b, s1, 0)
		}
	case *ssa.Jump:
		x.op = iJump
		x.succ[0] = blkPC[b.Succs[0].Index]
		x.moves[0] = c.moves(b, b.Succs[0], 0)
	case *ssa.Index:
		x.op = iIndex
		x.a, x.b = c.op(v.X), c.op(v.Index)
		x.t, x.t2 = tinfo(v.X.Type()), tinfo(v.Index.Type())
	case *ssa.IndexAddr:
		x.op = iIndexAddr
		x.a, x.b = c.op(v.X), c.op(v.Index)
		x.t, x.t2 = tinfo(v.X.Type()), tinfo(v.Index.Type())
	case *ssa.Lookup:
		x.op = iLookup
		x.a, x.b = c.op(v.X), c.op(v.Index)
		x.t, x.t2 = tinfo(v.X.Type()), tinfo(v.Index.Type())
		x.ok = v.CommaOk
	case *ssa.MakeChan:
		x.op = iMakeChan
		x.a = c.op(v.Size)
		x.t = tinfo(v.Type())
	case *ssa.MakeClosure:
		x.op = iMakeClosure
		x.fn = getFn(v.Fn.(*ssa.Function))
		for _, a := range v.Bindings {
			x.args = append(x.args, c.op(a))
		}
	case *ssa.MakeInterface:
		x.op = iMakeIface
		x.a = c.op(v.X)
		x.t = tinfo(v.X.Type())
	case *ssa.MakeMap:
		x.op = iMakeMap
		x.t = tinfo(v.Type())
	case *ssa.MakeSlice:
		x.op = iMakeSlice
		x.a, x.b = c.op(v.Len), c.op(v.Cap)
		x.t = tinfo(v.Type())
		x.t2 = tinfo(v.Len.Type())
	case *ssa.MapUpdate:
		x.op = iMapUpdate
		x.a, x.b, x.c = c.op(v.Map), c.op(v.Key), c.op(v.Value)
	case *ssa.Next:
		x.op = iNext
		x.a = c.op(v.Iter)
		x.ok = v.IsString
		x.t = tinfo(v.Type())
	case *ssa.Panic:
		x.op = iPanic
		x.a = c.op(v.X)
	case *ssa.Range:
		x.op = iRange
		x.a = c.op(v.X)
		x.t = tinfo(v.X.Type())
	case *ssa.Return:
		x.op = iReturn
		for _, a := range v.Results {
			x.args = append(x.args, c.op(a))
		}
	case *ssa.RunDefers:
		x.op = iRunDefers
	case *ssa.Select:
		x.op = iSelect
		x.ok = v.Blocking
		x.t = tinfo(v.Type())
		for _, s := range v.States {
			st := selState{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
			if st.send {
				st.v = c.op(s.Send)
			}
			x.states = append(x.states, st)
		}
	case *ssa.Send:
		x.op = iSend
		x.a, x.b = c.op(v.Chan), c.op(v.X)
	case *ssa.Slice:
		x.op = iSlice
		x.a = c.op(v.X)
		x.t = tinfo(v.X.Type())
		x.n = 0
		if v.Low != nil {
			x.b = c.op(v.Low)
			x.n |= 1
		}
		if v.High != nil {
			x.c = c.op(v.High)
			x.n |= 2
		}
		if v.Max != nil {
			x.args = []opnd{c.op(v.Max)}
			x.n |= 4
		}
	case *ssa.SliceToArrayPointer:
		x.op = iS2A
		x.a = c.op(v.X)
		x.t = tinfo(deref(v.Type()))
		x.ok = readOnly(v)
	case *ssa.Store:
		x.op = iStore
		x.a, x.b = c.op(v.Addr), c.op(v.Val)
		x.t = tinfo(v.Val.Type())
	case *ssa.TypeAssert:
		x.op = iTypeAssert
		x.a = c.op(v.X)
		x.t = tinfo(v.AssertedType)
		x.ok = v.CommaOk
	default:
		x.op = iUnsup
		x.why = fmt.Sprintf("%T", in)
	}
	return
}

// readOnly reports whether all that is done with a pointer is to load from it.
func readOnly(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.IndexAddr:
			if r.X != v || !readOnly(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
