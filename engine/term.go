package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Hash-consed SMT terms over Bool and bit-vectors (width 1..64).

type Op uint8

const (
	OConst Op = iota // n = value (Bool: 0/1)
	OVar             // name
	ONot             // bool
	OAnd             // bool
	OOr              // bool
	OEq              // a == b (any sort)
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // n = hi<<8|lo
	OZext
	OSext
	OUF // name, args
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

type Term struct {
	op      Op
	w       uint8 // 0 = Bool
	n       uint64
	a, b, c *Term
	name    string
	args    []*Term
	id      uint32
	// solver bookkeeping
	sent uint8
	// model evaluation memo
	evGen uint64
	evVal uint64
	// support memo
	visGen uint64
}

type tkey struct {
	op      Op
	w       uint8
	n       uint64
	a, b, c *Term
	name    string
}

type Terms struct {
	raw    bool // leave x^k^k to the solver
	visGen uint64

	tab   map[tkey]*Term
	uf    map[string]*Term
	next  uint32
	True  *Term
	False *Term
	evGen uint64
}

func newTerms() *Terms {
	t := &Terms{tab: map[tkey]*Term{}, uf: map[string]*Term{}, evGen: 1, raw: true}
	t.True = t.mk(OConst, 0, 1, nil, nil, nil, "")
	t.False = t.mk(OConst, 0, 0, nil, nil, nil, "")
	return t
}

func (t *Terms) mk(op Op, w uint8, n uint64, a, b, c *Term, name string) *Term {
	k := tkey{op, w, n, a, b, c, name}
	if r, ok := t.tab[k]; ok {
		return r
	}
	t.next++
	r := &Term{op: op, w: w, n: n, a: a, b: b, c: c, name: name, id: t.next}
	t.tab[k] = r
	return r
}

func msk(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (t *Terms) Const(w uint8, v uint64) *Term { return t.mk(OConst, w, v&msk(w), nil, nil, nil, "") }
func (t *Terms) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}
func (t *Terms) Var(name string, w uint8) *Term { return t.mk(OVar, w, 0, nil, nil, nil, name) }

func (x *Term) isC() bool { return x.op == OConst }

func (t *Terms) UF(name string, w uint8, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if r, ok := t.uf[k]; ok {
		return r
	}
	t.next++
	r := &Term{op: OUF, w: w, name: name, args: args, id: t.next}
	t.uf[k] = r
	return r
}

func (t *Terms) Not(a *Term) *Term {
	if a.isC() {
		return t.Bool(a.n == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return t.mk(ONot, 0, 0, a, nil, nil, "")
}

func (t *Terms) And(a, b *Term) *Term {
	if a.isC() {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.n == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if t.Not(a) == b {
		return t.False
	}
	return t.mk(OAnd, 0, 0, a, b, nil, "")
}

func (t *Terms) Or(a, b *Term) *Term {
	if a.isC() {
		if a.n != 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.n != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if t.Not(a) == b {
		return t.True
	}
	return t.mk(OOr, 0, 0, a, b, nil, "")
}

func (t *Terms) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.n != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isC() && b.isC() {
			if a.n != 0 {
				return c
			}
			return t.Not(c)
		}
		if a.isC() {
			if a.n != 0 {
				return t.Or(c, b)
			}
			return t.And(t.Not(c), b)
		}
		if b.isC() {
			if b.n != 0 {
				return t.Or(t.Not(c), a)
			}
			return t.And(c, a)
		}
	}
	if c.op == ONot {
		return t.mk(OIte, a.w, 0, c.a, b, a, "")
	}
	return t.mk(OIte, a.w, 0, c, a, b, "")
}

func (t *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return t.Bool(a.n == b.n)
	}
	if a.w == 0 {
		if a.isC() {
			if a.n != 0 {
				return b
			}
			return t.Not(b)
		}
		if b.isC() {
			if b.n != 0 {
				return a
			}
			return t.Not(a)
		}
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch a.op {
		case OZext:
			if b.n > msk(a.a.w) {
				return t.False
			}
			return t.Eq(a.a, t.Const(a.a.w, b.n))
		case OBxor:
			if a.b.isC() {
				return t.Eq(a.a, t.Const(a.w, a.b.n^b.n))
			}
		case OAdd:
			if a.b.isC() {
				return t.Eq(a.a, t.Const(a.w, b.n-a.b.n))
			}
		case OIte:
			if a.b.isC() && a.c.isC() {
				switch {
				case a.b.n == b.n:
					return a.a
				case a.c.n == b.n:
					return t.Not(a.a)
				default:
					return t.False
				}
			}
			if a.b.isC() || a.c.isC() {
				return t.Or(t.And(a.a, t.Eq(a.b, b)), t.And(t.Not(a.a), t.Eq(a.c, b)))
			}
		case OBand:
			// bits outside the mask set in the constant: impossible
			if a.b.isC() && b.n&^a.b.n != 0 {
				return t.False
			}
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return t.Eq(a.a, b.a)
	} else if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OEq, 0, 0, a, b, nil, "")
}

func (t *Terms) Ult(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Bool(a.n < b.n)
	}
	if a == b || (b.isC() && b.n == 0) {
		return t.False
	}
	if a.isC() && a.n == msk(a.w) {
		return t.False
	}
	if a.op == OZext && b.isC() {
		if b.n > msk(a.a.w) {
			return t.True
		}
		return t.Ult(a.a, t.Const(a.a.w, b.n))
	}
	if b.op == OZext && a.isC() {
		if a.n >= msk(b.a.w) {
			return t.False
		}
		return t.Ult(t.Const(b.a.w, a.n), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return t.Ult(a.a, b.a)
	}
	return t.mk(OUlt, 0, 0, a, b, nil, "")
}

func (t *Terms) Ule(a, b *Term) *Term { return t.Not(t.Ult(b, a)) }

func nonNeg(a *Term) bool {
	if a.isC() {
		return sx(a.n, a.w) >= 0
	}
	if a.op == OZext {
		return true
	}
	if a.op == OBand && a.b != nil && a.b.isC() && sx(a.b.n, a.w) >= 0 {
		return true
	}
	if a.op == OLshr && a.b.isC() && a.b.n > 0 {
		return true
	}
	if a.op == OIte {
		return nonNeg(a.b) && nonNeg(a.c)
	}
	return false
}

func (t *Terms) Slt(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Bool(sx(a.n, a.w) < sx(b.n, b.w))
	}
	if a == b {
		return t.False
	}
	if nonNeg(a) && nonNeg(b) {
		return t.Ult(a, b)
	}
	if nonNeg(a) && b.isC() { // b negative
		return t.False
	}
	if nonNeg(b) && a.isC() { // a negative
		return t.True
	}
	return t.mk(OSlt, 0, 0, a, b, nil, "")
}
func (t *Terms) Sle(a, b *Term) *Term { return t.Not(t.Slt(b, a)) }

func (t *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(w, a.n)
	}
	if a.op == OZext {
		return t.Zext(a.a, w)
	}
	return t.mk(OZext, w, 0, a, nil, nil, "")
}

func (t *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(w, uint64(sx(a.n, a.w)))
	}
	if nonNeg(a) {
		return t.Zext(a, w)
	}
	return t.mk(OSext, w, 0, a, nil, nil, "")
}

func (t *Terms) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return t.Const(w, a.n>>lo)
	case OExtract:
		l := uint8(a.n & 0xff)
		return t.Extract(a.a, hi+l, lo+l)
	case OZext:
		if hi < a.a.w {
			return t.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return t.Const(w, 0)
		}
		return t.Zext(t.Extract(a.a, a.a.w-1, lo), w)
	case OSext:
		if hi < a.a.w {
			return t.Extract(a.a, hi, lo)
		}
	case OBand:
		return t.Band(t.Extract(a.a, hi, lo), t.Extract(a.b, hi, lo))
	case OBor:
		return t.Bor(t.Extract(a.a, hi, lo), t.Extract(a.b, hi, lo))
	case OBxor:
		return t.Bxor(t.Extract(a.a, hi, lo), t.Extract(a.b, hi, lo))
	case OBnot:
		return t.Bnot(t.Extract(a.a, hi, lo))
	case OConcat:
		bw := a.b.w
		if hi < bw {
			return t.Extract(a.b, hi, lo)
		}
		if lo >= bw {
			return t.Extract(a.a, hi-bw, lo-bw)
		}
	case OShl:
		if a.b.isC() {
			c := a.b.n
			if c >= uint64(a.w) || uint64(hi) < c {
				return t.Const(w, 0)
			}
			if uint64(lo) >= c {
				return t.Extract(a.a, hi-uint8(c), lo-uint8(c))
			}
		}
	case OLshr:
		if a.b.isC() {
			c := a.b.n
			if uint64(lo)+c >= uint64(a.w) {
				return t.Const(w, 0)
			}
			if uint64(hi)+c < uint64(a.w) {
				return t.Extract(a.a, hi+uint8(c), lo+uint8(c))
			}
		}
	case OAdd:
		if lo == 0 {
			return t.Add(t.Extract(a.a, hi, 0), t.Extract(a.b, hi, 0))
		}
	case OSub:
		if lo == 0 {
			return t.Sub(t.Extract(a.a, hi, 0), t.Extract(a.b, hi, 0))
		}
	case OIte:
		return t.Ite(a.a, t.Extract(a.b, hi, lo), t.Extract(a.c, hi, lo))
	}
	return t.mk(OExtract, w, uint64(hi)<<8|uint64(lo), a, nil, nil, "")
}

func (t *Terms) Concat(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Const(a.w+b.w, a.n<<b.w|b.n)
	}
	return t.mk(OConcat, a.w+b.w, 0, a, b, nil, "")
}

func order(a, b *Term) (*Term, *Term) {
	if a.isC() {
		return b, a
	}
	if b.isC() {
		return a, b
	}
	if a.id > b.id {
		return b, a
	}
	return a, b
}

func (t *Terms) Add(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Const(a.w, a.n+b.n)
	}
	a, b = order(a, b)
	if b.isC() {
		if b.n == 0 {
			return a
		}
		if a.op == OAdd && a.b.isC() {
			return t.Add(a.a, t.Const(a.w, a.b.n+b.n))
		}
	}
	return t.mk(OAdd, a.w, 0, a, b, nil, "")
}

func (t *Terms) Sub(a, b *Term) *Term {
	if b.isC() {
		return t.Add(a, t.Const(a.w, -b.n))
	}
	if a == b {
		return t.Const(a.w, 0)
	}
	return t.mk(OSub, a.w, 0, a, b, nil, "")
}

func (t *Terms) Mul(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Const(a.w, a.n*b.n)
	}
	a, b = order(a, b)
	if b.isC() {
		if b.n == 0 {
			return b
		}
		if b.n == 1 {
			return a
		}
		if b.n&(b.n-1) == 0 {
			return t.Shl(a, t.Const(a.w, uint64(bits.TrailingZeros64(b.n))))
		}
	}
	return t.mk(OMul, a.w, 0, a, b, nil, "")
}

func (t *Terms) Udiv(a, b *Term) *Term {
	if a.isC() && b.isC() && b.n != 0 {
		return t.Const(a.w, a.n/b.n)
	}
	if b.isC() && b.n != 0 && b.n&(b.n-1) == 0 {
		return t.Lshr(a, t.Const(a.w, uint64(bits.TrailingZeros64(b.n))))
	}
	return t.mk(OUdiv, a.w, 0, a, b, nil, "")
}
func (t *Terms) Urem(a, b *Term) *Term {
	if a.isC() && b.isC() && b.n != 0 {
		return t.Const(a.w, a.n%b.n)
	}
	if b.isC() && b.n != 0 && b.n&(b.n-1) == 0 {
		return t.Band(a, t.Const(a.w, b.n-1))
	}
	return t.mk(OUrem, a.w, 0, a, b, nil, "")
}
func (t *Terms) Sdiv(a, b *Term) *Term {
	if a.isC() && b.isC() && b.n != 0 {
		return t.Const(a.w, uint64(sx(a.n, a.w)/sx(b.n, b.w)))
	}
	if nonNeg(a) && nonNeg(b) {
		return t.Udiv(a, b)
	}
	return t.mk(OSdiv, a.w, 0, a, b, nil, "")
}
func (t *Terms) Srem(a, b *Term) *Term {
	if a.isC() && b.isC() && b.n != 0 {
		return t.Const(a.w, uint64(sx(a.n, a.w)%sx(b.n, b.w)))
	}
	if nonNeg(a) && nonNeg(b) {
		return t.Urem(a, b)
	}
	return t.mk(OSrem, a.w, 0, a, b, nil, "")
}

func (t *Terms) Band(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Const(a.w, a.n&b.n)
	}
	if a == b {
		return a
	}
	a, b = order(a, b)
	if b.isC() {
		if b.n == 0 {
			return b
		}
		if b.n == msk(a.w) {
			return a
		}
		if a.op == OBand && a.b.isC() {
			return t.Band(a.a, t.Const(a.w, a.b.n&b.n))
		}
		if a.op == OZext {
			return t.Zext(t.Band(a.a, t.Const(a.a.w, b.n)), a.w)
		}
	}
	return t.mk(OBand, a.w, 0, a, b, nil, "")
}

// hi/lo possible-one bounds used to turn or into disjoint forms is not needed:
// Extract pushes through or.
func (t *Terms) Bor(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Const(a.w, a.n|b.n)
	}
	if a == b {
		return a
	}
	a, b = order(a, b)
	if b.isC() {
		if b.n == 0 {
			return a
		}
		if b.n == msk(a.w) {
			return b
		}
	}
	return t.mk(OBor, a.w, 0, a, b, nil, "")
}

func (t *Terms) Bxor(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return t.Const(a.w, a.n^b.n)
	}
	if a == b {
		return t.Const(a.w, 0)
	}
	a, b = order(a, b)
	if b.isC() {
		if b.n == 0 {
			return a
		}
		if a.op == OBxor && a.b.isC() {
			return t.Bxor(a.a, t.Const(a.w, a.b.n^b.n))
		}
	}
	if t.raw {
		return t.mk(OBxor, a.w, 0, a, b, nil, "")
	}
	if a.op == OBxor {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	if b.op == OBxor {
		if b.a == a {
			return b.b
		}
		if b.b == a {
			return b.a
		}
	}
	return t.mk(OBxor, a.w, 0, a, b, nil, "")
}

func (t *Terms) Bnot(a *Term) *Term {
	if a.isC() {
		return t.Const(a.w, ^a.n)
	}
	if a.op == OBnot {
		return a.a
	}
	return t.mk(OBnot, a.w, 0, a, nil, nil, "")
}

func (t *Terms) Shl(a, b *Term) *Term {
	if b.isC() {
		if b.n == 0 {
			return a
		}
		if b.n >= uint64(a.w) {
			return t.Const(a.w, 0)
		}
		if a.isC() {
			return t.Const(a.w, a.n<<b.n)
		}
	}
	return t.mk(OShl, a.w, 0, a, b, nil, "")
}
func (t *Terms) Lshr(a, b *Term) *Term {
	if b.isC() {
		if b.n == 0 {
			return a
		}
		if b.n >= uint64(a.w) {
			return t.Const(a.w, 0)
		}
		if a.isC() {
			return t.Const(a.w, a.n>>b.n)
		}
		return t.Zext(t.Extract(a, a.w-1, uint8(b.n)), a.w)
	}
	return t.mk(OLshr, a.w, 0, a, b, nil, "")
}
func (t *Terms) Ashr(a, b *Term) *Term {
	if b.isC() {
		if b.n == 0 {
			return a
		}
		if a.isC() {
			s := b.n
			if s > 63 {
				s = 63
			}
			return t.Const(a.w, uint64(sx(a.n, a.w)>>s))
		}
		if nonNeg(a) {
			return t.Lshr(a, b)
		}
	}
	return t.mk(OAshr, a.w, 0, a, b, nil, "")
}

// ---- evaluation under a model ----

type Model map[*Term]uint64

func (t *Terms) newEval() { t.evGen++ }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// eval evaluates x under m; unassigned variables are 0. The caller bumps evGen
// (newEval) whenever m changes.
func (t *Terms) eval(x *Term, m Model) uint64 {
	switch x.op {
	case OConst:
		return x.n
	case OVar:
		return m[x]
	}
	if x.evGen == t.evGen {
		return x.evVal
	}
	var r uint64
	switch x.op {
	case ONot:
		r = 1 - t.eval(x.a, m)
	case OAnd:
		r = b2u(t.eval(x.a, m) != 0 && t.eval(x.b, m) != 0)
	case OOr:
		r = b2u(t.eval(x.a, m) != 0 || t.eval(x.b, m) != 0)
	case OIte:
		if t.eval(x.a, m) != 0 {
			r = t.eval(x.b, m)
		} else {
			r = t.eval(x.c, m)
		}
	case OUF:
		r = m[x]
	case OZext:
		r = t.eval(x.a, m)
	case OSext:
		r = uint64(sx(t.eval(x.a, m), x.a.w)) & msk(x.w)
	case OExtract:
		r = t.eval(x.a, m) >> (x.n & 0xff) & msk(x.w)
	case OBnot:
		r = ^t.eval(x.a, m) & msk(x.w)
	default:
		a, b := t.eval(x.a, m), t.eval(x.b, m)
		w := x.a.w
		switch x.op {
		case OEq:
			r = b2u(a == b)
		case OAdd:
			r = (a + b) & msk(w)
		case OSub:
			r = (a - b) & msk(w)
		case OMul:
			r = (a * b) & msk(w)
		case OUdiv:
			if b == 0 {
				r = msk(w)
			} else {
				r = a / b
			}
		case OUrem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OSdiv:
			if b == 0 {
				r = 0
			} else {
				r = uint64(sx(a, w)/sx(b, w)) & msk(w)
			}
		case OSrem:
			if b == 0 {
				r = a
			} else {
				r = uint64(sx(a, w)%sx(b, w)) & msk(w)
			}
		case OBand:
			r = a & b
		case OBor:
			r = a | b
		case OBxor:
			r = a ^ b
		case OShl:
			if b < uint64(w) {
				r = a << b & msk(w)
			}
		case OLshr:
			if b < uint64(w) {
				r = a >> b
			}
		case OAshr:
			s := b
			if s > 63 {
				s = 63
			}
			r = uint64(sx(a, w)>>s) & msk(w)
		case OUlt:
			r = b2u(a < b)
		case OUle:
			r = b2u(a <= b)
		case OSlt:
			r = b2u(sx(a, w) < sx(b, w))
		case OSle:
			r = b2u(sx(a, w) <= sx(b, w))
		case OConcat:
			r = a<<x.b.w | b
		default:
			panic("eval: op")
		}
	}
	x.evGen = t.evGen
	x.evVal = r
	return r
}
