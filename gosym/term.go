package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms: hash-consed SMT terms over Bool, bit-vectors of width 1..64 and Float64.

type Op uint8

const (
	OConst Op = iota
	OVar
	// bool
	ONot
	OAnd
	OOr
	OEq // any sort
	OIte
	// bv
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OTrunc // extract low w bits
	// fp
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFromS // signed bv -> fp (RNE)
	OFromU
	OToS    // fp -> signed bv64 RTZ
	OFBits  // bv64 -> fp reinterpret
	OFRound // round to integral, mode in val
)

const (
	WBool = 0
	WF64  = 200
)

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64 // const value, or var index
	id      int32
	vars    []int32 // sorted var indexes
	ee      uint64  // eval epoch
	ev      uint64
	defined uint32 // solver generation in which it was defined
	size    int32
	vw      uint8    // width of the only variable, if there is one
	dom     *byteSet // see domain
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

type TermTab struct {
	tab     map[tkey]*Term
	next    int32
	T, F    *Term
	ep      uint64
	scratch []uint64
}

func NewTermTab() *TermTab {
	tt := &TermTab{tab: map[tkey]*Term{}, next: 1}
	tt.T = tt.mk(OConst, WBool, nil, nil, nil, 1)
	tt.F = tt.mk(OConst, WBool, nil, nil, nil, 0)
	return tt
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	if len(x) == len(y) {
		same := true
		for i := range x {
			if x[i] != y[i] {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	out := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		if x[i] < y[j] {
			out = append(out, x[i])
			i++
		} else if x[i] > y[j] {
			out = append(out, y[j])
			j++
		} else {
			out = append(out, x[i])
			i++
			j++
		}
	}
	out = append(out, x[i:]...)
	out = append(out, y[j:]...)
	if len(out) == len(x) {
		return x
	}
	if len(out) == len(y) {
		return y
	}
	return out
}

func (tt *TermTab) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: tt.next, size: 1}
	tt.next++
	if op == OVar {
		t.vars = []int32{int32(val)}
		t.vw = w
	}
	for _, x := range [...]*Term{a, b, c} {
		if x != nil {
			t.vars = mergeVars(t.vars, x.vars)
			if len(x.vars) == 1 {
				t.vw = x.vw
			}
			if t.size < 1<<28 {
				t.size += x.size
			}
		}
	}
	tt.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}
func (tt *TermTab) Const(w uint8, v uint64) *Term {
	if w == WBool {
		return tt.Bool(v != 0)
	}
	if w != WF64 {
		v &= mask(w)
	}
	return tt.mk(OConst, w, nil, nil, nil, v)
}
func (tt *TermTab) Var(idx int, w uint8) *Term { return tt.mk(OVar, w, nil, nil, nil, uint64(idx)) }

func (t *Term) isC() bool { return t.op == OConst }

func (tt *TermTab) Not(a *Term) *Term {
	if a.isC() {
		return tt.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	if a.op == OUlt {
		return tt.Ule(a.b, a.a)
	}
	if a.op == OUle {
		return tt.Ult(a.b, a.a)
	}
	if a.op == OSlt {
		return tt.Sle(a.b, a.a)
	}
	if a.op == OSle {
		return tt.Slt(a.b, a.a)
	}
	return tt.mk(ONot, WBool, a, nil, nil, 0)
}
func (tt *TermTab) And(a, b *Term) *Term {
	if a.isC() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.F
	}
	// x==c1 && x==c2
	if a.op == OEq && b.op == OEq && a.a == b.a && a.b.isC() && b.b.isC() && a.b != b.b && a.b.w != WF64 {
		return tt.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, WBool, a, b, nil, 0)
}
func (tt *TermTab) Or(a, b *Term) *Term {
	if a.isC() {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, WBool, a, b, nil, 0)
}
func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if a.w == WBool {
		if a.isC() && b.isC() {
			if a.val != 0 {
				return c
			}
			return tt.Not(c)
		}
		if a.isC() {
			if a.val != 0 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isC() {
			if b.val != 0 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
	if b.op == OIte && b.b == a {
		return tt.Ite(tt.Or(c, b.a), a, b.c)
	}
	return tt.mk(OIte, a.w, c, a, b, 0)
}

// iteConstLeaves reports whether t is a small tree of ITEs over constants
func iteConstLeaves(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.isC() {
		return true
	}
	if t.op == OIte {
		return iteConstLeaves(t.b, budget) && iteConstLeaves(t.c, budget)
	}
	return false
}

func (tt *TermTab) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return tt.Ite(t.a, tt.mapLeaves(t.b, f), tt.mapLeaves(t.c, f))
	}
	return f(t)
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a.w == WF64 {
		panic("Eq on F64")
	}
	if a == b {
		return tt.T
	}
	if a.isC() && b.isC() {
		return tt.Bool(a.val == b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == WBool {
		if b.isC() {
			if b.val != 0 {
				return a
			}
			return tt.Not(a)
		}
	} else if b.isC() {
		switch a.op {
		case OZext:
			if b.val&^mask(a.a.w) != 0 {
				return tt.F
			}
			return tt.Eq(a.a, tt.Const(a.a.w, b.val))
		case OSext:
			if uint64(sx(b.val, a.a.w))&mask(a.w) != b.val {
				return tt.F
			}
			return tt.Eq(a.a, tt.Const(a.a.w, b.val))
		case OAdd:
			if a.b.isC() {
				return tt.Eq(a.a, tt.Const(a.w, b.val-a.b.val))
			}
		case OBXor:
			if a.b.isC() {
				return tt.Eq(a.a, tt.Const(a.w, b.val^a.b.val))
			}
		case OIte:
			bud := 64
			if iteConstLeaves(a, &bud) {
				return tt.mapLeaves(a, func(l *Term) *Term { return tt.Bool(l.val == b.val) })
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tt.mk(OEq, WBool, a, b, nil, 0)
}

func umaxOf(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return umaxOf(t.a)
	case OIte:
		x, y := umaxOf(t.b), umaxOf(t.c)
		if x > y {
			return x
		}
		return y
	case OBAnd:
		if t.b.isC() {
			return t.b.val
		}
	case OLshr:
		if t.b.isC() && t.b.val < 64 {
			return umaxOf(t.a) >> t.b.val
		}
	case OURem:
		if t.b.isC() && t.b.val > 0 {
			return t.b.val - 1
		}
	case OAdd:
		if t.b.isC() {
			m := umaxOf(t.a)
			s, c := bits.Add64(m, t.b.val, 0)
			if c == 0 && s <= mask(t.w) {
				return s
			}
		}
	}
	return mask(t.w)
}

func (tt *TermTab) Ult(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isC() && b.isC() {
		return tt.Bool(a.val < b.val)
	}
	if b.isC() {
		if b.val == 0 {
			return tt.F
		}
		if umaxOf(a) < b.val {
			return tt.T
		}
		if a.op == OZext {
			return tt.Ult(a.a, tt.Const(a.a.w, b.val))
		}
		bud := 64
		if a.op == OIte && iteConstLeaves(a, &bud) {
			return tt.mapLeaves(a, func(l *Term) *Term { return tt.Bool(l.val < b.val) })
		}
	}
	if a.isC() {
		if a.val >= mask(a.w) {
			return tt.F
		}
		if umaxOf(b) <= a.val {
			return tt.F
		}
		if b.op == OZext {
			return tt.Ult(tt.Const(b.a.w, a.val), b.a)
		}
		bud := 64
		if b.op == OIte && iteConstLeaves(b, &bud) {
			return tt.mapLeaves(b, func(l *Term) *Term { return tt.Bool(a.val < l.val) })
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tt.Ult(a.a, b.a)
	}
	return tt.mk(OUlt, WBool, a, b, nil, 0)
}
func (tt *TermTab) Ule(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isC() && b.isC() {
		return tt.Bool(a.val <= b.val)
	}
	if b.isC() {
		if b.val == mask(b.w) {
			return tt.T
		}
		return tt.Ult(a, tt.Const(a.w, b.val+1))
	}
	if a.isC() {
		if a.val == 0 {
			return tt.T
		}
		return tt.Ult(tt.Const(a.w, a.val-1), b)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tt.Ule(a.a, b.a)
	}
	return tt.mk(OUle, WBool, a, b, nil, 0)
}

// nonneg: top bit known zero
func nonneg(t *Term) bool { return umaxOf(t) <= mask(t.w)>>1 }

func (tt *TermTab) Slt(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isC() && b.isC() {
		return tt.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Ult(a, b)
	}
	if nonneg(a) && b.isC() { // b negative
		return tt.F
	}
	if a.isC() && nonneg(b) {
		return tt.T
	}
	bud := 64
	if b.isC() && a.op == OIte && iteConstLeaves(a, &bud) {
		return tt.mapLeaves(a, func(l *Term) *Term { return tt.Bool(sx(l.val, l.w) < sx(b.val, b.w)) })
	}
	bud = 64
	if a.isC() && b.op == OIte && iteConstLeaves(b, &bud) {
		return tt.mapLeaves(b, func(l *Term) *Term { return tt.Bool(sx(a.val, a.w) < sx(l.val, l.w)) })
	}
	return tt.mk(OSlt, WBool, a, b, nil, 0)
}
func (tt *TermTab) Sle(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isC() && b.isC() {
		return tt.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tt.Ule(a, b)
	}
	if b.isC() && sx(b.val, b.w) != sx(mask(b.w)>>1, b.w) {
		return tt.Slt(a, tt.Const(a.w, b.val+1))
	}
	return tt.mk(OSle, WBool, a, b, nil, 0)
}

func (tt *TermTab) bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() {
		if v, ok := foldBin(op, w, a.val, b.val); ok {
			return tt.Const(w, v)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isC() {
			a, b = b, a
		}
	}
	if b.isC() {
		switch op {
		case OAdd:
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return tt.bin(OAdd, a.a, tt.Const(w, a.b.val+b.val))
			}
		case OSub:
			return tt.bin(OAdd, a, tt.Const(w, -b.val))
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZext && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		case OBOr, OBXor:
			if b.val == 0 {
				return a
			}
		case OShl, OLshr:
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return tt.Const(w, 0)
			}
		case OAshr:
			if b.val == 0 {
				return a
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
			if op == OUDiv && umaxOf(a) < b.val && b.val != 0 {
				return tt.Const(w, 0)
			}
			if op == OSDiv && nonneg(a) && nonneg(b) {
				return tt.bin(OUDiv, a, b)
			}
		case OURem:
			if b.val != 0 && umaxOf(a) < b.val {
				return a
			}
		case OSRem:
			if nonneg(a) && nonneg(b) {
				return tt.bin(OURem, a, b)
			}
		}
		bud := 40
		if a.op == OIte && iteConstLeaves(a, &bud) {
			ok := true
			r := tt.mapLeaves(a, func(l *Term) *Term {
				v, k := foldBin(op, w, l.val, b.val)
				if !k {
					ok = false
				}
				return tt.Const(w, v)
			})
			if ok {
				return r
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return tt.Const(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	return tt.mk(op, w, a, b, nil, 0)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		if y == 0 {
			if sx(x, w) < 0 {
				return 1, true
			}
			return m, true
		}
		if sx(y, w) == -1 {
			return (-x) & m, true
		}
		return uint64(sx(x, w)/sx(y, w)) & m, true
	case OSRem:
		if y == 0 {
			return x, true
		}
		if sx(y, w) == -1 {
			return 0, true
		}
		return uint64(sx(x, w)%sx(y, w)) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	}
	return 0, false
}

func (tt *TermTab) BNot(a *Term) *Term {
	if a.isC() {
		return tt.Const(a.w, ^a.val)
	}
	return tt.mk(OBNot, a.w, a, nil, nil, 0)
}
func (tt *TermTab) Neg(a *Term) *Term {
	if a.isC() {
		return tt.Const(a.w, -a.val)
	}
	return tt.mk(ONeg, a.w, a, nil, nil, 0)
}
func (tt *TermTab) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tt.Const(w, a.val)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	if a.op == OIte {
		bud := 40
		if iteConstLeaves(a, &bud) {
			return tt.mapLeaves(a, func(l *Term) *Term { return tt.Const(w, l.val) })
		}
	}
	return tt.mk(OZext, w, a, nil, nil, 0)
}
func (tt *TermTab) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tt.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	if nonneg(a) {
		return tt.Zext(a, w)
	}
	if a.op == OIte {
		bud := 40
		if iteConstLeaves(a, &bud) {
			return tt.mapLeaves(a, func(l *Term) *Term { return tt.Const(w, uint64(sx(l.val, l.w))) })
		}
	}
	return tt.mk(OSext, w, a, nil, nil, 0)
}
func (tt *TermTab) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tt.Const(w, a.val)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tt.Trunc(a.a, w)
		}
		if a.op == OZext {
			return tt.Zext(a.a, w)
		}
		return tt.Sext(a.a, w)
	case OIte:
		return tt.Ite(a.a, tt.Trunc(a.b, w), tt.Trunc(a.c, w))
	case OAdd, OSub, OBAnd, OBOr, OBXor:
		return tt.bin(a.op, tt.Trunc(a.a, w), tt.Trunc(a.b, w))
	}
	return tt.mk(OTrunc, w, a, nil, nil, 0)
}

func f(v uint64) float64  { return math.Float64frombits(v) }
func fb(v float64) uint64 { return math.Float64bits(v) }
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TermTab) FBin(op Op, a, b *Term) *Term {
	rw := uint8(WF64)
	if op == OFLt || op == OFLe || op == OFEq {
		rw = WBool
	}
	if a.isC() && b.isC() {
		return tt.Const(rw, evalF(op, a.val, b.val))
	}
	return tt.mk(op, rw, a, b, nil, 0)
}
func evalF(op Op, a, b uint64) uint64 {
	x, y := f(a), f(b)
	switch op {
	case OFAdd:
		return fb(x + y)
	case OFSub:
		return fb(x - y)
	case OFMul:
		return fb(x * y)
	case OFDiv:
		return fb(x / y)
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	}
	panic("evalF")
}
func (tt *TermTab) FNeg(a *Term) *Term {
	if a.isC() {
		return tt.Const(WF64, fb(-f(a.val)))
	}
	return tt.mk(OFNeg, WF64, a, nil, nil, 0)
}
func (tt *TermTab) FromS(a *Term) *Term {
	if a.isC() {
		return tt.Const(WF64, fb(float64(sx(a.val, a.w))))
	}
	return tt.mk(OFromS, WF64, a, nil, nil, 0)
}
func (tt *TermTab) FromU(a *Term) *Term {
	if a.isC() {
		return tt.Const(WF64, fb(float64(a.val)))
	}
	return tt.mk(OFromU, WF64, a, nil, nil, 0)
}
func (tt *TermTab) ToS(a *Term) *Term { // go semantics on amd64, out of range -> min int64
	if a.isC() {
		return tt.Const(64, uint64(int64(f(a.val))))
	}
	lo := tt.Const(WF64, fb(-9223372036854775808.0))
	hi := tt.Const(WF64, fb(9223372036854775808.0))
	in := tt.And(tt.FBin(OFLe, lo, a), tt.FBin(OFLt, a, hi))
	return tt.Ite(in, tt.mk(OToS, 64, a, nil, nil, 0), tt.Const(64, 1<<63))
}

// eval evaluates t under model m (missing vars are 0)
func (tt *TermTab) eval(t *Term, m []uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		if int(t.val) < len(m) {
			return m[t.val]
		}
		return 0
	}
	if t.ee == tt.ep {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OIte:
		if tt.eval(t.a, m) != 0 {
			r = tt.eval(t.b, m)
		} else {
			r = tt.eval(t.c, m)
		}
	case OAnd:
		r = b2u(tt.eval(t.a, m) != 0 && tt.eval(t.b, m) != 0)
	case OOr:
		r = b2u(tt.eval(t.a, m) != 0 || tt.eval(t.b, m) != 0)
	default:
		x := tt.eval(t.a, m)
		var y uint64
		if t.b != nil {
			y = tt.eval(t.b, m)
		}
		switch t.op {
		case ONot:
			r = x ^ 1
		case OEq:
			r = b2u(x == y)
		case OUlt:
			r = b2u(x < y)
		case OUle:
			r = b2u(x <= y)
		case OSlt:
			r = b2u(sx(x, t.a.w) < sx(y, t.a.w))
		case OSle:
			r = b2u(sx(x, t.a.w) <= sx(y, t.a.w))
		case OBNot:
			r = ^x & mask(t.w)
		case ONeg:
			r = -x & mask(t.w)
		case OZext:
			r = x
		case OSext:
			r = uint64(sx(x, t.a.w)) & mask(t.w)
		case OTrunc:
			r = x & mask(t.w)
		case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
			r = evalF(t.op, x, y)
		case OFNeg:
			r = fb(-f(x))
		case OFromS:
			r = fb(float64(sx(x, t.a.w)))
		case OFromU:
			r = fb(float64(x))
		case OToS:
			r = uint64(int64(f(x)))
		case OFBits:
			r = x
		case OFRound:
			r = fb([]func(float64) float64{math.Floor, math.Ceil, math.Trunc}[t.val](f(x)))
		default:
			var ok bool
			r, ok = foldBin(t.op, t.w, x, y)
			if !ok {
				panic(fmt.Sprint("eval op ", t.op))
			}
		}
	}
	t.ee = tt.ep
	t.ev = r
	return r
}

func (tt *TermTab) Eval(t *Term, m []uint64) uint64 {
	tt.ep++
	return tt.eval(t, m)
}

func sortName(w uint8) string {
	switch w {
	case WBool:
		return "Bool"
	case WF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constName(t *Term) string {
	switch t.w {
	case WBool:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case WF64:
		if math.IsNaN(f(t.val)) {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", t.val>>63, (t.val>>52)&0x7ff, t.val&(1<<52-1))
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

var smtOp = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq",
	OFromS: "(_ to_fp 11 53) RNE", OFromU: "(_ to_fp_unsigned 11 53) RNE", OToS: "(_ fp.to_sbv 64) RTZ", OFBits: "(_ to_fp 11 53)",
}

func refName(t *Term) string {
	switch t.op {
	case OConst:
		return constName(t)
	case OVar:
		return fmt.Sprintf("v%d_%d", t.val, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

func bodyText(t *Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.a.w)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a.w)
	case OTrunc:
		fmt.Fprintf(&sb, "(_ extract %d 0)", t.w-1)
	case OFRound:
		sb.WriteString("fp.roundToIntegral " + []string{"RTN", "RTP", "RTZ"}[t.val])
	default:
		sb.WriteString(smtOp[t.op])
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(refName(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
