package main

// Hash-consed SMT terms: booleans, bit-vectors (width 1..64) and IEEE floats.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Sort int16

const (
	SBool Sort = 0
	SF32  Sort = 132
	SF64  Sort = 164
)

func BV(w int) Sort        { return Sort(w) }
func (s Sort) isBV() bool  { return s > 0 && s <= 64 }
func (s Sort) isFP() bool  { return s == SF32 || s == SF64 }
func (s Sort) width() uint { return uint(s) }
func (s Sort) String() string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SF32:
		return "(_ FloatingPoint 8 24)"
	case s == SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // low bits: c = hi<<8|lo
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OSToF // signed bv -> float
	OUToF
	OFToS // float -> signed bv (RTZ)
	OFToU
	OFToF
	OBVToF // reinterpret
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OConcat: "concat", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFNeg: "fp.neg"}

type Term struct {
	id   int32
	op   Op
	sort Sort
	n    uint8
	a    [3]*Term
	c    uint64
	name string
	vars []int32 // sorted ids of variables
	vset bool
	ub   uint64 // upper bound (unsigned)
	ubs  bool
}

type termKey struct {
	op      Op
	sort    Sort
	a, b, d int32
	c       uint64
	name    string
}

type Terms struct {
	tab   map[termKey]*Term
	all   []*Term
	wide  bool // no narrowing (tests)
	True  *Term
	False *Term
}

func NewTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}}
	t.True = t.mk(OConst, SBool, 1, "")
	t.False = t.mk(OConst, SBool, 0, "")
	return t
}

func (T *Terms) mk(op Op, s Sort, c uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, c: c, name: name, a: -1, b: -1, d: -1}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.d = args[2].id
	}
	if t, ok := T.tab[k]; ok {
		return t
	}
	t := &Term{id: int32(len(T.all)), op: op, sort: s, c: c, name: name, n: uint8(len(args))}
	copy(t.a[:], args)
	T.tab[k] = t
	T.all = append(T.all, t)
	return t
}

func mask(w uint) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sext(v uint64, w uint) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (T *Terms) Const(s Sort, v uint64) *Term {
	if s.isBV() {
		v &= mask(s.width())
	}
	return T.mk(OConst, s, v, "")
}
func (T *Terms) Int(w int, v int64) *Term { return T.Const(BV(w), uint64(v)) }
func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}
func (T *Terms) F64(f float64) *Term { return T.mk(OConst, SF64, math.Float64bits(f), "") }
func (T *Terms) Var(s Sort, name string) *Term {
	return T.mk(OVar, s, 0, name)
}
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.c == 0 }
func (t *Term) sval() int64   { return sext(t.c, t.sort.width()) }

func (T *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return T.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return T.mk(ONot, SBool, 0, "", a)
}
func (T *Terms) And(a, b *Term) *Term {
	switch {
	case a.isFalse() || b.isFalse():
		return T.False
	case a.isTrue():
		return b
	case b.isTrue() || a == b:
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return T.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OAnd, SBool, 0, "", a, b)
}
func (T *Terms) Or(a, b *Term) *Term {
	switch {
	case a.isTrue() || b.isTrue():
		return T.True
	case a.isFalse():
		return b
	case b.isFalse() || a == b:
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return T.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OOr, SBool, 0, "", a, b)
}
func (T *Terms) AndN(ts []*Term) *Term {
	r := T.True
	for _, t := range ts {
		r = T.And(r, t)
	}
	return r
}
func (T *Terms) Implies(a, b *Term) *Term { return T.Or(T.Not(a), b) }
func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return T.Not(c)
		}
	}
	return T.mk(OIte, a.sort, 0, "", c, a, b)
}
func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		if a.sort.isFP() && !a.isConst() {
			// structural equality is not used on floats with NaN semantics; see FEq
		}
		return T.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.c == b.c)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return T.Not(b)
		}
		if b.isFalse() {
			return T.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			iw := a.a[0].sort.width()
			if b.c&^mask(iw) != 0 {
				return T.False
			}
			return T.Eq(a.a[0], T.Const(a.a[0].sort, b.c))
		case OSext:
			iw := a.a[0].sort.width()
			lo := b.c & mask(iw)
			if uint64(sext(lo, iw))&mask(a.sort.width()) != b.c {
				return T.False
			}
			return T.Eq(a.a[0], T.Const(a.a[0].sort, lo))
		case OIte:
			if a.a[1].isConst() && a.a[2].isConst() {
				x, y := a.a[1].c == b.c, a.a[2].c == b.c
				switch {
				case x && y:
					return T.True
				case x:
					return a.a[0]
				case y:
					return T.Not(a.a[0])
				default:
					return T.False
				}
			}
		case OAdd:
			if a.a[1].isConst() {
				return T.Eq(a.a[0], T.Sub(b, a.a[1]))
			}
		}
		return T.mk(OEq, SBool, 0, "", a, b)
	}
	if a.sort.isBV() {
		if r := T.narrowTo(OEq, a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OEq, SBool, 0, "", a, b)
}

func binFold(op Op, s Sort, x, y uint64) (uint64, bool) {
	w := s.width()
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		sx := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m, true
	}
	return 0, false
}

func (T *Terms) bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bin %v sort mismatch %v %v", opName[op], a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		v, _ := binFold(op, a.sort, a.c, b.c)
		return T.Const(a.sort, v)
	}
	switch op {
	case OAdd, OMul, OUDiv, OURem, OSDiv, OSRem:
		if r := T.narrowTo(op, a, b); r != nil {
			return r
		}
	}
	return T.mk(op, a.sort, 0, "", a, b)
}
func (T *Terms) Add(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].isConst() {
			return T.Add(a.a[0], T.bin(OAdd, a.a[1], b))
		}
		if x := a.a[0]; a.op == OZext && x.op == OAdd && x.a[1].isConst() && !T.wide {
			// zext(y + c1) + c2 is zext(y) + (c1 + c2) when y + c1 does not wrap
			if umax(x.a[0]) <= mask(x.sort.width())-x.a[1].c {
				return T.Add(T.Resize(x.a[0], int(a.sort), false), T.Const(a.sort, x.a[1].c+b.c))
			}
		}
		return T.bin(OAdd, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.bin(OAdd, a, b)
}
func (T *Terms) Sub(a, b *Term) *Term {
	if b.isConst() {
		return T.Add(a, T.Const(b.sort, -b.c))
	}
	if a == b {
		return T.Const(a.sort, 0)
	}
	return T.bin(OSub, a, b)
}
func (T *Terms) Mul(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
	}
	return T.bin(OMul, a, b)
}
func (T *Terms) BAnd(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == mask(b.sort.width()) {
			return a
		}
		if a.op == OZext && a.a[0].sort.width() <= 63 {
			// and(zext x, c) keeps only low bits of c
			iw := a.a[0].sort.width()
			if b.c&mask(iw) == mask(iw) {
				return a
			}
			if b.c&mask(iw) == 0 {
				return T.Const(b.sort, 0)
			}
		}
	}
	if a == b {
		return a
	}
	return T.bin(OBAnd, a, b)
}
func (T *Terms) BOr(a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	if a == b {
		return a
	}
	return T.bin(OBOr, a, b)
}
func (T *Terms) BXor(a, b *Term) *Term {
	if b.isConst() && b.c == 0 {
		return a
	}
	if a == b {
		return T.Const(a.sort, 0)
	}
	return T.bin(OBXor, a, b)
}
func (T *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return T.Const(a.sort, ^a.c)
	}
	return T.mk(OBNot, a.sort, 0, "", a)
}
func (T *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return T.Const(a.sort, -a.c)
	}
	return T.mk(ONeg, a.sort, 0, "", a)
}
func (T *Terms) Shift(op Op, a, b *Term) *Term {
	if b.isConst() && b.c == 0 {
		return a
	}
	return T.bin(op, a, b)
}

// umax bounds a term from above cheaply.
func umax(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if !t.ubs {
		t.ub, t.ubs = umax1(t), true
	}
	return t.ub
}

func umax1(t *Term) uint64 {
	m := mask(t.sort.width())
	switch t.op {
	case OZext:
		return umax(t.a[0])
	case OExtract:
		if t.c&255 == 0 {
			return min(umax(t.a[0]), m)
		}
	case OBAnd:
		return min(umax(t.a[0]), umax(t.a[1]))
	case OBOr, OBXor:
		return mask(uint(bits.Len64(max(umax(t.a[0]), umax(t.a[1])))))
	case OIte:
		return max(umax(t.a[1]), umax(t.a[2]))
	case OLshr:
		if t.a[1].isConst() && t.a[1].c < 64 {
			return umax(t.a[0]) >> t.a[1].c
		}
		return umax(t.a[0])
	case OAdd:
		if x, y := umax(t.a[0]), umax(t.a[1]); y <= m-x {
			return x + y
		}
	case OMul:
		if hi, lo := bits.Mul64(umax(t.a[0]), umax(t.a[1])); hi == 0 && lo <= m {
			return lo
		}
	case OUDiv:
		if t.a[1].isConst() && t.a[1].c > 0 {
			return umax(t.a[0]) / t.a[1].c
		}
	case OURem:
		if t.a[1].isConst() && t.a[1].c > 0 {
			return min(umax(t.a[0]), t.a[1].c-1)
		}
		return umax(t.a[0])
	}
	return m
}

// narrow gives the low k bits of a term known to fit in them, if that is free.
func (T *Terms) narrow(t *Term, k int) *Term {
	switch {
	case t.op == OConst:
		return T.Const(BV(k), t.c)
	case t.op == OZext:
		return T.Resize(t.a[0], k, false)
	}
	return nil
}

// narrowTo computes op in fewer bits when the operands and the result provably fit.
func (T *Terms) narrowTo(op Op, a, b *Term) *Term {
	if T.wide || a.op != OZext && b.op != OZext {
		return nil
	}
	w := int(a.sort)
	m := mask(uint(w))
	x, y := umax(a), umax(b)
	top := max(x, y)
	switch op {
	case OAdd:
		if y > m-x {
			return nil
		}
		top = x + y
	case OMul:
		hi, lo := bits.Mul64(x, y)
		if hi != 0 || lo > m {
			return nil
		}
		top = lo
	case OSDiv, OSRem:
		if top >= uint64(1)<<uint(w-1) || !b.isConst() && y >= uint64(1)<<uint(w-1) {
			return nil
		}
		if op == OSDiv {
			op = OUDiv
		} else {
			op = OURem
		}
		if b.isConst() && b.c == 0 || !b.isConst() {
			// a zero divisor is excluded by the caller for division; keep the wide form when it may be zero
			if op == OUDiv {
				return nil
			}
		}
	case OUDiv:
		if !b.isConst() || b.c == 0 {
			return nil
		}
	}
	k := max(bits.Len64(top), 1)
	if k >= w {
		return nil
	}
	na, nb := T.narrow(a, k), T.narrow(b, k)
	if na == nil || nb == nil {
		return nil
	}
	var r *Term
	switch op {
	case OAdd:
		r = T.Add(na, nb)
	case OMul:
		r = T.Mul(na, nb)
	case OUlt, OUle:
		return T.cmp(op, na, nb)
	case OEq:
		return T.Eq(na, nb)
	default:
		r = T.bin(op, na, nb)
	}
	return T.Resize(r, w, false)
}

func (T *Terms) cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("cmp sort mismatch %v %v", a.sort, b.sort))
	}
	w := a.sort.width()
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return T.Bool(a.c < b.c)
		case OUle:
			return T.Bool(a.c <= b.c)
		case OSlt:
			return T.Bool(sext(a.c, w) < sext(b.c, w))
		case OSle:
			return T.Bool(sext(a.c, w) <= sext(b.c, w))
		}
	}
	if a == b {
		return T.Bool(op == OUle || op == OSle)
	}
	// zext'd values are non-negative
	ua, ub := umax(a), umax(b)
	half := uint64(1) << (w - 1)
	if (op == OSlt || op == OSle) && ua < half && ub < half {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	switch op {
	case OUlt:
		if b.isConst() && b.c == 0 {
			return T.False
		}
		if b.isConst() && ua < b.c {
			return T.True
		}
		if a.isConst() && ub <= a.c {
			return T.False
		}
	case OUle:
		if b.isConst() && ua <= b.c {
			return T.True
		}
		if a.isConst() && ub < a.c {
			return T.False
		}
		if a.isConst() && a.c == 0 {
			return T.True
		}
	case OSlt:
		if b.isConst() && b.c == 0 && ua < half {
			return T.False
		}
	case OSle:
		if a.isConst() && a.c == 0 && ub < half {
			return T.True
		}
	}
	if op == OUlt || op == OUle {
		if r := T.narrowTo(op, a, b); r != nil {
			return r
		}
	}
	return T.mk(op, SBool, 0, "", a, b)
}
func (T *Terms) Ult(a, b *Term) *Term { return T.cmp(OUlt, a, b) }
func (T *Terms) Ule(a, b *Term) *Term { return T.cmp(OUle, a, b) }
func (T *Terms) Slt(a, b *Term) *Term { return T.cmp(OSlt, a, b) }
func (T *Terms) Sle(a, b *Term) *Term { return T.cmp(OSle, a, b) }

// Resize converts a bit-vector to width w.
func (T *Terms) Resize(a *Term, w int, signed bool) *Term {
	aw := int(a.sort)
	switch {
	case aw == w:
		return a
	case aw > w:
		if a.isConst() {
			return T.Const(BV(w), a.c)
		}
		if a.op == OZext || a.op == OSext {
			iw := int(a.a[0].sort)
			if iw == w {
				return a.a[0]
			}
			if iw > w {
				return T.Resize(a.a[0], w, false)
			}
			return T.Resize(a.a[0], w, a.op == OSext)
		}
		return T.mk(OExtract, BV(w), uint64(w-1)<<8, "", a)
	}
	if a.isConst() {
		if signed {
			return T.Const(BV(w), uint64(sext(a.c, uint(aw))))
		}
		return T.Const(BV(w), a.c)
	}
	if signed {
		if a.op == OZext {
			return T.mk(OZext, BV(w), 0, "", a.a[0])
		}
		return T.mk(OSext, BV(w), 0, "", a)
	}
	if a.op == OZext {
		a = a.a[0]
	}
	return T.mk(OZext, BV(w), 0, "", a)
}

// ---- floats

func fval(t *Term) float64 {
	if t.sort == SF32 {
		return float64(math.Float32frombits(uint32(t.c)))
	}
	return math.Float64frombits(t.c)
}
func (T *Terms) FConst(s Sort, f float64) *Term {
	if s == SF32 {
		return T.mk(OConst, SF32, uint64(math.Float32bits(float32(f))), "")
	}
	return T.F64(f)
}
func (T *Terms) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		if a.sort == SF32 {
			p, q := float32(x), float32(y)
			var r float32
			switch op {
			case OFAdd:
				r = p + q
			case OFSub:
				r = p - q
			case OFMul:
				r = p * q
			case OFDiv:
				r = p / q
			}
			return T.FConst(SF32, float64(r))
		}
		var r float64
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return T.F64(r)
	}
	return T.mk(op, a.sort, 0, "", a, b)
}
func (T *Terms) FNeg(a *Term) *Term {
	if a.isConst() {
		return T.FConst(a.sort, -fval(a))
	}
	return T.mk(OFNeg, a.sort, 0, "", a)
}
func (T *Terms) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case OFLt:
			return T.Bool(x < y)
		case OFLe:
			return T.Bool(x <= y)
		case OFEq:
			return T.Bool(x == y)
		}
	}
	return T.mk(op, SBool, 0, "", a, b)
}
func (T *Terms) IntToF(a *Term, s Sort, signed bool) *Term {
	if a.isConst() {
		if signed {
			v := a.sval()
			if s == SF32 {
				return T.FConst(s, float64(float32(v)))
			}
			return T.FConst(s, float64(v))
		}
		if s == SF32 {
			return T.FConst(s, float64(float32(a.c)))
		}
		return T.FConst(s, float64(a.c))
	}
	if signed {
		return T.mk(OSToF, s, 0, "", a)
	}
	return T.mk(OUToF, s, 0, "", a)
}
func (T *Terms) FToInt(a *Term, w int, signed bool) *Term {
	if a.isConst() {
		f := fval(a)
		return T.Const(BV(w), fToInt(f, w, signed))
	}
	// exact round trips fold: int -> f64 -> int for widths <= 32
	if (a.op == OSToF || a.op == OUToF) && a.sort == SF64 && a.a[0].sort <= 32 {
		x := T.Resize(a.a[0], 64, a.op == OSToF)
		if w == 64 || true {
			return T.Resize(x, w, true)
		}
	}
	op := OFToS
	if !signed {
		op = OFToU
	}
	if w < 64 { // amd64: convert to int64 then truncate
		return T.Resize(T.mk(OFToS, BV(64), 0, "", a), w, true)
	}
	return T.mk(op, BV(w), 0, "", a)
}
func fToInt(f float64, w int, signed bool) uint64 {
	if math.IsNaN(f) {
		return 1 << 63 & mask(uint(w))
	}
	if signed || w < 64 {
		if f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
			return 1 << 63 & mask(uint(w))
		}
		return uint64(int64(f)) & mask(uint(w))
	}
	return uint64(f)
}
func (T *Terms) FToF(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.isConst() {
		return T.FConst(s, fval(a))
	}
	if a.op == OFToF && a.a[0].sort == s && a.sort == SF64 {
		return a.a[0] // f32 -> f64 -> f32 is exact
	}
	return T.mk(OFToF, s, 0, "", a)
}
func (T *Terms) BVToF(a *Term, s Sort) *Term {
	if a.isConst() {
		return T.mk(OConst, s, a.c, "")
	}
	return T.mk(OBVToF, s, 0, "", a)
}

// ---- variables of a term

func (T *Terms) Vars(t *Term) []int32 {
	if t.vset {
		return t.vars
	}
	t.vset = true
	switch {
	case t.op == OVar:
		t.vars = []int32{t.id}
	case t.n == 1:
		t.vars = T.Vars(t.a[0])
	case t.n > 1:
		m := map[int32]bool{}
		for i := 0; i < int(t.n); i++ {
			for _, v := range T.Vars(t.a[i]) {
				m[v] = true
			}
		}
		for v := range m {
			t.vars = append(t.vars, v)
		}
		sort.Slice(t.vars, func(i, j int) bool { return t.vars[i] < t.vars[j] })
	}
	return t.vars
}

// ---- evaluation under a model (missing variables read as 0)

type Model map[int32]uint64

func (T *Terms) Eval(t *Term, m Model, memo map[int32]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return m[t.id]
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var x, y uint64
	x = T.Eval(t.a[0], m, memo)
	var r uint64
	if t.op == OIte {
		if x == 1 {
			r = T.Eval(t.a[1], m, memo)
		} else {
			r = T.Eval(t.a[2], m, memo)
		}
		memo[t.id] = r
		return r
	}
	if t.n > 1 {
		y = T.Eval(t.a[1], m, memo)
	}
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	aw := t.a[0].sort.width()
	fx := func(v uint64, s Sort) float64 { return fval(&Term{sort: s, c: v}) }
	fr := func(f float64) uint64 {
		if t.sort == SF32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	switch t.op {
	case ONot:
		r = 1 - x
	case OAnd:
		r = x & y
	case OOr:
		r = x | y
	case OEq:
		r = b2(x == y)
	case OUlt:
		r = b2(x < y)
	case OUle:
		r = b2(x <= y)
	case OSlt:
		r = b2(sext(x, aw) < sext(y, aw))
	case OSle:
		r = b2(sext(x, aw) <= sext(y, aw))
	case OBNot:
		r = ^x & mask(aw)
	case ONeg:
		r = -x & mask(aw)
	case OZext:
		r = x
	case OSext:
		r = uint64(sext(x, aw)) & mask(t.sort.width())
	case OExtract:
		r = x >> (t.c & 255) & mask(t.sort.width())
	case OConcat:
		r = x<<t.a[1].sort.width() | y
	case OFAdd, OFSub, OFMul, OFDiv:
		c := T.FBin(t.op, &Term{op: OConst, sort: t.sort, c: x}, &Term{op: OConst, sort: t.sort, c: y})
		r = c.c
	case OFNeg:
		r = fr(-fx(x, t.sort))
	case OFLt:
		r = b2(fx(x, t.a[0].sort) < fx(y, t.a[0].sort))
	case OFLe:
		r = b2(fx(x, t.a[0].sort) <= fx(y, t.a[0].sort))
	case OFEq:
		r = b2(fx(x, t.a[0].sort) == fx(y, t.a[0].sort))
	case OSToF:
		if t.sort == SF32 {
			r = uint64(math.Float32bits(float32(sext(x, aw))))
		} else {
			r = math.Float64bits(float64(sext(x, aw)))
		}
	case OUToF:
		if t.sort == SF32 {
			r = uint64(math.Float32bits(float32(x)))
		} else {
			r = math.Float64bits(float64(x))
		}
	case OFToS:
		r = fToInt(fx(x, t.a[0].sort), int(t.sort), true)
	case OFToU:
		r = fToInt(fx(x, t.a[0].sort), int(t.sort), false)
	case OFToF:
		r = fr(fx(x, t.a[0].sort))
	case OBVToF:
		r = x
	default:
		r, _ = binFold(t.op, t.sort, x, y)
	}
	memo[t.id] = r
	return r
}

// ---- printing

func (T *Terms) constStr(t *Term) string {
	switch {
	case t.sort == SBool:
		if t.c == 1 {
			return "true"
		}
		return "false"
	case t.sort == SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
	case t.sort == SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.c)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.c, int(t.sort))
}

func (T *Terms) ref(t *Term) string {
	switch t.op {
	case OConst:
		return T.constStr(t)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (T *Terms) body(t *Term) string {
	a := make([]string, t.n)
	for i := range a {
		a[i] = T.ref(t.a[i])
	}
	fpidx := func(s Sort) string {
		if s == SF32 {
			return "8 24"
		}
		return "11 53"
	}
	j := strings.Join(a, " ")
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.width()-t.a[0].sort.width(), j)
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.width()-t.a[0].sort.width(), j)
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.c>>8, t.c&255, j)
	case OFAdd:
		return "(fp.add RNE " + j + ")"
	case OFSub:
		return "(fp.sub RNE " + j + ")"
	case OFMul:
		return "(fp.mul RNE " + j + ")"
	case OFDiv:
		return "(fp.div RNE " + j + ")"
	case OSToF:
		return "((_ to_fp " + fpidx(t.sort) + ") RNE " + j + ")"
	case OUToF:
		return "((_ to_fp_unsigned " + fpidx(t.sort) + ") RNE " + j + ")"
	case OFToS, OFToU:
		// amd64 semantics: out of range or NaN gives 0x8000...
		fn := "fp.to_sbv"
		lo, hi := T.constStr(T.FConst(t.a[0].sort, -9223372036854775808.0)), T.constStr(T.FConst(t.a[0].sort, 9223372036854775808.0))
		if t.op == OFToU {
			fn = "fp.to_ubv"
			lo, hi = T.constStr(T.FConst(t.a[0].sort, 0)), T.constStr(T.FConst(t.a[0].sort, 18446744073709551616.0))
		}
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ %s 64) RTZ %s) (_ bv9223372036854775808 64))", lo, j, j, hi, fn, j)
	case OFToF:
		return "((_ to_fp " + fpidx(t.sort) + ") RNE " + j + ")"
	case OBVToF:
		return "((_ to_fp " + fpidx(t.sort) + ") " + j + ")"
	}
	return "(" + opName[t.op] + " " + j + ")"
}

// Human-readable rendering (for messages)
func (T *Terms) Show(t *Term, d int) string {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return T.constStr(t)
		}
		if t.sort.isFP() {
			return fmt.Sprint(fval(t))
		}
		return fmt.Sprint(t.sval())
	case OVar:
		return t.name
	}
	if d <= 0 {
		return "…"
	}
	var a []string
	for i := 0; i < int(t.n); i++ {
		a = append(a, T.Show(t.a[i], d-1))
	}
	n := opName[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	return "(" + n + " " + strings.Join(a, " ") + ")"
}

var _ = bits.Len
