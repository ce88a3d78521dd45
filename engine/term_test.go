package main

import (
	"math/rand"
	"testing"
)

// The term constructors simplify: a random expression and its plain evaluation agree.
func TestTerms(t *testing.T) {
	for seed := int64(0); seed < 60000; seed++ {
		r := rand.New(rand.NewSource(seed))
		T := NewTerms()
		vars := []*Term{T.Var(BV(8), "x"), T.Var(BV(8), "y"), T.Var(BV(16), "z"), T.Var(BV(64), "w"), T.Var(BV(4), "u")}
		m := Model{}
		for _, v := range vars {
			m[v.id] = r.Uint64() & mask(v.sort.width())
			if r.Intn(3) == 0 {
				m[v.id] = []uint64{0, 1, mask(v.sort.width()), mask(v.sort.width()) >> 1}[r.Intn(4)]
			}
		}
		// gen gives a term of width w and its value
		var gen func(w, d int) (*Term, uint64)
		var genb func(w, d int) (*Term, bool)
		genb = func(w, d int) (*Term, bool) {
			a, x := gen(w, d-1)
			b, y := gen(w, d-1)
			switch r.Intn(5) {
			case 0:
				return T.Eq(a, b), x == y
			case 1:
				return T.Ult(a, b), x < y
			case 2:
				return T.Ule(a, b), x <= y
			case 3:
				return T.Slt(a, b), sext(x, uint(w)) < sext(y, uint(w))
			default:
				return T.Sle(a, b), sext(x, uint(w)) <= sext(y, uint(w))
			}
		}
		gen = func(w, d int) (*Term, uint64) {
			if d <= 0 || r.Intn(6) == 0 {
				if r.Intn(3) == 0 {
					c := r.Uint64() & mask(uint(w))
					if r.Intn(2) == 0 {
						c = uint64(r.Intn(12)) & mask(uint(w))
					}
					return T.Const(BV(w), c), c
				}
				v := vars[r.Intn(len(vars))]
				vw := int(v.sort)
				sg := vw < w && r.Intn(4) == 0
				x := m[v.id]
				if sg {
					x = uint64(sext(x, uint(vw)))
				}
				return T.Resize(v, w, sg), x & mask(uint(w))
			}
			if r.Intn(6) == 0 {
				c, cv := genb([]int{8, 16, 64, w}[r.Intn(4)], d-1)
				a, x := gen(w, d-1)
				b, y := gen(w, d-1)
				if cv {
					return T.Ite(c, a, b), x
				}
				return T.Ite(c, a, b), y
			}
			if r.Intn(4) == 0 {
				nw := []int{4, 8, 16, 32, 64}[r.Intn(5)]
				a, x := gen(nw, d-1)
				sg := r.Intn(3) == 0
				if nw < w && sg {
					x = uint64(sext(x, uint(nw)))
				}
				return T.Resize(a, w, sg), x & mask(uint(w))
			}
			a, x := gen(w, d-1)
			b, y := gen(w, d-1)
			ops := []Op{OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr, OAdd, OMul, OAdd}
			op := ops[r.Intn(len(ops))]
			v, _ := binFold(op, BV(w), x, y)
			switch op {
			case OAdd:
				return T.Add(a, b), v
			case OSub:
				return T.Sub(a, b), v
			case OMul:
				return T.Mul(a, b), v
			case OBAnd:
				return T.BAnd(a, b), v
			case OBOr:
				return T.BOr(a, b), v
			case OBXor:
				return T.BXor(a, b), v
			case OShl, OLshr, OAshr:
				return T.Shift(op, a, b), v
			}
			return T.bin(op, a, b), v
		}
		w := []int{8, 16, 32, 64}[r.Intn(4)]
		c, v := genb(w, 5)
		if got := T.Eval(c, m, map[int32]uint64{}); (got == 1) != v {
			t.Fatalf("seed %d: %s = %d, want %v", seed, T.Show(c, 9), got, v)
		}
		e, x := gen(w, 5)
		if got := T.Eval(e, m, map[int32]uint64{}); got != x {
			t.Fatalf("seed %d: %s = %d, want %d", seed, T.Show(e, 9), got, x)
		}
		if umax(e) < x {
			t.Fatalf("seed %d: bound %d of %s below %d", seed, umax(e), T.Show(e, 9), x)
		}
	}
}
