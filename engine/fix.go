package main

import "math"

// Exact fixed-point view of floating-point terms. A term built from small integers by exact operations has the value
// x * 2^-k for a signed bit-vector x that fits the significand, so sums, scalings and comparisons of such terms are
// bit-vector problems with the very same result (no rounding can occur; none of these values is a negative zero).

type fixV struct {
	x *Term
	k int
}

func (c *TermCtx) fix(t *Term) *fixV {
	if v, ok := c.fixMemo[t]; ok {
		return v
	}
	v := c.fix1(t)
	c.fixMemo[t] = v
	return v
}

func bitsFor(n int64) int {
	w := 1
	for n < -(1<<uint(w-1)) || n > 1<<uint(w-1)-1 {
		w++
	}
	return w
}

func (c *TermCtx) fix1(t *Term) *fixV {
	if t.S.K != KFP {
		return nil
	}
	switch t.Op {
	case OConst:
		f := t.F()
		if f == 0 && math.Signbit(f) || math.IsNaN(f) || math.IsInf(f, 0) {
			return nil
		}
		for k := 0; k <= 24; k++ {
			g := math.Ldexp(f, k)
			if math.Abs(g) >= 1<<40 {
				return nil
			}
			if g == math.Trunc(g) {
				n := int64(g)
				return &fixV{c.BVC(uint64(n), bitsFor(n)), k}
			}
		}
	case OSToF:
		if t.A[0].S.W <= 25 || t.S.W == 64 && t.A[0].S.W <= 54 {
			return &fixV{t.A[0], 0}
		}
	case OUToF:
		if t.A[0].S.W <= 24 || t.S.W == 64 && t.A[0].S.W <= 53 {
			return &fixV{c.Zext(t.A[0], t.A[0].S.W+1), 0}
		}
	case OFDiv:
		if b := t.A[1]; b.IsConst() && t.A[0].Op == OSToF {
			if k := pow2(b.F()); k > 0 {
				if v := c.fix(t.A[0]); v != nil {
					return &fixV{v.x, v.k + k}
				}
			}
		}
	case OFToF:
		v := c.fix(t.A[0])
		if v != nil && fits(v.x.S.W, t.S.W) {
			return v
		}
	case OIte:
		a, b := c.fix(t.A[1]), c.fix(t.A[2])
		if a == nil || b == nil {
			return nil
		}
		x, y, k, ok := c.align(a, b, 0)
		if ok {
			return &fixV{c.Ite(t.A[0], x, y), k}
		}
	}
	return nil
}

func fits(w, fw int) bool { return fw == 64 && w <= 54 || w <= 25 }

// pow2 returns k when f = 2^k, k in 0..24, else -1.
func pow2(f float64) int {
	for k := 0; k <= 24; k++ {
		if f == math.Ldexp(1, k) {
			return k
		}
	}
	return -1
}

// align brings two values to the same scale and width (with extra bits of room).
func (c *TermCtx) align(a, b *fixV, extra int) (x, y *Term, k int, ok bool) {
	k = a.k
	if b.k > k {
		k = b.k
	}
	wa, wb := a.x.S.W+k-a.k, b.x.S.W+k-b.k
	w := wa
	if wb > w {
		w = wb
	}
	w += extra
	if w > 62 {
		return nil, nil, 0, false
	}
	sh := func(v *fixV) *Term {
		t := c.Sext(v.x, w)
		if k > v.k {
			t = c.binop(OShl, t, c.BVC(uint64(k-v.k), w))
		}
		return t
	}
	return sh(a), sh(b), k, true
}

func (c *TermCtx) mkFix(x *Term, k, fw int) *Term {
	if !fits(x.S.W, fw) || k > 24 {
		return nil
	}
	t := c.IntToF(x, true, fw)
	if k == 0 {
		return t
	}
	if t.IsConst() {
		return c.FBin(OFDiv, t, c.fconst(fw, math.Ldexp(1, k)))
	}
	return c.mk(OFDiv, FP(fw), 0, "", t, c.fconst(fw, math.Ldexp(1, k)))
}

func (c *TermCtx) fixBin(op Op, a, b *Term) *Term {
	u := c.fix(a)
	if u == nil {
		return nil
	}
	v := c.fix(b)
	if v == nil {
		return nil
	}
	switch op {
	case OFAdd, OFSub:
		x, y, k, ok := c.align(u, v, 1)
		if !ok {
			return nil
		}
		o := OAdd
		if op == OFSub {
			o = OSub
		}
		return c.mkFix(c.binop(o, x, y), k, a.S.W)
	case OFMul:
		// (a product of zero and a negative number is taken as +0 instead of -0: numerically equal, and only visible to
		// code that looks at the sign bit of the product itself)
		pos := func(t *Term) bool { return t.IsConst() && t.F() > 0 }
		if pos(a) && pow2(1/a.F()) >= 0 {
			return c.mkFix(v.x, v.k+u.k, a.S.W)
		}
		if pos(b) && pow2(1/b.F()) >= 0 {
			return c.mkFix(u.x, u.k+v.k, a.S.W)
		}
		w := u.x.S.W + v.x.S.W
		if a == b { // a square: (x-y)^2 and (y-x)^2 are the same (the operands leave room, so x-y does not wrap)
			if s := u.x; s.Op == OSub && s.A[0].Op == OSext && s.A[1].Op == OSext && s.A[0].id > s.A[1].id {
				d := c.binop(OSub, s.A[1], s.A[0])
				u, v = &fixV{d, u.k}, &fixV{d, u.k}
			}
		}
		if w > 54 {
			return nil
		}
		return c.mkFix(c.binop(OMul, c.Sext(u.x, w), c.Sext(v.x, w)), u.k+v.k, a.S.W)
	case OFDiv:
		if b.IsConst() {
			if k := pow2(b.F()); k >= 0 {
				return c.mkFix(u.x, u.k+k, a.S.W)
			}
		}
	}
	return nil
}

// sqrtArg returns the argument of a square root of a fixed-point value narrow enough for the root to be strictly monotone.
func (c *TermCtx) sqrtArg(t *Term) *fixV {
	if t.Op != OFSqrt {
		return nil
	}
	v := c.fix(t.A[0])
	if v == nil || v.x.S.W > 40 || t.S.W == 32 && v.x.S.W > 20 {
		return nil
	}
	return v
}

// nonneg: surely not negative as a signed number (squares and sums of them, with room).
func nonneg(x *Term) bool {
	switch x.Op {
	case OConst:
		return x.C>>uint(x.S.W-1)&1 == 0
	case OZext:
		return x.S.W > x.A[0].S.W
	case OSext:
		return nonneg(x.A[0])
	case OMul:
		a, b := x.A[0], x.A[1]
		return a == b && a.Op == OSext && 2*a.A[0].S.W <= x.S.W
	case OAdd:
		a, b := x.A[0], x.A[1]
		room := func(t *Term) bool { return t.IsConst() && t.C < 1<<uint(t.S.W-2) || t.Op == OSext && t.A[0].S.W < t.S.W }
		return nonneg(a) && nonneg(b) && room(a) && room(b)
	case OIte:
		return nonneg(x.A[1]) && nonneg(x.A[2])
	}
	return false
}

func (c *TermCtx) isNeg(v *fixV) *Term {
	if nonneg(v.x) {
		return c.False
	}
	return c.Cmp(OSlt, v.x, c.BVC(0, v.x.S.W))
}

// sqrtCmp compares roots by their arguments (exact: the roots of different arguments differ by more than an ulp).
func (c *TermCtx) sqrtCmp(op Op, a, b *Term) *Term {
	u, v := c.sqrtArg(a), c.sqrtArg(b)
	if u == nil && v == nil {
		return nil
	}
	guard := c.True
	square := func(t *Term, root *fixV) *fixV { // a constant, compared by its square
		w := c.fix(t)
		if w == nil || !t.IsConst() || t.F() < 0 || 2*w.k > 24 || w.x.S.W > 20 {
			return nil
		}
		n := int64(w.x.C)
		n = n << uint(64-w.x.S.W) >> uint(64-w.x.S.W)
		return &fixV{c.BVC(uint64(n*n), bitsFor(n*n)), 2 * w.k}
	}
	if u != nil {
		guard = c.And(guard, c.Not(c.isNeg(u)))
		if b.IsConst() && (b.F() < 0 || math.IsInf(b.F(), 0)) {
			if b.F() < 0 {
				return c.False // a root is never below or equal to a negative number
			}
			return c.And(guard, c.Bool(op != OFEq))
		}
	} else if u = square(a, v); u == nil {
		if a.IsConst() && a.F() < 0 {
			return c.And(c.Not(c.isNeg(v)), c.Bool(op != OFEq))
		}
		return nil
	}
	if v != nil {
		guard = c.And(guard, c.Not(c.isNeg(v)))
	} else if v = square(b, u); v == nil {
		return nil
	}
	x, y, _, ok := c.align(u, v, 0)
	if !ok || x.S.W > 44 {
		return nil
	}
	var r *Term
	switch op {
	case OFLt:
		r = c.Cmp(OSlt, x, y)
	case OFLe:
		r = c.Cmp(OSle, x, y)
	default:
		r = c.Eq(x, y)
	}
	return c.And(guard, r)
}

// tame: the value is finite or NaN, and far from the overflow threshold.
func (c *TermCtx) tame(t *Term) bool {
	if c.fix(t) != nil {
		return true
	}
	switch t.Op {
	case OFSqrt, OFNeg, OFAbs:
		return c.tame(t.A[0])
	case OFToF:
		return t.S.W == 64 && c.tame(t.A[0])
	case OFMul:
		atom := func(x *Term) bool { return c.fix(x) != nil || x.Op == OFSqrt && c.fix(x.A[0]) != nil }
		return atom(t.A[0]) && atom(t.A[1])
	}
	return false
}

func (c *TermCtx) fixCmp(op Op, a, b *Term) *Term {
	u := c.fix(a)
	if u == nil {
		return nil
	}
	v := c.fix(b)
	if v == nil {
		return nil
	}
	x, y, _, ok := c.align(u, v, 0)
	if !ok {
		return nil
	}
	switch op {
	case OFLt:
		return c.Cmp(OSlt, x, y)
	case OFLe:
		return c.Cmp(OSle, x, y)
	}
	return c.Eq(x, y)
}

// fixToS: truncation to a whole number of a fixed-point value, or of the quotient of two of them (scaled by a power of two).
// The quotient is exact here: a value that is not whole is at least 1/b away from the next whole number, which is more
// than the rounding of the division can bridge for operands this narrow.
func (c *TermCtx) fixToS(a *Term, w int) *Term {
	if v := c.fix(a); v != nil {
		if v.x.S.W-v.k > w {
			return nil
		}
		x := c.Sext(v.x, 63)
		return c.toWidth(c.binop(OSDiv, x, c.BVC(1<<uint(v.k), 63)), w)
	}
	j := 0
	if a.Op == OFMul {
		for i := 0; i < 2; i++ {
			if k := -1; a.A[i].IsConst() {
				if k = pow2(a.A[i].F()); k >= 0 && a.A[1-i].Op == OFDiv {
					j, a = k, a.A[1-i]
					break
				}
			}
		}
	}
	if a.Op != OFDiv || a.S.W != 64 || j > 8 {
		return nil
	}
	u, v := c.fix(a.A[0]), c.fix(a.A[1])
	if u == nil || v == nil {
		return nil
	}
	x, y, _, ok := c.align(u, v, 1)
	if !ok || x.S.W > 21 {
		return nil
	}
	n := x.S.W + j
	num, den := c.binop(OShl, c.Sext(x, n), c.BVC(uint64(j), n)), c.Sext(y, n)
	return c.Ite(c.Eq(den, c.BVC(0, n)), c.BVC(1<<uint(w-1), w), c.toWidth(c.binop(OSDiv, num, den), w))
}

func (c *TermCtx) toWidth(t *Term, w int) *Term {
	if t.S.W > w {
		return c.Extract(t, w-1, 0)
	}
	return c.Sext(t, w)
}
