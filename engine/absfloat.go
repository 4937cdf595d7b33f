package main

import (
	"fmt"
	"math"
	"sort"
)

// Abstraction of quotients of roots (harness directive absfloat). The quotient becomes a fresh float constrained by facts
// that hold for the correctly rounded result: its sign, when it is not NaN, and that two quotients denoting the same real
// number (same whole-number numerator, same radicands below the line) differ by rounding only.

type realV struct {
	num, den []int // ids of the factors of the square of the value
	sgn      []int // factors whose signs multiply to the sign
}

func (c *TermCtx) factors(x *Term) []int {
	for x.Op == OSext || x.Op == OZext {
		x = x.A[0]
	}
	if x.Op == OMul {
		return append(c.factors(x.A[0]), c.factors(x.A[1])...)
	}
	return []int{int(x.id)}
}

func (c *TermCtx) real(t *Term) *realV {
	if v := c.fix(t); v != nil {
		if v.k != 0 {
			return nil
		}
		f := c.factors(v.x)
		return &realV{num: append(append([]int{}, f...), f...), sgn: f}
	}
	switch t.Op {
	case OFToF:
		return c.real(t.A[0])
	case OFSqrt:
		v := c.fix(t.A[0])
		if v == nil || v.k != 0 {
			return nil
		}
		return &realV{num: c.factors(v.x)}
	case OFMul:
		a, b := c.real(t.A[0]), c.real(t.A[1])
		if a == nil || b == nil {
			return nil
		}
		return &realV{append(append([]int{}, a.num...), b.num...), append(append([]int{}, a.den...), b.den...), append(append([]int{}, a.sgn...), b.sgn...)}
	}
	return nil
}

type absQ struct {
	key  string
	a, b *Term
	r    *Term
}

func (p *Path) absDiv(a, b *Term) *Term {
	c := p.w.c
	t := c.FBin(OFDiv, a, b)
	if t.Op != OFDiv || c.fix(t) != nil || b.IsConst() {
		return t
	}
	x, y := c.real(a), c.real(b)
	if x == nil || y == nil || !c.tame(a) || !c.tame(b) {
		return t
	}
	l, _ := p.extra["absdiv"].([]absQ)
	for _, q := range l {
		if q.a == a && q.b == b {
			return q.r
		}
	}
	num, den, sgn := append(append([]int{}, x.num...), y.den...), append(append([]int{}, y.num...), x.den...), append(append([]int{}, x.sgn...), y.sgn...)
	sort.Ints(num)
	sort.Ints(den)
	sort.Ints(sgn)
	key := fmt.Sprint(num, den, sgn)
	r := p.freshVar("quot", FP(t.S.W))
	zero := c.fconst(t.S.W, 0)
	pos := c.FCmp(OFLt, zero, b) // facts are stated for positive divisors only
	imp := func(g, f *Term) { p.assume(c.Or(c.Not(c.And(pos, g)), f)) }
	imp(c.FCmp(OFLt, zero, a), c.FCmp(OFLt, zero, r))
	imp(c.FCmp(OFLt, a, zero), c.FCmp(OFLt, r, zero))
	imp(c.FCmp(OFEq, a, zero), c.FCmp(OFEq, r, zero))
	big := c.fconst(t.S.W, 1<<60)
	imp(c.True, c.And(c.FCmp(OFLe, r, big), c.FCmp(OFLe, c.FNeg(big), r)))
	for _, q := range l {
		if q.key != key {
			continue
		}
		u, v := c.FToF(r, 64), c.FToF(q.r, 64)
		d := c.FAbs(c.FBin(OFSub, u, v))
		imp(c.FCmp(OFLt, c.fconst(q.b.S.W, 0), q.b), c.FCmp(OFLe, d, c.FBin(OFMul, c.FAbs(v), c.F64C(math.Ldexp(1, -18)))))
	}
	p.extra["absdiv"] = append(append([]absQ{}, l...), absQ{key, a, b, r})
	return r
}
