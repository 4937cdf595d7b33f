package main

// Hash-consed SMT terms: booleans, bit-vectors of 1..64 bits and IEEE-754 binary32/64 numbers, with constant
// folding and a segment normal form for byte (de)composition. One TermCtx per worker; not safe for sharing.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type SortKind uint8

const (
	KBool SortKind = iota
	KBV
	KFP
)

type Sort struct {
	K SortKind
	W int
}

var BoolSort = Sort{KBool, 1}

func BV(w int) Sort { return Sort{KBV, w} }
func FP(w int) Sort { return Sort{KFP, w} }

func (s Sort) SMT() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq // structural equality on bool/BV/FP
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat  // A[0] high, A[1] low
	OExtract // C = hi<<8|lo
	OZext
	OSext
	// floating point
	OFFromBits
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFToF  // to other FP width
	OSToF  // signed BV to FP
	OUToF  // unsigned BV to FP
	OFToS  // FP to signed BV (RTZ), only meaningful in range
	OFToU  // FP to unsigned BV (RTZ)
	OFRndZ // round to integral toward zero
	OFFloor
	OFCeil
	OUF // uninterpreted function: Name, args
)

type Term struct {
	Op   Op
	S    Sort
	A    []*Term
	C    uint64
	Name string
	id   int
}

type termKey struct {
	op         Op
	s          Sort
	a0, a1, a2 int
	c          uint64
	name       string
}

type TermCtx struct {
	tab     map[termKey]*Term
	next    int
	vars    []*Term
	ufs     map[string]*Term // uf name -> sample application (for declaration)
	True    *Term
	False   *Term
	size    int
	fixMemo map[*Term]*fixV
	raw     bool // leave byte (de)composition to the solver
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, ufs: map[string]*Term{}, fixMemo: map[*Term]*fixV{}}
	c.True = c.mk(OConst, BoolSort, 1, "")
	c.False = c.mk(OConst, BoolSort, 0, "")
	return c
}

func (c *TermCtx) mk(op Op, s Sort, cv uint64, name string, a ...*Term) *Term {
	k := termKey{op: op, s: s, c: cv, name: name, a0: -1, a1: -1, a2: -1}
	if len(a) > 0 {
		k.a0 = a[0].id
	}
	if len(a) > 1 {
		k.a1 = a[1].id
	}
	if len(a) > 2 {
		k.a2 = a[2].id
	}
	if len(a) > 3 {
		var sb strings.Builder
		sb.WriteString(name)
		for _, x := range a[3:] {
			fmt.Fprintf(&sb, "|%d", x.id)
		}
		k.name = sb.String()
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, S: s, C: cv, Name: name, id: c.next}
	if len(a) > 0 {
		t.A = append([]*Term(nil), a...)
	}
	c.next++
	c.tab[k] = t
	if op == OVar {
		c.vars = append(c.vars, t)
	}
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func signed(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<uint(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.S.K == KBool && t.C == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.S.K == KBool && t.C == 0 }

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) BVC(v uint64, w int) *Term { return c.mk(OConst, BV(w), v&mask(w), "") }
func (c *TermCtx) F64C(f float64) *Term      { return c.mk(OConst, FP(64), math.Float64bits(f), "") }
func (c *TermCtx) F32C(f float32) *Term      { return c.mk(OConst, FP(32), uint64(math.Float32bits(f)), "") }
func (c *TermCtx) FPC(bits uint64, w int) *Term {
	return c.mk(OConst, FP(w), bits&mask(w), "")
}
func (c *TermCtx) Var(name string, s Sort) *Term { return c.mk(OVar, s, 0, name) }

func (t *Term) F() float64 { // value of a constant FP term
	if t.S.W == 32 {
		return float64(math.Float32frombits(uint32(t.C)))
	}
	return math.Float64frombits(t.C)
}

// ---- booleans
func (c *TermCtx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.C == 0)
	}
	if a.Op == ONot {
		return a.A[0]
	}
	return c.mk(ONot, BoolSort, 0, "", a)
}
func (c *TermCtx) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return c.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if (a.Op == ONot && a.A[0] == b) || (b.Op == ONot && b.A[0] == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, BoolSort, 0, "", a, b)
}
func (c *TermCtx) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return c.True
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if (a.Op == ONot && a.A[0] == b) || (b.Op == ONot && b.A[0] == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, BoolSort, 0, "", a, b)
}
func (c *TermCtx) Eq(a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sorts %v %v", a.S, b.S))
	}
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		if a.S.K == KFP && math.IsNaN(a.F()) && math.IsNaN(b.F()) {
			return c.True
		}
		return c.Bool(a.C == b.C)
	}
	if a.S.K == KBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if a.S.K == KBV {
		// push equality with a constant into ite with constant branches
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if a.Op == OIte && (a.A[1].IsConst() || a.A[2].IsConst()) {
				return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
			}
			if a.Op == OZext {
				iw := a.A[0].S.W
				if b.C&^mask(iw) != 0 {
					return c.False
				}
				return c.Eq(a.A[0], c.BVC(b.C, iw))
			}
			if a.Op == OAdd && a.A[1].IsConst() {
				return c.Eq(a.A[0], c.BVC(b.C-a.A[1].C, a.S.W))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, BoolSort, 0, "", a, b)
}
func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.IsTrue() || a == b {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if a.S.K == KBool {
		if a.IsTrue() && b.IsFalse() {
			return g
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(g)
		}
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
	}
	if g.Op == ONot {
		return c.Ite(g.A[0], b, a)
	}
	return c.mk(OIte, a.S, 0, "", g, a, b)
}

// ---- bit-vectors
type seg struct {
	t  *Term // nil: constant c
	lo int   // lowest bit taken from t
	w  int
	c  uint64
}

// segs splits t into segments, least significant first.
func (c *TermCtx) segs(t *Term, out []seg) []seg {
	if c.raw && t.Op != OConst {
		return append(out, seg{t, 0, t.S.W, 0})
	}
	switch t.Op {
	case OConst:
		return append(out, seg{nil, 0, t.S.W, t.C})
	case OConcat:
		out = c.segs(t.A[1], out)
		return c.segs(t.A[0], out)
	case OZext:
		out = c.segs(t.A[0], out)
		return append(out, seg{nil, 0, t.S.W - t.A[0].S.W, 0})
	case OExtract:
		lo := int(t.C & 0xff)
		return append(out, seg{t.A[0], lo, t.S.W, 0})
	}
	return append(out, seg{t, 0, t.S.W, 0})
}

func (c *TermCtx) fromSegs(ss []seg) *Term {
	// merge neighbours
	var m []seg
	for _, s := range ss {
		if s.w == 0 {
			continue
		}
		if n := len(m); n > 0 {
			p := &m[n-1]
			if p.t == nil && s.t == nil && p.w+s.w <= 64 {
				p.c |= s.c << uint(p.w)
				p.w += s.w
				continue
			}
			if p.t != nil && p.t == s.t && p.lo+p.w == s.lo {
				p.w += s.w
				continue
			}
		}
		m = append(m, s)
	}
	var r *Term
	for i, s := range m {
		var x *Term
		if s.t == nil {
			x = c.BVC(s.c, s.w)
		} else if s.lo == 0 && s.w == s.t.S.W {
			x = s.t
		} else {
			x = c.mk(OExtract, BV(s.w), uint64(s.lo+s.w-1)<<8|uint64(s.lo), "", s.t)
		}
		if r == nil {
			r = x
		} else if i == len(m)-1 && s.t == nil && s.c == 0 {
			r = c.mk(OZext, BV(r.S.W+s.w), 0, "", r)
		} else {
			r = c.mk(OConcat, BV(r.S.W+s.w), 0, "", x, r)
		}
	}
	return r
}

func sliceSegs(ss []seg, lo, w int) []seg {
	var out []seg
	pos := 0
	for _, s := range ss {
		a, b := pos, pos+s.w
		pos = b
		x, y := a, b
		if x < lo {
			x = lo
		}
		if y > lo+w {
			y = lo + w
		}
		if x >= y {
			continue
		}
		n := s
		n.w = y - x
		if s.t == nil {
			n.c = (s.c >> uint(x-a)) & mask(n.w)
		} else {
			n.lo = s.lo + (x - a)
		}
		out = append(out, n)
	}
	return out
}

func (c *TermCtx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == t.S.W {
		return t
	}
	if t.Op == OConst {
		return c.BVC(t.C>>uint(lo), w)
	}
	if lo == 0 {
		switch t.Op {
		case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
			// low bits of these depend on low bits only
			if t.Op != OMul || w <= 32 {
				a, b := c.Extract(t.A[0], hi, 0), c.Extract(t.A[1], hi, 0)
				return c.binop(t.Op, a, b)
			}
		case OIte:
			if t.A[1].IsConst() || t.A[2].IsConst() {
				return c.Ite(t.A[0], c.Extract(t.A[1], hi, 0), c.Extract(t.A[2], hi, 0))
			}
		case OSext:
			iw := t.A[0].S.W
			if w <= iw {
				return c.Extract(t.A[0], hi, 0)
			}
			return c.Sext(t.A[0], w)
		}
	}
	return c.fromSegs(sliceSegs(c.segs(t, nil), lo, w))
}
func (c *TermCtx) Concat(hi, lo *Term) *Term {
	ss := c.segs(lo, nil)
	ss = c.segs(hi, ss)
	return c.fromSegs(ss)
}
func (c *TermCtx) Zext(t *Term, w int) *Term {
	if w == t.S.W {
		return t
	}
	if t.IsConst() {
		return c.BVC(t.C, w)
	}
	ss := c.segs(t, nil)
	return c.fromSegs(append(ss, seg{nil, 0, w - t.S.W, 0}))
}
func (c *TermCtx) Sext(t *Term, w int) *Term {
	if w == t.S.W {
		return t
	}
	if t.IsConst() {
		return c.BVC(uint64(signed(t.C, t.S.W)), w)
	}
	if t.Op == OZext {
		return c.Zext(t.A[0], w)
	}
	if t.Op == OSext {
		return c.Sext(t.A[0], w)
	}
	return c.mk(OSext, BV(w), 0, "", t)
}

func (c *TermCtx) binop(op Op, a, b *Term) *Term {
	w := a.S.W
	if a.S != b.S {
		panic(fmt.Sprintf("binop %d sorts %v %v", op, a.S, b.S))
	}
	if a.IsConst() && b.IsConst() {
		x, y := a.C, b.C
		var r uint64
		switch op {
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUDiv:
			if y == 0 {
				r = ^uint64(0)
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv:
			sx, sy := signed(x, w), signed(y, w)
			if sy == 0 {
				if sx < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			} else if sy == -1 {
				r = uint64(-sx)
			} else {
				r = uint64(sx / sy)
			}
		case OSRem:
			sx, sy := signed(x, w), signed(y, w)
			if sy == 0 {
				r = x
			} else if sy == -1 {
				r = 0
			} else {
				r = uint64(sx % sy)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OShl:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x << y
			}
		case OLshr:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x >> y
			}
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			r = uint64(signed(x, w) >> y)
		}
		return c.BVC(r, w)
	}
	switch op {
	case OAdd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.C == 0 {
				return a
			}
			if a.Op == OAdd && a.A[1].IsConst() {
				return c.binop(OAdd, a.A[0], c.BVC(a.A[1].C+b.C, w))
			}
			return c.mk(OAdd, a.S, 0, "", a, b)
		}
		// (x+c)+y -> (x+y)+c
		if a.Op == OAdd && a.A[1].IsConst() {
			return c.binop(OAdd, c.binop(OAdd, a.A[0], b), a.A[1])
		}
		if b.Op == OAdd && b.A[1].IsConst() {
			return c.binop(OAdd, c.binop(OAdd, a, b.A[0]), b.A[1])
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return c.BVC(0, w)
		}
		if b.IsConst() {
			return c.binop(OAdd, a, c.BVC(-b.C, w))
		}
		if a.Op == OAdd && a.A[1].IsConst() {
			return c.binop(OAdd, c.binop(OSub, a.A[0], b), a.A[1])
		}
		if a.Op == OAdd && a.A[0] == b {
			return a.A[1]
		}
		if a.Op == OAdd && a.A[1] == b {
			return a.A[0]
		}
		if b.Op == OAdd && b.A[1].IsConst() {
			return c.binop(OAdd, c.binop(OSub, a, b.A[0]), c.BVC(-b.A[1].C, w))
		}
	case OMul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.C == 0 {
				return b
			}
			if b.C == 1 {
				return a
			}
			if b.C&(b.C-1) == 0 {
				return c.binop(OShl, a, c.BVC(uint64(bits.TrailingZeros64(b.C)), w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUDiv:
		if b.IsConst() && b.C == 1 {
			return a
		}
		if b.IsConst() && b.C != 0 && b.C&(b.C-1) == 0 {
			return c.binop(OLshr, a, c.BVC(uint64(bits.TrailingZeros64(b.C)), w))
		}
	case OURem:
		if b.IsConst() && b.C != 0 && b.C&(b.C-1) == 0 {
			return c.binop(OBAnd, a, c.BVC(b.C-1, w))
		}
	case OSDiv:
		if b.IsConst() && b.C == 1 {
			return a
		}
	case OBAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.IsConst() {
			if b.C == 0 {
				return b
			}
			if b.C == mask(w) {
				return a
			}
			// mask with few runs: slice
			var out []seg
			ss := c.segs(a, nil)
			runs := 0
			for i := 0; i < w; {
				j := i
				bit := b.C >> uint(i) & 1
				for j < w && b.C>>uint(j)&1 == bit {
					j++
				}
				if bit == 0 {
					out = append(out, seg{nil, 0, j - i, 0})
				} else {
					out = append(out, sliceSegs(ss, i, j-i)...)
				}
				runs++
				i = j
			}
			if runs <= 4 {
				return c.fromSegs(out)
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OBOr, OBXor:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return c.BVC(0, w)
		}
		if b.IsConst() && b.C == 0 {
			return a
		}
		if op == OBOr && b.IsConst() && b.C == mask(w) {
			return b
		}
		if r := c.orSegs(a, b); r != nil {
			return r
		}
		if !b.IsConst() && a.id > b.id {
			a, b = b, a
		}
	case OShl, OLshr, OAshr:
		if b.IsConst() {
			k := b.C
			if k == 0 {
				return a
			}
			if op == OAshr {
				if k >= uint64(w) {
					k = uint64(w - 1)
				}
				if a.Op == OZext {
					op = OLshr
				} else {
					return c.mk(OAshr, a.S, 0, "", a, c.BVC(k, w))
				}
			}
			if k >= uint64(w) {
				return c.BVC(0, w)
			}
			ss := c.segs(a, nil)
			if op == OShl {
				out := append([]seg{{nil, 0, int(k), 0}}, sliceSegs(ss, 0, w-int(k))...)
				return c.fromSegs(out)
			}
			out := append(sliceSegs(ss, int(k), w-int(k)), seg{nil, 0, int(k), 0})
			return c.fromSegs(out)
		}
		if a.IsConst() && a.C == 0 {
			return a
		}
	}
	return c.mk(op, a.S, 0, "", a, b)
}

// orSegs merges a|b (or a^b) when the two never overlap in non-zero segments.
func (c *TermCtx) orSegs(a, b *Term) *Term {
	sa, sb := c.segs(a, nil), c.segs(b, nil)
	if len(sa) == 1 && len(sb) == 1 {
		return nil
	}
	var out []seg
	i, j := 0, 0
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		w := x.w
		if y.w < w {
			w = y.w
		}
		take := func(s seg) seg {
			s.w = w
			if s.t == nil {
				s.c &= mask(w)
			}
			return s
		}
		p, q := take(x), take(y)
		switch {
		case p.t == nil && p.c == 0:
			out = append(out, q)
		case q.t == nil && q.c == 0:
			out = append(out, p)
		default:
			return nil
		}
		adv := func(ss []seg, k *int) {
			if ss[*k].w == w {
				*k++
				return
			}
			s := ss[*k]
			s.w -= w
			if s.t == nil {
				s.c >>= uint(w)
			} else {
				s.lo += w
			}
			ss[*k] = s
		}
		adv(sa, &i)
		adv(sb, &j)
	}
	return c.fromSegs(out)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.BVC(^a.C, a.S.W)
	}
	if a.Op == OBNot {
		return a.A[0]
	}
	return c.mk(OBNot, a.S, 0, "", a)
}
func (c *TermCtx) Neg(a *Term) *Term {
	if a.IsConst() {
		return c.BVC(-a.C, a.S.W)
	}
	return c.mk(ONeg, a.S, 0, "", a)
}

func (c *TermCtx) umax(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.C
	case OZext:
		return c.umax(t.A[0])
	case OBAnd:
		a, b := c.umax(t.A[0]), c.umax(t.A[1])
		if b < a {
			return b
		}
		return a
	case OIte:
		a, b := c.umax(t.A[1]), c.umax(t.A[2])
		if a > b {
			return a
		}
		return b
	}
	return mask(t.S.W)
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	w := a.S.W
	if a.S != b.S {
		panic(fmt.Sprintf("cmp sorts %v %v", a.S, b.S))
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OUlt:
			return c.Bool(a.C < b.C)
		case OUle:
			return c.Bool(a.C <= b.C)
		case OSlt:
			return c.Bool(signed(a.C, w) < signed(b.C, w))
		case OSle:
			return c.Bool(signed(a.C, w) <= signed(b.C, w))
		}
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	// signed comparison of two values known non-negative
	if op == OSlt || op == OSle {
		half := uint64(1) << uint(w-1)
		if c.umax(a) < half && c.umax(b) < half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
	}
	if op == OUlt {
		if b.IsConst() && b.C == 0 {
			return c.False
		}
		if a.IsConst() && a.C == mask(w) {
			return c.False
		}
		if b.IsConst() && c.umax(a) < b.C {
			return c.True
		}
		if a.IsConst() && a.C >= c.umax(b) {
			return c.False
		}
	}
	if op == OUle {
		if a.IsConst() && a.C == 0 {
			return c.True
		}
		if b.IsConst() && c.umax(a) <= b.C {
			return c.True
		}
		if a.IsConst() && a.C > c.umax(b) {
			return c.False
		}
	}
	return c.mk(op, BoolSort, 0, "", a, b)
}

// ---- floating point
func (c *TermCtx) FFromBits(b *Term) *Term {
	if b.IsConst() {
		return c.FPC(b.C, b.S.W)
	}
	return c.mk(OFFromBits, FP(b.S.W), 0, "", b)
}

// BitsOf returns the IEEE bits when they are determined syntactically, else nil.
func (c *TermCtx) BitsOf(f *Term) *Term {
	switch f.Op {
	case OConst:
		return c.BVC(f.C, f.S.W)
	case OFFromBits:
		return f.A[0]
	case OIte:
		a, b := c.BitsOf(f.A[1]), c.BitsOf(f.A[2])
		if a != nil && b != nil {
			return c.Ite(f.A[0], a, b)
		}
	case OFNeg:
		if a := c.BitsOf(f.A[0]); a != nil {
			return c.binop(OBXor, a, c.BVC(1<<uint(f.S.W-1), f.S.W))
		}
	case OFAbs:
		if a := c.BitsOf(f.A[0]); a != nil {
			return c.binop(OBAnd, a, c.BVC(mask(f.S.W-1), f.S.W))
		}
	}
	return nil
}

func f32(t *Term) float32 { return math.Float32frombits(uint32(t.C)) }

func (c *TermCtx) fconst(w int, f float64) *Term {
	if w == 32 {
		return c.F32C(float32(f))
	}
	return c.F64C(f)
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic("fbin sorts")
	}
	if a.IsConst() && b.IsConst() {
		if a.S.W == 32 {
			x, y := f32(a), f32(b)
			var r float32
			switch op {
			case OFAdd:
				r = x + y
			case OFSub:
				r = x - y
			case OFMul:
				r = x * y
			case OFDiv:
				r = x / y
			}
			return c.F32C(r)
		}
		x, y := a.F(), b.F()
		var r float64
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return c.F64C(r)
	}
	if t := c.fixBin(op, a, b); t != nil {
		return t
	}
	one := func(t *Term) bool { return t.IsConst() && t.F() == 1 }
	switch op {
	case OFMul:
		if one(a) {
			return b
		}
		if one(b) {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OFDiv:
		if one(b) {
			return a
		}
	case OFAdd:
		// x + (-0) = x
		if b.IsConst() && b.F() == 0 && math.Signbit(b.F()) {
			return a
		}
		if a.IsConst() && a.F() == 0 && math.Signbit(a.F()) {
			return b
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OFSub:
		if b.IsConst() && b.F() == 0 && !math.Signbit(b.F()) {
			return a
		}
	}
	return c.mk(op, a.S, 0, "", a, b)
}
func (c *TermCtx) FNeg(a *Term) *Term {
	if a.IsConst() {
		return c.FPC(a.C^(1<<uint(a.S.W-1)), a.S.W)
	}
	return c.mk(OFNeg, a.S, 0, "", a)
}
func (c *TermCtx) FAbs(a *Term) *Term {
	if a.IsConst() {
		return c.FPC(a.C&mask(a.S.W-1), a.S.W)
	}
	if a.Op == OFAbs || a.Op == OFNeg {
		return c.FAbs(a.A[0])
	}
	if v := c.fix(a); v != nil {
		w := v.x.S.W + 1
		x := c.Sext(v.x, w)
		if t := c.mkFix(c.Ite(c.Cmp(OSlt, x, c.BVC(0, w)), c.Neg(x), x), v.k, a.S.W); t != nil {
			return t
		}
	}
	// |x-y| is symmetric
	if a.Op == OFSub && a.A[0].id > a.A[1].id {
		return c.mk(OFAbs, a.S, 0, "", c.mk(OFSub, a.S, 0, "", a.A[1], a.A[0]))
	}
	return c.mk(OFAbs, a.S, 0, "", a)
}
func (c *TermCtx) FSqrt(a *Term) *Term {
	if a.IsConst() {
		if a.S.W == 32 {
			return c.F32C(float32(math.Sqrt(float64(f32(a)))))
		}
		return c.F64C(math.Sqrt(a.F()))
	}
	if v := c.fix(a); v != nil && v.k%2 == 0 {
		x := v.x
		for x.Op == OSext {
			x = x.A[0]
		}
		if x.Op == OMul && nonneg(x) { // the root of a square
			y := c.Sext(x.A[0].A[0], x.A[0].A[0].S.W+1)
			if t := c.mkFix(c.Ite(c.Cmp(OSlt, y, c.BVC(0, y.S.W)), c.Neg(y), y), v.k/2, a.S.W); t != nil {
				return t
			}
		}
	}
	return c.mk(OFSqrt, a.S, 0, "", a)
}
func (c *TermCtx) FRound(op Op, a *Term) *Term {
	if a.IsConst() {
		switch op {
		case OFRndZ:
			return c.fconst(a.S.W, math.Trunc(a.F()))
		case OFFloor:
			return c.fconst(a.S.W, math.Floor(a.F()))
		case OFCeil:
			return c.fconst(a.S.W, math.Ceil(a.F()))
		}
	}
	return c.mk(op, a.S, 0, "", a)
}
func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.F(), b.F()
		switch op {
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		case OFEq:
			return c.Bool(x == y)
		}
	}
	if a == b {
		switch op {
		case OFLt:
			return c.False
		default:
			return c.Not(c.FIsNaN(a))
		}
	}
	if t := c.fixCmp(op, a, b); t != nil {
		return t
	}
	if t := c.sqrtCmp(op, a, b); t != nil {
		return t
	}
	// comparison of two widened float32 is the float32 comparison
	if a.Op == OFToF && b.Op == OFToF && a.A[0].S == b.A[0].S && a.S.W == 64 {
		return c.FCmp(op, a.A[0], b.A[0])
	}
	if a.Op == OFToF && a.S.W == 64 && b.IsConst() && float64(float32(b.F())) == b.F() {
		return c.FCmp(op, a.A[0], c.F32C(float32(b.F())))
	}
	if b.Op == OFToF && b.S.W == 64 && a.IsConst() && float64(float32(a.F())) == a.F() {
		return c.FCmp(op, c.F32C(float32(a.F())), b.A[0])
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, BoolSort, 0, "", a, b)
}
func (c *TermCtx) FIsNaN(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(math.IsNaN(a.F()))
	}
	if c.fix(a) != nil {
		return c.False
	}
	switch a.Op {
	case OFToF, OFNeg, OFAbs:
		return c.FIsNaN(a.A[0])
	case OSToF, OUToF:
		return c.False
	case OFSqrt:
		if v := c.fix(a.A[0]); v != nil {
			return c.isNeg(v)
		}
	case OFMul:
		if c.tame(a) {
			return c.Or(c.FIsNaN(a.A[0]), c.FIsNaN(a.A[1]))
		}
	case OFDiv:
		if c.tame(a.A[0]) && c.tame(a.A[1]) {
			z := c.fconst(a.S.W, 0)
			return c.Or(c.Or(c.FIsNaN(a.A[0]), c.FIsNaN(a.A[1])), c.And(c.FCmp(OFEq, a.A[0], z), c.FCmp(OFEq, a.A[1], z)))
		}
	}
	return c.mk(OFIsNaN, BoolSort, 0, "", a)
}
func (c *TermCtx) FIsInf(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(math.IsInf(a.F(), 0))
	}
	if c.fix(a) != nil {
		return c.False
	}
	return c.mk(OFIsInf, BoolSort, 0, "", a)
}
func (c *TermCtx) FToF(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.IsConst() {
		return c.fconst(w, a.F())
	}
	if v := c.fix(a); v != nil {
		if t := c.mkFix(v.x, v.k, w); t != nil {
			return t
		}
	}
	if w == 32 && a.Op == OFToF && a.A[0].S.W == 32 {
		return a.A[0]
	}
	if a.Op == OFNeg {
		return c.FNeg(c.FToF(a.A[0], w))
	}
	if a.Op == OFAbs {
		return c.FAbs(c.FToF(a.A[0], w))
	}
	return c.mk(OFToF, FP(w), 0, "", a)
}
func (c *TermCtx) IntToF(a *Term, sgn bool, w int) *Term {
	if a.IsConst() {
		if sgn {
			v := signed(a.C, a.S.W)
			if w == 32 {
				return c.F32C(float32(v))
			}
			return c.F64C(float64(v))
		}
		if w == 32 {
			return c.F32C(float32(a.C))
		}
		return c.F64C(float64(a.C))
	}
	// narrow the operand: conversion of an extended value
	if a.Op == OSext && sgn {
		return c.IntToF(a.A[0], true, w)
	}
	if a.Op == OZext {
		return c.IntToF(a.A[0], false, w)
	}
	op := OUToF
	if sgn {
		op = OSToF
	}
	return c.mk(op, FP(w), 0, "", a)
}

// FToInt models amd64 behaviour: out-of-range and NaN give 0x8000.. for signed; for unsigned see interp.
func (c *TermCtx) FToS(a *Term, w int) *Term {
	if a.IsConst() {
		f := a.F()
		lim := math.Ldexp(1, w-1)
		if f != f || f >= lim || f < -lim {
			return c.BVC(1<<uint(w-1), w)
		}
		return c.BVC(uint64(int64(f)), w)
	}
	if t := c.fixToS(a, w); t != nil {
		return t
	}
	return c.mk(OFToS, BV(w), 0, "", a)
}
func (c *TermCtx) FToU(a *Term, w int) *Term {
	if a.IsConst() {
		f := a.F()
		lim := math.Ldexp(1, w)
		if f != f || f >= lim || f <= -1 {
			return c.BVC(1<<uint(w-1), w)
		}
		return c.BVC(uint64(f), w)
	}
	return c.mk(OFToU, BV(w), 0, "", a)
}
func (c *TermCtx) UF(name string, s Sort, args ...*Term) *Term {
	t := c.mk(OUF, s, 0, name, args...)
	if _, ok := c.ufs[name]; !ok {
		c.ufs[name] = t
	}
	return t
}

// ---- printing
var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite"}

func fpSort(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) head() string {
	switch t.Op {
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.C>>8, t.C&0xff)
	case OZext:
		return fmt.Sprintf("(_ zero_extend %d)", t.S.W-t.A[0].S.W)
	case OSext:
		return fmt.Sprintf("(_ sign_extend %d)", t.S.W-t.A[0].S.W)
	case OFFromBits:
		return fmt.Sprintf("(_ to_fp %s)", fpSort(t.S.W))
	case OFAdd:
		return "fp.add RNE"
	case OFSub:
		return "fp.sub RNE"
	case OFMul:
		return "fp.mul RNE"
	case OFDiv:
		return "fp.div RNE"
	case OFSqrt:
		return "fp.sqrt RNE"
	case OFRndZ:
		return "fp.roundToIntegral RTZ"
	case OFFloor:
		return "fp.roundToIntegral RTN"
	case OFCeil:
		return "fp.roundToIntegral RTP"
	case OFToF, OSToF:
		return fmt.Sprintf("(_ to_fp %s) RNE", fpSort(t.S.W))
	case OUToF:
		return fmt.Sprintf("(_ to_fp_unsigned %s) RNE", fpSort(t.S.W))
	case OFToS:
		return fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.S.W)
	case OFToU:
		return fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.S.W)
	case OUF:
		return "|" + t.Name + "|"
	}
	return opSMT[t.Op]
}

func (t *Term) atom() string {
	switch t.Op {
	case OConst:
		switch t.S.K {
		case KBool:
			if t.C == 1 {
				return "true"
			}
			return "false"
		case KBV:
			if t.S.W%4 == 0 {
				return fmt.Sprintf("#x%0*x", t.S.W/4, t.C)
			}
			return fmt.Sprintf("#b%0*b", t.S.W, t.C)
		}
		if t.S.W == 32 {
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.C)
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.C)
	case OVar:
		return "|" + t.Name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t.Op == OConst && t.S.K == KFP {
		return fmt.Sprint(t.F())
	}
	if t.Op == OConst && t.S.K == KBV {
		return fmt.Sprint(t.C)
	}
	if t.Op == OConst || t.Op == OVar {
		return t.atom()
	}
	if d > 6 {
		return "..."
	}
	var sb strings.Builder
	sb.WriteString("(" + t.head())
	for _, a := range t.A {
		sb.WriteString(" " + a.str(d+1))
	}
	sb.WriteString(")")
	return sb.String()
}

// ---- evaluation under a model of the variables (absent variables are 0). ok=false when a UF is met.
type Model map[string]uint64

func (c *TermCtx) Eval(t *Term, m Model, memo map[*Term]*Term) *Term {
	switch t.Op {
	case OConst:
		return t
	case OVar:
		v := m[t.Name]
		return c.mk(OConst, t.S, v&mask(t.S.W), "")
	}
	if r, ok := memo[t]; ok {
		return r
	}
	a := make([]*Term, len(t.A))
	for i, x := range t.A {
		a[i] = c.Eval(x, m, memo)
		if a[i] == nil || !a[i].IsConst() {
			memo[t] = nil
			return nil
		}
	}
	r := c.Rebuild(t, a)
	memo[t] = r
	return r
}

func (c *TermCtx) Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a[0], a[1])
	case OOr:
		return c.Or(a[0], a[1])
	case OEq:
		return c.Eq(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		return c.binop(t.Op, a[0], a[1])
	case OBNot:
		return c.BNot(a[0])
	case ONeg:
		return c.Neg(a[0])
	case OUlt, OUle, OSlt, OSle:
		return c.Cmp(t.Op, a[0], a[1])
	case OConcat:
		return c.Concat(a[0], a[1])
	case OExtract:
		return c.Extract(a[0], int(t.C>>8), int(t.C&0xff))
	case OZext:
		return c.Zext(a[0], t.S.W)
	case OSext:
		return c.Sext(a[0], t.S.W)
	case OFFromBits:
		return c.FFromBits(a[0])
	case OFAdd, OFSub, OFMul, OFDiv:
		return c.FBin(t.Op, a[0], a[1])
	case OFNeg:
		return c.FNeg(a[0])
	case OFAbs:
		return c.FAbs(a[0])
	case OFSqrt:
		return c.FSqrt(a[0])
	case OFLt, OFLe, OFEq:
		return c.FCmp(t.Op, a[0], a[1])
	case OFIsNaN:
		return c.FIsNaN(a[0])
	case OFIsInf:
		return c.FIsInf(a[0])
	case OFToF:
		return c.FToF(a[0], t.S.W)
	case OSToF:
		return c.IntToF(a[0], true, t.S.W)
	case OUToF:
		return c.IntToF(a[0], false, t.S.W)
	case OFToS:
		return c.FToS(a[0], t.S.W)
	case OFToU:
		return c.FToU(a[0], t.S.W)
	case OFRndZ, OFFloor, OFCeil:
		return c.FRound(t.Op, a[0])
	}
	return nil
}
