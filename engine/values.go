package main

// Symbolic-program values and memory. Aggregates are flattened into slots; a pointer is an object plus slot offset.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Obj struct {
	slots []Value
	typ   types.Type // element type for arrays behind slices, else the variable's type
	id    int
	base  bool // created during package initialisation: restored after each path
	saved bool
	owner int // goroutine that allocated it
	site  ssa.Instruction
	lazy  types.Type // element type for lazily grown backing arrays
	name  string
	nShared bool
}

type Ptr struct {
	o    *Obj
	off  int
	view types.Type // non-nil: reached through unsafe.Pointer as pointer to this type
	vk   int8       // header view component: 1 data, 2 len, 3 cap (of the slice or string in slot off)
}

func (p Ptr) IsNil() bool { return p.o == nil }

// SymPtr points at element idx of a run of n one-slot elements.
type SymPtr struct {
	o   *Obj
	off int
	n   int
	idx *Term
}

type Slice struct {
	o        *Obj
	off      int // slot offset of element 0
	len, cap int
	esz      int
}

// Str is a string: concrete, symbolic bytes, or an alias of memory (unsafe conversions).
type Str struct {
	s   string
	t   []*Term
	o   *Obj
	off int
	n   int
}

type Iface struct {
	t types.Type
	v Value
}

type Agg []Value // struct or array value, flattened
type Tuple []Value

type Fn struct {
	fn   *ssa.Function
	env  []Value
	host func(p *Path, fr *Frame, args []Value) Value
	name string
	blt  *ssa.Builtin
}

type MapObj struct {
	keys, vals []Value
	kt, vt     types.Type
	idx        map[string]int // concrete keys
	symKeys    int
	id         int
	base       bool
	saved      bool
	owner      int
	site       ssa.Instruction
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	et     types.Type
	id     int
}

// UPtr is a uintptr obtained from a pointer/slice/string data word.
type UPtr struct {
	p Ptr
}

// ---- layout
type layout struct {
	n    int
	offs []int // struct field offsets
}

func (w *Worker) layout(t types.Type) *layout {
	if l, ok := w.lay[t]; ok {
		return l
	}
	l := &layout{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l.offs = append(l.offs, l.n)
			l.n += w.layout(u.Field(i).Type()).n
		}
	case *types.Array:
		l.n = int(u.Len()) * w.layout(u.Elem()).n
	case *types.Tuple:
		l.n = u.Len()
	default:
		l.n = 1
	}
	w.lay[t] = l
	return l
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func intWidth(b *types.Basic) (w int, sgn bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func (w *Worker) zeroSlots(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = w.zeroSlots(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return out
		}
		st := len(out)
		out = w.zeroSlots(u.Elem(), out)
		es := len(out) - st
		for i := 1; i < n; i++ {
			out = append(out, out[st:st+es]...)
		}
		return out
	}
	return append(out, w.zero1(t))
}

func (w *Worker) zero1(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return w.c.False
		case u.Info()&types.IsInteger != 0:
			n, _ := intWidth(u)
			return w.c.BVC(0, n)
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				return w.c.F32C(0)
			}
			return w.c.F64C(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Info()&types.IsComplex != 0:
			return Tuple{w.c.F64C(0), w.c.F64C(0)}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Fn)(nil)
	case *types.TypeParam:
		return Iface{}
	}
	panic(unsupported("zero value of " + t.String()))
}

func (w *Worker) zero(t types.Type) Value {
	if tu, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tu.Len())
		for i := range r {
			r[i] = w.zero(tu.At(i).Type())
		}
		return r
	}
	if isAgg(t) {
		return Agg(w.zeroSlots(t, nil))
	}
	return w.zero1(t)
}

// ---- strings
func (s Str) Len() int {
	if s.o != nil {
		return s.n
	}
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}

func (w *Worker) strByte(s Str, i int) *Term {
	if s.o != nil {
		return w.byteSlot(s.o, s.off+i)
	}
	if s.t != nil {
		return s.t[i]
	}
	return w.byteC[s.s[i]]
}

func (w *Worker) byteSlot(o *Obj, i int) *Term {
	if i >= len(o.slots) {
		return w.byteC[0]
	}
	return o.slots[i].(*Term)
}

func (w *Worker) strTerms(s Str) []*Term {
	n := s.Len()
	r := make([]*Term, n)
	for i := range r {
		r[i] = w.strByte(s, i)
	}
	return r
}

func (w *Worker) strConcrete(s Str) (string, bool) {
	if s.o == nil && s.t == nil {
		return s.s, true
	}
	n := s.Len()
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		t := w.strByte(s, i)
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.C)
	}
	return string(b), true
}

func mkStr(ts []*Term) Str {
	for _, t := range ts {
		if !t.IsConst() {
			return Str{t: ts}
		}
	}
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.C)
	}
	return Str{s: string(b)}
}

func (w *Worker) substr(s Str, lo, hi int) Str {
	if s.o != nil {
		return Str{o: s.o, off: s.off + lo, n: hi - lo}
	}
	if s.t != nil {
		if lo == hi {
			return Str{}
		}
		return mkStr(s.t[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (w *Worker) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return w.c.False
	}
	if a.o == nil && b.o == nil && a.t == nil && b.t == nil {
		return w.c.Bool(a.s == b.s)
	}
	r := w.c.True
	n := a.Len()
	for i := 0; i < n; i++ {
		e := w.c.Eq(w.strByte(a, i), w.strByte(b, i))
		if e.IsFalse() {
			return e
		}
		r = w.c.And(r, e)
	}
	return r
}

// strLess is the lexicographic order as a term.
func (w *Worker) strLess(a, b Str, orEq bool) *Term {
	if x, ok := w.strConcrete(a); ok {
		if y, ok := w.strConcrete(b); ok {
			if orEq {
				return w.c.Bool(x <= y)
			}
			return w.c.Bool(x < y)
		}
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := w.c.Bool(a.Len() < b.Len() || (orEq && a.Len() == b.Len()))
	for i := n - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = w.c.Or(w.c.Cmp(OUlt, x, y), w.c.And(w.c.Eq(x, y), r))
	}
	return r
}

// keyString gives a canonical text for concrete map keys.
func (w *Worker) keyString(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() {
			return fmt.Sprintf("t%d:%d", x.S.W, x.C), x.S.K != KFP
		}
		return "", false
	case Str:
		if x.o != nil {
			return "", false // may change under us
		}
		s, ok := w.strConcrete(x)
		return "s" + s, ok
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		s, ok := w.keyString(x.v)
		return "i" + x.t.String() + ":" + s, ok
	case Ptr:
		if x.o == nil {
			return "p0", true
		}
		return fmt.Sprintf("p%d+%d", x.o.id, x.off), true
	case *Chan:
		if x == nil {
			return "c0", true
		}
		return fmt.Sprintf("c%d", x.id), true
	case Agg:
		var sb strings.Builder
		for _, e := range x {
			s, ok := w.keyString(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	}
	return "", false
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

// eq compares two values of the same static type.
func (p *Path) eq(a, b Value) *Term {
	w := p.w
	c := w.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			if u, ok := b.(UPtr); ok {
				if x.IsConst() && x.C == 0 {
					return c.Bool(u.p.o == nil)
				}
				return c.False
			}
			panic(unsupported(fmt.Sprintf("eq term/%T", b)))
		}
		if x.S.K == KFP {
			return c.FCmp(OFEq, x, y)
		}
		return c.Eq(x, y)
	case Str:
		return w.strEq(x, b.(Str))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return c.False
		}
		return c.Bool(x.o == y.o && x.off == y.off && x.vk == y.vk)
	case UPtr:
		if y, ok := b.(UPtr); ok {
			return c.Bool(x.p.o == y.p.o && x.p.off == y.p.off)
		}
		return p.eq(b, a)
	case SymPtr:
		if y, ok := b.(SymPtr); ok && x.o == y.o && x.off == y.off {
			return c.Eq(x.idx, y.idx)
		}
		if y, ok := b.(Ptr); ok && y.o == nil {
			return c.False
		}
		panic(unsupported("comparison of symbolic element pointers"))
	case Slice:
		y := b.(Slice)
		if x.o == nil || y.o == nil { // comparison with nil only
			return c.Bool(x.o == nil && y.o == nil)
		}
		panic(unsupported("slice comparison"))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("eq iface/%T", b)))
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			p.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return p.eq(x.v, y.v)
	case *MapObj:
		return c.Bool(x == b.(*MapObj))
	case *Chan:
		return c.Bool(x == b.(*Chan))
	case *Fn:
		y := b.(*Fn)
		return c.Bool(x == nil && y == nil)
	case Agg:
		y := b.(Agg)
		r := c.True
		for i := range x {
			r = c.And(r, p.eq(x[i], y[i]))
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("eq of %T", a)))
}

// ---- maps
func (p *Path) mapSave(m *MapObj) {
	if m.base && !m.saved && !p.w.initing {
		m.saved = true
		ks := append([]Value(nil), m.keys...)
		vs := append([]Value(nil), m.vals...)
		ix := map[string]int{}
		for k, v := range m.idx {
			ix[k] = v
		}
		sk := m.symKeys
		p.undo = append(p.undo, func() { m.keys, m.vals, m.idx, m.symKeys, m.saved = ks, vs, ix, sk, false })
	}
}

func (p *Path) newMap(kt, vt types.Type) *MapObj {
	p.w.nextID++
	return &MapObj{kt: kt, vt: vt, idx: map[string]int{}, id: p.w.nextID, base: p.w.initing, owner: p.gid()}
}

// mapFind returns the index of k, forking on symbolic key equality; -1 if absent.
func (p *Path) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	if i, ok := k.(Iface); ok && i.t != nil {
		switch i.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			p.goPanicStr("runtime error: hash of unhashable type " + i.t.String())
		}
	}
	if ks, ok := p.w.keyString(k); ok {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if m.symKeys == 0 {
			return -1
		}
		for i, e := range m.keys {
			if _, ok := p.w.keyString(e); ok {
				continue
			}
			if p.branch(p.eq(e, k)) {
				return i
			}
		}
		return -1
	}
	for i, e := range m.keys {
		if p.branch(p.eq(e, k)) {
			return i
		}
	}
	return -1
}

func (p *Path) mapSet(m *MapObj, k, v Value) {
	p.mapSave(m)
	if i := p.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	if ks, ok := p.w.keyString(k); ok {
		m.idx[ks] = len(m.keys)
	} else {
		m.symKeys++
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (p *Path) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	p.mapSave(m)
	p.mapDelAt(m, i)
}

func (p *Path) mapDelAt(m *MapObj, i int) {
	m.keys = append(append([]Value(nil), m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]Value(nil), m.vals[:i]...), m.vals[i+1:]...)
	m.idx = map[string]int{}
	m.symKeys = 0
	for j, k := range m.keys {
		if ks, ok := p.w.keyString(k); ok {
			m.idx[ks] = j
		} else {
			m.symKeys++
		}
	}
}

// ---- memory
func (p *Path) newObj(t types.Type, slots []Value) *Obj {
	p.w.nextID++
	return &Obj{slots: slots, typ: t, id: p.w.nextID, base: p.w.initing, owner: p.gid()}
}

func (p *Path) saveObj(o *Obj) {
	if o.base && !o.saved && !p.w.initing {
		o.saved = true
		cp := append([]Value(nil), o.slots...)
		p.undo = append(p.undo, func() { o.slots = cp; o.saved = false })
	}
}

func (p *Path) grow(o *Obj, n int) {
	if n <= len(o.slots) {
		return
	}
	if o.lazy == nil {
		panic(unsupported("access beyond object"))
	}
	z := p.w.zeroSlots(o.lazy, nil)
	for len(o.slots) < n {
		o.slots = append(o.slots, z...)
	}
}

func (p *Path) nilDeref() {
	p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

func (p *Path) load(t types.Type, pv Value) Value {
	switch a := pv.(type) {
	case Ptr:
		if a.o == nil {
			p.nilDeref()
		}
		if a.view != nil {
			return p.loadView(t, a)
		}
		if isAgg(t) {
			n := p.w.layout(t).n
			p.grow(a.o, a.off+n)
			return Agg(append([]Value(nil), a.o.slots[a.off:a.off+n]...))
		}
		p.grow(a.o, a.off+1)
		return a.o.slots[a.off]
	case SymPtr:
		p.grow(a.o, a.off+a.n)
		r := a.o.slots[a.off+a.n-1].(*Term)
		for i := a.n - 2; i >= 0; i-- {
			r = p.w.c.Ite(p.w.c.Eq(a.idx, p.w.c.BVC(uint64(i), 64)), a.o.slots[a.off+i].(*Term), r)
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("load through %T", pv)))
}

func (p *Path) store(t types.Type, pv Value, v Value) {
	switch a := pv.(type) {
	case Ptr:
		if a.o == nil {
			p.nilDeref()
		}
		if a.view != nil {
			p.storeView(t, a, v)
			return
		}
		p.saveObj(a.o)
		if g, ok := v.(Agg); ok && isAgg(t) {
			p.grow(a.o, a.off+len(g))
			copy(a.o.slots[a.off:], g)
			return
		}
		p.grow(a.o, a.off+1)
		a.o.slots[a.off] = v
		return
	case SymPtr:
		p.saveObj(a.o)
		p.grow(a.o, a.off+a.n)
		nv := v.(*Term)
		for i := 0; i < a.n; i++ {
			a.o.slots[a.off+i] = p.w.c.Ite(p.w.c.Eq(a.idx, p.w.c.BVC(uint64(i), 64)), nv, a.o.slots[a.off+i].(*Term))
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", pv)))
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// loadView loads a value of type t through a pointer whose memory holds something else.
func (p *Path) loadView(t types.Type, a Ptr) Value {
	w := p.w
	c := w.c
	p.grow(a.o, a.off+1)
	sv := a.o.slots[a.off]
	if a.vk != 0 { // header component
		switch x := sv.(type) {
		case Slice:
			switch a.vk {
			case 1:
				return UPtr{Ptr{o: x.o, off: x.off}}
			case 2:
				return c.BVC(uint64(x.len), 64)
			case 3:
				return c.BVC(uint64(x.cap), 64)
			}
		case Str:
			switch a.vk {
			case 1:
				so := p.strObj(x)
				return UPtr{Ptr{o: so.o, off: so.off}}
			case 2:
				return c.BVC(uint64(x.Len()), 64)
			}
		}
		panic(unsupported("header view of " + fmt.Sprintf("%T", sv)))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch x := sv.(type) {
			case Str:
				return x
			case Slice:
				if x.len == 0 {
					return Str{}
				}
				return Str{o: x.o, off: x.off, n: x.len}
			case UPtr: // a StringHeader
				n := p.concretize(a.o.slots[a.off+1].(*Term), "string header length")
				if n == 0 {
					return Str{}
				}
				return Str{o: x.p.o, off: x.p.off, n: int(n)}
			case *Term:
				n := p.concretize(a.o.slots[a.off+1].(*Term), "string header length")
				if n == 0 {
					return Str{}
				}
			}
		}
		if st, ok := sv.(*Term); ok {
			if u.Info()&types.IsFloat != 0 {
				if st.S.K == KFP {
					return st
				}
				want := 64
				if u.Kind() == types.Float32 {
					want = 32
				}
				if st.S.W == want {
					return c.FFromBits(st)
				}
			}
			if u.Info()&types.IsInteger != 0 {
				want, _ := intWidth(u)
				if st.S.K == KFP && st.S.W == want {
					return p.bitsOf(st)
				}
				if st.S.K == KBV && st.S.W == want {
					return st
				}
				if st.S.K == KBV && st.S.W < want && want%st.S.W == 0 { // wide little-endian read over byte elements
					n := want / st.S.W
					r := st
					for i := 1; i < n; i++ {
						r = c.Concat(a.o.slots[a.off+i].(*Term), r)
					}
					return r
				}
				if st.S.K == KBool && want == 8 {
					return c.Ite(st, c.BVC(1, 8), c.BVC(0, 8))
				}
			}
			if u.Info()&types.IsBoolean != 0 && st.S.K == KBV {
				return c.Not(c.Eq(st, c.BVC(0, st.S.W)))
			}
		}
		if u.Kind() == types.UnsafePointer {
			switch x := sv.(type) {
			case Ptr:
				return x
			case UPtr:
				return x.p
			}
		}
	case *types.Slice:
		switch x := sv.(type) {
		case Slice:
			return x
		case Str:
			so := p.strObj(x)
			return Slice{o: so.o, off: so.off, len: so.n, cap: so.n, esz: 1}
		case UPtr:
			n := p.concretize(a.o.slots[a.off+1].(*Term), "slice header length")
			cp := n
			if a.off+2 < len(a.o.slots) {
				if ct, ok := a.o.slots[a.off+2].(*Term); ok {
					cp = p.concretize(ct, "slice header cap")
				}
			}
			return Slice{o: x.p.o, off: x.p.off, len: int(n), cap: int(cp), esz: w.layout(u.Elem()).n}
		}
	case *types.Pointer:
		switch x := sv.(type) {
		case Ptr:
			return x
		case UPtr:
			return x.p
		}
	case *types.Struct, *types.Array:
		n := w.layout(t).n
		if a.off+n <= len(a.o.slots) {
			return Agg(append([]Value(nil), a.o.slots[a.off:a.off+n]...))
		}
	}
	panic(unsupported(fmt.Sprintf("unsafe load of %s from %T", t, sv)))
}

func (p *Path) storeView(t types.Type, a Ptr, v Value) {
	p.saveObj(a.o)
	c := p.w.c
	sv := a.o.slots[a.off]
	if a.vk != 0 {
		switch x := sv.(type) {
		case Slice:
			switch a.vk {
			case 1:
				if u, ok := v.(UPtr); ok {
					x.o, x.off = u.p.o, u.p.off
					if x.esz == 0 {
						x.esz = 1
					}
					a.o.slots[a.off] = x
					return
				}
			case 2:
				x.len = int(p.concretize(v.(*Term), "slice header length"))
				a.o.slots[a.off] = x
				return
			case 3:
				x.cap = int(p.concretize(v.(*Term), "slice header cap"))
				a.o.slots[a.off] = x
				return
			}
		case Str:
			switch a.vk {
			case 1:
				if u, ok := v.(UPtr); ok {
					a.o.slots[a.off] = Str{o: u.p.o, off: u.p.off, n: x.Len()}
					return
				}
			case 2:
				n := int(p.concretize(v.(*Term), "string header length"))
				if x.o != nil {
					x.n = n
					a.o.slots[a.off] = x
					return
				}
			}
		}
		panic(unsupported("header store"))
	}
	if nv, ok := v.(*Term); ok {
		if st, ok := sv.(*Term); ok {
			switch {
			case st.S == nv.S:
				a.o.slots[a.off] = nv
				return
			case st.S.K == KFP && nv.S.K == KBV && st.S.W == nv.S.W:
				a.o.slots[a.off] = c.FFromBits(nv)
				return
			case st.S.K == KBV && nv.S.K == KFP && st.S.W == nv.S.W:
				a.o.slots[a.off] = p.bitsOf(nv)
				return
			case st.S.K == KBV && nv.S.K == KBV && nv.S.W%st.S.W == 0 && nv.S.W > st.S.W:
				n := nv.S.W / st.S.W
				for i := 0; i < n; i++ {
					a.o.slots[a.off+i] = c.Extract(nv, (i+1)*st.S.W-1, i*st.S.W)
				}
				return
			}
		}
	}
	switch v.(type) {
	case Str, Slice, Ptr:
		a.o.slots[a.off] = v
		return
	}
	if g, ok := v.(Agg); ok && a.off+len(g) <= len(a.o.slots) {
		copy(a.o.slots[a.off:], g)
		return
	}
	panic(unsupported(fmt.Sprintf("unsafe store of %s over %T", t, sv)))
}

// strObj gives a string that lives in memory.
func (p *Path) strObj(s Str) Str {
	if s.o != nil {
		return s
	}
	n := s.Len()
	sl := make([]Value, n)
	for i := range sl {
		sl[i] = p.w.strByte(s, i)
	}
	o := p.newObj(types.Typ[types.Uint8], sl)
	return Str{o: o, off: 0, n: n}
}

// bitsOf returns the bits of an FP term; for computed values a fresh vector tied by a constraint.
func (p *Path) bitsOf(f *Term) *Term {
	if b := p.w.c.BitsOf(f); b != nil {
		return b
	}
	if b, ok := p.fpBits[f]; ok {
		return b
	}
	b := p.freshVar("fpbits", BV(f.S.W))
	p.fpBits[f] = b
	p.assume(p.w.c.Eq(p.w.c.FFromBits(b), f))
	return b
}

func (p *Path) bytesSlice(ts []*Term) Slice {
	sl := make([]Value, len(ts))
	for i, t := range ts {
		sl[i] = t
	}
	return Slice{o: p.newObj(types.Typ[types.Uint8], sl), len: len(sl), cap: len(sl), esz: 1}
}

func (p *Path) sliceTerms(s Slice) []*Term {
	r := make([]*Term, s.len)
	for i := range r {
		p.grow(s.o, s.off+i+1)
		r[i] = s.o.slots[s.off+i].(*Term)
	}
	return r
}
