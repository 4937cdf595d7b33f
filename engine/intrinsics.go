package main

// Hand-written models ("intrinsics") for the runtime, synchronisation, clock, logging, formatting and a few
// reflection-based library functions. Everything else is interpreted from source.

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/tidwall/gjson"
	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value

type HostObj struct {
	kind string
	data map[string]interface{}
}

var noIntr intrinsicFn

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) intrinsic(fn *ssa.Function) intrinsicFn {
	if v, ok := e.intrCache.Load(fn); ok {
		return v.(intrinsicFn)
	}
	k := fnKey(fn)
	var r intrinsicFn
	if f, ok := intrinsics[k]; ok {
		r = f
	} else if p := fnPkg(fn); p != nil {
		switch p.Pkg.Path() {
		case "log":
			r = noop
			if strings.Contains(fn.Name(), "Fatal") || strings.Contains(fn.Name(), "Panic") {
				r = func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
					p.goPanicStr(fn.String() + " called")
					return nil
				}
			}
			if fn.Parent() != nil {
				r = nil
			}
		case "internal/race", "internal/asan", "internal/msan":
			r = noop
		}
	}
	e.intrCache.Store(fn, r)
	return r
}

func noop(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	return p.w.zeroResults(fn.Signature)
}

func (p *Path) i64(v int64) *Term  { return p.w.c.BVC(uint64(v), 64) }
func (p *Path) tbool(b bool) *Term { return p.w.c.Bool(b) }

func (p *Path) hostMethod(i Iface, name string) *Fn {
	ho, ok := i.v.(*HostObj)
	if !ok {
		return nil
	}
	m, ok := hostMethods[ho.kind+"."+name]
	if !ok {
		panic(unsupported("method " + name + " of host object " + ho.kind))
	}
	return &Fn{name: ho.kind + "." + name, host: m}
}

var hostMethods map[string]func(p *Path, fr *Frame, args []Value) Value

func (p *Path) hk(v Value, kind string) hostKey {
	a, ok := v.(Ptr)
	if !ok {
		panic(unsupported(fmt.Sprintf("%s on %T", kind, v)))
	}
	if a.o == nil {
		p.nilDeref()
	}
	return hostKey{a.o, a.off, kind}
}

// ---- sync
type mutexSt struct {
	w        bool
	r        int
	waitingW int
	owner    int
}

func (p *Path) mutex(v Value) *mutexSt {
	k := p.hk(v, "mutex")
	m, ok := p.host[k].(*mutexSt)
	if !ok {
		m = &mutexSt{}
		p.host[k] = m
	}
	return m
}

func lockMutex(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	p.yield("lock")
	m := p.mutex(a[0])
	for m.w || m.r > 0 {
		m.waitingW++
		p.block(func() bool { return !m.w && m.r == 0 }, "mutex")
		m.waitingW--
	}
	m.w = true
	m.owner = p.cur.id
	return nil
}

func unlockMutex(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	m := p.mutex(a[0])
	if !m.w {
		p.goPanicStr("fatal error: sync: unlock of unlocked mutex")
	}
	m.w = false
	p.yield("unlock")
	return nil
}

func tryLock(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	p.yield("trylock")
	m := p.mutex(a[0])
	if m.w || m.r > 0 {
		return p.w.c.False
	}
	m.w = true
	return p.w.c.True
}

func rlock(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	p.yield("rlock")
	m := p.mutex(a[0])
	for m.w || m.waitingW > 0 {
		p.block(func() bool { return !m.w && m.waitingW == 0 }, "rwmutex (read)")
	}
	m.r++
	return nil
}

func runlock(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	m := p.mutex(a[0])
	if m.r <= 0 {
		p.goPanicStr("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	p.yield("runlock")
	return nil
}

type wgSt struct{ n int64 }

func (p *Path) wg(v Value) *wgSt {
	k := p.hk(v, "wg")
	m, ok := p.host[k].(*wgSt)
	if !ok {
		m = &wgSt{}
		p.host[k] = m
	}
	return m
}

func wgAdd(p *Path, v Value, d int64) {
	p.yield("wg.add")
	m := p.wg(v)
	m.n += d
	if m.n < 0 {
		p.goPanicStr("sync: negative WaitGroup counter")
	}
}

// sync.Map
func (p *Path) smap(v Value) *MapObj {
	k := p.hk(v, "smap")
	m, ok := p.host[k].(*MapObj)
	if !ok {
		m = p.newMap(anyType, anyType)
		p.host[k] = m
	}
	return m
}

var anyType = types.NewInterfaceType(nil, nil)

// sync.Pool
type poolSt struct{ items []Value }

func (p *Path) fieldOff(t types.Type, name string) (int, types.Type) {
	st := t.Underlying().(*types.Struct)
	l := p.w.layout(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return l.offs[i], st.Field(i).Type()
		}
	}
	panic(unsupported("field " + name + " of " + t.String()))
}

func recvElem(fn *ssa.Function) types.Type {
	return fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
}

// ---- atomics on memory
func atomicLoad(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	p.yield("atomic")
	return p.load(fn.Signature.Results().At(0).Type(), a[0])
}
func atomicStore(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	p.yield("atomic")
	p.store(fn.Signature.Params().At(1).Type(), a[0], a[1])
	return nil
}
func atomicAdd(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	p.yield("atomic")
	t := fn.Signature.Params().At(1).Type()
	v := p.w.c.binop(OAdd, p.load(t, a[0]).(*Term), a[1].(*Term))
	p.store(t, a[0], v)
	return v
}
func atomicSwap(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	p.yield("atomic")
	t := fn.Signature.Params().At(1).Type()
	v := p.load(t, a[0])
	p.store(t, a[0], a[1])
	return v
}
func atomicCAS(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
	p.yield("atomic")
	t := fn.Signature.Params().At(1).Type()
	if p.branch(p.eq(p.load(t, a[0]), a[1])) {
		p.store(t, a[0], a[2])
		return p.w.c.True
	}
	return p.w.c.False
}

// ---- errors / strings
func (p *Path) conStr(v Value, what string) string {
	s, ok := p.w.strConcrete(v.(Str))
	if !ok {
		panic(unsupported("symbolic string in " + what))
	}
	return s
}

// str2terms / host string helpers used where bytes may be symbolic
func (p *Path) indexStr(hay, needle []*Term) int {
	c := p.w.c
	for i := 0; i+len(needle) <= len(hay); i++ {
		m := c.True
		for j := range needle {
			m = c.And(m, c.Eq(hay[i+j], needle[j]))
			if m.IsFalse() {
				break
			}
		}
		if p.branch(m) {
			return i
		}
	}
	return -1
}

func (p *Path) terms(v Value) []*Term {
	switch x := v.(type) {
	case Str:
		return p.w.strTerms(x)
	case Slice:
		return p.sliceTerms(x)
	}
	panic(unsupported(fmt.Sprintf("bytes of %T", v)))
}

// ---- formatting
// symText encodes a symbolic number injectively as text (16 letters per 64 bits).
func (p *Path) symText(t *Term) []*Term {
	c := p.w.c
	if t.S.K == KFP {
		t = p.bitsOf(t)
	}
	if t.S.K == KBool {
		t = c.Ite(t, c.BVC(1, 8), c.BVC(0, 8))
	}
	out := []*Term{c.BVC(1, 8), c.BVC(uint64(t.S.W), 8)}
	for i := t.S.W/4 - 1; i >= 0; i-- {
		n := c.Zext(c.Extract(t, i*4+3, i*4), 8)
		out = append(out, c.binop(OAdd, n, c.BVC('a', 8)))
	}
	return out
}

func (p *Path) textTerms(s string) []*Term {
	r := make([]*Term, len(s))
	for i := range r {
		r[i] = p.w.byteC[s[i]]
	}
	return r
}

func (p *Path) fmtValue(fr *Frame, v Value, verb byte, depth int) []*Term {
	if depth > 6 {
		return p.textTerms("...")
	}
	i, isI := v.(Iface)
	if isI {
		if i.t == nil {
			if verb == 's' || verb == 'd' {
				return p.textTerms("%!" + string(verb) + "(<nil>)")
			}
			return p.textTerms("<nil>")
		}
		// error / Stringer
		if verb == 'v' || verb == 's' {
			if _, host := i.v.(*HostObj); !host {
				for _, mn := range []string{"Error", "String"} {
					if m := p.methodByName(i.t, mn); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
						if pk := fnPkg(m); pk != nil && strings.HasSuffix(pk.Pkg.Path(), "/veriservice") {
							return p.textTerms("{message}")
						}
						if pt, ok := i.v.(Ptr); ok && pt.o == nil {
							return p.textTerms("<nil>")
						}
						r := p.callSSA(fr, m, []Value{i.v}, nil)
						return p.w.strTerms(r.(Str))
					}
				}
			}
		}
		return p.fmtTyped(fr, i.t, i.v, verb, depth)
	}
	panic(unsupported("formatting of a non-interface"))
}

func (p *Path) fmtTyped(fr *Frame, t types.Type, v Value, verb byte, depth int) []*Term {
	switch x := v.(type) {
	case Str:
		if verb == 'q' {
			s, ok := p.w.strConcrete(x)
			if ok {
				return p.textTerms(strconv.Quote(s))
			}
		}
		return p.w.strTerms(x)
	case *Term:
		if !x.IsConst() {
			return p.symText(x)
		}
		if x.S.K == KBool {
			return p.textTerms(strconv.FormatBool(x.C == 1))
		}
		if x.S.K == KFP {
			return p.textTerms(fmt.Sprintf("%v", x.F()))
		}
		b, _ := t.Underlying().(*types.Basic)
		if b != nil {
			if _, sgn := intWidth(b); sgn {
				if verb == 'x' {
					return p.textTerms(strconv.FormatInt(signed(x.C, x.S.W), 16))
				}
				return p.textTerms(strconv.FormatInt(signed(x.C, x.S.W), 10))
			}
		}
		if verb == 'x' {
			return p.textTerms(strconv.FormatUint(x.C, 16))
		}
		return p.textTerms(strconv.FormatUint(x.C, 10))
	case Slice:
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			break
		}
		if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
			return p.sliceTerms(x)
		}
		if x.len > 200 {
			return p.textTerms("[...]")
		}
		out := p.textTerms("[")
		es := p.w.layout(st.Elem()).n
		for k := 0; k < x.len; k++ {
			if k > 0 {
				out = append(out, p.w.byteC[' '])
			}
			ev := p.load(st.Elem(), Ptr{o: x.o, off: x.off + k*es})
			if ei, ok := ev.(Iface); ok {
				out = append(out, p.fmtValue(fr, ei, verb, depth+1)...)
			} else {
				out = append(out, p.fmtTyped(fr, st.Elem(), ev, verb, depth+1)...)
			}
		}
		return append(out, p.w.byteC[']'])
	case Ptr:
		if x.o == nil {
			return p.textTerms("<nil>")
		}
		return p.textTerms(fmt.Sprintf("0xc%08x", x.o.id*64+x.off*8))
	}
	return p.textTerms("{" + t.String() + "}")
}

func (p *Path) sprintf(fr *Frame, format string, args []Value) []*Term {
	var out []*Term
	k := 0
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' {
			out = append(out, p.w.byteC[ch])
			continue
		}
		i++
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			out = append(out, p.textTerms("%!(NOVERB)")...)
			break
		}
		flags := format[st:i]
		verb := format[i]
		if verb == '%' {
			out = append(out, p.w.byteC['%'])
			continue
		}
		if k >= len(args) {
			out = append(out, p.textTerms("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		a := args[k]
		k++
		if verb == 'w' {
			verb = 'v'
		}
		if flags != "" && flags != "+" && flags != "#" {
			if it, ok := a.(Iface); ok {
				if t, ok := it.v.(*Term); ok && t.IsConst() && t.S.K == KBV {
					out = append(out, p.textTerms(fmt.Sprintf("%"+flags+string(verb), signed(t.C, t.S.W)))...)
					continue
				}
				if t, ok := it.v.(*Term); ok && t.IsConst() && t.S.K == KFP {
					out = append(out, p.textTerms(fmt.Sprintf("%"+flags+string(verb), t.F()))...)
					continue
				}
			}
		}
		if verb == 'T' {
			out = append(out, p.textTerms(fmt.Sprint(a.(Iface).t))...)
			continue
		}
		out = append(out, p.fmtValue(fr, a, verb, 0)...)
	}
	if k < len(args) {
		out = append(out, p.textTerms("%!(EXTRA)")...)
	}
	return out
}

func (p *Path) variadic(v Value) []Value {
	s := v.(Slice)
	r := make([]Value, s.len)
	for i := range r {
		p.grow(s.o, s.off+i+1)
		r[i] = s.o.slots[s.off+i]
	}
	return r
}

func (p *Path) sprint(fr *Frame, args []Value, ln bool) []*Term {
	var out []*Term
	for i, a := range args {
		if i > 0 && ln {
			out = append(out, p.w.byteC[' '])
		}
		out = append(out, p.fmtValue(fr, a, 'v', 0)...)
	}
	if ln {
		out = append(out, p.w.byteC['\n'])
	}
	return out
}

// ---- copying
func (p *Path) deepCopy(t types.Type, v Value, memo map[*Obj]*Obj) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := v.(Agg)
		out := append(Agg(nil), a...)
		l := p.w.layout(t)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := p.w.layout(ft).n
			if isAgg(ft) {
				if n > 0 {
					copy(out[l.offs[i]:l.offs[i]+n], p.deepCopy(ft, Agg(a[l.offs[i]:l.offs[i]+n]), memo).(Agg))
				}
			} else {
				out[l.offs[i]] = p.deepCopy(ft, a[l.offs[i]], memo)
			}
		}
		return out
	case *types.Pointer:
		x, ok := v.(Ptr)
		if !ok || x.o == nil {
			return v
		}
		if o, ok := memo[x.o]; ok && x.off == 0 {
			return Ptr{o: o}
		}
		cv := p.load(u.Elem(), Ptr{o: x.o, off: x.off})
		o := p.newObj(u.Elem(), nil)
		if x.off == 0 {
			memo[x.o] = o
		}
		d := p.deepCopy(u.Elem(), cv, memo)
		if g, ok := d.(Agg); ok {
			o.slots = append([]Value(nil), g...)
		} else {
			o.slots = []Value{d}
		}
		return Ptr{o: o}
	case *types.Slice:
		x := v.(Slice)
		if x.o == nil {
			return x
		}
		es := p.w.layout(u.Elem()).n
		p.grow(x.o, x.off+x.len*es)
		o := p.newObj(u.Elem(), nil)
		for i := 0; i < x.len; i++ {
			ev := p.deepCopy(u.Elem(), p.load(u.Elem(), Ptr{o: x.o, off: x.off + i*es}), memo)
			if g, ok := ev.(Agg); ok {
				o.slots = append(o.slots, g...)
			} else {
				o.slots = append(o.slots, ev)
			}
		}
		return Slice{o: o, len: x.len, cap: x.len, esz: es}
	}
	return v
}

type condSt struct{ waiting []*bool }

// deepEqual is reflect.DeepEqual, or proto.Equal (message: unexported bookkeeping is left out, nil and empty are the same).
func (p *Path) deepEqual(t types.Type, a, b Value, message bool, depth int) *Term {
	c := p.w.c
	if depth > 40 {
		panic(unsupported("deep equality of a deep structure"))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		l := p.w.layout(t)
		r := c.True
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if message && !f.Exported() {
				continue
			}
			n := p.w.layout(f.Type()).n
			if isAgg(f.Type()) {
				r = c.And(r, p.deepEqual(f.Type(), Agg(x[l.offs[i]:l.offs[i]+n]), Agg(y[l.offs[i]:l.offs[i]+n]), message, depth+1))
			} else {
				r = c.And(r, p.deepEqual(f.Type(), x[l.offs[i]], y[l.offs[i]], message, depth+1))
			}
		}
		return r
	case *types.Pointer:
		x, ok1 := a.(Ptr)
		y, ok2 := b.(Ptr)
		if !ok1 || !ok2 {
			return p.eq(a, b)
		}
		if x.o == nil || y.o == nil || x.o == y.o && x.off == y.off {
			return c.Bool(x.o == y.o && x.off == y.off)
		}
		return p.deepEqual(u.Elem(), p.load(u.Elem(), x), p.load(u.Elem(), y), message, depth+1)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if !message && (x.o == nil) != (y.o == nil) || x.len != y.len {
			return c.False
		}
		es := p.w.layout(u.Elem()).n
		r := c.True
		for i := 0; i < x.len; i++ {
			p.grow(x.o, x.off+x.len*es)
			p.grow(y.o, y.off+y.len*es)
			r = c.And(r, p.deepEqual(u.Elem(), p.load(u.Elem(), Ptr{o: x.o, off: x.off + i*es}), p.load(u.Elem(), Ptr{o: y.o, off: y.off + i*es}), message, depth+1))
		}
		return r
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return p.deepEqual(x.t, x.v, y.v, message, depth+1)
	case *types.Map, *types.Array:
		panic(unsupported("deep equality of " + t.String()))
	}
	if x, ok := a.(*Term); ok && message && x.S.K == KFP {
		return c.Or(p.eq(a, b), c.And(c.FIsNaN(x), c.FIsNaN(b.(*Term))))
	}
	return p.eq(a, b)
}

// copierCopy follows jinzhu/copier's Copy for pointers to structs of one type.
func (p *Path) copierCopy(a []Value) Value {
	to, from := a[0].(Iface), a[1].(Iface)
	tp, ok1 := to.v.(Ptr)
	if !ok1 || tp.o == nil {
		return p.newError("copy to value is unaddressable")
	}
	tt := to.t.Underlying().(*types.Pointer).Elem()
	var src Agg
	ft := from.t
	if from.t == nil {
		return Iface{}
	}
	if fpt, ok := ft.Underlying().(*types.Pointer); ok {
		fp := from.v.(Ptr)
		if fp.o == nil {
			return Iface{}
		}
		ft = fpt.Elem()
		src = p.load(ft, fp).(Agg)
	} else {
		src = from.v.(Agg)
	}
	fst, ok1 := ft.Underlying().(*types.Struct)
	tst, ok2 := tt.Underlying().(*types.Struct)
	if !ok1 || !ok2 {
		panic(unsupported("copier.Copy of non-structs"))
	}
	fl, tl := p.w.layout(ft), p.w.layout(tt)
	for i := 0; i < fst.NumFields(); i++ {
		f := fst.Field(i)
		if !f.Exported() {
			continue
		}
		for j := 0; j < tst.NumFields(); j++ {
			g := tst.Field(j)
			if g.Name() != f.Name() {
				continue
			}
			if !types.Identical(f.Type(), g.Type()) {
				panic(unsupported("copier.Copy between different field types"))
			}
			dst := Ptr{o: tp.o, off: tp.off + tl.offs[j]}
			n := p.w.layout(f.Type()).n
			if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
				sp := src[fl.offs[i]].(Ptr)
				if sp.o == nil {
					p.store(f.Type(), dst, Ptr{})
					continue
				}
				dp := p.load(f.Type(), dst).(Ptr)
				if dp.o == nil {
					dp = Ptr{o: p.newObj(pt.Elem(), p.w.zeroSlots(pt.Elem(), nil))}
					p.store(f.Type(), dst, dp)
				}
				p.store(pt.Elem(), dp, p.load(pt.Elem(), sp))
				continue
			}
			if isAgg(f.Type()) {
				p.store(f.Type(), dst, Agg(append([]Value(nil), src[fl.offs[i]:fl.offs[i]+n]...)))
			} else {
				p.store(f.Type(), dst, src[fl.offs[i]])
			}
		}
	}
	return Iface{}
}

// ---- JSON (structs of scalars, strings, byte/string slices)
func jsonName(st *types.Struct, i int) (name string, omit, skip bool) {
	f := st.Field(i)
	if !f.Exported() {
		return "", false, true
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	parts := strings.Split(tag, ",")
	if tag == "-" {
		return "", false, true
	}
	name = f.Name()
	if parts[0] != "" {
		name = parts[0]
	}
	for _, o := range parts[1:] {
		if o == "omitempty" {
			omit = true
		}
	}
	return
}

func (p *Path) jsonEnc(t types.Type, v Value) (out []*Term, err bool) {
	c := p.w.c
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x := v.(Ptr)
		if x.o == nil {
			return p.textTerms("null"), false
		}
		return p.jsonEnc(u.Elem(), p.load(u.Elem(), x))
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return p.textTerms("null"), false
		}
		return p.jsonEnc(i.t, i.v)
	case *types.Struct:
		a := v.(Agg)
		l := p.w.layout(t)
		out = p.textTerms("{")
		first := true
		for i := 0; i < u.NumFields(); i++ {
			name, omit, skip := jsonName(u, i)
			if skip {
				continue
			}
			ft := u.Field(i).Type()
			var fv Value
			if isAgg(ft) {
				fv = Agg(a[l.offs[i] : l.offs[i]+p.w.layout(ft).n])
			} else {
				fv = a[l.offs[i]]
			}
			if omit && p.jsonEmpty(fv) {
				continue
			}
			e, bad := p.jsonEnc(ft, fv)
			if bad {
				return nil, true
			}
			if !first {
				out = append(out, p.w.byteC[','])
			}
			first = false
			out = append(out, p.textTerms(strconv.Quote(name)+":")...)
			out = append(out, e...)
		}
		return append(out, p.w.byteC['}']), false
	case *types.Slice:
		x := v.(Slice)
		if x.o == nil {
			return p.textTerms("null"), false
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			panic(unsupported("json of []byte"))
		}
		out = p.textTerms("[")
		es := p.w.layout(u.Elem()).n
		for k := 0; k < x.len; k++ {
			if k > 0 {
				out = append(out, p.w.byteC[','])
			}
			e, bad := p.jsonEnc(u.Elem(), p.load(u.Elem(), Ptr{o: x.o, off: x.off + k*es}))
			if bad {
				return nil, true
			}
			out = append(out, e...)
		}
		return append(out, p.w.byteC[']']), false
	case *types.Basic:
		switch x := v.(type) {
		case Str:
			if s, ok := p.w.strConcrete(x); ok {
				return p.textTerms(jsonQuote(s)), false
			}
			// symbolic text: length-prefixed letters (injective)
			out = []*Term{c.BVC(2, 8), c.BVC(uint64(x.Len()), 8)}
			for _, b := range p.w.strTerms(x) {
				out = append(out, c.binop(OAdd, c.Zext(c.Extract(b, 7, 4), 8), c.BVC('a', 8)), c.binop(OAdd, c.Zext(c.Extract(b, 3, 0), 8), c.BVC('a', 8)))
			}
			return out, false
		case *Term:
			if x.S.K == KFP {
				bad := c.Or(c.FIsNaN(x), c.FIsInf(x))
				if p.branch(bad) {
					return nil, true
				}
			}
			if x.IsConst() {
				return p.fmtTyped(nil, t, v, 'v', 0), false
			}
			return p.symText(x), false
		}
	}
	panic(unsupported("json of " + t.String()))
}

func (p *Path) jsonEmpty(v Value) bool {
	c := p.w.c
	switch x := v.(type) {
	case *Term:
		switch x.S.K {
		case KBool:
			return !p.branch(x)
		case KFP:
			return p.branch(c.FCmp(OFEq, x, c.fconst(x.S.W, 0)))
		}
		return p.branch(c.Eq(x, c.BVC(0, x.S.W)))
	case Str:
		return x.Len() == 0
	case Slice:
		return x.len == 0
	case Ptr:
		return x.o == nil
	case Iface:
		return x.t == nil
	}
	return false
}

type jsonStreamState struct {
	end Iface // writer or reader
	in  []*Term
	pos int
	err Iface
	bad bool
}

type jsonDec struct {
	p   *Path
	in  []*Term
	pos int
	bad bool
}

func (d *jsonDec) peek() (byte, bool) {
	if d.pos >= len(d.in) {
		return 0, false
	}
	t := d.in[d.pos]
	if !t.IsConst() {
		t2 := d.p.concretize(t, "json text")
		return byte(t2), true
	}
	return byte(t.C), true
}
func (d *jsonDec) ws() {
	for {
		b, ok := d.peek()
		if !ok || (b != ' ' && b != '\n' && b != '\t' && b != '\r') {
			return
		}
		d.pos++
	}
}

// jsonValue is a parsed value: string, number text, raw symbolic, object, array, bool or null.
type jsonValue struct {
	kind byte // 's','n','S' (symbolic string),'N' (symbolic number bits),'o','a','t','f','0'
	s    string
	ts   []*Term
	bits *Term
	keys []string
	vals []*jsonValue
}

func (d *jsonDec) value() *jsonValue {
	c := d.p.w.c
	d.ws()
	b, ok := d.peek()
	if !ok {
		d.bad = true
		return nil
	}
	nib := func(t *Term) *Term { return c.Extract(c.binop(OSub, t, c.BVC('a', 8)), 3, 0) }
	switch {
	case b == 1: // symbolic number
		if d.pos+2 > len(d.in) {
			d.bad = true
			return nil
		}
		w := int(d.in[d.pos+1].C)
		d.pos += 2
		if d.pos+w/4 > len(d.in) {
			d.bad = true
			return nil
		}
		var r *Term
		for i := 0; i < w/4; i++ {
			n := nib(d.in[d.pos+i])
			if r == nil {
				r = n
			} else {
				r = c.Concat(r, n)
			}
		}
		d.pos += w / 4
		return &jsonValue{kind: 'N', bits: r}
	case b == 2:
		if d.pos+2 > len(d.in) {
			d.bad = true
			return nil
		}
		n := int(d.in[d.pos+1].C)
		d.pos += 2
		if d.pos+2*n > len(d.in) {
			d.bad = true
			return nil
		}
		var ts []*Term
		for i := 0; i < n; i++ {
			ts = append(ts, c.Concat(nib(d.in[d.pos+2*i]), nib(d.in[d.pos+2*i+1])))
		}
		d.pos += 2 * n
		return &jsonValue{kind: 'S', ts: ts}
	case b == '"':
		st := d.pos
		d.pos++
		for {
			x, ok := d.peek()
			if !ok {
				d.bad = true
				return nil
			}
			d.pos++
			if x == '\\' {
				d.pos++
			}
			if x == '"' {
				break
			}
		}
		if d.pos > len(d.in) {
			d.bad = true
			return nil
		}
		raw := d.text(st, d.pos)
		s, ok := jsonUnquote(raw)
		if !ok {
			d.bad = true
			return nil
		}
		return &jsonValue{kind: 's', s: s}
	case b == '{' || b == '[':
		d.pos++
		v := &jsonValue{kind: 'o'}
		end := byte('}')
		if b == '[' {
			v.kind = 'a'
			end = ']'
		}
		d.ws()
		if x, ok := d.peek(); ok && x == end {
			d.pos++
			return v
		}
		for {
			if v.kind == 'o' {
				k := d.value()
				if d.bad || k == nil || k.kind != 's' {
					d.bad = true
					return nil
				}
				d.ws()
				if x, ok := d.peek(); !ok || x != ':' {
					d.bad = true
					return nil
				}
				d.pos++
				v.keys = append(v.keys, k.s)
			}
			e := d.value()
			if d.bad {
				return nil
			}
			v.vals = append(v.vals, e)
			d.ws()
			x, ok := d.peek()
			if !ok {
				d.bad = true
				return nil
			}
			d.pos++
			if x == end {
				return v
			}
			if x != ',' {
				d.bad = true
				return nil
			}
		}
	}
	st := d.pos
	for {
		x, ok := d.peek()
		if !ok || strings.IndexByte("+-.0123456789eEtruefalsn", x) < 0 {
			break
		}
		d.pos++
	}
	t := d.text(st, d.pos)
	switch t {
	case "true":
		return &jsonValue{kind: 't'}
	case "false":
		return &jsonValue{kind: 'f'}
	case "null":
		return &jsonValue{kind: '0'}
	}
	if !gjson.Valid(t) {
		d.bad = true
		return nil
	}
	return &jsonValue{kind: 'n', s: t}
}

func (d *jsonDec) text(a, b int) string {
	var sb strings.Builder
	for i := a; i < b && i < len(d.in); i++ {
		sb.WriteByte(byte(d.p.concretize(d.in[i], "json text")))
	}
	return sb.String()
}

// jsonInto stores v through dst; false on a type mismatch.
func (p *Path) jsonInto(t types.Type, dst Ptr, v *jsonValue) bool {
	c := p.w.c
	if v.kind == '0' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			p.store(t, dst, p.w.zero(t))
		}
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.kind != 'o' {
			return false
		}
		l := p.w.layout(t)
		ok := true
		for k, key := range v.keys {
			fi := -1
			for i := 0; i < u.NumFields(); i++ {
				n, _, skip := jsonName(u, i)
				if skip {
					continue
				}
				if n == key || (fi < 0 && strings.EqualFold(n, key)) {
					fi = i
				}
			}
			if fi < 0 {
				continue
			}
			if !p.jsonInto(u.Field(fi).Type(), Ptr{o: dst.o, off: dst.off + l.offs[fi]}, v.vals[k]) {
				ok = false
			}
		}
		return ok
	case *types.Slice:
		if v.kind != 'a' {
			return false
		}
		es := p.w.layout(u.Elem()).n
		o := p.newObj(u.Elem(), nil)
		for range v.vals {
			o.slots = p.w.zeroSlots(u.Elem(), o.slots)
		}
		p.store(t, dst, Slice{o: o, len: len(v.vals), cap: len(v.vals), esz: es})
		ok := true
		for i, e := range v.vals {
			if !p.jsonInto(u.Elem(), Ptr{o: o, off: i * es}, e) {
				ok = false
			}
		}
		return ok
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch v.kind {
			case 's':
				p.store(t, dst, Str{s: v.s})
				return true
			case 'S':
				p.store(t, dst, mkStr(v.ts))
				return true
			}
			return false
		case u.Info()&types.IsBoolean != 0:
			switch v.kind {
			case 't', 'f':
				p.store(t, dst, c.Bool(v.kind == 't'))
				return true
			case 'N':
				p.store(t, dst, c.Not(c.Eq(v.bits, c.BVC(0, v.bits.S.W))))
				return true
			}
			return false
		case u.Info()&types.IsInteger != 0:
			n, sgn := intWidth(u)
			switch v.kind {
			case 'n':
				if sgn {
					x, err := strconv.ParseInt(v.s, 10, n)
					if err != nil {
						return false
					}
					p.store(t, dst, c.BVC(uint64(x), n))
					return true
				}
				x, err := strconv.ParseUint(v.s, 10, n)
				if err != nil {
					return false
				}
				p.store(t, dst, c.BVC(x, n))
				return true
			case 'N':
				if v.bits.S.W != n {
					return false
				}
				p.store(t, dst, v.bits)
				return true
			}
			return false
		case u.Info()&types.IsFloat != 0:
			w := 64
			if u.Kind() == types.Float32 {
				w = 32
			}
			switch v.kind {
			case 'n':
				x, err := strconv.ParseFloat(v.s, w)
				if err != nil {
					return false
				}
				p.store(t, dst, c.fconst(w, x))
				return true
			case 'N':
				if v.bits.S.W != w {
					return false
				}
				p.store(t, dst, c.FFromBits(v.bits))
				return true
			}
			return false
		}
	}
	panic(unsupported("json into " + t.String()))
}

func (p *Path) errOrNil(bad bool, text string) Iface {
	if bad {
		return p.newError(text)
	}
	return Iface{}
}

// gjson.Result as an interpreted struct value
func (p *Path) gjsonResult(t types.Type, r gjson.Result) Value {
	a := Agg(p.w.zeroSlots(t, nil))
	st := t.Underlying().(*types.Struct)
	l := p.w.layout(t)
	for i := 0; i < st.NumFields(); i++ {
		o := l.offs[i]
		switch st.Field(i).Name() {
		case "Type":
			a[o] = p.i64(int64(r.Type))
		case "Raw":
			a[o] = Str{s: r.Raw}
		case "Str":
			a[o] = Str{s: r.Str}
		case "Num":
			a[o] = p.w.c.F64C(r.Num)
		case "Index":
			a[o] = p.i64(int64(r.Index))
		}
	}
	return a
}

func isNaNBits(f float64) bool { return math.IsNaN(f) }
