package main

// The SSA interpreter: executes go/ssa instructions of the real code over symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	p       *Path
	g       *G
	fn      *ssa.Function
	fi      *finfo
	env     []Value
	caller  *Frame
	defers  []deferred
	result  Value
	panics  bool
	pval    *goPanic
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	curInst ssa.Instruction
	depth   int
	tolerant bool
}

type deferred struct {
	fn   Value
	call *ssa.CallCommon
	args []Value
	recv Value
	instr *ssa.Defer
}

type goPanic struct {
	v     Value // interface value
	rt    string
	trace string
	exit  bool // runtime.Goexit
}

// finfo: register numbering of a function
type finfo struct {
	idx map[ssa.Value]int
	n   int
}

func (w *Worker) finfo(fn *ssa.Function) *finfo {
	if f, ok := w.fis[fn]; ok {
		return f
	}
	f := &finfo{idx: map[ssa.Value]int{}}
	for _, x := range fn.Params {
		f.idx[x] = f.n
		f.n++
	}
	for _, x := range fn.FreeVars {
		f.idx[x] = f.n
		f.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				f.idx[v] = f.n
				f.n++
			}
		}
	}
	w.fis[fn] = f
	return f
}

func (p *Path) goPanicStr(msg string) {
	panic(&goPanic{v: Iface{t: p.w.eng.rtErrType(), v: Str{s: msg}}, rt: msg, trace: p.stackTrace()})
}

func (p *Path) stackTrace() string {
	if p.cur == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for f := p.cur.top; f != nil && n < 14; f = f.caller {
		pos := ""
		if f.curInst != nil {
			if ps := f.curInst.Pos(); ps.IsValid() {
				po := p.w.eng.prog.Fset.Position(ps)
				pos = fmt.Sprintf("%s:%d", shortPath(po.Filename), po.Line)
			}
		}
		fmt.Fprintf(&sb, "  %s %s\n", f.fn.String(), pos)
		n++
	}
	return sb.String()
}

func shortPath(s string) string {
	if i := strings.LastIndex(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	if i := strings.LastIndex(s, "/mod/"); i >= 0 {
		return s[i+5:]
	}
	return s
}

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.p.w.constant(x)
	case *ssa.Global:
		return Ptr{o: fr.p.global(x)}
	case *ssa.Function:
		return fr.p.w.fnVal(x)
	case *ssa.Builtin:
		return &Fn{blt: x, name: x.Name()}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		panic(unsupported("no register for " + v.Name()))
	}
	return fr.env[i]
}

func (w *Worker) fnVal(f *ssa.Function) *Fn {
	if r, ok := w.fnvals[f]; ok {
		return r
	}
	r := &Fn{fn: f, name: f.String()}
	w.fnvals[f] = r
	return r
}

func (w *Worker) constant(x *ssa.Const) Value {
	if v, ok := w.consts[x]; ok {
		return v
	}
	var v Value
	t := x.Type()
	if x.Value == nil {
		v = w.zero(t)
	} else if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			v = w.c.Bool(constant.BoolVal(x.Value))
		case b.Info()&types.IsInteger != 0:
			n, _ := intWidth(b)
			iv := constant.ToInt(x.Value)
			if i, ok := constant.Int64Val(iv); ok {
				v = w.c.BVC(uint64(i), n)
			} else if u, ok := constant.Uint64Val(iv); ok {
				v = w.c.BVC(u, n)
			} else {
				panic(unsupported("constant " + x.String()))
			}
		case b.Info()&types.IsFloat != 0:
			if b.Kind() == types.Float32 {
				f, _ := constant.Float32Val(constant.ToFloat(x.Value))
				v = w.c.F32C(f)
			} else {
				f, _ := constant.Float64Val(constant.ToFloat(x.Value))
				v = w.c.F64C(f)
			}
		case b.Info()&types.IsString != 0:
			if x.Value.Kind() == constant.String {
				v = Str{s: constant.StringVal(x.Value)}
			} else {
				i, _ := constant.Int64Val(x.Value)
				v = Str{s: string(rune(i))}
			}
		case b.Kind() == types.UnsafePointer:
			v = Ptr{}
		default:
			panic(unsupported("constant " + x.String()))
		}
	} else {
		panic(unsupported("constant " + x.String()))
	}
	w.consts[x] = v
	return v
}

const maxDepth = 400

// callFn calls a function value.
func (p *Path) callFn(fr *Frame, f Value, args []Value) Value {
	fn, ok := f.(*Fn)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", f)))
	}
	if fn == nil {
		p.nilDeref()
	}
	if fn.host != nil {
		return fn.host(p, fr, args)
	}
	if fn.blt != nil {
		return p.builtin(fr, fn.blt, nil, args)
	}
	return p.callSSA(fr, fn.fn, args, fn.env)
}

func (p *Path) callSSA(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	w := p.w
	if in := w.eng.intrinsic(fn); in != nil {
		return in(p, caller, fn, args)
	}
	if rep := w.eng.replaced(fn); rep != nil {
		fn = rep
	}
	if fn.Synthetic == "package initializer" {
		return nil
	}
	if fn.Blocks == nil {
		panic(unsupported("function without body: " + fn.String()))
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > maxDepth {
		panic(unsupported("recursion deeper than bound in " + fn.String()))
	}
	p.funcs[fn] = true
	fi := w.finfo(fn)
	fr := &Frame{p: p, g: p.cur, fn: fn, fi: fi, env: make([]Value, fi.n), caller: caller, depth: depth}
	copy(fr.env, args)
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("arity mismatch calling %s: %d args", fn, len(args))))
	}
	copy(fr.env[len(fn.Params):], env)
	g := p.cur
	g.top = fr
	fr.run()
	g.top = caller
	return fr.result
}

func (fr *Frame) run() {
	if fr.fn.Recover == nil && !fr.hasDefers() {
		fr.block = fr.fn.Blocks[0]
		fr.exec()
		return
	}
	fr.block = fr.fn.Blocks[0]
	fr.execRecover()
}

func (fr *Frame) hasDefers() bool {
	w := fr.p.w
	if b, ok := w.hasDefer[fr.fn]; ok {
		return b
	}
	r := false
	for _, b := range fr.fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	w.hasDefer[fr.fn] = r
	return r
}

// execRecover runs the body, then deferred calls if it panicked.
func (fr *Frame) execRecover() {
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			fr.panics = true
			fr.pval = gp
		}()
		fr.exec()
	}()
	if !fr.panics {
		return
	}
	fr.p.cur.top = fr
	fr.runDefers()
	if fr.panics {
		panic(fr.pval)
	}
	// recovered
	if fr.fn.Recover != nil {
		fr.block = fr.fn.Recover
		fr.prev = nil
		fr.exec()
	} else {
		fr.result = fr.p.w.zeroResults(fr.fn.Signature)
	}
}

func (w *Worker) zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return w.zero(sig.Results().At(0).Type())
	}
	return w.zero(sig.Results())
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				fr.panics = true
				fr.pval = gp
				fr.p.cur.top = fr
			}()
			if b, ok := d.fn.(*Fn); ok && b != nil && b.blt != nil {
				fr.p.builtin(fr, b.blt, d.call, d.args)
			} else {
				fr.p.callFn(fr, d.fn, d.args)
			}
		}()
	}
}

func (fr *Frame) exec() {
	p := fr.p
	w := p.w
	for {
		b := fr.block
		// phis in parallel
		i := 0
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok {
				var vals []Value
				k := -1
				for j, pr := range b.Preds {
					if pr == fr.prev {
						k = j
						break
					}
				}
				for i < len(b.Instrs) {
					ph, ok := b.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, fr.get(ph.Edges[k]))
					i++
				}
				for j, v := range vals {
					fr.env[fr.fi.idx[b.Instrs[j].(*ssa.Phi)]] = v
				}
			}
		}
		next := (*ssa.BasicBlock)(nil)
	body:
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			p.steps++
			if p.steps > p.maxSteps {
				panic(pathEnd{kind: "steps", msg: "step bound exceeded in " + fr.fn.String()})
			}
			fr.curInst = in
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				fr.env[fr.fi.idx[x]] = fr.unop(x)
			case *ssa.BinOp:
				fr.env[fr.fi.idx[x]] = p.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type())
			case *ssa.Call:
				fn, args := fr.prepareCall(&x.Call)
				var r Value
				if fr.tolerant {
					r = fr.tolerantCall(x, fn, args)
				} else if f, ok := fn.(*Fn); ok && f != nil && f.blt != nil {
					r = p.builtin(fr, f.blt, &x.Call, args)
				} else {
					r = p.callFn(fr, fn, args)
				}
				fr.env[fr.fi.idx[x]] = r
				p.cur.top = fr
			case *ssa.Alloc:
				t := x.Type().Underlying().(*types.Pointer).Elem()
				o := p.newObj(t, w.zeroSlots(t, nil))
				o.site = x
				fr.env[fr.fi.idx[x]] = Ptr{o: o}
			case *ssa.Store:
				a := fr.get(x.Addr)
				p.racePoint(fr, a, true)
				p.store(x.Val.Type(), a, fr.get(x.Val))
			case *ssa.FieldAddr:
				fr.env[fr.fi.idx[x]] = p.fieldAddr(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field, fr.get(x.X))
			case *ssa.Field:
				st := x.X.Type()
				l := w.layout(st)
				ft := st.Underlying().(*types.Struct).Field(x.Field).Type()
				a := fr.get(x.X).(Agg)
				o := l.offs[x.Field]
				if isAgg(ft) {
					fr.env[fr.fi.idx[x]] = Agg(append([]Value(nil), a[o:o+w.layout(ft).n]...))
				} else {
					fr.env[fr.fi.idx[x]] = a[o]
				}
			case *ssa.IndexAddr:
				fr.env[fr.fi.idx[x]] = fr.indexAddr(x)
			case *ssa.Index:
				fr.env[fr.fi.idx[x]] = fr.index(x)
			case *ssa.Jump:
				next = b.Succs[0]
				break body
			case *ssa.If:
				c := fr.get(x.Cond).(*Term)
				if p.branch(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
				break body
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(x.Results[0])
				default:
					t := make(Tuple, len(x.Results))
					for j, r := range x.Results {
						t[j] = fr.get(r)
					}
					fr.result = t
				}
				return
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.panics {
					fr.panics = false
					panic(fr.pval)
				}
				p.cur.top = fr
			case *ssa.Panic:
				v := fr.get(x.X)
				panic(&goPanic{v: v, rt: p.panicText(v), trace: p.stackTrace()})
			case *ssa.MakeInterface:
				fr.env[fr.fi.idx[x]] = Iface{t: x.X.Type(), v: fr.get(x.X)}
			case *ssa.ChangeInterface:
				fr.env[fr.fi.idx[x]] = fr.get(x.X)
			case *ssa.ChangeType:
				fr.env[fr.fi.idx[x]] = fr.get(x.X)
			case *ssa.Convert:
				fr.env[fr.fi.idx[x]] = p.convert(x.X.Type(), x.Type(), fr.get(x.X))
			case *ssa.MultiConvert:
				fr.env[fr.fi.idx[x]] = p.convert(x.X.Type(), x.Type(), fr.get(x.X))
			case *ssa.SliceToArrayPointer:
				s := fr.get(x.X).(Slice)
				n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				if s.len < n {
					p.goPanicStr("runtime error: cannot convert slice to array pointer")
				}
				fr.env[fr.fi.idx[x]] = Ptr{o: s.o, off: s.off}
			case *ssa.Extract:
				fr.env[fr.fi.idx[x]] = fr.get(x.Tuple).(Tuple)[x.Index]
			case *ssa.TypeAssert:
				fr.env[fr.fi.idx[x]] = fr.typeAssert(x)
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				env := make([]Value, len(x.Bindings))
				for j, bd := range x.Bindings {
					env[j] = fr.get(bd)
				}
				fr.env[fr.fi.idx[x]] = &Fn{fn: f, env: env, name: f.String()}
			case *ssa.MakeMap:
				mt := x.Type().Underlying().(*types.Map)
				m := p.newMap(mt.Key(), mt.Elem())
				m.site = x
				fr.env[fr.fi.idx[x]] = m
			case *ssa.MakeChan:
				n := p.concretize(fr.get(x.Size).(*Term), "channel size")
				if int64(n) < 0 {
					p.goPanicStr("makechan: size out of range")
				}
				p.checkAlloc(w.c.BVC(n, 64), 8)
				w.nextID++
				fr.env[fr.fi.idx[x]] = &Chan{cap: int(n), et: x.Type().Underlying().(*types.Chan).Elem(), id: w.nextID}
			case *ssa.MakeSlice:
				fr.env[fr.fi.idx[x]] = fr.makeSlice(x)
			case *ssa.MapUpdate:
				m := fr.get(x.Map).(*MapObj)
				if m == nil {
					p.goPanicStr("assignment to entry in nil map")
				}
				p.mapSet(m, fr.get(x.Key), fr.get(x.Value))
			case *ssa.Lookup:
				fr.env[fr.fi.idx[x]] = fr.lookup(x)
			case *ssa.Range:
				fr.env[fr.fi.idx[x]] = fr.rangeIter(x)
			case *ssa.Next:
				fr.env[fr.fi.idx[x]] = fr.next(x)
			case *ssa.Slice:
				fr.env[fr.fi.idx[x]] = fr.slice(x)
			case *ssa.Send:
				p.chanSend(fr.get(x.Chan), fr.get(x.X))
			case *ssa.Select:
				fr.env[fr.fi.idx[x]] = fr.selectOp(x)
			case *ssa.Go:
				fn, args := fr.prepareCall(&x.Call)
				p.spawn(fn, &x.Call, args)
			case *ssa.Defer:
				fn, args := fr.prepareCall(&x.Call)
				fr.defers = append(fr.defers, deferred{fn: fn, args: args, call: &x.Call, instr: x})
			default:
				panic(unsupported(fmt.Sprintf("instruction %T", in)))
			}
		}
		if next == nil {
			panic(unsupported("block without successor in " + fr.fn.String()))
		}
		fr.prev, fr.block = b, next
	}
}

// tolerantCall: calls made by package initialisers that cannot be interpreted leave a zero value behind.
func (fr *Frame) tolerantCall(x *ssa.Call, fn Value, args []Value) (r Value) {
	p := fr.p
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case unsupportedErr, *goPanic, pathEnd:
				r = p.w.zeroResults(x.Call.Signature())
			default:
				panic(e)
			}
		}
	}()
	if f, ok := fn.(*Fn); ok && f != nil && f.blt != nil {
		return p.builtin(fr, f.blt, &x.Call, args)
	}
	return p.callFn(fr, fn, args)
}

func (p *Path) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "panic(nil)"
		}
		switch x := i.v.(type) {
		case Str:
			s, _ := p.w.strConcrete(x)
			return s
		case *Term:
			return x.String()
		case Ptr:
			// errors created by errors.New / fmt.Errorf
			if x.o != nil && len(x.o.slots) > 0 {
				if s, ok := x.o.slots[0].(Str); ok {
					t, _ := p.w.strConcrete(s)
					return t
				}
			}
		}
		return i.t.String()
	}
	return "panic"
}

func (fr *Frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	p := fr.p
	if !c.IsInvoke() {
		f := fr.get(c.Value)
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = fr.get(a)
		}
		return f, args
	}
	r := fr.get(c.Value)
	i, ok := r.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("invoke on %T", r)))
	}
	if i.t == nil {
		p.nilDeref()
	}
	args := make([]Value, len(c.Args)+1)
	args[0] = i.v
	for j, a := range c.Args {
		args[j+1] = fr.get(a)
	}
	if hf := p.hostMethod(i, c.Method.Name()); hf != nil {
		return hf, args
	}
	fn := p.w.lookupMethod(i.t, c.Method)
	if fn == nil {
		panic(unsupported("method " + c.Method.Name() + " of " + i.t.String()))
	}
	return p.w.fnVal(fn), args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.meths[k]; ok {
		return f
	}
	w.eng.mu.Lock()
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.eng.mu.Unlock()
	w.meths[k] = f
	return f
}

func (p *Path) methodByName(t types.Type, name string) *ssa.Function {
	p.w.eng.mu.Lock()
	defer p.w.eng.mu.Unlock()
	ms := p.w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.w.eng.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Path) fieldAddr(st types.Type, field int, v Value) Value {
	a, ok := v.(Ptr)
	if !ok {
		panic(unsupported(fmt.Sprintf("field address of %T", v)))
	}
	if a.o == nil {
		p.nilDeref()
	}
	if a.view != nil {
		if isNamed(st, "reflect", "SliceHeader") || isNamed(st, "reflect", "StringHeader") || isHeaderLike(st) {
			if len(a.o.slots) > a.off {
				switch a.o.slots[a.off].(type) {
				case Slice, Str:
					return Ptr{o: a.o, off: a.off, view: st.Underlying().(*types.Struct).Field(field).Type(), vk: int8(field + 1)}
				}
			}
		}
		l := p.w.layout(st)
		ft := st.Underlying().(*types.Struct).Field(field).Type()
		return Ptr{o: a.o, off: a.off + l.offs[field], view: ft}
	}
	return Ptr{o: a.o, off: a.off + p.w.layout(st).offs[field]}
}

func isHeaderLike(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && (s.NumFields() == 2 || s.NumFields() == 3)
}

func (fr *Frame) boundsCheck(idx *Term, n int) {
	p := fr.p
	c := p.w.c
	if idx.IsConst() {
		if idx.C >= uint64(n) {
			p.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.C), n))
		}
		return
	}
	if !p.branch(c.Cmp(OUlt, idx, c.BVC(uint64(n), 64))) {
		p.goPanicStr(fmt.Sprintf("runtime error: index out of range [symbolic] with length %d", n))
	}
}

// idx64 widens an index operand to 64 bits.
func (fr *Frame) idx64(v ssa.Value) *Term {
	t := fr.get(v).(*Term)
	if t.S.W == 64 {
		return t
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok {
		if _, sgn := intWidth(b); sgn {
			return fr.p.w.c.Sext(t, 64)
		}
	}
	return fr.p.w.c.Zext(t, 64)
}

func scalarType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat) != 0 && b.Kind() != types.Uintptr
}

func (fr *Frame) indexAddr(x *ssa.IndexAddr) Value {
	p := fr.p
	idx := fr.idx64(x.Index)
	base := fr.get(x.X)
	var o *Obj
	var off, n int
	var et types.Type
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := base.(Slice)
		o, off, n, et = s.o, s.off, s.len, t.Elem()
	case *types.Pointer:
		a := base.(Ptr)
		if a.o == nil {
			p.nilDeref()
		}
		at := t.Elem().Underlying().(*types.Array)
		o, off, n, et = a.o, a.off, int(at.Len()), at.Elem()
		if a.view != nil && idx.IsConst() {
			return Ptr{o: o, off: off + int(idx.C)*p.w.layout(et).n, view: et}
		}
	}
	fr.boundsCheck(idx, n)
	es := p.w.layout(et).n
	if idx.IsConst() {
		return Ptr{o: o, off: off + int(idx.C)*es}
	}
	if es == 1 && scalarType(et) && n <= 300 {
		return SymPtr{o: o, off: off, n: n, idx: idx}
	}
	k := p.concretize(idx, "index")
	return Ptr{o: o, off: off + int(k)*es}
}

func (fr *Frame) index(x *ssa.Index) Value {
	p := fr.p
	idx := fr.idx64(x.Index)
	switch b := fr.get(x.X).(type) {
	case Str:
		fr.boundsCheck(idx, b.Len())
		return p.strIndex(b, idx)
	case Agg:
		at := x.X.Type().Underlying().(*types.Array)
		n := int(at.Len())
		fr.boundsCheck(idx, n)
		es := p.w.layout(at.Elem()).n
		var k int
		if idx.IsConst() {
			k = int(idx.C)
		} else {
			k = int(p.concretize(idx, "index"))
		}
		if isAgg(at.Elem()) {
			return Agg(append([]Value(nil), b[k*es:(k+1)*es]...))
		}
		return b[k]
	}
	panic(unsupported("index"))
}

func (p *Path) strIndex(s Str, idx *Term) Value {
	if idx.IsConst() {
		return p.w.strByte(s, int(idx.C))
	}
	c := p.w.c
	n := s.Len()
	if n > 300 {
		return p.w.strByte(s, int(p.concretize(idx, "index")))
	}
	r := p.w.strByte(s, n-1)
	for i := n - 2; i >= 0; i-- {
		r = c.Ite(c.Eq(idx, c.BVC(uint64(i), 64)), p.w.strByte(s, i), r)
	}
	return r
}

func (fr *Frame) lookup(x *ssa.Lookup) Value {
	p := fr.p
	switch b := fr.get(x.X).(type) {
	case Str:
		idx := fr.idx64(x.Index)
		fr.boundsCheck(idx, b.Len())
		return p.strIndex(b, idx)
	case *MapObj:
		mt := x.X.Type().Underlying().(*types.Map)
		i := p.mapFind(b, fr.get(x.Index))
		var v Value
		if i >= 0 {
			v = b.vals[i]
			if a, ok := v.(Agg); ok {
				v = Agg(append([]Value(nil), a...))
			}
		} else {
			v = p.w.zero(mt.Elem())
		}
		if x.CommaOk {
			return Tuple{v, p.w.c.Bool(i >= 0)}
		}
		return v
	}
	panic(unsupported("lookup"))
}

type mapIter struct {
	m    *MapObj
	keys []Value
	done []bool
	left int
	any  bool
}
type strIter struct {
	s Str
	i int
}

func (fr *Frame) rangeIter(x *ssa.Range) Value {
	switch b := fr.get(x.X).(type) {
	case *MapObj:
		it := &mapIter{m: b}
		if b != nil {
			it.keys = append([]Value(nil), b.keys...)
			it.done = make([]bool, len(b.keys))
			it.left = len(b.keys)
			if len(b.keys) > 1 && fr.p.w.eng.isRepoFn(fr.fn) {
				fr.p.orderDep = true
			}
			it.any = fr.p.mapOrder && fr.p.w.eng.isRepoFn(fr.fn)
		}
		return it
	case Str:
		return &strIter{s: b}
	}
	panic(unsupported("range"))
}

func (fr *Frame) next(x *ssa.Next) Value {
	p := fr.p
	c := p.w.c
	switch it := fr.get(x.Iter).(type) {
	case *mapIter:
		for it.left > 0 {
			k := -1
			if it.any && it.left > 1 {
				n := p.choose("maporder", it.left)
				for i, d := range it.done {
					if !d {
						if n == 0 {
							k = i
							break
						}
						n--
					}
				}
			} else {
				for i, d := range it.done {
					if !d {
						k = i
						break
					}
				}
			}
			it.done[k] = true
			it.left--
			// still present?
			i := p.mapFindIdent(it.m, it.keys[k])
			if i < 0 {
				continue
			}
			return Tuple{c.True, it.keys[k], it.m.vals[i]}
		}
		tt := x.Type().(*types.Tuple)
		return Tuple{c.False, p.zeroOrNil(tt.At(1).Type()), p.zeroOrNil(tt.At(2).Type())}
	case *strIter:
		n := it.s.Len()
		if it.i >= n {
			return Tuple{c.False, c.BVC(0, 64), c.BVC(0, 32)}
		}
		i := it.i
		b0 := p.w.strByte(it.s, i)
		if !b0.IsConst() {
			if p.branch(c.Cmp(OUlt, b0, c.BVC(0x80, 8))) {
				it.i++
				return Tuple{c.True, c.BVC(uint64(i), 64), c.Zext(b0, 32)}
			}
			panic(unsupported("range over non-ASCII symbolic string"))
		}
		var buf []byte
		for j := i; j < n && j < i+4; j++ {
			t := p.w.strByte(it.s, j)
			if !t.IsConst() {
				break
			}
			buf = append(buf, byte(t.C))
		}
		r, sz := utf8.DecodeRune(buf)
		it.i += sz
		return Tuple{c.True, c.BVC(uint64(i), 64), c.BVC(uint64(r), 32)}
	}
	panic(unsupported("next"))
}

func (p *Path) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return p.w.zero(t)
}

// mapFindIdent finds the identical key value (no forking).
func (p *Path) mapFindIdent(m *MapObj, k Value) int {
	if ks, ok := p.w.keyString(k); ok {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		return -1
	}
	for i, e := range m.keys {
		if t := p.eq(e, k); t.IsTrue() {
			return i
		}
	}
	return -1
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert) Value {
	p := fr.p
	w := p.w
	i := fr.get(x.X).(Iface)
	at := x.AssertedType
	ok := false
	var v Value
	if _, isI := at.Underlying().(*types.Interface); isI {
		if i.t != nil && w.implements(i.t, at.Underlying().(*types.Interface)) {
			ok = true
			v = i
		}
	} else if i.t != nil && types.Identical(i.t, at) {
		ok = true
		v = i.v
	}
	if x.CommaOk {
		if !ok {
			v = w.zero(at)
		}
		return Tuple{v, w.c.Bool(ok)}
	}
	if !ok {
		p.goPanicStr(fmt.Sprintf("interface conversion: interface is %v, not %v", i.t, at))
	}
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := w.impls[k]; ok {
		return r
	}
	w.eng.mu.Lock()
	r := types.Implements(t, i)
	w.eng.mu.Unlock()
	w.impls[k] = r
	return r
}

func (fr *Frame) makeSlice(x *ssa.MakeSlice) Value {
	p := fr.p
	w := p.w
	et := x.Type().Underlying().(*types.Slice).Elem()
	es := w.layout(et).n
	ln := fr.idx64(x.Len)
	cp := fr.idx64(x.Cap)
	lim := w.c.BVC(1<<40, 64)
	if !ln.IsConst() || ln.C > 1<<40 {
		if !p.branch(w.c.Cmp(OUlt, ln, lim)) {
			p.goPanicStr("runtime error: makeslice: len out of range")
		}
	}
	if !cp.IsConst() || cp.C > 1<<40 {
		if !p.branch(w.c.Cmp(OUlt, cp, lim)) {
			p.goPanicStr("runtime error: makeslice: cap out of range")
		}
	}
	p.checkAlloc(cp, 8*max(es, 1))
	n := int(p.concretize(ln, "make length"))
	var k int
	if cp.IsConst() {
		k = int(cp.C)
	} else if cp == ln {
		k = n
	} else if p.branch(w.c.Cmp(OUlt, cp, w.c.BVC(16, 64))) {
		k = int(p.concretize(cp, "make capacity"))
	} else {
		k = 1 << 40 // capacity 16 or more: grown lazily
	}
	if k < n {
		p.goPanicStr("runtime error: makeslice: cap out of range")
	}
	if n > 1<<22 {
		panic(unsupported(fmt.Sprintf("allocation of %d elements", n)))
	}
	var slots []Value
	z := w.zeroSlots(et, nil)
	if es == 0 {
		es = 0
	}
	if n*es > 4096 || k > n {
		o := p.newObj(et, nil)
		o.lazy = et
		o.site = x
		if n*es <= 4096 {
			for i := 0; i < n; i++ {
				o.slots = append(o.slots, z...)
			}
		}
		return Slice{o: o, len: n, cap: k, esz: es}
	}
	slots = make([]Value, 0, n*es)
	for i := 0; i < n; i++ {
		slots = append(slots, z...)
	}
	o := p.newObj(et, slots)
	o.site = x
	return Slice{o: o, len: n, cap: k, esz: es}
}

// checkAlloc reports an allocation that may exceed the harness's limit.
func (p *Path) checkAlloc(n *Term, size int) {
	if p.allocLimit == 0 {
		return
	}
	lim := p.w.c.BVC(p.allocLimit/uint64(size), 64)
	p.assertTerm(p.w.c.Cmp(OUle, n, lim), fmt.Sprintf("allocation of more than %d bytes at %s", p.allocLimit, p.where()))
}

func (fr *Frame) slice(x *ssa.Slice) Value {
	p := fr.p
	w := p.w
	get := func(v ssa.Value, def int) (*Term, bool) {
		if v == nil {
			return w.c.BVC(uint64(def), 64), false
		}
		return fr.idx64(v), true
	}
	base := fr.get(x.X)
	conc := func(lo, hi, mx *Term, capn int, isStr bool) (int, int, int) {
		// 0 <= lo <= hi <= max <= cap
		capT := w.c.BVC(uint64(capn), 64)
		if !mx.IsConst() || !lo.IsConst() || !hi.IsConst() {
			ok := w.c.And(w.c.Cmp(OUle, mx, capT), w.c.And(w.c.Cmp(OUle, hi, mx), w.c.Cmp(OUle, lo, hi)))
			if !p.branch(ok) {
				p.goPanicStr("runtime error: slice bounds out of range")
			}
		}
		l, h, m := p.concretize(lo, "slice bound"), p.concretize(hi, "slice bound"), p.concretize(mx, "slice bound")
		if m > uint64(capn) || h > m || l > h {
			p.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", int64(l), int64(h), int64(m), capn))
		}
		return int(l), int(h), int(m)
	}
	switch b := base.(type) {
	case Str:
		lo, _ := get(x.Low, 0)
		hi, _ := get(x.High, b.Len())
		l, h, _ := conc(lo, hi, w.c.BVC(uint64(b.Len()), 64), b.Len(), true)
		return w.substr(b, l, h)
	case Slice:
		lo, _ := get(x.Low, 0)
		hi, _ := get(x.High, b.len)
		mx, _ := get(x.Max, b.cap)
		l, h, m := conc(lo, hi, mx, b.cap, false)
		if b.o == nil {
			return Slice{}
		}
		return Slice{o: b.o, off: b.off + l*b.esz, len: h - l, cap: m - l, esz: b.esz}
	case Ptr:
		if b.o == nil {
			p.nilDeref()
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		lo, _ := get(x.Low, 0)
		hi, _ := get(x.High, n)
		mx, _ := get(x.Max, n)
		l, h, m := conc(lo, hi, mx, n, false)
		es := w.layout(at.Elem()).n
		return Slice{o: b.o, off: b.off + l*es, len: h - l, cap: m - l, esz: es}
	}
	panic(unsupported("slice"))
}

func (fr *Frame) unop(x *ssa.UnOp) Value {
	p := fr.p
	c := p.w.c
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		p.racePoint(fr, v, false)
		return p.load(x.Type(), v)
	case token.NOT:
		return c.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.S.K == KFP {
			return c.FNeg(t)
		}
		return c.Neg(t)
	case token.XOR:
		return c.BNot(v.(*Term))
	case token.ARROW:
		r, ok := p.chanRecv(v, x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{r, c.Bool(ok)}
		}
		return r
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (p *Path) binop(op token.Token, t types.Type, a, b Value, yt types.Type) Value {
	c := p.w.c
	switch op {
	case token.EQL:
		return p.eqMixed(a, b)
	case token.NEQ:
		return c.Not(p.eqMixed(a, b))
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		switch op {
		case token.ADD:
			return p.concat(sa, sb)
		case token.LSS:
			return p.w.strLess(sa, sb, false)
		case token.LEQ:
			return p.w.strLess(sa, sb, true)
		case token.GTR:
			return p.w.strLess(sb, sa, false)
		case token.GEQ:
			return p.w.strLess(sb, sa, true)
		}
	}
	if ua, ok := a.(UPtr); ok { // pointer arithmetic on uintptr
		if bt, ok := b.(*Term); ok && bt.IsConst() {
			switch op {
			case token.XOR, token.OR:
				if bt.C == 0 {
					return ua
				}
			case token.ADD:
				if bt.C == 0 {
					return ua
				}
			}
		}
		panic(unsupported("uintptr arithmetic"))
	}
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T,%T", op, a, b)))
	}
	if x.S.K == KFP {
		switch op {
		case token.ADD:
			return c.FBin(OFAdd, x, y)
		case token.SUB:
			return c.FBin(OFSub, x, y)
		case token.MUL:
			return c.FBin(OFMul, x, y)
		case token.QUO:
			if p.w.har.absfloat {
				return p.absDiv(x, y)
			}
			return c.FBin(OFDiv, x, y)
		case token.LSS:
			return c.FCmp(OFLt, x, y)
		case token.LEQ:
			return c.FCmp(OFLe, x, y)
		case token.GTR:
			return c.FCmp(OFLt, y, x)
		case token.GEQ:
			return c.FCmp(OFLe, y, x)
		}
	}
	if x.S.K == KBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		case token.XOR:
			return c.Not(c.Eq(x, y))
		}
	}
	bt, _ := t.Underlying().(*types.Basic)
	w, sgn := x.S.W, true
	if bt != nil {
		_, sgn = intWidth(bt)
	}
	switch op {
	case token.ADD:
		return c.binop(OAdd, x, y)
	case token.SUB:
		return c.binop(OSub, x, y)
	case token.MUL:
		return c.binop(OMul, x, y)
	case token.QUO, token.REM:
		if y.IsConst() {
			if y.C == 0 {
				p.goPanicStr("runtime error: integer divide by zero")
			}
		} else if p.branch(c.Eq(y, c.BVC(0, w))) {
			p.goPanicStr("runtime error: integer divide by zero")
		}
		switch {
		case op == token.QUO && sgn:
			return c.binop(OSDiv, x, y)
		case op == token.QUO:
			return c.binop(OUDiv, x, y)
		case sgn:
			return c.binop(OSRem, x, y)
		}
		return c.binop(OURem, x, y)
	case token.AND:
		return c.binop(OBAnd, x, y)
	case token.OR:
		return c.binop(OBOr, x, y)
	case token.XOR:
		return c.binop(OBXor, x, y)
	case token.AND_NOT:
		return c.binop(OBAnd, x, c.BNot(y))
	case token.SHL, token.SHR:
		ysgn := false
		if yb, ok := yt.Underlying().(*types.Basic); ok {
			_, ysgn = intWidth(yb)
		}
		if ysgn {
			neg := c.Cmp(OSlt, y, c.BVC(0, y.S.W))
			if p.branch(neg) {
				p.goPanicStr("runtime error: negative shift amount")
			}
		}
		// widths: compute with saturation
		var sh *Term
		if y.S.W > w {
			big := c.Cmp(OUle, c.BVC(uint64(w), y.S.W), y)
			sh = c.Ite(big, c.BVC(uint64(w), w), c.Extract(y, w-1, 0))
		} else {
			sh = c.Zext(y, w)
		}
		if op == token.SHL {
			return c.binop(OShl, x, sh)
		}
		if sgn {
			return c.binop(OAshr, x, sh)
		}
		return c.binop(OLshr, x, sh)
	case token.LSS:
		if sgn {
			return c.Cmp(OSlt, x, y)
		}
		return c.Cmp(OUlt, x, y)
	case token.LEQ:
		if sgn {
			return c.Cmp(OSle, x, y)
		}
		return c.Cmp(OUle, x, y)
	case token.GTR:
		if sgn {
			return c.Cmp(OSlt, y, x)
		}
		return c.Cmp(OUlt, y, x)
	case token.GEQ:
		if sgn {
			return c.Cmp(OSle, y, x)
		}
		return c.Cmp(OUle, y, x)
	}
	panic(unsupported("binop " + op.String()))
}

// eqMixed also handles interface vs concrete comparisons.
func (p *Path) eqMixed(a, b Value) *Term {
	return p.eq(a, b)
}

func (p *Path) concat(a, b Str) Str {
	if a.Len() == 0 {
		return p.unalias(b)
	}
	if b.Len() == 0 {
		return p.unalias(a)
	}
	if a.o == nil && b.o == nil && a.t == nil && b.t == nil {
		return Str{s: a.s + b.s}
	}
	return mkStr(append(p.w.strTerms(a), p.w.strTerms(b)...))
}

// unalias copies an aliased string's current bytes.
func (p *Path) unalias(s Str) Str {
	if s.o == nil {
		return s
	}
	return s // strings returned unchanged by + keep their backing store in Go too
}

func (p *Path) convert(from, to types.Type, v Value) Value {
	c := p.w.c
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			switch x := v.(type) {
			case Ptr:
				x.view = nil
				return x
			case UPtr:
				return x.p
			case SymPtr:
				return x
			case *Term:
				if x.IsConst() && x.C == 0 {
					return Ptr{}
				}
			}
			panic(unsupported(fmt.Sprintf("conversion of %T to unsafe.Pointer", v)))
		}
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				if x.len == 0 {
					return Str{}
				}
				if et := fu.(*types.Slice).Elem().Underlying().(*types.Basic); et.Kind() == types.Uint8 {
					return mkStr(p.sliceTerms(x))
				}
				var sb strings.Builder
				for _, t := range p.sliceTerms(x) {
					if !t.IsConst() {
						panic(unsupported("string of symbolic runes"))
					}
					sb.WriteRune(rune(int32(t.C)))
				}
				return Str{s: sb.String()}
			case *Term:
				if x.IsConst() {
					return Str{s: string(rune(signed(x.C, x.S.W)))}
				}
				if p.branch(c.Cmp(OUlt, x, c.BVC(0x80, x.S.W))) {
					return Str{t: []*Term{c.Extract(x, 7, 0)}}
				}
				panic(unsupported("string(symbolic rune)"))
			}
		}
		if tb.Info()&types.IsInteger != 0 {
			tw, tsgn := intWidth(tb)
			switch x := v.(type) {
			case UPtr:
				return x
			case Ptr:
				if tb.Kind() == types.Uintptr {
					return UPtr{x}
				}
			case *Term:
				if x.S.K == KFP {
					return p.fpToInt(x, tw, tsgn)
				}
				fb := fu.(*types.Basic)
				_, fs := intWidth(fb)
				if tw <= x.S.W {
					return c.Extract(x, tw-1, 0)
				}
				if fs {
					return c.Sext(x, tw)
				}
				return c.Zext(x, tw)
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			tw := 64
			if tb.Kind() == types.Float32 {
				tw = 32
			}
			x := v.(*Term)
			if x.S.K == KFP {
				return c.FToF(x, tw)
			}
			_, fs := intWidth(fu.(*types.Basic))
			return c.IntToF(x, fs, tw)
		}
		if tb.Info()&types.IsBoolean != 0 {
			return v
		}
	}
	switch tt := tu.(type) {
	case *types.Slice:
		if s, ok := v.(Str); ok {
			et := tt.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				if s.Len() == 0 {
					return Slice{o: p.newObj(tt.Elem(), nil), esz: 1}
				}
				return p.bytesSlice(p.w.strTerms(s))
			}
			cs, ok := p.w.strConcrete(s)
			if !ok {
				panic(unsupported("[]rune of symbolic string"))
			}
			rs := []rune(cs)
			sl := make([]Value, len(rs))
			for i, r := range rs {
				sl[i] = c.BVC(uint64(r), 32)
			}
			return Slice{o: p.newObj(tt.Elem(), sl), len: len(sl), cap: len(sl), esz: 1}
		}
		return v
	case *types.Pointer:
		switch x := v.(type) {
		case Ptr:
			if x.o == nil {
				return Ptr{}
			}
			if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				x.view = p.viewFor(x, tt.Elem())
				return x
			}
			return x
		case UPtr:
			return x.p
		case SymPtr:
			return x
		}
	case *types.Signature, *types.Map, *types.Chan, *types.Interface, *types.Struct, *types.Array:
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s (%T)", from, to, v)))
}

// viewFor returns nil when the memory at x already has type t's layout.
func (p *Path) viewFor(x Ptr, t types.Type) types.Type {
	if x.o.typ != nil && x.off == 0 && types.Identical(x.o.typ, t) {
		return nil
	}
	// find the component type at that offset
	ct := p.w.typeAt(x.o.typ, x.off, t, len(x.o.slots))
	if ct {
		return nil
	}
	return t
}

// typeAt tells whether an object of type root contains, at slot off, a component of type want.
func (w *Worker) typeAt(root types.Type, off int, want types.Type, nslots int) bool {
	if root == nil {
		return false
	}
	n := w.layout(root).n
	if n > 0 && off >= n && off < nslots { // array behind a slice
		off = off % n
	}
	for {
		if off == 0 && (types.Identical(root, want) || types.Identical(root.Underlying(), want.Underlying())) {
			return true
		}
		switch u := root.Underlying().(type) {
		case *types.Struct:
			l := w.layout(root)
			found := false
			for i := u.NumFields() - 1; i >= 0; i-- {
				if l.offs[i] <= off && off < l.offs[i]+w.layout(u.Field(i).Type()).n {
					off -= l.offs[i]
					root = u.Field(i).Type()
					found = true
					break
				}
			}
			if !found {
				return false
			}
		case *types.Array:
			es := w.layout(u.Elem()).n
			if es == 0 {
				return false
			}
			off = off % es
			root = u.Elem()
		default:
			return false
		}
	}
}

// fpToInt models the amd64 conversion as compiled by the installed toolchain.
func (p *Path) fpToInt(x *Term, w int, sgn bool) Value {
	c := p.w.c
	if x.IsConst() {
		f := x.F()
		switch {
		case sgn && w == 64:
			return c.BVC(uint64(amd64F2I(f)), 64)
		case sgn:
			return c.BVC(uint64(amd64F2I32(f)), w)
		}
		return c.BVC(amd64F2U(f), w)
	}
	conv := func(t *Term, n int) *Term { // signed conversion with the hardware's "indefinite" result
		if r := c.fixToS(t, n); r != nil {
			return r
		}
		lim := math.Ldexp(1, n-1)
		lo, hi := c.fconst(t.S.W, -lim), c.fconst(t.S.W, lim)
		if n == 32 && t.S.W == 64 {
			lo = c.fconst(64, -lim-1)
			ok := c.And(c.FCmp(OFLt, lo, t), c.FCmp(OFLt, t, hi))
			return c.Ite(ok, c.FToS(t, n), c.BVC(1<<uint(n-1), n))
		}
		ok := c.And(c.FCmp(OFLe, lo, t), c.FCmp(OFLt, t, hi))
		return c.Ite(ok, c.FToS(t, n), c.BVC(1<<uint(n-1), n))
	}
	if sgn && w <= 32 {
		return c.Extract(conv(x, 32), w-1, 0)
	}
	r := conv(x, 64)
	if !sgn && w == 64 && c.fix(x) == nil {
		two63 := c.fconst(x.S.W, 9223372036854775808.0)
		small := c.FCmp(OFLt, x, two63)
		r2 := c.binop(OBOr, conv(c.FBin(OFSub, x, two63), 64), c.BVC(1<<63, 64))
		r = c.Ite(small, r, r2)
	}
	return c.Extract(r, w-1, 0)
}

func amd64F2I(f float64) int64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}
func amd64F2I32(f float64) int32 {
	if f != f || f >= 2147483648.0 || f <= -2147483649.0 {
		return math.MinInt32
	}
	return int32(int64(f))
}
func amd64F2U(f float64) uint64 {
	if f < 9223372036854775808.0 {
		return uint64(amd64F2I(f))
	}
	return uint64(amd64F2I(f-9223372036854775808.0)) | (1 << 63)
}

// ---- builtins
func (p *Path) builtin(fr *Frame, b *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	c := p.w.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return c.BVC(uint64(x.Len()), 64)
		case Slice:
			return c.BVC(uint64(x.len), 64)
		case *MapObj:
			if x == nil {
				return c.BVC(0, 64)
			}
			return c.BVC(uint64(len(x.keys)), 64)
		case *Chan:
			if x == nil {
				return c.BVC(0, 64)
			}
			return c.BVC(uint64(len(x.buf)), 64)
		case Agg:
			return c.BVC(uint64(call.Args[0].Type().Underlying().(*types.Array).Len()), 64)
		case Ptr:
			return c.BVC(uint64(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.BVC(uint64(x.cap), 64)
		case *Chan:
			if x == nil {
				return c.BVC(0, 64)
			}
			return c.BVC(uint64(x.cap), 64)
		case Agg:
			return c.BVC(uint64(call.Args[0].Type().Underlying().(*types.Array).Len()), 64)
		case Ptr:
			return c.BVC(uint64(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		}
	case "append":
		var et types.Type
		if call != nil {
			et = call.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		return p.appendOp(args[0].(Slice), args[1], et)
	case "copy":
		return p.copyOp(args[0], args[1])
	case "delete":
		p.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "close":
		p.chanClose(args[0])
		return nil
	case "panic":
		panic(&goPanic{v: args[0], rt: p.panicText(args[0]), trace: p.stackTrace()})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		return p.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok := r.(*Term)
			if !ok {
				panic(unsupported("min/max of strings"))
			}
			y := a.(*Term)
			var less *Term
			if x.S.K == KFP {
				nan := c.Or(c.FIsNaN(x), c.FIsNaN(y))
				if p.branch(nan) {
					r = c.fconst(x.S.W, math.NaN())
					continue
				}
				less = c.FCmp(OFLt, x, y)
			} else {
				less = p.binop(token.LSS, call.Args[0].Type(), x, y, call.Args[0].Type()).(*Term)
			}
			if b.Name() == "min" {
				r = c.Ite(less, x, y)
			} else {
				r = c.Ite(less, y, x)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				p.mapSave(x)
				x.keys, x.vals, x.idx, x.symKeys = nil, nil, map[string]int{}, 0
			}
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			if x.len > 0 {
				p.saveObj(x.o)
				z := p.w.zeroSlots(et, nil)
				for i := 0; i < x.len; i++ {
					p.grow(x.o, x.off+(i+1)*x.esz)
					copy(x.o.slots[x.off+i*x.esz:], z)
				}
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if a, ok := args[0].(Ptr); ok && a.o == nil {
			p.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String(ptr *byte, len)
		n := int(p.concretize(args[1].(*Term), "unsafe.String length"))
		a := args[0].(Ptr)
		if n == 0 || a.o == nil {
			return Str{}
		}
		return Str{o: a.o, off: a.off, n: n}
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		s = p.strObj(s)
		return Ptr{o: s.o, off: s.off}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{o: s.o, off: s.off}
	case "Slice":
		n := int(p.concretize(args[1].(*Term), "unsafe.Slice length"))
		a := args[0].(Ptr)
		if a.o == nil {
			return Slice{}
		}
		es := p.w.layout(call.Args[0].Type().Underlying().(*types.Pointer).Elem()).n
		return Slice{o: a.o, off: a.off, len: n, cap: n, esz: es}
	case "Add":
		if t, ok := args[1].(*Term); ok && t.IsConst() && t.C == 0 {
			return args[0]
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (p *Path) doRecover(fr *Frame) Value {
	// fr: function calling recover(); it must be called directly by a deferred call of a panicking frame
	if fr == nil || fr.caller == nil || !fr.caller.panics {
		return Iface{}
	}
	pf := fr.caller
	if pf.pval.exit {
		return Iface{}
	}
	pf.panics = false
	v := pf.pval.v
	pf.pval = nil
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{}
}

func (p *Path) appendOp(s Slice, v Value, et types.Type) Value {
	var add []Value
	esz := s.esz
	switch x := v.(type) {
	case Slice:
		if x.len == 0 {
			return s
		}
		esz = x.esz
		p.grow(x.o, x.off+x.len*x.esz)
		add = append(add, x.o.slots[x.off:x.off+x.len*x.esz]...)
	case Str:
		n := x.Len()
		if n == 0 {
			return s
		}
		esz = 1
		for i := 0; i < n; i++ {
			add = append(add, p.w.strByte(x, i))
		}
	default:
		panic(unsupported(fmt.Sprintf("append %T", v)))
	}
	n := 0
	if esz > 0 {
		n = len(add) / esz
	} else if x, ok := v.(Slice); ok {
		n = x.len
	}
	if s.len+n <= s.cap {
		p.saveObj(s.o)
		need := s.off + (s.len+n)*esz
		p.grow(s.o, need)
		copy(s.o.slots[s.off+s.len*esz:], add)
		return Slice{o: s.o, off: s.off, len: s.len + n, cap: s.cap, esz: esz}
	}
	// grow like the runtime does (doubling below 256), capacity rounding ignored
	nc := s.cap * 2
	if s.cap >= 256 {
		nc = s.cap + (s.cap+768)/4
	}
	if nc < s.len+n {
		nc = s.len + n
	}
	if et != nil {
		nc = roundCap(nc, p.w.eng.sizeof(et))
	}
	slots := make([]Value, 0, (s.len+n)*esz)
	if s.o != nil {
		p.grow(s.o, s.off+s.len*esz)
		slots = append(slots, s.o.slots[s.off:s.off+s.len*esz]...)
	}
	slots = append(slots, add...)
	o := p.newObj(et, slots)
	o.lazy = et
	if p.cur != nil && p.cur.top != nil {
		o.site = p.cur.top.curInst
	}
	return Slice{o: o, off: 0, len: s.len + n, cap: nc, esz: esz}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n, sz int) int {
	if sz <= 0 {
		return n
	}
	b := n * sz
	if b > 32768 {
		return (b + 8191) / 8192 * 8192 / sz
	}
	for _, c := range sizeClasses {
		if c >= b {
			return c / sz
		}
	}
	return n
}

func (p *Path) copyOp(dst, src Value) Value {
	c := p.w.c
	d := dst.(Slice)
	n := d.len
	switch s := src.(type) {
	case Slice:
		if s.len < n {
			n = s.len
		}
		if n == 0 {
			return c.BVC(0, 64)
		}
		p.saveObj(d.o)
		p.grow(d.o, d.off+n*d.esz)
		p.grow(s.o, s.off+n*s.esz)
		tmp := append([]Value(nil), s.o.slots[s.off:s.off+n*s.esz]...)
		copy(d.o.slots[d.off:], tmp)
	case Str:
		if s.Len() < n {
			n = s.Len()
		}
		if n == 0 {
			return c.BVC(0, 64)
		}
		p.saveObj(d.o)
		p.grow(d.o, d.off+n)
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = p.w.strByte(s, i)
		}
		copy(d.o.slots[d.off:], tmp)
	}
	return c.BVC(uint64(n), 64)
}
