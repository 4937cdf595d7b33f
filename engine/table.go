package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"path"
	"strings"

	"github.com/tidwall/gjson"
	"golang.org/x/tools/go/ssa"
)

func jsonQuote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}
func jsonUnquote(raw string) (string, bool) {
	var s string
	err := json.Unmarshal([]byte(raw), &s)
	return s, err == nil
}

var intrinsics map[string]intrinsicFn

type I = intrinsicFn

func init() {
	intrinsics = map[string]intrinsicFn{}
	reg := func(f intrinsicFn, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	// ---- sync
	reg(lockMutex, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(unlockMutex, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(tryLock, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(rlock, "(*sync.RWMutex).RLock")
	reg(runlock, "(*sync.RWMutex).RUnlock")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		wgAdd(p, a[0], int64(p.concretize(a[1].(*Term), "WaitGroup delta")))
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		wgAdd(p, a[0], -1)
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("wg.wait")
		m := p.wg(a[0])
		for m.n > 0 {
			p.block(func() bool { return m.n == 0 }, "WaitGroup.Wait")
		}
		return nil
	}, "(*sync.WaitGroup).Wait")

	// sync.Map
	load := func(p *Path, m *MapObj, k Value) Value {
		i := p.mapFind(m, k)
		if i < 0 {
			return Tuple{Iface{}, p.w.c.False}
		}
		return Tuple{m.vals[i], p.w.c.True}
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.load")
		return load(p, p.smap(a[0]), a[1])
	}, "(*sync.Map).Load")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.store")
		p.mapSet(p.smap(a[0]), a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.delete")
		p.mapDelete(p.smap(a[0]), a[1])
		return nil
	}, "(*sync.Map).Delete")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.loadorstore")
		m := p.smap(a[0])
		if i := p.mapFind(m, a[1]); i >= 0 {
			return Tuple{m.vals[i], p.w.c.True}
		}
		p.mapSet(m, a[1], a[2])
		return Tuple{a[2], p.w.c.False}
	}, "(*sync.Map).LoadOrStore")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.loadanddelete")
		m := p.smap(a[0])
		i := p.mapFind(m, a[1])
		if i < 0 {
			return Tuple{Iface{}, p.w.c.False}
		}
		v := m.vals[i]
		p.mapDelAt(m, i)
		return Tuple{v, p.w.c.True}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.swap")
		m := p.smap(a[0])
		r := load(p, m, a[1])
		p.mapSet(m, a[1], a[2])
		return r
	}, "(*sync.Map).Swap")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.cas")
		m := p.smap(a[0])
		i := p.mapFind(m, a[1])
		if i < 0 || !p.branch(p.eq(m.vals[i], a[2])) {
			return p.w.c.False
		}
		m.vals[i] = a[3]
		return p.w.c.True
	}, "(*sync.Map).CompareAndSwap")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.cad")
		m := p.smap(a[0])
		i := p.mapFind(m, a[1])
		if i < 0 || !p.branch(p.eq(m.vals[i], a[2])) {
			return p.w.c.False
		}
		p.mapDelAt(m, i)
		return p.w.c.True
	}, "(*sync.Map).CompareAndDelete")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.clear")
		m := p.smap(a[0])
		m.keys, m.vals, m.idx, m.symKeys = nil, nil, map[string]int{}, 0
		return nil
	}, "(*sync.Map).Clear")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("map.range")
		m := p.smap(a[0])
		keys := append([]Value(nil), m.keys...)
		if len(keys) > 1 {
			p.orderDep = true
		}
		for len(keys) > 0 {
			k := 0
			if p.mapOrder && len(keys) > 1 {
				k = p.choose("maporder", len(keys))
			}
			key := keys[k]
			keys = append(append([]Value(nil), keys[:k]...), keys[k+1:]...)
			i := p.mapFindIdent(m, key)
			if i < 0 {
				continue
			}
			r := p.callFn(fr, a[1], []Value{key, m.vals[i]})
			if !p.branch(r.(*Term)) {
				break
			}
			p.yield("map.range")
		}
		return nil
	}, "(*sync.Map).Range")
	// sync.Pool: most recently put first, then New
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("pool.get")
		k := p.hk(a[0], "pool")
		st, _ := p.host[k].(*poolSt)
		if st != nil && len(st.items) > 0 {
			at := len(st.items) - 1
			if m, _ := p.extra["poolany"].(uint64); m > 0 { // any of the items (1), or none of them (2) as another processor may hold them
				at = p.choose("pool", len(st.items)+int(m)-1)
			}
			if at < len(st.items) {
				v := st.items[at]
				st.items = append(append([]Value(nil), st.items[:at]...), st.items[at+1:]...)
				return v
			}
		}
		t := recvElem(fn)
		off, ft := p.fieldOff(t, "New")
		f := p.load(ft, Ptr{o: k.o, off: k.off + off})
		if fv, ok := f.(*Fn); !ok || fv == nil {
			return Iface{}
		}
		return p.callFn(fr, f, nil)
	}, "(*sync.Pool).Get")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("pool.put")
		k := p.hk(a[0], "pool")
		st, _ := p.host[k].(*poolSt)
		if st == nil {
			st = &poolSt{}
			p.host[k] = st
		}
		if i, ok := a[1].(Iface); ok && i.t == nil {
			return nil
		}
		st.items = append(append([]Value(nil), st.items...), a[1])
		return nil
	}, "(*sync.Pool).Put")
	// sync.Cond (no spurious wake-ups; Signal wakes the longest waiting)
	condOf := func(p *Path, v Value) *condSt {
		k := p.hk(v, "cond")
		st, _ := p.host[k].(*condSt)
		if st == nil {
			st = &condSt{}
			p.host[k] = st
		}
		return st
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := condOf(p, a[0])
		t := recvElem(fn)
		off, ft := p.fieldOff(t, "L")
		x := a[0].(Ptr)
		l := p.load(ft, Ptr{o: x.o, off: x.off + off}).(Iface)
		woken := new(bool)
		st.waiting = append(append([]*bool(nil), st.waiting...), woken)
		p.callFn(fr, p.w.fnVal(p.methodByName(l.t, "Unlock")), []Value{l.v})
		for !*woken {
			p.block(func() bool { return *woken }, "Cond.Wait")
		}
		p.callFn(fr, p.w.fnVal(p.methodByName(l.t, "Lock")), []Value{l.v})
		return nil
	}, "(*sync.Cond).Wait")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("cond.signal")
		st := condOf(p, a[0])
		for len(st.waiting) > 0 {
			*st.waiting[0] = true
			st.waiting = st.waiting[1:]
			if fn.Name() == "Signal" {
				break
			}
		}
		return nil
	}, "(*sync.Cond).Signal", "(*sync.Cond).Broadcast")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		text := []byte(p.conStr(mkStr(p.terms(a[0])), "hashed bytes"))
		var sum []byte
		switch fn.Pkg.Pkg.Path() {
		case "crypto/md5":
			h := md5.Sum(text)
			sum = h[:]
		case "crypto/sha1":
			h := sha1.Sum(text)
			sum = h[:]
		default:
			h := sha256.Sum256(text)
			sum = h[:]
		}
		var out Agg
		for _, b := range sum {
			out = append(out, p.w.c.BVC(uint64(b), 8))
		}
		return out
	}, "crypto/sha256.Sum256", "crypto/sha1.Sum", "crypto/md5.Sum")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		panic(unsupported("streaming hash " + fn.String()))
	}, "crypto/internal/fips140/sha256.block", "crypto/sha1.block", "crypto/md5.block", "crypto/internal/fips140/sha512.block")
	reg(noop, "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		c := p.w.c
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return p.deepEqual(x.t, x.v, y.v, fn.Name() == "Equal", 0)
	}, "reflect.DeepEqual", "github.com/golang/protobuf/proto.Equal", "google.golang.org/protobuf/proto.Equal")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := p.w.eng.pkgs["context"].Members["valueCtx"].(*ssa.Type).Type()
		if i := a[0].(Iface); i.t == nil {
			p.goPanicStr("cannot create context from nil parent")
		}
		if i := a[1].(Iface); i.t == nil {
			p.goPanicStr("nil key")
		}
		return Iface{t: types.NewPointer(t), v: Ptr{o: p.newObj(t, []Value{a[0], a[1], a[2]})}}
	}, "context.WithValue")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		err, target := a[0].(Iface), a[1].(Iface)
		if target.t == nil {
			p.goPanicStr("errors: target cannot be nil")
		}
		want := target.t.Underlying().(*types.Pointer).Elem()
		for err.t != nil {
			if it, ok := want.Underlying().(*types.Interface); ok {
				if types.Implements(err.t, it) {
					p.store(want, target.v, err)
					return p.w.c.True
				}
			} else if types.Identical(err.t, want) {
				p.store(want, target.v, err.v)
				return p.w.c.True
			}
			m := p.methodByName(err.t, "Unwrap")
			if m == nil || m.Signature.Results().Len() != 1 {
				break
			}
			n, ok := p.callFn(fr, p.w.fnVal(m), []Value{err.v}).(Iface)
			if !ok {
				panic(unsupported("errors.As over joined errors"))
			}
			err = n
		}
		return p.w.c.False
	}, "errors.As")
	reg(noop, "sync.runtime_registerPoolCleanup", "sync.fatal", "sync.throw")

	// ---- atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(atomicLoad, pk+"Load"+t)
			reg(atomicStore, pk+"Store"+t)
			reg(atomicAdd, pk+"Add"+t)
			reg(atomicSwap, pk+"Swap"+t)
			reg(atomicCAS, pk+"CompareAndSwap"+t)
		}
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("atomic")
		if v, ok := p.host[p.hk(a[0], "atomicvalue")]; ok {
			return v.(Value)
		}
		return Iface{}
	}, "(*sync/atomic.Value).Load")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("atomic")
		if i, ok := a[1].(Iface); ok && i.t == nil {
			p.goPanicStr("sync/atomic: store of nil value into Value")
		}
		p.host[p.hk(a[0], "atomicvalue")] = a[1]
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("atomic")
		k := p.hk(a[0], "atomicvalue")
		var cur Value = Iface{}
		if v, ok := p.host[k]; ok {
			cur = v.(Value)
		}
		if p.branch(p.eq(cur, a[1])) {
			p.host[k] = a[2]
			return p.w.c.True
		}
		return p.w.c.False
	}, "(*sync/atomic.Value).CompareAndSwap")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("atomic")
		k := p.hk(a[0], "atomicvalue")
		var cur Value = Iface{}
		if v, ok := p.host[k]; ok {
			cur = v.(Value)
		}
		p.host[k] = a[1]
		return cur
	}, "(*sync/atomic.Value).Swap")

	// ---- runtime
	reg(noop, "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime.ReadMemStats",
		"runtime/debug.FreeOSMemory", "runtime.Callers", "internal/godebug.registerMetric", "(*internal/godebug.Setting).IncNonDefault",
		"os/signal.Stop", "os/signal.Reset", "runtime.AddCleanup")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		if f, ok := p.extra["hook:Notify"].(Value); ok {
			p.callFn(fr, f, a)
		}
		return nil
	}, "os/signal.Notify")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { p.yield("gosched"); return nil }, "runtime.Gosched")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		panic(&goPanic{v: Iface{}, rt: "Goexit", exit: true})
	}, "runtime.Goexit")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return p.i64(8) }, "runtime.GOMAXPROCS", "runtime.NumCPU", "runtime.NumGoroutine")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return Str{} }, "(*internal/godebug.Setting).Value", "os.Getenv", "(*internal/godebug.Setting).String")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "bytes.noescape")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		if f, ok := p.extra["hook:Exit"].(Value); ok {
			p.callFn(fr, f, a)
		}
		p.goPanicStr("os.Exit called")
		return nil
	}, "os.Exit", "syscall.Exit")

	// ---- bytes / strings primitives
	idxByte := func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := a[1].(*Term)
		for i, t := range p.terms(a[0]) {
			if p.branch(p.w.c.Eq(t, b)) {
				return p.i64(int64(i))
			}
		}
		return p.i64(-1)
	}
	reg(idxByte, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte")
	lastIdxByte := func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := a[1].(*Term)
		ts := p.terms(a[0])
		for i := len(ts) - 1; i >= 0; i-- {
			if p.branch(p.w.c.Eq(ts[i], b)) {
				return p.i64(int64(i))
			}
		}
		return p.i64(-1)
	}
	reg(lastIdxByte, "internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte", "strings.LastIndexByte", "bytes.LastIndexByte")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.i64(int64(p.indexStr(p.terms(a[0]), p.terms(a[1]))))
	}, "strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := a[1].(*Term)
		n := p.i64(0)
		for _, t := range p.terms(a[0]) {
			n = p.w.c.binop(OAdd, n, p.w.c.Ite(p.w.c.Eq(t, b), p.i64(1), p.i64(0)))
		}
		return n
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	cmp := func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(p.terms(a[0])), mkStr(p.terms(a[1]))
		c := p.w.c
		eq := p.w.strEq(x, y)
		lt := p.w.strLess(x, y, false)
		return c.Ite(eq, p.i64(0), c.Ite(lt, p.i64(-1), p.i64(1)))
	}
	reg(cmp, "bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.strEq(mkStr(p.terms(a[0])), mkStr(p.terms(a[1])))
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := int(p.concretize(a[0].(*Term), "length"))
		sl := make([]Value, n)
		for i := range sl {
			sl[i] = p.w.byteC[0]
		}
		return Slice{o: p.newObj(types.Typ[types.Uint8], sl), len: n, cap: n, esz: 1}
	}, "internal/bytealg.MakeNoZero")

	// ---- fmt / log
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStr(p.sprintf(fr, p.conStr(a[0], "format"), p.variadic(a[1])))
	}, "fmt.Sprintf")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStr(p.sprint(fr, p.variadic(a[0]), false))
	}, "fmt.Sprint")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStr(p.sprint(fr, p.variadic(a[0]), true))
	}, "fmt.Sprintln")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := p.conStr(a[0], "format")
		args := p.variadic(a[1])
		txt := mkStr(p.sprintf(fr, f, args))
		if strings.Contains(f, "%w") {
			pk := p.w.eng.pkgs["fmt"]
			if wt := pk.Pkg.Scope().Lookup("wrapError"); wt != nil {
				var wrapped Value = Iface{}
				et := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
				for _, x := range args {
					if i, ok := x.(Iface); ok && i.t != nil && p.w.implements(i.t, et) {
						wrapped = i
					}
				}
				o := p.newObj(wt.Type(), []Value{txt, wrapped})
				return Iface{t: types.NewPointer(wt.Type()), v: Ptr{o: o}}
			}
		}
		e := p.newError("")
		e.v.(Ptr).o.slots[0] = txt
		return e
	}, "fmt.Errorf")
	reg(noop, "fmt.Println", "fmt.Printf", "fmt.Print")
	fprint := func(mk func(p *Path, fr *Frame, a []Value) []*Term) intrinsicFn {
		return func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
			ts := mk(p, fr, a)
			w := a[0].(Iface)
			m := p.methodByName(w.t, "Write")
			if m == nil {
				panic(unsupported("Fprintf target"))
			}
			return p.callSSA(fr, m, []Value{w.v, p.bytesSlice(ts)}, nil)
		}
	}
	reg(fprint(func(p *Path, fr *Frame, a []Value) []*Term {
		return p.sprintf(fr, p.conStr(a[1], "format"), p.variadic(a[2]))
	}), "fmt.Fprintf")
	reg(fprint(func(p *Path, fr *Frame, a []Value) []*Term { return p.sprint(fr, p.variadic(a[1]), false) }), "fmt.Fprint")
	reg(fprint(func(p *Path, fr *Frame, a []Value) []*Term { return p.sprint(fr, p.variadic(a[1]), true) }), "fmt.Fprintln")
	itoa := func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if !t.IsConst() {
			return mkStr(p.symText(t))
		}
		return mkStr(p.fmtTyped(fr, fn.Signature.Params().At(0).Type(), t, 'v', 0))
	}
	reg(itoa, "strconv.Itoa")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		if b := a[1].(*Term); !b.IsConst() || b.C != 10 {
			panic(unsupported("strconv format with base"))
		}
		return itoa(p, fr, fn, a)
	}, "strconv.FormatInt", "strconv.FormatUint")

	// ---- errors
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		for i := 0; i < 10; i++ {
			if e.t == nil {
				return p.tbool(t.t == nil)
			}
			if p.eq(e, t).IsTrue() {
				return p.w.c.True
			}
			if pt, ok := e.v.(Ptr); ok && pt.o != nil {
				if s, ok := p.host[hostKey{pt.o, 0, "oserr"}].(string); ok && t.t != nil {
					if g, ok := p.w.eng.pkgs["os"].Members[s].(*ssa.Global); ok {
						if p.eq(p.global(g).slots[0], t).IsTrue() {
							return p.w.c.True
						}
					}
				}
			}
			m := p.methodByName(e.t, "Unwrap")
			if m == nil {
				return p.w.c.False
			}
			r, ok := p.callSSA(fr, m, []Value{e.v}, nil).(Iface)
			if !ok {
				return p.w.c.False
			}
			e = r
		}
		return p.w.c.False
	}, "errors.Is")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		e := a[0].(Iface)
		if e.t == nil {
			return p.w.c.False
		}
		if pt, ok := e.v.(Ptr); ok && pt.o != nil {
			if s, ok := p.host[hostKey{pt.o, 0, "oserr"}].(string); ok {
				return p.tbool(s == "ErrNotExist" && fn.Name() == "IsNotExist" || s == "ErrExist" && fn.Name() == "IsExist")
			}
		}
		return p.w.c.False
	}, "os.IsNotExist", "os.IsExist")

	// ---- sort
	sorter := func(algo string) intrinsicFn {
		return func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			s, ok := i.v.(Slice)
			if !ok {
				p.goPanicStr("reflect: call of Swapper on non-slice value")
			}
			es := p.w.layout(i.t.Underlying().(*types.Slice).Elem()).n
			swap := &Fn{name: "swap", host: func(p *Path, fr *Frame, b []Value) Value {
				x, y := int(p.concretize(b[0].(*Term), "index")), int(p.concretize(b[1].(*Term), "index"))
				if x < 0 || y < 0 || x >= s.len || y >= s.len {
					p.goPanicStr("reflect: slice index out of range")
				}
				p.saveObj(s.o)
				for k := 0; k < es; k++ {
					u, v := s.off+x*es+k, s.off+y*es+k
					s.o.slots[u], s.o.slots[v] = s.o.slots[v], s.o.slots[u]
				}
				return nil
			}}
			if s.len > 0 {
				p.grow(s.o, s.off+s.len*es)
			}
			f := p.w.eng.pkgs["sort"].Func(algo)
			ls := Agg{a[1], swap}
			if algo == "stable_func" {
				return p.callSSA(fr, f, []Value{ls, p.i64(int64(s.len))}, nil)
			}
			return p.callSSA(fr, f, []Value{ls, p.i64(0), p.i64(int64(s.len)), p.i64(int64(bits.Len(uint(s.len))))}, nil)
		}
	}
	reg(sorter("pdqsort_func"), "sort.Slice")
	reg(sorter("stable_func"), "sort.SliceStable")

	// ---- math
	f1 := func(g func(p *Path, x *Term) *Term, names ...string) {
		reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return g(p, a[0].(*Term)) }, names...)
	}
	f1(func(p *Path, x *Term) *Term { return p.w.c.FSqrt(x) }, "math.Sqrt", "math.sqrt", "math.archSqrt", "github.com/chewxy/math32.Sqrt")
	f1(func(p *Path, x *Term) *Term { return p.w.c.FAbs(x) }, "math.Abs", "github.com/chewxy/math32.Abs")
	f1(func(p *Path, x *Term) *Term { return p.w.c.FRound(OFFloor, x) }, "math.Floor")
	f1(func(p *Path, x *Term) *Term { return p.w.c.FRound(OFCeil, x) }, "math.Ceil")
	f1(func(p *Path, x *Term) *Term { return p.w.c.FRound(OFRndZ, x) }, "math.Trunc")
	f1(func(p *Path, x *Term) *Term { return p.bitsOf(x) }, "math.Float64bits", "math.Float32bits", "github.com/chewxy/math32.Float32bits")
	f1(func(p *Path, x *Term) *Term { return p.w.c.FFromBits(x) }, "math.Float64frombits", "math.Float32frombits", "github.com/chewxy/math32.Float32frombits")
	f1(func(p *Path, x *Term) *Term { return p.w.c.FIsNaN(x) }, "math.IsNaN", "github.com/chewxy/math32.IsNaN")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		c := p.w.c
		s := int64(p.concretize(a[1].(*Term), "sign"))
		hi, lo := c.FCmp(OFEq, x, c.fconst(x.S.W, math.Inf(1))), c.FCmp(OFEq, x, c.fconst(x.S.W, math.Inf(-1)))
		switch {
		case s > 0:
			return hi
		case s < 0:
			return lo
		}
		return c.Or(hi, lo)
	}, "math.IsInf")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		c := p.w.c
		if x.IsConst() && y.IsConst() && x.S.W == 64 {
			return c.F64C(math.Pow(x.F(), y.F()))
		}
		if y.IsConst() && y.F() == 2 {
			return c.FBin(OFMul, x, x)
		}
		if y.IsConst() && y.F() == 1 {
			return x
		}
		if y.IsConst() && y.F() == 0.5 {
			return c.FSqrt(x)
		}
		panic(unsupported("Pow with exponent other than 2"))
	}, "math.Pow", "github.com/chewxy/math32.Pow")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		c := p.w.c
		if x.IsConst() {
			return c.F64C(math.Acos(x.F()))
		}
		type pr struct{ x, r *Term }
		l, _ := p.extra["acos"].([]pr)
		for _, q := range l {
			if q.x == x {
				return q.r
			}
		}
		// uninterpreted, range [0,pi] on [-1,1], NaN elsewhere, exact at -1, 0 and 1; decreasing between two applications
		r := p.freshVar("acos", FP(64))
		in := c.And(c.FCmp(OFLe, c.F64C(-1), x), c.FCmp(OFLe, x, c.F64C(1)))
		rng := c.And(c.FCmp(OFLe, c.F64C(0), r), c.FCmp(OFLe, r, c.F64C(math.Acos(-1))))
		p.assume(c.Or(c.And(in, rng), c.And(c.Not(in), c.FIsNaN(r))))
		for _, k := range []float64{-1, 0, 1} {
			p.assume(c.Or(c.Not(c.FCmp(OFEq, x, c.F64C(k))), c.FCmp(OFEq, r, c.F64C(math.Acos(k)))))
		}
		for _, q := range l {
			p.assume(c.Or(c.Not(c.FCmp(OFLe, q.x, x)), c.FCmp(OFLe, r, q.r)))
			p.assume(c.Or(c.Not(c.FCmp(OFLe, x, q.x)), c.FCmp(OFLe, q.r, r)))
		}
		p.extra["acos"] = append(l, pr{x, r})
		p.extra["uf"] = true
		return r
	}, "math.Acos")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		c := p.w.c
		nan := c.Or(c.FIsNaN(x), c.FIsNaN(y))
		less := c.FCmp(OFLt, x, y)
		mx := c.Ite(less, y, x)
		mn := c.Ite(less, x, y)
		r := mx
		if fn.Name() == "Min" {
			r = mn
		}
		return c.Ite(nan, c.fconst(x.S.W, math.NaN()), r)
	}, "math.Max", "math.Min")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		v := p.inputVar("rand", BV(64))
		c := p.w.c
		// k/2^16 for a 16-bit k: enough to fall on either side of any threshold a harness uses
		p.assume(c.Cmp(OUlt, v, c.BVC(1<<16, 64)))
		return c.FBin(OFDiv, c.IntToF(v, false, 64), c.F64C(65536))
	}, "math/rand.Float64", "math/rand/v2.Float64")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := p.w.c
		n := a[0].(*Term)
		if p.branch(c.Cmp(OSle, n, c.BVC(0, n.S.W))) {
			p.goPanicStr("invalid argument to Intn")
		}
		v := p.inputVar("rand", BV(64))
		p.assume(c.Cmp(OUlt, v, c.Zext(n, 64)))
		return c.Extract(v, n.S.W-1, 0)
	}, "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n")
	reg(noop, "math/rand.Seed")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := int(p.concretize(a[0].(*Term), "permutation size"))
		for i := n - 1; i > 0; i-- {
			p.callFn(fr, a[1], []Value{p.i64(int64(i)), p.i64(int64(p.choose("maporder", i+1)))})
		}
		return nil
	}, "math/rand.Shuffle")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := int(p.concretize(a[0].(*Term), "permutation size"))
		o := p.newObj(types.Typ[types.Int], nil)
		for i := 0; i < n; i++ {
			o.slots = append(o.slots, p.i64(int64(i)))
		}
		for i := n - 1; i > 0; i-- {
			j := p.choose("maporder", i+1)
			o.slots[i], o.slots[j] = o.slots[j], o.slots[i]
		}
		return Slice{o: o, len: n, cap: n, esz: 1}
	}, "math/rand.Perm")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, _ := p.extra["uuid"].(int)
		p.extra["uuid"] = n + 1
		u := make(Agg, 16)
		for i := range u {
			u[i] = p.w.byteC[0]
		}
		u[6] = p.w.byteC[0x40]
		u[8] = p.w.byteC[0x80]
		u[14] = p.w.byteC[byte((n+1)>>8)]
		u[15] = p.w.byteC[byte(n+1)]
		if fn.Signature.Results().Len() == 1 {
			return u
		}
		return Tuple{u, Iface{}}
	}, "github.com/google/uuid.NewRandom", "github.com/google/uuid.New")

	// the cache janitor only calls DeleteExpired periodically; harnesses call it where expiry matters
	reg(noop, "github.com/bgokden/go-cache.runJanitor")

	// ---- time
	now := func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		repo := fr != nil && p.w.eng.isRepoFn(fr.fn)
		s, ns := p.nowSec(repo)
		return p.timeValue(s, ns)
	}
	reg(now, "time.Now")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := now(p, fr, fn, nil)
		sub := p.methodByName(p.timeType(), "Sub")
		if fn.Name() == "Since" {
			return p.callSSA(fr, sub, []Value{n, a[0]}, nil)
		}
		return p.callSSA(fr, sub, []Value{a[0], n}, nil)
	}, "time.Since", "time.Until")
	newChan := func(p *Path) *Chan {
		p.w.nextID++
		return &Chan{cap: 1, et: p.timeType(), id: p.w.nextID}
	}
	fireInto := func(p *Path, ch *Chan) func() {
		return func() {
			if len(ch.buf) < ch.cap {
				s, ns := p.nowSec(false)
				ch.buf = append(append([]Value(nil), ch.buf...), p.timeValue(s, ns))
			}
		}
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		ch := newChan(p)
		p.addTimer(p.durConst(a[0]), false, fireInto(p, ch))
		return ch
	}, "time.After")
	mkTimer := func(p *Path, tn string, ch *Chan) Ptr {
		t := p.w.eng.pkgs["time"].Pkg.Scope().Lookup(tn).Type()
		o := p.newObj(t, p.w.zeroSlots(t, nil))
		if ch != nil {
			o.slots[0] = ch
		}
		return Ptr{o: o}
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		ch := newChan(p)
		pt := mkTimer(p, "Timer", ch)
		p.host[hostKey{pt.o, 0, "timer"}] = p.addTimer(p.durConst(a[0]), false, fireInto(p, ch))
		return pt
	}, "time.NewTimer")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		pt := mkTimer(p, "Timer", nil)
		f := a[1]
		t := p.addTimer(p.durConst(a[0]), false, nil)
		t.fire = func() {
			p.gseq++
			g := &G{id: p.gseq, fn: f, resume: make(chan struct{}, 1), name: "AfterFunc"}
			p.gs = append(p.gs, g)
		}
		p.host[hostKey{pt.o, 0, "timer"}] = t
		return pt
	}, "time.AfterFunc")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		t, _ := p.host[p.hk(a[0], "timer")].(*timer)
		if t == nil {
			return p.w.c.False
		}
		was := t.live
		t.live = false
		return p.tbool(was)
	}, "(*time.Timer).Stop")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		k := p.hk(a[0], "timer")
		t, _ := p.host[k].(*timer)
		if t == nil {
			return p.w.c.False
		}
		was := t.live
		t.live = false
		p.host[k] = p.addTimer(p.durConst(a[1]), false, t.fire)
		return p.tbool(was)
	}, "(*time.Timer).Reset")
	// tickers never fire on their own: periodic work is driven by the harness (FireTickers)
	newTicker := func(p *Path, d Value) (*Chan, *ticker) {
		ch := newChan(p)
		t := &ticker{live: true, period: p.durConst(d), fire: fireInto(p, ch)}
		l, _ := p.extra["tickers"].([]*ticker)
		p.extra["tickers"] = append(l[:len(l):len(l)], t)
		return ch, t
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		ch, t := newTicker(p, a[0])
		pt := mkTimer(p, "Ticker", ch)
		p.host[hostKey{pt.o, 0, "ticker"}] = t
		return pt
	}, "time.NewTicker")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { ch, _ := newTicker(p, a[0]); return ch }, "time.Tick")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		if t, _ := p.host[p.hk(a[0], "ticker")].(*ticker); t != nil {
			t.live = false
		}
		return nil
	}, "(*time.Ticker).Stop")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		if t, _ := p.host[p.hk(a[0], "ticker")].(*ticker); t != nil {
			t.live, t.period = true, p.durConst(a[1])
		}
		return nil
	}, "(*time.Ticker).Reset")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		done := false
		if p.w.initing {
			return nil
		}
		p.addTimer(p.durConst(a[0]), true, func() { done = true })
		p.block(func() bool { return done }, "sleep")
		return nil
	}, "time.Sleep")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return Str{s: "duration"} }, "(time.Duration).String", "(time.Time).String")

	// ---- reflection-based libraries
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return p.copierCopy(a) }, "github.com/jinzhu/copier.Copy")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return i
		}
		return Iface{t: i.t, v: p.deepCopy(i.t, i.v, map[*Obj]*Obj{})}
	}, "github.com/golang/protobuf/proto.Clone", "google.golang.org/protobuf/proto.Clone")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Tuple{p.bytesSlice(p.textTerms("null")), Iface{}}
		}
		ts, bad := p.jsonEnc(i.t, i.v)
		if bad {
			return Tuple{Slice{}, p.newError("json: unsupported value")}
		}
		return Tuple{p.bytesSlice(ts), Iface{}}
	}, "encoding/json.Marshal")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		d := &jsonDec{p: p, in: p.terms(a[0])}
		v := d.value()
		if !d.bad {
			d.ws()
			if d.pos < len(d.in) {
				d.bad = true
			}
		}
		if d.bad {
			return p.newError("invalid JSON")
		}
		i := a[1].(Iface)
		pt := i.t.Underlying().(*types.Pointer)
		return p.errOrNil(!p.jsonInto(pt.Elem(), i.v.(Ptr), v), "json: cannot unmarshal")
	}, "encoding/json.Unmarshal")
	// json streams: the whole of the reader is read ahead, values are decoded one after the other
	jsonStream := func() func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
			t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			o := p.newObj(t, p.w.zeroSlots(t, nil))
			p.host[hostKey{o, 0, "json"}] = &jsonStreamState{end: a[0].(Iface)}
			return Ptr{o: o}
		}
	}
	reg(jsonStream(), "encoding/json.NewEncoder")
	reg(jsonStream(), "encoding/json.NewDecoder")
	jsonState := func(p *Path, v Value) *jsonStreamState {
		a := v.(Ptr)
		if a.o == nil {
			p.nilDeref()
		}
		st, ok := p.host[hostKey{a.o, a.off, "json"}].(*jsonStreamState)
		if !ok {
			panic(unsupported("json stream not made by NewEncoder or NewDecoder"))
		}
		return st
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return nil }, "(*encoding/json.Encoder).SetEscapeHTML")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := jsonState(p, a[0])
		i := a[1].(Iface)
		ts, bad := p.textTerms("null"), false
		if i.t != nil {
			ts, bad = p.jsonEnc(i.t, i.v)
		}
		if bad {
			return p.newError("json: unsupported value")
		}
		ts = append(append([]*Term(nil), ts...), p.textTerms("\n")...)
		if st.end.t == nil {
			p.nilDeref()
		}
		r := p.callFn(fr, p.w.fnVal(p.methodByName(st.end.t, "Write")), []Value{st.end.v, p.bytesSlice(ts)})
		return r.(Tuple)[1]
	}, "(*encoding/json.Encoder).Encode")
	fill := func(p *Path, fr *Frame, st *jsonStreamState) {
		for st.err.t == nil {
			b := p.bytesSlice(p.textTerms(strings.Repeat("\x00", 512)))
			r := p.callFn(fr, p.w.fnVal(p.methodByName(st.end.t, "Read")), []Value{st.end.v, b}).(Tuple)
			n := int(p.concretize(r[0].(*Term), "bytes read"))
			st.in = append(st.in, p.terms(b)[:n]...)
			st.err = r[1].(Iface)
		}
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := jsonState(p, a[0])
		fill(p, fr, st)
		d := &jsonDec{p: p, in: st.in, pos: st.pos}
		d.ws()
		b, ok := d.peek()
		return p.tbool(ok && b != ']' && b != '}')
	}, "(*encoding/json.Decoder).More")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := jsonState(p, a[0])
		if st.bad {
			return p.newError("invalid JSON")
		}
		fill(p, fr, st)
		d := &jsonDec{p: p, in: st.in, pos: st.pos}
		d.ws()
		if _, ok := d.peek(); !ok {
			return st.err
		}
		v := d.value()
		if d.bad {
			st.bad = true
			return p.newError("invalid JSON")
		}
		st.pos = d.pos
		i := a[1].(Iface)
		pt := i.t.Underlying().(*types.Pointer)
		return p.errOrNil(!p.jsonInto(pt.Elem(), i.v.(Ptr), v), "json: cannot unmarshal")
	}, "(*encoding/json.Decoder).Decode")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Results().At(0).Type()
		var js string
		if s, ok := a[0].(Str); ok {
			js = p.conStr(s, "gjson document")
		} else {
			js = p.conStr(mkStr(p.terms(a[0])), "gjson document")
		}
		return p.gjsonResult(t, gjson.Get(js, p.conStr(a[1], "gjson path")))
	}, "github.com/tidwall/gjson.Get", "github.com/tidwall/gjson.GetBytes")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.tbool(gjson.Valid(p.conStr(mkStr(p.terms(a[0])), "gjson document")))
	}, "github.com/tidwall/gjson.Valid", "github.com/tidwall/gjson.ValidBytes")

	// ---- native index: a stand-in of the harness runtime, which records what is added and answers what the harness decides
	rtIndex := func(name string) intrinsicFn {
		return func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
			return p.callSSA(fr, p.w.eng.pkgs[rtPath].Func(name), a, nil)
		}
	}
	reg(rtIndex("NewIndex"), modPath+"/annoyindex.NewAnnoyIndexAngular")
	reg(rtIndex("DeleteIndex"), modPath+"/annoyindex.DeleteAnnoyIndexAngular")
	hostMethods = map[string]func(p *Path, fr *Frame, args []Value) Value{}

	// ---- files
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.fs.madeDir = append(p.fs.madeDir, a[0].(Str))
		return Iface{}
	}, "os.MkdirAll", "os.Mkdir")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Str)
		if p.crashPoint(0) < 0 {
			p.crashNow()
		}
		p.fs.removed = append(p.fs.removed, s)
		if cs, ok := p.w.strConcrete(s); ok {
			cs = path.Clean(cs)
			for _, k := range p.fsNames() {
				if k == cs || strings.HasPrefix(k, strings.TrimSuffix(cs, "/")+"/") {
					delete(p.fs.files, k)
				}
			}
		}
		return Iface{}
	}, "os.RemoveAll")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, ok := p.w.strConcrete(a[0].(Str))
		p.fs.removed = append(p.fs.removed, a[0].(Str))
		if !ok {
			return Iface{}
		}
		s = path.Clean(s)
		if p.fs.files[s] == nil {
			return p.fsErr("remove", s, "no such file or directory", "ErrNotExist")
		}
		if p.crashPoint(0) < 0 {
			p.crashNow()
		}
		delete(p.fs.files, s)
		return Iface{}
	}, "os.Remove")
	open := func(p *Path, nm string, flag int64) Value {
		f, e := p.fsOpen(nm, flag)
		return Tuple{f, e}
	}
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return open(p, p.fsPath(a[0]), int64(p.concretize(a[1].(*Term), "open flags")))
	}, "os.OpenFile")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return open(p, p.fsPath(a[0]), 0) }, "os.Open")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return open(p, p.fsPath(a[0]), 2|0x40|0x200)
	}, "os.Create")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return open(p, p.tempName(p.conStr(a[0], "dir"), p.conStr(a[1], "pattern")), 2|0x40|0x80)
	}, "io/ioutil.TempFile", "os.CreateTemp")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{Str{s: p.tempName(p.conStr(a[0], "dir"), p.conStr(a[1], "pattern"))}, Iface{}}
	}, "io/ioutil.TempDir", "os.MkdirTemp")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return Str{s: "/tmp"} }, "os.TempDir")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, e := p.fsWrite(p.handle(a[0]), p.terms(a[1]))
		return Tuple{p.i64(int64(n)), e}
	}, "(*os.File).Write", "(*os.File).WriteString")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		h := p.handle(a[0])
		if h == nil || h.closed || !h.rd {
			return Tuple{p.i64(0), p.newError("bad file")}
		}
		dst := a[1].(Slice)
		if h.off >= len(h.f.data) {
			if dst.len == 0 {
				return Tuple{p.i64(0), Iface{}}
			}
			g := p.w.eng.pkgs["io"].Members["EOF"].(*ssa.Global)
			return Tuple{p.i64(0), p.global(g).slots[0]}
		}
		n := len(h.f.data) - h.off
		if n > dst.len {
			n = dst.len
		}
		p.saveObj(dst.o)
		p.grow(dst.o, dst.off+n)
		for i := 0; i < n; i++ {
			dst.o.slots[dst.off+i] = h.f.data[h.off+i]
		}
		h.off += n
		return Tuple{p.i64(int64(n)), Iface{}}
	}, "(*os.File).Read")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		h := p.handle(a[0])
		if h == nil || h.closed {
			return p.newError("file already closed")
		}
		h.closed = true
		return Iface{}
	}, "(*os.File).Close")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return Iface{} }, "(*os.File).Sync", "(*os.File).Chmod", "os.Chmod")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		h := p.handle(a[0])
		if h == nil {
			p.nilDeref()
		}
		return Str{s: h.name}
	}, "(*os.File).Name")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		h := p.handle(a[0])
		n := int(p.concretize(a[1].(*Term), "size"))
		if p.crashPoint(0) < 0 {
			p.crashNow()
		}
		if n < len(h.f.data) {
			h.f.data = h.f.data[:n]
		}
		return Iface{}
	}, "(*os.File).Truncate")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		h := p.handle(a[0])
		o, wh := int(int64(p.concretize(a[1].(*Term), "offset"))), p.concretize(a[2].(*Term), "whence")
		switch wh {
		case 0:
			h.off = o
		case 1:
			h.off += o
		case 2:
			h.off = len(h.f.data) + o
		}
		return Tuple{p.i64(int64(h.off)), Iface{}}
	}, "(*os.File).Seek")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := p.fsPath(a[0]), p.fsPath(a[1])
		f := p.fs.files[x]
		if f == nil {
			return p.fsErr("rename", x, "no such file or directory", "ErrNotExist")
		}
		if p.crashPoint(0) < 0 {
			p.crashNow()
		}
		if p.fs.files[x] != f { // somebody else renamed it meanwhile
			if p.fs.files[x] == nil {
				return p.fsErr("rename", x, "no such file or directory", "ErrNotExist")
			}
			f = p.fs.files[x]
		}
		delete(p.fs.files, x)
		p.fs.files[y] = f
		return Iface{}
	}, "os.Rename")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := p.fs.files[p.fsPath(a[0])]
		if f == nil {
			return Tuple{Slice{}, p.fsErr("open", "", "no such file or directory", "ErrNotExist")}
		}
		return Tuple{p.bytesSlice(f.data), Iface{}}
	}, "os.ReadFile", "io/ioutil.ReadFile")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, e := p.fsOpen(p.fsPath(a[0]), 1|0x40|0x200)
		if e.t != nil {
			return e
		}
		_, e = p.fsWrite(p.handle(f), p.terms(a[1]))
		return e
	}, "os.WriteFile", "io/ioutil.WriteFile")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := p.fsPath(a[0])
		if p.fs.files[s] == nil {
			return Tuple{Iface{}, p.fsErr("stat", s, "no such file or directory", "ErrNotExist")}
		}
		return Tuple{Iface{t: p.w.eng.hostType("fileinfo"), v: &HostObj{kind: "fileinfo"}}, Iface{}}
	}, "os.Stat", "os.Lstat")

	// ---- grpc
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.grpcDial(fr, a[0].(Str), fn)
	}, "google.golang.org/grpc.Dial", "google.golang.org/grpc.NewClient")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.grpcDial(fr, a[1].(Str), fn)
	}, "google.golang.org/grpc.DialContext")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Results().At(0).Type()
		if _, ok := t.Underlying().(*types.Interface); ok {
			return Iface{t: p.w.eng.hostType("dialoption"), v: &HostObj{kind: "dialoption"}}
		}
		return p.w.zero(t)
	}, "google.golang.org/grpc.WithInsecure", "google.golang.org/grpc.WithTimeout", "google.golang.org/grpc.WithBlock", "google.golang.org/grpc.WithTransportCredentials")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		cn := p.conn(a[0])
		p.yield("conn")
		if cn.closed {
			return p.i64(4) // connectivity.Shutdown
		}
		if f, ok := p.extra["hook:State"].(Value); ok {
			return p.callFn(fr, f, []Value{cn.addr, p.i64(int64(cn.id))})
		}
		return p.i64(2) // Ready
	}, "(*google.golang.org/grpc.ClientConn).GetState")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		cn := p.conn(a[0])
		p.yield("conn")
		if cn.closed {
			return p.newError("grpc: the client connection is closing")
		}
		cn.closed = true
		return Iface{}
	}, "(*google.golang.org/grpc.ClientConn).Close")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		cn := p.conn(a[0])
		p.yield("rpc")
		if cn.closed {
			cn.usedClosed = true
			return p.newError("rpc error: code = Canceled desc = grpc: the client connection is closing")
		}
		f, ok := p.extra["hook:Invoke"].(Value)
		if !ok {
			return p.newError("rpc error: code = Unavailable")
		}
		return p.callFn(fr, f, []Value{cn.addr, a[2], a[3], a[4]})
	}, "(*google.golang.org/grpc.ClientConn).Invoke")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		cn := p.conn(a[0])
		p.yield("rpc")
		if cn.closed {
			cn.usedClosed = true
			return Tuple{Iface{}, p.newError("rpc error: code = Canceled desc = grpc: the client connection is closing")}
		}
		f, ok := p.extra["hook:Stream"].(Value)
		if !ok {
			return Tuple{Iface{}, p.newError("rpc error: code = Unavailable")}
		}
		r := p.callFn(fr, f, []Value{cn.addr, a[3]})
		return r
	}, "(*google.golang.org/grpc.ClientConn).NewStream")
	// what a server does is up to the harness: without hooks nothing can be listened on
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("listen")
		if f, ok := p.extra["hook:Listen"].(Value); ok {
			if p.branch(p.callFn(fr, f, a).(*Term)) {
				return Tuple{Iface{t: p.w.eng.hostType("listener"), v: &HostObj{kind: "listener"}}, Iface{}}
			}
		}
		return Tuple{Iface{}, p.newError("listen: address already in use")}
	}, "net.Listen")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		ct := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return Ptr{o: p.newObj(ct, p.w.zeroSlots(ct, nil))}
	}, "google.golang.org/grpc.NewServer")
	reg(noop, "google.golang.org/grpc/reflection.Register")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		if f, ok := p.extra["hook:Register"].(Value); ok {
			p.callFn(fr, f, a[2:])
		}
		return nil
	}, "(*google.golang.org/grpc.Server).RegisterService")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("serve")
		if f, ok := p.extra["hook:Serve"].(Value); ok {
			return p.callFn(fr, f, nil)
		}
		return p.newError("serve: closed")
	}, "(*google.golang.org/grpc.Server).Serve")
	reg(noop, "(*google.golang.org/grpc.Server).Stop", "(*google.golang.org/grpc.Server).GracefulStop")
	reg(func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.yield("listen")
		if f, ok := p.extra["hook:HTTP"].(Value); ok {
			return p.callFn(fr, f, a)
		}
		return p.newError("listen: address already in use")
	}, "net/http.ListenAndServe")

	regRT(reg)
}

type ticker struct {
	live   bool
	period int64
	fire   func()
}

type grpcConn struct {
	addr       Str
	id         int
	closed     bool
	usedClosed bool
}

func (p *Path) conn(v Value) *grpcConn {
	k := p.hk(v, "conn")
	c, _ := p.host[k].(*grpcConn)
	if c == nil {
		c = &grpcConn{}
		p.host[k] = c
	}
	return c
}

func (p *Path) grpcDial(fr *Frame, addr Str, fn *ssa.Function) Value {
	p.yield("dial")
	if f, ok := p.extra["hook:Dial"].(Value); ok {
		r := p.callFn(fr, f, []Value{addr}).(*Term)
		if !p.branch(r) {
			return Tuple{Ptr{}, p.newError("dial error")}
		}
	}
	ct := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	o := p.newObj(ct, p.w.zeroSlots(ct, nil))
	conns, _ := p.extra["conns"].([]*grpcConn)
	cn := &grpcConn{addr: addr, id: len(conns)}
	p.extra["conns"] = append(conns, cn)
	p.host[hostKey{o, 0, "conn"}] = cn
	return Tuple{Ptr{o: o}, Iface{}}
}

// ---- harness runtime
func (p *Path) rtName(v Value) string { return p.conStr(v, "input name") }

func regRT(reg func(intrinsicFn, ...string)) {
	R := func(name string, f intrinsicFn) { reg(f, rtPath+"."+name) }
	mkInput := func(w int) intrinsicFn {
		return func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
			return p.inputVar(p.rtName(a[0]), BV(w))
		}
	}
	R("U8", mkInput(8))
	R("U16", mkInput(16))
	R("U32", mkInput(32))
	R("U64", mkInput(64))
	R("I64", mkInput(64))
	R("Int", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		v := p.inputVar(p.rtName(a[0]), BV(64))
		c := p.w.c
		p.assume(c.And(c.Cmp(OSle, a[1].(*Term), v), c.Cmp(OSle, v, a[2].(*Term))))
		return v
	})
	R("Bool", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		v := p.inputVar(p.rtName(a[0]), BV(8))
		c := p.w.c
		p.assume(c.Cmp(OUle, v, c.BVC(1, 8)))
		return c.Eq(v, c.BVC(1, 8))
	})
	R("F32", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.c.FFromBits(p.inputVar(p.rtName(a[0]), BV(32)))
	})
	R("F64", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.c.FFromBits(p.inputVar(p.rtName(a[0]), BV(64)))
	})
	bytesIn := func(p *Path, a []Value) []*Term {
		n := int(p.concretize(a[1].(*Term), "length"))
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = p.inputVar(p.rtName(a[0]), BV(8))
		}
		return ts
	}
	R("Bytes", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return p.bytesSlice(bytesIn(p, a)) })
	R("String", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return mkStr(bytesIn(p, a)) })
	R("Choose", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := int(p.concretize(a[1].(*Term), "choices"))
		if n <= 0 {
			panic(unsupported("Choose(0)"))
		}
		nm := p.rtName(a[0])
		// same numbering as other inputs
		k := p.varCnt[nm]
		v := p.w.c.Var(fmt.Sprintf("%s#%d", nm, k), BV(16))
		p.inputs = append(p.inputs, v)
		if n == 1 {
			p.varCnt[nm] = k + 1
			p.model[v.Name] = 0
			return p.i64(0)
		}
		was := p.usesChoice[nm]
		r := p.choose(nm, n)
		if !was {
			delete(p.usesChoice, nm)
		}
		return p.i64(int64(r))
	})
	R("Assume", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { p.assume(a[0].(*Term)); return nil })
	R("Assert", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.assertTerm(a[0].(*Term), p.conStr(a[1], "message"))
		return nil
	})
	R("Reach", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { p.reach[p.conStr(a[0], "label")] = true; return nil })
	R("And", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return p.w.c.And(a[0].(*Term), a[1].(*Term)) })
	R("Or", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return p.w.c.Or(a[0].(*Term), a[1].(*Term)) })
	R("Not", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return p.w.c.Not(a[0].(*Term)) })
	R("Implies", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.c.Or(p.w.c.Not(a[0].(*Term)), a[1].(*Term))
	})
	ite := func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	R("IteI", ite)
	R("IteU", ite)
	R("IteF", ite)
	R("IteB", ite)
	R("StrEq", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.strEq(a[0].(Str), a[1].(Str))
	})
	R("BytesEq", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.strEq(mkStr(p.terms(a[0])), mkStr(p.terms(a[1])))
	})
	R("F32BitsEq", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.c.Eq(p.bitsOf(a[0].(*Term)), p.bitsOf(a[1].(*Term)))
	})
	R("F64BitsEq", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		return p.w.c.Eq(p.bitsOf(a[0].(*Term)), p.bitsOf(a[1].(*Term)))
	})
	R("SetClock", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.clock.base, p.clock.at = a[0].(*Term), p.vclock
		return nil
	})
	R("Tick", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.clock.tickMax = p.concretize(a[0].(*Term), "tick")
		return nil
	})
	R("NowUnix", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, _ := p.nowSec(false)
		return s
	})
	R("Observe", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.obs = append(p.obs, obsRec{p.conStr(a[0], "name"), a[1].(*Term)})
		return nil
	})
	R("ObserveF", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := a[1].(*Term)
		if b := p.w.c.BitsOf(t); b != nil {
			p.obs = append(p.obs, obsRec{p.conStr(a[0], "name"), b})
		} else {
			p.obs = append(p.obs, obsRec{p.conStr(a[0], "name"), t})
		}
		return nil
	})
	R("Thorough", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return p.tbool(p.w.eng.tier == "thorough") })
	R("Bound", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		if p.w.eng.tier == "thorough" {
			return a[1]
		}
		return a[0]
	})
	R("Symbolic", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return p.w.c.True })
	R("LimitAlloc", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.allocLimit = p.concretize(a[0].(*Term), "limit")
		return nil
	})
	R("Quiesce", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		if len(p.gs) < 2 {
			return nil
		}
		self := p.cur
		p.quiesceMain = self
		self.ready = func() bool { return false }
		self.why = "quiesce"
		p.dispatch(self, "quiesce")
		self.ready = nil
		return nil
	})
	// FireTickers lets every running ticker with a period of at most sec seconds fire once.
	R("FireTickers", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		max := int64(p.concretize(a[0].(*Term), "seconds")) * 1e9
		l, _ := p.extra["tickers"].([]*ticker)
		for _, t := range l {
			if t.live && t.period <= max {
				t.fire()
			}
		}
		return nil
	})
	// Advance lets virtual time pass: timers due are fired and the goroutines they wake run.
	R("Advance", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		end := p.vclock + int64(p.concretize(a[0].(*Term), "seconds"))*1e9
		for n := 0; n < 1000; n++ {
			t := p.earliest(false)
			if t == nil || t.at > end {
				break
			}
			p.fireTimer(t)
			self := p.cur
			p.quiesceMain = self
			self.ready = func() bool { return false }
			self.why = "quiesce"
			p.dispatch(self, "quiesce")
			self.ready = nil
		}
		if p.vclock < end {
			p.vclock = end
		}
		return nil
	})
	R("Concrete", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return p.w.c.BVC(p.concretize(t, "Concrete"), t.S.W)
	})
	R("IsConcreteString", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		_, ok := p.w.strConcrete(a[0].(Str))
		return p.tbool(ok)
	})
	strList := func(p *Path, l []Str) Value {
		sl := make([]Value, len(l))
		for i, s := range l {
			sl[i] = s
		}
		return Slice{o: p.newObj(types.Typ[types.String], sl), len: len(sl), cap: len(sl), esz: 1}
	}
	R("RemovedPaths", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return strList(p, p.fs.removed) })
	R("MadeDirs", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return strList(p, p.fs.madeDir) })
	R("Scratch", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value { return Str{s: "/scratch"} })
	R("FileContent", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := p.fs.files[p.fsPath(a[0])]
		if f == nil {
			return Tuple{Str{}, p.w.c.False}
		}
		return Tuple{mkStr(f.data), p.w.c.True}
	})
	// Crash runs f in its own goroutine (process); it may stop for good at any file operation.
	R("Crash", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := p.w.c
		mx := int(p.concretize(a[0].(*Term), "crash points"))
		r := &crashRegion{max: mx}
		r.at = p.inputVar("crashat", BV(64))
		r.cut = p.inputVar("crashcut", BV(64))
		p.assume(c.Cmp(OUle, r.at, c.BVC(uint64(mx), 64)))
		p.assume(c.Cmp(OUlt, r.cut, c.BVC(3, 64)))
		p.gseq++
		f := a[1]
		g := &G{id: p.gseq, resume: make(chan struct{}, 1), name: "process", region: r}
		g.fn = &Fn{name: "process", host: func(p *Path, fr *Frame, _ []Value) Value {
			p.callFn(fr, f, nil)
			r.done = true
			return nil
		}}
		p.gs = append(p.gs, g)
		for !r.done && !r.crashed {
			p.block(func() bool { return r.done || r.crashed }, "process to finish or crash")
		}
		if !r.crashed {
			// every crash point not reached counts as "no crash"
			p.assume(c.Eq(r.at, c.BVC(uint64(mx), 64)))
			// goroutines it left behind die with it when the harness says so
			return c.False
		}
		return c.True
	})
	R("KillProcess", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		for _, g := range p.gs {
			if g.region != nil {
				g.region.crashed = true
			}
		}
		return nil
	})
	for _, h := range []string{"Dial", "State", "Invoke", "Stream", "Notify", "Exit", "Listen", "Register", "Serve", "HTTP"} {
		h := h
		R("Hook"+h, func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
			p.extra["hook:"+h] = a[0]
			return nil
		})
	}
	R("PoolAny", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.extra["poolany"] = p.concretize(a[0].(*Term), "pool mode")
		return nil
	})
	R("ConnCount", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		l, _ := p.extra["conns"].([]*grpcConn)
		return p.i64(int64(len(l)))
	})
	R("ConnClosed", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		l, _ := p.extra["conns"].([]*grpcConn)
		return p.tbool(l[p.concretize(a[0].(*Term), "conn")].closed)
	})
	R("ConnID", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return p.i64(int64(p.conn(i.v).id))
	})
	R("Preempt", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.preempt = int(p.concretize(a[0].(*Term), "preemptions"))
		return nil
	})
	R("NoPreempt", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		p.noYield++
		defer func() { p.noYield-- }()
		p.callFn(fr, a[0], nil)
		return nil
	})
	R("Goroutines", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, g := range p.gs {
			if !g.done && g != p.mainG {
				n++
			}
		}
		return p.i64(int64(n))
	})
	R("Running", func(p *Path, fr *Frame, fn *ssa.Function, a []Value) Value {
		sub := p.conStr(a[0], "name")
		n := 0
		for _, g := range p.gs {
			if !g.done && strings.Contains(g.name, sub) {
				n++
			}
		}
		return p.i64(int64(n))
	})
}
