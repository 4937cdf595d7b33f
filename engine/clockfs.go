package main

// Models of the wall clock and of the file system.

import (
	"fmt"
	"go/types"
	"math"
	"path"
	"sort"
	"strings"
)

const baseSec = int64(1700000000)
const unixToInternal = int64(62135596800)

type clockModel struct {
	base    *Term // unix seconds at virtual time `at`
	at      int64
	tickMax uint64 // >0: every reading by repository code may come up to tickMax seconds later
	ticks   int
}

func newClock(p *Path) *clockModel {
	return &clockModel{base: p.w.c.BVC(uint64(baseSec), 64)}
}

// nowSec returns seconds and nanoseconds.
func (p *Path) nowSec(repo bool) (*Term, int64) {
	k := p.clock
	c := p.w.c
	d := p.vclock - k.at
	if repo && k.tickMax > 0 && !p.w.initing {
		v := p.inputVar("tick", BV(64))
		p.assume(c.Cmp(OUle, v, c.BVC(k.tickMax, 64)))
		k.base = c.binop(OAdd, k.base, v)
		k.ticks++
	}
	return c.binop(OAdd, k.base, c.BVC(uint64(d/1e9), 64)), d % 1e9
}

func (p *Path) timeValue(sec *Term, ns int64) Value {
	c := p.w.c
	return Agg{c.BVC(uint64(ns), 64), c.binop(OAdd, sec, c.BVC(uint64(unixToInternal), 64)), Ptr{}}
}

func (p *Path) durConst(v Value) int64 {
	t := v.(*Term)
	if t.IsConst() {
		return int64(t.C)
	}
	p.extra["symdur"] = true
	return 1e9
}

func (p *Path) timeType() types.Type {
	return p.w.eng.pkgs["time"].Pkg.Scope().Lookup("Time").Type()
}

// ---- files
type fsFile struct {
	data []*Term
	dir  bool
}
type fsHandle struct {
	f      *fsFile
	name   string
	off    int
	app    bool
	rd, wr bool
	closed bool
}
type fsModel struct {
	files   map[string]*fsFile
	removed []Str
	madeDir []Str
	temp    int
	ops     int
}

func newFS() *fsModel {
	return &fsModel{files: map[string]*fsFile{}}
}

func (p *Path) fsPath(v Value) string { return path.Clean(p.conStr(v, "file name")) }

// crashPoint is called before each mutating operation; n>0: a write of n bytes. Returns how many bytes to write.
func (p *Path) crashPoint(n int) int {
	p.yield("file operation")
	r := p.cur.region
	if r == nil {
		return n
	}
	if r.crashed {
		panic(gKilled{})
	}
	c := p.w.c
	i := r.ops
	r.ops++
	if r.max > 0 && i >= r.max {
		p.reducedBound("more file operations than crash points")
		return n
	}
	if !p.branch(c.Eq(r.at, c.BVC(uint64(i), 64))) {
		return n
	}
	cut := 0
	if n > 1 {
		p.assume(c.Cmp(OUlt, r.cut, c.BVC(3, 64)))
		switch p.concretize(r.cut, "crash cut") {
		case 1:
			cut = n / 2
		case 2:
			cut = n - 1
		}
	}
	r.crashed = true
	return -1 - cut
}

func (p *Path) crashNow() {
	panic(gKilled{})
}

func (p *Path) fsParentOK(nm string) bool {
	return true
}

func (p *Path) fsOpen(nm string, flag int64) (Value, Iface) {
	const oWRONLY, oRDWR, oAPPEND, oCREATE, oEXCL, oTRUNC = 1, 2, 0x400, 0x40, 0x80, 0x200
	f := p.fs.files[nm]
	if f == nil && flag&oCREATE == 0 {
		return Ptr{}, p.fsErr("open", nm, "no such file or directory", "ErrNotExist")
	}
	if f != nil && flag&oEXCL != 0 && flag&oCREATE != 0 {
		return Ptr{}, p.fsErr("open", nm, "file exists", "ErrExist")
	}
	if f == nil {
		if p.crashPoint(0) < 0 {
			p.crashNow()
		}
		if f = p.fs.files[nm]; f == nil { // unless somebody else created it meanwhile
			f = &fsFile{}
			p.fs.files[nm] = f
		}
	} else if flag&oTRUNC != 0 && flag&3 != 0 {
		if p.crashPoint(0) < 0 {
			p.crashNow()
		}
		f.data = nil
	}
	h := &fsHandle{f: f, name: nm, app: flag&oAPPEND != 0}
	h.wr = flag&3 == oWRONLY || flag&3 == oRDWR
	h.rd = flag&3 == 0 || flag&3 == oRDWR
	t := p.w.eng.pkgs["os"].Pkg.Scope().Lookup("File").Type()
	o := p.newObj(t, p.w.zeroSlots(t, nil))
	p.host[hostKey{o, 0, "file"}] = h
	return Ptr{o: o}, Iface{}
}

func (p *Path) fsErr(op, nm, txt, sentinel string) Iface {
	e := p.newError(op + " " + nm + ": " + txt)
	p.host[hostKey{e.v.(Ptr).o, 0, "oserr"}] = sentinel
	return e
}

func (p *Path) handle(v Value) *fsHandle {
	a := v.(Ptr)
	if a.o == nil {
		return nil
	}
	h, _ := p.host[hostKey{a.o, a.off, "file"}].(*fsHandle)
	return h
}

func (p *Path) fsWrite(h *fsHandle, ts []*Term) (int, Iface) {
	if h == nil || h.closed || !h.wr {
		return 0, p.newError("file already closed")
	}
	if len(ts) == 0 {
		return 0, Iface{}
	}
	n := p.crashPoint(len(ts))
	crash := false
	if n < 0 {
		n = -1 - n
		crash = true
	}
	if h.app {
		h.off = len(h.f.data)
	}
	d := append([]*Term(nil), h.f.data...)
	for len(d) < h.off {
		d = append(d, p.w.byteC[0])
	}
	for i := 0; i < n; i++ {
		if h.off+i < len(d) {
			d[h.off+i] = ts[i]
		} else {
			d = append(d, ts[i])
		}
	}
	h.f.data = d
	h.off += n
	if crash {
		p.crashNow()
	}
	return n, Iface{}
}

func (p *Path) fsNames() []string {
	var out []string
	for k := range p.fs.files {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (p *Path) tempName(dir, pattern string) string {
	p.fs.temp++
	if dir == "" {
		dir = "/tmp"
	}
	suf := fmt.Sprintf("%09d", p.fs.temp)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return path.Join(dir, pattern[:i]+suf+pattern[i+1:])
	}
	return path.Join(dir, pattern+suf)
}

func float32Const(f float32) uint64 { return uint64(math.Float32bits(f)) }
