package main

// Goroutines of the program under analysis. One host goroutine per program goroutine, exactly one running at a time;
// every scheduling decision is a recorded symbolic choice, bounded by a number of preemptions/delays.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type G struct {
	id      int
	name    string
	fn      Value
	args    []Value
	call    *ssa.CallCommon
	resume  chan struct{}
	started bool
	done    bool
	ready   func() bool // nil: runnable
	why     string
	sel     *selWait
	top     *Frame
	daemon  bool // sleeping in time.Sleep
	region  *crashRegion
}

type selWait struct {
	cases []selCase
	done  bool
	idx   int
	val   Value
	ok    bool
	panicked bool
}

type selCase struct {
	ch   *Chan
	send bool
	val  Value
}

type timer struct {
	at    int64 // virtual ns
	seq   int
	fire  func()
	live  bool
	sleep bool
	ticker int64
}

func (p *Path) gid() int {
	if p.cur == nil {
		return 0
	}
	return p.cur.id
}

func (p *Path) spawn(fn Value, call *ssa.CallCommon, args []Value) *G {
	if f, ok := fn.(*Fn); ok && f == nil {
		p.nilDeref()
	}
	if p.w.initing {
		return nil // goroutines started by package initialisers are not modelled
	}
	p.gseq++
	g := &G{id: p.gseq, fn: fn, args: args, call: call, resume: make(chan struct{}, 1)}
	if f, ok := fn.(*Fn); ok {
		g.name = f.name
	}
	g.region = p.cur.region
	p.gs = append(p.gs, g)
	p.yield("go")
	return g
}

// runG is the host goroutine body.
func (p *Path) runG(g *G) {
	defer p.hostWG.Done()
	<-g.resume
	if p.killed {
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(gKilled); ok {
				return
			}
			p.fail(r)
		}()
		p.cur = g
		if f, ok := g.fn.(*Fn); ok && f.blt != nil {
			p.builtin(nil, f.blt, g.call, g.args)
		} else {
			p.callFn(nil, g.fn, g.args)
		}
	}()
	g.done = true
	if p.killed {
		return
	}
	// hand over to somebody else
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(gKilled); ok {
				return
			}
			p.fail(r)
		}
	}()
	p.dispatch(nil, "exit")
}

// fail ends the path from any goroutine: the main host goroutine takes over.
func (p *Path) fail(r interface{}) {
	if p.failure == nil {
		p.failure = r
		p.failG = p.cur
	}
	p.killed = true
	p.mainG.resume <- struct{}{}
}

type gKilled struct{}

// transfer gives the token to g; self (if non-nil) waits to be resumed.
func (p *Path) transfer(self, g *G) {
	if g == self {
		return
	}
	g.ready = nil
	p.switches++
	p.sliceStart = p.steps
	p.schedLog = append(p.schedLog, schedEv{g.id, p.where()})
	p.cur = g
	if !g.started {
		g.started = true
		p.hostWG.Add(1)
		go p.runG(g)
	}
	g.resume <- struct{}{}
	if self == nil {
		return
	}
	<-self.resume
	if p.killed {
		if self == p.mainG && p.failure != nil {
			panic(p.failure)
		}
		panic(gKilled{})
	}
	p.cur = self
	if self.region != nil && self.region.crashed && self != p.mainG {
		panic(gKilled{})
	}
}

type schedEv struct {
	g     int
	where string
}

func (p *Path) runnable(exclude *G) []*G {
	var out []*G
	n := len(p.gs)
	// round-robin order starting after the current goroutine
	start := 0
	for i, g := range p.gs {
		if g == p.cur {
			start = i + 1
		}
	}
	for i := 0; i < n; i++ {
		g := p.gs[(start+i)%n]
		if g == exclude || g.done {
			continue
		}
		if g.region != nil && g.region.crashed && g != p.mainG {
			continue
		}
		if g.ready == nil || g.ready() {
			out = append(out, g)
		}
	}
	return out
}

// yield is a visible operation: another goroutine may run first, at the price of one preemption.
func (p *Path) yield(what string) {
	if len(p.gs) < 2 || p.w.initing || p.noYield > 0 {
		return
	}
	self := p.cur
	if p.fair > 0 && p.steps-p.sliceStart > p.fair {
		// a goroutine that runs on and on without blocking gives way (deterministically) after a while
		p.sliceStart = p.steps
		if cands := p.runnable(self); len(cands) > 0 {
			self.ready = nil
			p.transfer(self, cands[0])
			return
		}
	}
	if p.preempt <= 0 {
		return
	}
	cands := p.runnable(self)
	nt := 0
	if p.racyTimers && p.earliest(true) != nil {
		nt = 1
	}
	if len(cands)+nt == 0 {
		return
	}
	k := p.choose("sched", 1+len(cands)+nt)
	if k == 0 {
		return
	}
	p.preempt--
	if k > len(cands) {
		p.fireTimer(p.earliest(true))
		return
	}
	self.ready = nil
	p.transfer(self, cands[k-1])
}

// block suspends the current goroutine until ready() holds.
func (p *Path) block(ready func() bool, why string) {
	if p.w.initing {
		panic(unsupported("blocking during package initialisation"))
	}
	self := p.cur
	self.ready = ready
	self.why = why
	self.why += " at " + p.where()
	p.dispatch(self, why)
	self.ready = nil
}

// dispatch picks the next goroutine (self may be among the candidates once ready).
func (p *Path) dispatch(self *G, why string) {
	for {
		var cands []*G
		cands = p.runnable(nil)
		if self == nil || (self.ready != nil && !self.ready()) {
			// self not runnable (or finished): fine
		}
		t := p.earliest(true)
		if len(cands) == 0 {
			if p.quiesceMain != nil {
				q := p.quiesceMain
				p.quiesceMain = nil
				q.ready = nil
				p.transferFrom(self, q)
				return
			}
			t = p.earliest(false)
			if t == nil {
				panic(pathEnd{kind: "deadlock", msg: p.deadlockText()})
			}
			p.idleFires++
			if p.idleFires > p.maxIdle {
				panic(pathEnd{kind: "hang", msg: "no progress: " + p.deadlockText()})
			}
			p.fireTimer(t)
			continue
		}
		n := len(cands)
		if p.racyTimers && t != nil && p.preempt > 0 {
			n++
		}
		k := 0
		if n > 1 {
			lim := n
			if !p.freeBlock {
				if p.preempt <= 0 {
					lim = 1
				} else if p.delayBound && lim > p.preempt+1 {
					lim = p.preempt + 1
				}
			}
			if p.preempt <= 0 && lim > len(cands) {
				lim = len(cands)
			}
			k = p.choose("sched", lim)
			if k > 0 && !p.freeBlock {
				if p.delayBound {
					p.preempt -= k
				} else {
					p.preempt--
				}
			}
		}
		if k >= len(cands) {
			if p.freeBlock {
				p.preempt--
			}
			p.fireTimer(t)
			continue
		}
		p.transferFrom(self, cands[k])
		return
	}
}

func (p *Path) transferFrom(self, g *G) {
	if g == self {
		g.ready = nil
		return
	}
	p.transfer(self, g)
}

func (p *Path) deadlockText() string {
	s := ""
	for _, g := range p.gs {
		if !g.done && g.started || g == p.mainG {
			s += fmt.Sprintf("[goroutine %d %s: %s] ", g.id, g.name, g.why)
		}
	}
	return s
}

// ---- timers
func (p *Path) addTimer(d int64, sleep bool, fire func()) *timer {
	p.tseq++
	t := &timer{at: p.vclock + d, seq: p.tseq, fire: fire, live: true, sleep: sleep}
	if d < 0 {
		t.at = p.vclock
	}
	p.timers = append(p.timers, t)
	return t
}

// earliest pending timer; racy=true leaves out sleepers.
func (p *Path) earliest(racy bool) *timer {
	var l []*timer
	for _, t := range p.timers {
		if t.live && !(racy && t.sleep) {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return nil
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].at != l[j].at {
			return l[i].at < l[j].at
		}
		return l[i].seq < l[j].seq
	})
	return l[0]
}

func (p *Path) fireTimer(t *timer) {
	if t.at > p.vclock {
		p.vclock = t.at
	}
	t.live = false
	p.schedLog = append(p.schedLog, schedEv{-1, "timer"})
	t.fire()
}

// ---- channels
func (p *Path) asChan(v Value) *Chan {
	c, ok := v.(*Chan)
	if !ok {
		panic(unsupported(fmt.Sprintf("channel operation on %T", v)))
	}
	return c
}

// findWaiter finds a goroutine blocked on the opposite side of an unbuffered (or full/empty) channel.
func (p *Path) findWaiter(ch *Chan, wantSend bool) (*selWait, int) {
	for _, g := range p.gs {
		if g == p.cur || g.done || g.sel == nil || g.sel.done {
			continue
		}
		if g.region != nil && g.region.crashed {
			continue
		}
		for i, c := range g.sel.cases {
			if c.ch == ch && c.send == wantSend {
				return g.sel, i
			}
		}
	}
	return nil, -1
}

func (p *Path) canSend(ch *Chan) bool {
	if ch == nil {
		return false
	}
	if ch.closed || len(ch.buf) < ch.cap {
		return true
	}
	if ch.cap == 0 {
		w, _ := p.findWaiter(ch, false)
		return w != nil
	}
	return false
}

func (p *Path) canRecv(ch *Chan) bool {
	if ch == nil {
		return false
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	if ch.cap == 0 {
		w, _ := p.findWaiter(ch, true)
		return w != nil
	}
	return false
}

func (p *Path) doSend(ch *Chan, v Value) {
	if ch.closed {
		p.goPanicStr("send on closed channel")
	}
	if ch.cap == 0 {
		w, i := p.findWaiter(ch, false)
		w.done, w.idx, w.val, w.ok = true, i, v, true
		return
	}
	ch.buf = append(append([]Value(nil), ch.buf...), v)
}

func (p *Path) doRecv(ch *Chan, et types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	if !ch.closed {
		if w, i := p.findWaiter(ch, true); w != nil {
			w.done, w.idx, w.ok = true, i, true
			return w.cases[i].val, true
		}
	}
	return p.w.zero(et), false
}

func (p *Path) chanSend(cv, v Value) {
	ch := p.asChan(cv)
	p.yield("send")
	p.selectWait([]selCase{{ch, true, v}}, true)
}

func (p *Path) chanRecv(cv Value, et types.Type) (Value, bool) {
	ch := p.asChan(cv)
	p.yield("recv")
	_, v, ok := p.selectWait([]selCase{{ch, false, nil}}, true)
	return v, ok
}

func (p *Path) chanClose(cv Value) {
	ch := p.asChan(cv)
	p.yield("close")
	if ch == nil {
		p.goPanicStr("close of nil channel")
	}
	if ch.closed {
		p.goPanicStr("close of closed channel")
	}
	ch.closed = true
}

// selectWait performs one of the cases; blocking=false returns -1 when none is ready.
func (p *Path) selectWait(cases []selCase, blocking bool) (int, Value, bool) {
	self := p.cur
	for {
		var rd []int
		for i, c := range cases {
			if c.send && p.canSend(c.ch) || !c.send && p.canRecv(c.ch) {
				rd = append(rd, i)
			}
		}
		if len(rd) > 0 {
			k := 0
			if len(rd) > 1 {
				k = p.choose("select", len(rd))
			}
			i := rd[k]
			c := cases[i]
			if c.send {
				p.doSend(c.ch, c.val)
				return i, nil, false
			}
			v, ok := p.doRecv(c.ch, c.ch.et)
			return i, v, ok
		}
		if !blocking {
			return -1, nil, false
		}
		sw := &selWait{cases: cases}
		self.sel = sw
		p.block(func() bool {
			if sw.done {
				return true
			}
			for _, c := range cases {
				if c.ch == nil {
					continue
				}
				if c.send {
					if c.ch.closed || len(c.ch.buf) < c.ch.cap {
						return true
					}
				} else if len(c.ch.buf) > 0 || c.ch.closed {
					return true
				}
			}
			return false
		}, "channel operation")
		self.sel = nil
		if sw.done {
			v := sw.val
			if v == nil && !cases[sw.idx].send {
				v = p.w.zero(cases[sw.idx].ch.et)
			}
			return sw.idx, v, sw.ok
		}
	}
}

func (fr *Frame) selectOp(x *ssa.Select) Value {
	p := fr.p
	var cs []selCase
	for _, s := range x.States {
		c := selCase{ch: p.asChan(fr.get(s.Chan)), send: s.Dir == types.SendOnly}
		if c.send {
			c.val = fr.get(s.Send)
		}
		cs = append(cs, c)
	}
	p.yield("select")
	i, v, ok := p.selectWait(cs, x.Blocking)
	r := Tuple{p.w.c.BVC(uint64(int64(i)), 64), p.w.c.Bool(ok)}
	for j, s := range x.States {
		if s.Dir == types.RecvOnly {
			if j == i && v != nil {
				r = append(r, v)
			} else {
				r = append(r, p.w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

// ---- race mode: accesses to memory shared between goroutines are visible operations too
func (p *Path) racePoint(fr *Frame, a Value, write bool) {
	if !p.raceMode || len(p.gs) < 2 || p.w.initing {
		return
	}
	var o *Obj
	switch x := a.(type) {
	case Ptr:
		o = x.o
	case SymPtr:
		o = x.o
	}
	if o == nil {
		return
	}
	if !p.w.eng.isRepoFn(fr.fn) {
		return
	}
	if o.site == nil {
		return
	}
	if o.owner != p.cur.id {
		p.w.eng.markShared(o.site, p)
	}
	if p.sharedSnap[o.site] {
		p.yield("access")
	}
}
