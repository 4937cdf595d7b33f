package main

// Path exploration by re-execution: a path is a list of recorded decisions; each unexplored alternative becomes a new
// work item. Branch feasibility and assertions are decided by the solver over the whole path condition.

import (
	"fmt"
	"go/types"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	K byte   // 'b' branch, 'c' choice, '=' concretised to V, '!' not V
	V uint64 // value
}

type work struct {
	prefix   []Dec
	model    Model
	preempts int
}

type pathEnd struct {
	kind string
	msg  string
}

type Violation struct {
	Harness   string            `json:"harness"`
	Kind      string            `json:"kind"`
	Msg       string            `json:"message"`
	Trace     string            `json:"trace,omitempty"`
	Inputs    map[string]uint64 `json:"inputs"`
	Decs      []Dec             `json:"-"`
	Sched     []string          `json:"schedule,omitempty"`
	Uses      []string          `json:"uses,omitempty"`
	Native    string            `json:"native_replay,omitempty"`
	Known     string            `json:"-"`
	UsesSched bool              `json:"-"`
}

type crashRegion struct {
	crashed bool
	ops     int
	max     int
	at, cut *Term
	done    bool
}

type Path struct {
	w                *Worker
	prefix           []Dec
	pos              int
	taken            []Dec
	pc               []*Term
	model            Model
	steps            int
	fair, sliceStart int // steps a goroutine may run on before it must give way (0: for ever)
	maxSteps         int
	undo             []func()
	funcs            map[*ssa.Function]bool
	fpBits           map[*Term]*Term
	varCnt           map[string]int

	gs       []*G
	cur      *G
	mainG    *G
	gseq     int
	hostWG   sync.WaitGroup
	killed   bool
	failure  interface{}
	failG    *G
	switches int
	schedLog []schedEv
	noYield  int

	timers      []*timer
	tseq        int
	vclock      int64
	idleFires   int
	maxIdle     int
	quiesceMain *G

	preempt    int
	freeBlock  bool
	delayBound bool
	raceMode   bool
	racyTimers bool
	mapOrder   bool
	sharedSnap map[ssa.Instruction]bool
	allocLimit uint64

	host       map[hostKey]interface{}
	clock      *clockModel
	fs         *fsModel
	reach      map[string]bool
	obs        []obsRec
	inputs     []*Term
	choiceVars int
	reduced    []string
	asserts    int
	orderDep   bool // a map with several keys was iterated
	usesChoice map[string]bool
	extra      map[string]interface{}
}

type hostKey struct {
	o    *Obj
	off  int
	kind string
}

type obsRec struct {
	name string
	t    *Term
}

func (p *Path) where() string {
	if p.cur == nil || p.cur.top == nil {
		return ""
	}
	for f := p.cur.top; f != nil; f = f.caller {
		if f.curInst != nil && f.curInst.Pos().IsValid() {
			po := p.w.eng.prog.Fset.Position(f.curInst.Pos())
			return fmt.Sprintf("%s:%d", shortPath(po.Filename), po.Line)
		}
	}
	return ""
}

func (p *Path) freshVar(base string, s Sort) *Term {
	n := p.varCnt[base]
	p.varCnt[base] = n + 1
	return p.w.c.Var(fmt.Sprintf("%s#%d", base, n), s)
}

// inputVar is a symbolic input of the harness (reported in counterexamples, replayed natively).
func (p *Path) inputVar(base string, s Sort) *Term {
	v := p.freshVar(base, s)
	p.inputs = append(p.inputs, v)
	return v
}

func (p *Path) eval(t *Term) *Term {
	return p.w.c.Eval(t, p.model, map[*Term]*Term{})
}

func (p *Path) add(t *Term) {
	if !t.IsTrue() {
		p.pc = append(p.pc, t)
	}
}

func (p *Path) fork(d Dec, m Model) {
	pre := make([]Dec, len(p.taken)+1)
	copy(pre, p.taken)
	pre[len(p.taken)] = d
	p.w.newWork = append(p.w.newWork, work{prefix: pre, model: m})
}

func mergeModel(a, b Model) Model {
	m := make(Model, len(a)+len(b))
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

func (p *Path) reducedBound(msg string) {
	p.reduced = append(p.reduced, msg)
}

func (p *Path) branch(c *Term) bool {
	if c.IsConst() {
		return c.C == 1
	}
	w := p.w
	if p.w.initing {
		panic(unsupported("symbolic branch during package initialisation"))
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.K != 'b' {
			panic(pathEnd{kind: "internal", msg: fmt.Sprintf("replay mismatch: have %c at a branch (%s)", d.K, p.where())})
		}
		p.pos++
		p.taken = append(p.taken, d)
		if d.V == 1 {
			p.add(c)
		} else {
			p.add(w.c.Not(c))
		}
		return d.V == 1
	}
	w.transitions++
	v := p.eval(c)
	var side bool
	if v != nil {
		w.sv.Stats.ModelHits++
		side = v.C == 1
		other := c
		if side {
			other = w.c.Not(c)
		}
		r, m := w.sv.Check(p.pc, other)
		switch r {
		case Sat:
			p.fork(Dec{'b', b2u(!side)}, mergeModel(p.model, m))
		case Unknown:
			p.reducedBound("solver could not decide a branch at " + p.where())
		}
	} else {
		r1, m1 := w.sv.Check(p.pc, c)
		r2, m2 := w.sv.Check(p.pc, w.c.Not(c))
		if r1 == Unknown || r2 == Unknown {
			p.reducedBound("solver could not decide a branch at " + p.where())
		}
		switch {
		case r1 == Sat:
			side = true
			if r2 == Sat {
				p.fork(Dec{'b', 0}, mergeModel(p.model, m2))
			}
			p.model = mergeModel(p.model, m1)
		case r2 == Sat:
			side = false
			p.model = mergeModel(p.model, m2)
		default:
			panic(pathEnd{kind: "dead"})
		}
	}
	p.taken = append(p.taken, Dec{'b', b2u(side)})
	if side {
		p.add(c)
	} else {
		p.add(w.c.Not(c))
	}
	return side
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// choose is a nondeterministic choice 0..n-1, represented by a fresh symbolic variable.
func (p *Path) choose(kind string, n int) int {
	if n <= 1 {
		return 0
	}
	p.usesChoice[kind] = true
	v := p.freshVar(kind, BV(16))
	var k uint64
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.K != 'c' || d.V >= uint64(n) {
			panic(pathEnd{kind: "internal", msg: fmt.Sprintf("replay mismatch: have %c%d at choice %s/%d (%s)", d.K, d.V, kind, n, p.where())})
		}
		p.pos++
		k = d.V
	} else {
		p.w.transitions += n
		for i := n - 1; i >= 1; i-- {
			m := mergeModel(p.model, nil)
			m[v.Name] = uint64(i)
			p.fork(Dec{'c', uint64(i)}, m)
		}
		k = 0
	}
	p.taken = append(p.taken, Dec{'c', k})
	p.model[v.Name] = k
	p.add(p.w.c.Eq(v, p.w.c.BVC(k, 16)))
	p.choiceVars++
	return int(k)
}

const maxConcretize = 600

func (p *Path) concretize(t *Term, what string) uint64 {
	if t.IsConst() {
		return t.C
	}
	w := p.w
	for n := 0; ; n++ {
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			p.taken = append(p.taken, d)
			k := w.c.BVC(d.V, t.S.W)
			if d.K == '=' {
				p.add(w.c.Eq(t, k))
				return d.V
			}
			if d.K != '!' {
				panic(pathEnd{kind: "internal", msg: "replay mismatch at concretisation"})
			}
			p.add(w.c.Not(w.c.Eq(t, k)))
			continue
		}
		w.transitions++
		v := p.eval(t)
		if v == nil {
			r, m := w.sv.Check(p.pc, w.c.True, w.c.Eq(t, t))
			_ = r
			p.model = mergeModel(p.model, m)
			panic(unsupported("concretising a term over uninterpreted functions"))
		}
		ne := w.c.Not(w.c.Eq(t, w.c.BVC(v.C, t.S.W)))
		r, m := w.sv.Check(p.pc, ne)
		if r == Sat {
			nots := 0
			for i := len(p.taken) - 1; i >= 0 && p.taken[i].K == '!'; i-- {
				nots++
			}
			if nots < maxConcretize {
				p.fork(Dec{'!', v.C}, mergeModel(p.model, m))
			} else {
				p.reducedBound("more than 600 values for " + what + " at " + p.where())
			}
		} else if r == Unknown {
			p.reducedBound("solver could not enumerate " + what + " at " + p.where())
		}
		p.taken = append(p.taken, Dec{'=', v.C})
		p.add(w.c.Eq(t, w.c.BVC(v.C, t.S.W)))
		return v.C
	}
}

func (p *Path) assume(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		panic(pathEnd{kind: "assume"})
	}
	v := p.eval(t)
	if v != nil && v.C == 1 {
		p.add(t)
		return
	}
	r, m := p.w.sv.Check(p.pc, t)
	switch r {
	case Unsat:
		panic(pathEnd{kind: "assume"})
	case Unknown:
		p.reducedBound("solver could not decide an assumption at " + p.where())
		panic(pathEnd{kind: "assume"})
	}
	p.model = mergeModel(p.model, m)
	p.add(t)
}

// assertTerm: violation if the negation is satisfiable together with the path condition.
func (p *Path) assertTerm(t *Term, msg string) {
	p.asserts++
	p.w.asserts++
	if t.IsTrue() {
		return
	}
	if p.pos < len(p.prefix) {
		// decided on the first visit of this prefix; it held or the violation was recorded
		if !t.IsFalse() {
			p.add(t)
			return
		}
	}
	v := p.eval(t)
	var m Model
	if v != nil && v.C == 0 {
		m = p.model
	} else {
		r, mm := p.w.sv.Check(p.pc, p.w.c.Not(t))
		switch r {
		case Unsat:
			p.add(t)
			return
		case Unknown:
			p.reducedBound("solver could not decide assertion \"" + msg + "\"")
			p.add(t)
			return
		}
		m = mergeModel(p.model, mm)
	}
	p.violation("assertion", msg, p.stackTrace(), m)
	// continue on the side where it holds
	if t.IsFalse() {
		panic(pathEnd{kind: "violated"})
	}
	p.assume(t)
}

func (p *Path) violation(kind, msg, trace string, m Model) {
	in := map[string]uint64{}
	for _, v := range p.inputs {
		in[v.Name] = m[v.Name]
	}
	vi := &Violation{Harness: p.w.har.name, Kind: kind, Msg: msg, Trace: trace, Inputs: in, Decs: append([]Dec(nil), p.taken...)}
	for _, s := range p.schedLog {
		vi.Sched = append(vi.Sched, fmt.Sprintf("g%d@%s", s.g, s.where))
	}
	for k := range p.usesChoice {
		vi.Uses = append(vi.Uses, k)
	}
	vi.UsesSched = p.switches > 0 || p.orderDep // not controllable natively
	p.w.eng.addViolation(vi, p.w)
}

// ---- workers
type Worker struct {
	eng         *Engine
	har         *Harness
	c           *TermCtx
	sv          *Solver
	lay         map[types.Type]*layout
	fis         map[*ssa.Function]*finfo
	fnvals      map[*ssa.Function]*Fn
	consts      map[*ssa.Const]Value
	meths       map[methKey]*ssa.Function
	impls       map[implKey]bool
	hasDefer    map[*ssa.Function]bool
	globals     map[*ssa.Global]*Obj
	inited      map[*ssa.Package]int
	initing     bool
	byteC       [256]*Term
	nextID      int
	newWork     []work
	transitions int
	asserts     int
	paths       int
}

func (e *Engine) newWorker(h *Harness) *Worker {
	w := &Worker{eng: e, har: h, lay: map[types.Type]*layout{}, fis: map[*ssa.Function]*finfo{}, fnvals: map[*ssa.Function]*Fn{},
		meths: map[methKey]*ssa.Function{}, impls: map[implKey]bool{}, hasDefer: map[*ssa.Function]bool{}}
	w.resetTerms()
	return w
}

// resetTerms drops all terms (and everything holding them).
func (w *Worker) resetTerms() {
	var st SolverStats
	if w.sv != nil {
		st = w.sv.Stats
		w.sv.Stop()
	}
	w.c = NewTermCtx()
	w.c.raw = w.har.bitblast
	w.sv = NewSolver(w.c, w.eng.solverTimeout)
	w.sv.Stats = st
	w.consts = map[*ssa.Const]Value{}
	w.globals = map[*ssa.Global]*Obj{}
	w.inited = map[*ssa.Package]int{}
	for i := range w.byteC {
		w.byteC[i] = w.c.BVC(uint64(i), 8)
	}
}

// runPath executes one path and returns how it ended.
func (w *Worker) runPath(wk work) (p *Path, kind, msg string) {
	if len(w.c.tab) > 3000000 {
		w.resetTerms()
	}
	h := w.har
	p = &Path{w: w, prefix: wk.prefix, model: mergeModel(wk.model, nil), maxSteps: h.maxSteps, funcs: map[*ssa.Function]bool{},
		fpBits: map[*Term]*Term{}, varCnt: map[string]int{}, host: map[hostKey]interface{}{}, reach: map[string]bool{},
		usesChoice: map[string]bool{}, extra: map[string]interface{}{}}
	p.fair = h.fair
	p.preempt, p.freeBlock, p.delayBound, p.raceMode, p.racyTimers, p.mapOrder = h.preempt, h.freeBlock, h.delayBound, h.race, h.racyTimers, h.mapOrder
	p.maxIdle = h.maxIdle
	p.sharedSnap = w.eng.sharedSnapshot()
	p.clock = newClock(p)
	p.fs = newFS()
	w.newWork = nil
	p.mainG = &G{id: 0, name: "main", started: true, resume: make(chan struct{}, 1)}
	p.gs = []*G{p.mainG}
	p.cur = p.mainG
	w.paths++
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				kind, msg = x.kind, x.msg
			case unsupportedErr:
				kind, msg = "unsupported", x.msg+" ["+p.where()+"]"+"\n"+p.stackTrace()
			case *goPanic:
				kind, msg = "panic", x.rt+"\n"+x.trace
			case gKilled:
				kind = "killed"
			default:
				if w.eng.debugPanic {
					panic(r)
				}
				kind, msg = "internal", fmt.Sprint(r)+" ["+p.where()+"]"
			}
		}()
		p.callSSA(nil, h.fn, nil, nil)
		kind = "ok"
	}()
	// end all other goroutines
	p.killed = true
	for _, g := range p.gs {
		if g != p.mainG && g.started && !g.done {
			select {
			case g.resume <- struct{}{}:
			default:
			}
		}
	}
	p.hostWG.Wait()
	for i := len(p.undo) - 1; i >= 0; i-- {
		p.undo[i]()
	}
	if p.failG != nil {
		p.cur = p.failG
	}
	return p, kind, msg
}

// ---- shared exploration state of one harness
type Harness struct {
	name            string
	fn              *ssa.Function
	doc             string
	preempt         int
	fair            int
	freeBlock       bool
	delayBound      bool
	race            bool
	racyTimers      bool
	mapOrder        bool
	maxSteps        int
	maxIdle         int
	hangIsViolation bool
	deadlockOK      bool
	needReach       []string
	budget          time.Duration
	noNative        bool
	bitblast        bool
	absfloat        bool
	bound           string
	known           []string
}

type HarnessResult struct {
	Name        string          `json:"harness"`
	Bound       string          `json:"bound,omitempty"`
	Paths       int             `json:"paths"`
	Completed   int             `json:"paths_completed"`
	Pruned      int             `json:"paths_outside_assumptions"`
	Asserts     int             `json:"assertion_evaluations"`
	Transitions int             `json:"decisions"`
	Steps       int64           `json:"ssa_instructions"`
	Queries     int             `json:"solver_queries"`
	CacheHits   int             `json:"query_cache_hits"`
	ModelHits   int             `json:"branches_pre_decided_by_model"`
	SatN        int             `json:"sat"`
	UnsatN      int             `json:"unsat"`
	UnknownN    int             `json:"unknown"`
	SolverS     float64         `json:"solver_s"`
	MaxQueryS   float64         `json:"max_query_s"`
	Reduced     map[string]int  `json:"reduced_bound,omitempty"`
	Reached     map[string]bool `json:"reached"`
	Exhausted   bool            `json:"exhausted"`
	Funcs       []string        `json:"-"`
	WallS       float64         `json:"wall_s"`
	SolverErrs  []string        `json:"solver_errors,omitempty"`
	Switches    int             `json:"context_switches"`
	samples     []sampleTrace
	violations  []*Violation
}

type sampleTrace struct {
	inputs map[string]uint64
	obs    map[string]uint64
	sched  bool
	decs   int
}

type exploration struct {
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []work
	busy     int
	stop     bool
	res      *HarnessResult
	funcs    map[string]bool
	viols    []*Violation
	seenV    map[string]bool
	rng      uint64
	maxPaths int
}

func (e *Engine) addViolation(v *Violation, w *Worker) {
	ex := e.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := v.Kind + "|" + v.Msg
	n := 0
	for _, o := range ex.viols {
		if o.Kind+"|"+o.Msg == key {
			n++
		}
	}
	if n < 4 {
		ex.viols = append(ex.viols, v)
	}
	// enough distinct evidence: stop early
	if len(ex.viols) >= 12 || n+1 >= 4 {
		ex.stop = true
	}
}

func (e *Engine) explore(h *Harness, workers int) *HarnessResult {
	start := time.Now()
	ex := &exploration{res: &HarnessResult{Name: h.name, Bound: h.bound, Reduced: map[string]int{}, Reached: map[string]bool{}}, funcs: map[string]bool{}, seenV: map[string]bool{}, rng: e.seed*2654435761 + 1}
	ex.cond = sync.NewCond(&ex.mu)
	ex.stack = []work{{model: Model{}}}
	e.ex = ex
	deadline := start.Add(h.budget)
	var wg sync.WaitGroup
	ws := make([]*Worker, workers)
	stopTimer := time.AfterFunc(h.budget, func() {
		ex.mu.Lock()
		ex.stop = true
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	for i := range ws {
		ws[i] = e.newWorker(h)
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			defer w.sv.Stop()
			for {
				ex.mu.Lock()
				for len(ex.stack) == 0 && ex.busy > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.stack) == 0 {
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
				k := len(ex.stack) - 1
				ex.rng = ex.rng*6364136223846793005 + 1442695040888963407
				if (ex.rng>>33)%4 == 0 { // mix in breadth
					k = int((ex.rng >> 40) % uint64(len(ex.stack)))
				}
				wk := ex.stack[k]
				ex.stack[k] = ex.stack[len(ex.stack)-1]
				ex.stack = ex.stack[:len(ex.stack)-1]
				ex.busy++
				ex.mu.Unlock()

				p, kind, msg := w.runPath(wk)
				nw := w.newWork
				w.newWork = nil
				e.finishPath(ex, w, p, kind, msg)

				ex.mu.Lock()
				ex.stack = append(ex.stack, nw...)
				ex.busy--
				if time.Now().After(deadline) {
					ex.stop = true
				}
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}(ws[i])
	}
	wg.Wait()
	stopTimer.Stop()
	r := ex.res
	if len(ex.stack) > 0 && len(ex.viols) == 0 {
		r.Reduced[fmt.Sprintf("time budget %v used up, paths left unexplored", h.budget)] = len(ex.stack)
	}
	r.Exhausted = len(ex.stack) == 0 && len(r.Reduced) == 0
	for _, w := range ws {
		s := w.sv.Stats
		r.Queries += s.Queries
		r.CacheHits += s.CacheHits
		r.ModelHits += s.ModelHits
		r.SatN += s.SatN
		r.UnsatN += s.UnsatN
		r.UnknownN += s.UnknownN
		r.SolverS += s.Time.Seconds()
		if s.MaxTime.Seconds() > r.MaxQueryS {
			r.MaxQueryS = s.MaxTime.Seconds()
		}
		r.SolverErrs = append(r.SolverErrs, s.Errors...)
		r.Transitions += w.transitions
		r.Asserts += w.asserts
	}
	if len(r.SolverErrs) > 5 {
		r.SolverErrs = r.SolverErrs[:5]
	}
	for f := range ex.funcs {
		r.Funcs = append(r.Funcs, f)
	}
	r.WallS = time.Since(start).Seconds()
	r.violations = ex.viols
	return r
}

func (e *Engine) finishPath(ex *exploration, w *Worker, p *Path, kind, msg string) {
	h := w.har
	switch kind {
	case "panic":
		p.violation("panic", "uncaught panic: "+msg, msg, p.model)
	case "deadlock":
		if !h.deadlockOK {
			p.violation("deadlock", "deadlock: "+msg, "", p.model)
		}
	case "hang":
		if h.hangIsViolation {
			p.violation("hang", "never returns: "+msg, "", p.model)
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r := ex.res
	r.Paths++
	r.Steps += int64(p.steps)
	r.Switches += p.switches
	for k := range p.reach {
		r.Reached[k] = true
	}
	for _, s := range p.reduced {
		r.Reduced[s]++
	}
	for f := range p.funcs {
		ex.funcs[f.String()] = true
	}
	switch kind {
	case "ok":
		r.Completed++
		if len(r.samples) < 400 {
			s := sampleTrace{inputs: map[string]uint64{}, obs: map[string]uint64{}, sched: p.switches > 0 || p.usesChoice["maporder"] || p.usesChoice["select"], decs: len(p.taken)}
			for _, v := range p.inputs {
				s.inputs[v.Name] = p.model[v.Name]
			}
			ok := true
			for i, o := range p.obs {
				v := p.eval(o.t)
				if v == nil {
					ok = false
					break
				}
				s.obs[fmt.Sprintf("%03d:%s", i, o.name)] = v.C
			}
			if ok {
				r.samples = append(r.samples, s)
			}
		}
	case "assume", "dead":
		r.Pruned++
	case "panic", "violated", "deadlock":
	case "hang":
		if !h.hangIsViolation {
			r.Reduced["timer firings: "+msg]++
		}
	case "steps":
		r.Reduced[msg]++
	case "unsupported":
		r.Reduced["unsupported: "+msg]++
	default:
		r.Reduced[kind+": "+msg]++
	}
}
