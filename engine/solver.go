package main

// Solver front end: path conditions are sliced into the constraints connected to the query by shared variables,
// results are cached, and each remaining query is sent to one long-lived z3 process ((reset) between queries);
// "unknown" is retried with other solvers. Any "(error" in the output makes the query inconclusive.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries   int // discharged by a solver process
	CacheHits int
	ModelHits int
	SatN      int
	UnsatN    int
	UnknownN  int
	Fallbacks int
	Time      time.Duration
	MaxTime   time.Duration
	Errors    []string
}

type qres struct {
	r SatResult
	m Model
}

type Solver struct {
	c       *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[string]qres
	Stats   SolverStats
	Timeout time.Duration
	varMemo map[*Term][]*Term
	debug   bool
}

func NewSolver(c *TermCtx, timeout time.Duration) *Solver {
	return &Solver{c: c, cache: map[string]qres{}, Timeout: timeout, varMemo: map[*Term][]*Term{}, debug: os.Getenv("GOSYM_SMT") != ""}
}

func (s *Solver) start() {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start solver: %v", err)
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
}

func (s *Solver) Stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// vars returns the variables (and UF names as pseudo variables) of t, sorted by id.
func (s *Solver) vars(t *Term) []*Term {
	if r, ok := s.varMemo[t]; ok {
		return r
	}
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(*Term)
	vis := map[*Term]bool{}
	rec = func(x *Term) {
		if vis[x] {
			return
		}
		vis[x] = true
		if x.Op == OVar && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
		if x.Op == OUF {
			u := s.c.ufs[x.Name]
			if u != nil && !seen[u] {
				seen[u] = true
				out = append(out, u)
			}
		}
		for _, a := range x.A {
			if a.Op == OConst {
				continue
			}
			if m, ok := s.varMemo[a]; ok {
				for _, v := range m {
					if !seen[v] {
						seen[v] = true
						out = append(out, v)
					}
				}
				continue
			}
			rec(a)
		}
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	s.varMemo[t] = out
	return out
}

// slice returns the constraints of pc transitively sharing variables with extra.
func (s *Solver) slice(pc []*Term, extra []*Term) []*Term {
	rel := map[*Term]bool{}
	for _, e := range extra {
		for _, v := range s.vars(e) {
			rel[v] = true
		}
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			vs := s.vars(p)
			hit := false
			for _, v := range vs {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range vs {
					if !rel[v] {
						rel[v] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return append(out, extra...)
}

func (s *Solver) emit(cs []*Term) (string, []*Term, bool) {
	var sb strings.Builder
	done := map[*Term]bool{}
	var vars []*Term
	hasFP, hasUF := false, false
	ufd := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		if t.S.K == KFP {
			hasFP = true
		}
		if t.Op == OConst {
			return
		}
		if t.Op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.atom(), t.S.SMT())
			vars = append(vars, t)
			return
		}
		for _, a := range t.A {
			rec(a)
		}
		if t.Op == OUF && !ufd[t.Name] {
			hasUF = true
			ufd[t.Name] = true
			fmt.Fprintf(&sb, "(declare-fun |%s| (", t.Name)
			for _, a := range t.A {
				sb.WriteString(a.S.SMT() + " ")
			}
			fmt.Fprintf(&sb, ") %s)\n", t.S.SMT())
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s (%s", t.id, t.S.SMT(), t.head())
		for _, a := range t.A {
			sb.WriteByte(' ')
			sb.WriteString(a.atom())
		}
		sb.WriteString("))\n")
	}
	for _, t := range cs {
		rec(t)
		fmt.Fprintf(&sb, "(assert %s)\n", t.atom())
	}
	logic := "QF_BV"
	if hasFP {
		logic = "QF_BVFP"
	}
	if hasUF {
		logic = "QF_UFBV"
		if hasFP {
			logic = "ALL"
		}
	}
	return "(set-logic " + logic + ")\n" + sb.String(), vars, hasUF
}

// Check decides satisfiability of the conjunction of pc (already known satisfiable) and extra.
// On Sat the model covers the variables of the slice only.
func (s *Solver) Check(pc []*Term, extra ...*Term) (SatResult, Model) {
	for _, e := range extra {
		if e.IsFalse() {
			return Unsat, nil
		}
	}
	cs := s.slice(pc, extra)
	// drop trivial
	ids := make([]int, 0, len(cs))
	seen := map[int]bool{}
	k := cs[:0:0]
	for _, t := range cs {
		if t.IsTrue() || seen[t.id] {
			continue
		}
		seen[t.id] = true
		ids = append(ids, t.id)
		k = append(k, t)
	}
	cs = k
	if len(cs) == 0 {
		return Sat, Model{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.Stats.CacheHits++
		return r.r, r.m
	}
	text, vars, _ := s.emit(cs)
	t0 := time.Now()
	r, m := s.ask(text, vars)
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	if r == Sat {
		// the model must satisfy the query under our own evaluator (constant folding = the Go semantics)
		memo := map[*Term]*Term{}
		for _, t := range cs {
			v := s.c.Eval(t, m, memo)
			if v != nil && v.IsFalse() {
				s.Stats.Errors = append(s.Stats.Errors, "model does not satisfy constraint "+t.String())
				r = Unknown
			}
		}
	}
	s.cache[key] = qres{r, m}
	return r, m
}

func (s *Solver) ask(text string, vars []*Term) (SatResult, Model) {
	var gv strings.Builder
	if len(vars) > 0 {
		gv.WriteString("(get-value (")
		for _, v := range vars {
			gv.WriteString(v.atom() + " ")
		}
		gv.WriteString("))\n")
	}
	if s.debug {
		fmt.Fprintf(os.Stderr, "---- query\n%s", text)
	}
	r, m := s.askProc(text, gv.String(), vars)
	if r == Unknown {
		s.Stats.Fallbacks++
		r, m = s.oneShot([]string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", 2*s.Timeout.Milliseconds())}, text, gv.String(), vars)
	}
	if s.debug {
		fmt.Fprintf(os.Stderr, "---- result %v\n", r)
	}
	return r, m
}

func (s *Solver) askProc(text, gv string, vars []*Term) (SatResult, Model) {
	if s.cmd == nil {
		s.start()
	}
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", s.Timeout.Milliseconds())
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n(echo \"@@\")\n")
	kill := time.AfterFunc(s.Timeout*2+10*time.Second, func() {
		if p := s.cmd; p != nil && p.Process != nil {
			p.Process.Kill()
		}
	})
	defer kill.Stop()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Stop()
		return Unknown, nil
	}
	ans, ok := s.readUntil()
	if !ok {
		s.Stop()
		return Unknown, nil
	}
	if strings.Contains(ans, "(error") {
		s.Stats.Errors = append(s.Stats.Errors, trunc(ans, 300))
		return Unknown, nil
	}
	switch strings.TrimSpace(ans) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if len(vars) == 0 {
			return Sat, Model{}
		}
		io.WriteString(s.in, gv+"(echo \"@@\")\n")
		ans, ok = s.readUntil()
		if !ok || strings.Contains(ans, "(error") {
			return Unknown, nil
		}
		m, ok := parseModel(ans, vars)
		if !ok {
			s.Stats.Errors = append(s.Stats.Errors, "unparsed model "+trunc(ans, 300))
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}

func (s *Solver) readUntil() (string, bool) {
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), false
		}
		if strings.TrimSpace(l) == "@@" {
			return sb.String(), true
		}
		sb.WriteString(l)
	}
}

func (s *Solver) oneShot(argv []string, text, gv string, vars []*Term) (SatResult, Model) {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader("(set-option :produce-models true)\n" + text + "(check-sat)\n(echo \"@@\")\n" + gv)
	t := time.AfterFunc(3*s.Timeout+10*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer t.Stop()
	b, _ := cmd.Output()
	o := string(b)
	i := strings.Index(o, "@@")
	if i < 0 {
		return Unknown, nil
	}
	head := strings.TrimSpace(strings.Trim(strings.TrimSpace(o[:i]), "\""))
	switch head {
	case "unsat":
		return Unsat, nil
	case "sat":
		rest := o[i+2:]
		if j := strings.Index(rest, "("); j >= 0 {
			rest = rest[j:]
		}
		if strings.Contains(rest, "(error") {
			return Unknown, nil
		}
		if m, ok := parseModel(rest, vars); ok {
			return Sat, m
		}
	}
	return Unknown, nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- model parsing: ((|x| #x..) (|b| true) (|f| (fp #b0 #x.. #b..)) ...)
type sx struct {
	atom string
	l    []*sx
}

func parseSx(s string, i *int) *sx {
	for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
		*i++
	}
	if *i >= len(s) {
		return nil
	}
	if s[*i] == '(' {
		*i++
		r := &sx{l: []*sx{}}
		for {
			for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
				*i++
			}
			if *i >= len(s) {
				return nil
			}
			if s[*i] == ')' {
				*i++
				return r
			}
			x := parseSx(s, i)
			if x == nil {
				return nil
			}
			r.l = append(r.l, x)
		}
	}
	if s[*i] == '|' {
		j := strings.IndexByte(s[*i+1:], '|')
		if j < 0 {
			return nil
		}
		a := s[*i+1 : *i+1+j]
		*i += j + 2
		return &sx{atom: a}
	}
	j := *i
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	a := s[*i:j]
	*i = j
	return &sx{atom: a}
}

func parseBV(a string) (uint64, int, bool) {
	if strings.HasPrefix(a, "#x") {
		v, err := strconv.ParseUint(a[2:], 16, 64)
		return v, 4 * len(a[2:]), err == nil
	}
	if strings.HasPrefix(a, "#b") {
		v, err := strconv.ParseUint(a[2:], 2, 64)
		return v, len(a[2:]), err == nil
	}
	return 0, 0, false
}

func parseModel(s string, vars []*Term) (Model, bool) {
	i := 0
	x := parseSx(s, &i)
	if x == nil || len(x.l) != len(vars) {
		return nil, false
	}
	m := Model{}
	for k, p := range x.l {
		if len(p.l) != 2 {
			return nil, false
		}
		v := p.l[1]
		val, ok := modelVal(v, vars[k].S)
		if !ok {
			return nil, false
		}
		m[vars[k].Name] = val
	}
	return m, true
}

func modelVal(v *sx, so Sort) (uint64, bool) {
	if v.l == nil {
		switch v.atom {
		case "true":
			return 1, true
		case "false":
			return 0, true
		}
		x, _, ok := parseBV(v.atom)
		return x, ok
	}
	if len(v.l) == 3 && v.l[0].atom == "_" && strings.HasPrefix(v.l[1].atom, "bv") {
		x, err := strconv.ParseUint(v.l[1].atom[2:], 10, 64)
		return x, err == nil
	}
	if len(v.l) == 4 && v.l[0].atom == "fp" {
		sg, _, o1 := parseBV(v.l[1].atom)
		e, ew, o2 := parseBV(v.l[2].atom)
		f, fw, o3 := parseBV(v.l[3].atom)
		return sg<<uint(ew+fw) | e<<uint(fw) | f, o1 && o2 && o3
	}
	if len(v.l) == 4 && v.l[0].atom == "_" {
		eb := 11
		if so.W == 32 {
			eb = 8
		}
		mb := so.W - eb - 1
		switch v.l[1].atom {
		case "+oo":
			return mask(eb) << uint(mb), true
		case "-oo":
			return mask(eb+1) << uint(mb), true
		case "NaN":
			return mask(eb)<<uint(mb) | 1<<uint(mb-1), true
		case "+zero":
			return 0, true
		case "-zero":
			return 1 << uint(so.W-1), true
		}
	}
	return 0, false
}
