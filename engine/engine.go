package main

// Loading: the repository's packages plus the harness packages (laid over the module by an overlay, nothing is
// written to /repo) are type-checked and translated to go/ssa on every run.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bgokden/veri"
const rtPath = modPath + "/verifrt"

type Engine struct {
	prog          *ssa.Program
	mu            sync.Mutex
	ex            *exploration
	seed          uint64
	solverTimeout time.Duration
	debugPanic    bool
	repo          string
	verif         string
	tier          string
	intrCache     sync.Map // *ssa.Function -> intrinsicFn or nil marker
	rtErr         types.Type
	sizes         types.Sizes
	shared        map[ssa.Instruction]bool
	sharedNew     map[ssa.Instruction]bool
	pkgs          map[string]*ssa.Package
	hostTypes     map[string]types.Type
	harPkg        *ssa.Package
	loadS         float64
	tmp           string
	gsites        map[*ssa.Global]ssa.Instruction
}

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "PWD":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1")
}

// harnessFiles lists verif/harness/<dir>/*.go and where they appear inside the repository's module.
func (e *Engine) overlayFiles(pkg string) (map[string]string, error) {
	out := map[string]string{}
	add := func(dir, target string) error {
		fs, err := filepath.Glob(filepath.Join(e.verif, "harness", dir, "*.go"))
		if err != nil {
			return err
		}
		if len(fs) == 0 {
			return fmt.Errorf("no harness files in %s", dir)
		}
		for _, f := range fs {
			out[filepath.Join(e.repo, target, filepath.Base(f))] = f
		}
		return nil
	}
	if err := add("verifrt", "verifrt"); err != nil {
		return nil, err
	}
	if err := add("hkit", "verifh/hkit"); err != nil {
		return nil, err
	}
	if err := add(pkg, "verifh/"+pkg); err != nil {
		return nil, err
	}
	return out, nil
}

// modfile makes a private copy of go.mod/go.sum so that no go command can touch the repository's.
func (e *Engine) modfile() string {
	dst := filepath.Join(e.tmp, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(e.repo, f))
		if err == nil {
			os.WriteFile(filepath.Join(e.tmp, f), b, 0644)
		}
	}
	return dst
}

func (e *Engine) load(pkg string) error {
	start := time.Now()
	files, err := e.overlayFiles(pkg)
	if err != nil {
		return err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        e.repo,
		Env:        goEnv(),
		Overlay:    ov,
		BuildFlags: []string{"-modfile=" + e.modfile()},
	}
	ps, err := packages.Load(cfg, modPath+"/verifh/"+pkg)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return fmt.Errorf("does not compile:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.harPkg = e.pkgs[modPath+"/verifh/"+pkg]
	rt := e.pkgs[rtPath]
	if e.harPkg == nil || rt == nil {
		return fmt.Errorf("harness package not found after loading")
	}
	e.rtErr = rt.Pkg.Scope().Lookup("RuntimeError").Type()
	e.sizes = types.SizesFor("gc", "amd64")
	e.hostTypes = map[string]types.Type{}
	e.shared = map[ssa.Instruction]bool{}
	e.sharedNew = map[ssa.Instruction]bool{}
	e.loadS = time.Since(start).Seconds()
	return nil
}

func (e *Engine) rtErrType() types.Type { return e.rtErr }

func (e *Engine) sizeof(t types.Type) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return int(e.sizes.Sizeof(t))
}

func (e *Engine) replaced(fn *ssa.Function) *ssa.Function { return nil }

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Prog.Package(f.Object().Pkg())
		}
	}
	return nil
}

// isRepoFn: code of the repository itself (not dependencies, not harnesses).
func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return false
	}
	s := p.Pkg.Path()
	return strings.HasPrefix(s, modPath) && !strings.HasPrefix(s, rtPath) && !strings.HasPrefix(s, modPath+"/verifh")
}

func (e *Engine) markShared(site ssa.Instruction, p *Path) {
	if p.sharedSnap[site] {
		return
	}
	e.mu.Lock()
	e.sharedNew[site] = true
	e.mu.Unlock()
}

func (e *Engine) sharedSnapshot() map[ssa.Instruction]bool { return e.shared }

func (e *Engine) hostType(name string) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if t, ok := e.hostTypes[name]; ok {
		return t
	}
	tn := types.NewTypeName(0, nil, "host."+name, nil)
	t := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	e.hostTypes[name] = t
	return t
}

// harnesses finds the Check_ functions and their directives.
func (e *Engine) harnesses(filter string) []*Harness {
	var out []*Harness
	for name, m := range e.harPkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "Check_") {
			continue
		}
		if filter != "" && !strings.Contains(name, filter) {
			continue
		}
		h := &Harness{name: name, fn: fn, maxSteps: 3000000, maxIdle: 40, budget: 60 * time.Second}
		if e.tier == "thorough" {
			h.budget = 300 * time.Second
		}
		if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
			skip := false
			for _, c := range d.Doc.List {
				t := c.Text
				if r := strings.TrimPrefix(t, "// "); r != t && (strings.HasPrefix(r, "gosym:") || strings.HasPrefix(r, "bound:")) {
					t = "//" + r // as gofmt leaves it
				}
				switch {
				case strings.HasPrefix(t, "//gosym:"+e.tier+" "):
					skip = h.directives(strings.TrimPrefix(t, "//gosym:"+e.tier+" ")) || skip
				case strings.HasPrefix(t, "//gosym: "):
					skip = h.directives(strings.TrimPrefix(t, "//gosym: ")) || skip
				case strings.HasPrefix(t, "//bound: "):
					h.bound = strings.TrimSpace(h.bound + " " + strings.TrimPrefix(t, "//bound: "))
				case strings.HasPrefix(t, "//gosym:"):
				case strings.HasPrefix(t, "// "):
					h.doc += strings.TrimPrefix(t, "// ") + " "
				}
			}
			if skip {
				continue
			}
		}
		out = append(out, h)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fn.Pos() < out[j].fn.Pos() })
	return out
}

func (h *Harness) directives(s string) (skip bool) {
	for _, f := range strings.Fields(s) {
		k, v := f, ""
		if i := strings.Index(f, "="); i >= 0 {
			k, v = f[:i], f[i+1:]
		}
		n, _ := strconv.Atoi(v)
		switch k {
		case "preempt":
			h.preempt = n
		case "fair":
			h.fair = n
		case "free":
			h.freeBlock = true
		case "delay":
			h.delayBound = true
		case "race":
			h.race = true
		case "timers":
			h.racyTimers = true
		case "maporder":
			h.mapOrder = true
		case "steps":
			h.maxSteps = n
		case "idle":
			h.maxIdle = n
		case "hang":
			h.hangIsViolation = true
		case "deadlockok":
			h.deadlockOK = true
		case "reach":
			h.needReach = append(h.needReach, strings.Split(v, ",")...)
		case "budget":
			h.budget = time.Duration(n) * time.Second
		case "nonative":
			h.noNative = true
		case "bitblast":
			h.bitblast = true
		case "absfloat":
			h.absfloat = true
		case "skip":
			skip = true
		default:
			fatalf("unknown directive %q on %s", f, h.name)
		}
	}
	return
}

// ---- globals and package initialisation
func (p *Path) global(g *ssa.Global) *Obj {
	w := p.w
	if o, ok := w.globals[g]; ok {
		if w.inited[g.Pkg] != 0 {
			return o
		}
	}
	p.initPkg(g.Pkg)
	if o, ok := w.globals[g]; ok {
		return o
	}
	return w.newGlobal(g)
}

func (w *Worker) newGlobal(g *ssa.Global) *Obj {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	w.nextID++
	o := &Obj{typ: t, id: w.nextID, base: true, owner: -1, name: g.String()}
	o.slots = w.zeroSlots(t, nil)
	if len(o.slots) > 0 {
		o.site = w.eng.globalSite(g)
	}
	w.globals[g] = o
	return o
}

// globalSite gives globals an identity for race mode (the first instruction of the package initialiser stands in).
func (e *Engine) globalSite(g *ssa.Global) ssa.Instruction {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.gsites == nil {
		e.gsites = map[*ssa.Global]ssa.Instruction{}
	}
	if s, ok := e.gsites[g]; ok {
		return s
	}
	s := &siteOfGlobal{g: g}
	e.gsites[g] = s
	return s
}

type siteOfGlobal struct {
	ssa.DebugRef
	g *ssa.Global
}

// packages whose initialisers are not run (their globals are only needed as zero values).
func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "internal/reflectlite", "syscall", "os", "net/http", "crypto/tls", "internal/poll",
		"google.golang.org/grpc", "google.golang.org/protobuf/reflect/protoregistry", "log", "internal/godebug", "internal/cpu",
		"golang.org/x/net/http2", "encoding/gob", "encoding/json", "time", "math/rand", "unicode":
		return true
	}
	if strings.HasPrefix(path, "google.golang.org/") || strings.HasPrefix(path, "github.com/golang/protobuf") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "internal/") {
		return true
	}
	if strings.HasPrefix(path, modPath+"/annoyindex") || strings.HasPrefix(path, modPath+"/veriservice") {
		return true
	}
	return false
}

func (p *Path) initPkg(pkg *ssa.Package) {
	w := p.w
	if w.inited[pkg] != 0 {
		return
	}
	w.inited[pkg] = 1
	var gs []string
	for n, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[g]; !ok {
				gs = append(gs, n)
			}
		}
	}
	sort.Strings(gs)
	for _, n := range gs {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			w.newGlobal(pkg.Members[n].(*ssa.Global))
		}()
	}
	if skipInit(pkg.Pkg.Path()) {
		p.initSpecial(pkg)
		w.inited[pkg] = 2
		return
	}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	wasIniting := w.initing
	w.initing = true
	steps := p.steps
	savedTop := p.cur.top
	func() {
		defer func() {
			w.initing = wasIniting
			p.cur.top = savedTop
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupportedErr, *goPanic, pathEnd:
				default:
					panic(r)
				}
			}
		}()
		fi := w.finfo(init)
		fr := &Frame{p: p, g: p.cur, fn: init, fi: fi, env: make([]Value, fi.n), caller: nil, tolerant: true}
		p.cur.top = fr
		fr.block = init.Blocks[0]
		fr.exec()
	}()
	p.steps = steps
	w.inited[pkg] = 2
}

// initSpecial sets the few globals of skipped packages that interpreted code compares against.
func (p *Path) initSpecial(pkg *ssa.Package) {
	mk := func(name, text string) {
		g, ok := pkg.Members[name].(*ssa.Global)
		if !ok {
			return
		}
		o := p.w.globals[g]
		if o == nil {
			return
		}
		was := p.w.initing
		p.w.initing = true
		o.slots[0] = p.newError(text)
		p.w.initing = was
	}
	switch pkg.Pkg.Path() {
	case modPath + "/veriservice": // the client stubs point into the table of streams
		for _, m := range pkg.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			if n, ok := t.(*types.Named); !ok || n.Obj().Name() != "ServiceDesc" {
				continue
			}
			o := p.w.globals[g]
			if o == nil {
				continue
			}
			was := p.w.initing
			p.w.initing = true
			off, ft := p.fieldOff(t, "Streams")
			et := ft.Underlying().(*types.Slice).Elem()
			const n = 16
			var sl []Value
			for i := 0; i < n; i++ {
				sl = append(sl, p.w.zeroSlots(et, nil)...)
			}
			so := p.newObj(et, sl)
			so.base, so.owner = true, -1
			o.slots[off] = Slice{o: so, len: n, cap: n, esz: len(sl) / n}
			p.w.initing = was
		}
	case "os":
		mk("ErrNotExist", "file does not exist")
		mk("ErrExist", "file already exists")
		mk("ErrClosed", "file already closed")
	}
}

// newError builds an *errors.errorString.
func (p *Path) newError(text string) Iface {
	pk := p.w.eng.pkgs["errors"]
	if pk == nil {
		panic(unsupported("errors package not loaded"))
	}
	t := pk.Pkg.Scope().Lookup("errorString").Type()
	o := p.newObj(t, []Value{Str{s: text}})
	p.w.eng.mu.Lock()
	pt := types.NewPointer(t)
	p.w.eng.mu.Unlock()
	return Iface{t: pt, v: Ptr{o: o}}
}
