package main

// Native replay: the same harness is compiled with the real toolchain against the repository's current source, with
// the wall clock, random numbers and file operations of the repository's packages redirected to the harness runtime,
// and run with the concrete inputs of a counterexample or of a sampled path.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type nativeCase struct {
	Harness string
	Inputs  map[string]uint64
	Tier    string
}

type nativeObs struct {
	Name string
	V    uint64
}

type nativeOutcome struct {
	Status  string
	Msg     string
	Obs     []nativeObs
	Missing []string
}

type native struct {
	bin   string
	err   error
	done  chan struct{}
	tmp   string
	buildS float64
}

var redirects = map[string]map[string]string{
	"time": {"Now": "Now", "Since": "Since", "Until": "Until"},
	"os": {"OpenFile": "OpenFile", "Open": "Open", "Create": "Create", "MkdirAll": "MkdirAll", "Mkdir": "MkdirAll", "RemoveAll": "RemoveAll",
		"Remove": "Remove", "Rename": "Rename", "ReadFile": "ReadFile", "WriteFile": "WriteFile", "File": "File", "CreateTemp": "TempFile"},
	"io/ioutil": {"TempFile": "TempFile", "ReadFile": "ReadFile", "WriteFile": "WriteFile"},
	"math/rand": {"Float64": "RandFloat64", "Intn": "RandIntn", "Int63n": "RandInt63n", "Int31n": "RandInt31n"},
	modPath + "/annoyindex": {"NewAnnoyIndexAngular": "NewIndex", "DeleteAnnoyIndexAngular": "DeleteIndex"},
}

// rewriteFile redirects selected standard-library calls to the harness runtime. ok=false: nothing to do.
func rewriteFile(src []byte, name string, table map[string]map[string]string, rtImport, rtName string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	local := map[string]string{} // local name -> import path
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		if table[p] == nil {
			continue
		}
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		local[n] = p
	}
	if len(local) == 0 {
		return nil, false, nil
	}
	changed := false
	left := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := local[id.Name]
		if !ok {
			return true
		}
		if to, ok := table[p][se.Sel.Name]; ok {
			id.Name = rtName
			se.Sel.Name = to
			changed = true
		} else {
			left[p] = true
		}
		return true
	})
	if !changed {
		return nil, false, nil
	}
	// drop imports no longer used
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, sp := range gd.Specs {
			is := sp.(*ast.ImportSpec)
			p := strings.Trim(is.Path.Value, `"`)
			if table[p] != nil && !left[p] && (is.Name == nil || is.Name.Name != "_") {
				is.Name = ast.NewIdent("_")
			}
		}
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, false, err
	}
	out := b.String()
	if rtImport != "" {
		i := strings.Index(out, "\npackage ")
		if strings.HasPrefix(out, "package ") {
			i = -1
		}
		j := i + 1 + strings.Index(out[i+1:], "\n")
		out = out[:j+1] + fmt.Sprintf("import %s %q\n", rtName, rtImport) + out[j+1:]
	}
	return []byte(out), true, nil
}

// buildNative prepares and builds the native program in the background.
func (e *Engine) buildNative(pkg string, names []string) *native {
	nv := &native{done: make(chan struct{}), tmp: filepath.Join(e.tmp, "native")}
	go func() {
		defer close(nv.done)
		start := time.Now()
		nv.err = e.buildNativeNow(nv, pkg, names)
		nv.buildS = time.Since(start).Seconds()
	}()
	return nv
}

func (e *Engine) buildNativeNow(nv *native, pkg string, names []string) error {
	if err := os.MkdirAll(nv.tmp, 0755); err != nil {
		return err
	}
	ov := map[string]string{}
	files, err := e.overlayFiles(pkg)
	if err != nil {
		return err
	}
	for d, s := range files {
		ov[d] = s
	}
	k := 0
	put := func(dst string, content []byte) error {
		k++
		p := filepath.Join(nv.tmp, fmt.Sprintf("o%d_%s", k, filepath.Base(dst)))
		ov[dst] = p
		return os.WriteFile(p, content, 0644)
	}
	// repository packages
	err = filepath.Walk(e.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(e.repo, p)
		if fi.IsDir() {
			switch rel {
			case ".git", "annoyindex", "veriservice", "verifrt", "verifh", "resources":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, ok, err := rewriteFile(src, p, redirects, rtPath, "verifrtZ")
		if err != nil {
			return err
		}
		if ok {
			return put(p, out)
		}
		return nil
	})
	if err != nil {
		return err
	}
	// the cache library's clock
	modfile := filepath.Join(nv.tmp, "go.mod")
	gm, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		return err
	}
	gs, _ := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	os.WriteFile(filepath.Join(nv.tmp, "go.sum"), gs, 0644)
	const gc = "github.com/bgokden/go-cache"
	var cacheDir string
	if p := e.pkgs[gc]; p != nil {
		for _, m := range p.Members {
			if m.Pos().IsValid() {
				cacheDir = filepath.Dir(e.prog.Fset.Position(m.Pos()).Filename)
				break
			}
		}
	}
	if cacheDir != "" {
		cd := filepath.Join(nv.tmp, "go-cache")
		os.MkdirAll(cd, 0755)
		fs, _ := filepath.Glob(filepath.Join(cacheDir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			out := bytes.ReplaceAll(src, []byte("time.Now()"), []byte("VerifNow()"))
			if err := os.WriteFile(filepath.Join(cd, filepath.Base(f)), out, 0644); err != nil {
				return err
			}
		}
		os.WriteFile(filepath.Join(cd, "verifnow.go"), []byte("package cache\n\nimport \"time\"\n\nvar VerifNow = time.Now\n"), 0644)
		os.WriteFile(filepath.Join(cd, "go.mod"), []byte("module "+gc+"\n"), 0644)
		gm = append(gm, []byte("\nreplace "+gc+" => "+cd+"\n")...)
		if err := put(filepath.Join(e.repo, "verifrt", "zz_native.go"), []byte("package verifrt\n\nimport \""+gc+"\"\n\nfunc init() { cache.VerifNow = NowLib }\n")); err != nil {
			return err
		}
	}
	os.WriteFile(modfile, gm, 0644)
	// main program
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t%q\n\th %q\n)\n\nfunc main() {\n\tverifrt.MainLoop(map[string]func(){\n", rtPath, modPath+"/verifh/"+pkg)
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	if err := put(filepath.Join(e.repo, "verifmain", "main.go"), []byte(sb.String())); err != nil {
		return err
	}
	ovb, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(nv.tmp, "overlay.json")
	if err := os.WriteFile(ovf, ovb, 0644); err != nil {
		return err
	}
	nv.bin = filepath.Join(nv.tmp, "native.bin")
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-overlay", ovf, "-modfile", modfile, "-o", nv.bin, modPath+"/verifmain")
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, trunc(string(out), 3000))
	}
	return nil
}

// run executes cases in one native process.
func (nv *native) run(cases []nativeCase, timeout time.Duration) ([]nativeOutcome, string, error) {
	<-nv.done
	if nv.err != nil {
		return nil, "", nv.err
	}
	sd, err := os.MkdirTemp(nv.tmp, "scratch")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(sd)
	in, _ := json.Marshal(cases)
	r, w, err := os.Pipe()
	if err != nil {
		return nil, "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, nv.bin)
	cmd.Dir = sd
	cmd.Env = append(os.Environ(), "VERIFRT_SCRATCH="+sd, "TMPDIR="+sd, "GOMEMLIMIT=4GiB")
	cmd.Stdin = bytes.NewReader(in)
	var eb tailBuf
	cmd.Stdout, cmd.Stderr = io.Discard, &eb
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	w.Close()
	var outs []nativeOutcome
	dec := json.NewDecoder(r)
	for {
		var o nativeOutcome
		if err := dec.Decode(&o); err != nil {
			break
		}
		outs = append(outs, o)
	}
	r.Close()
	werr := cmd.Wait()
	if ctx.Err() != nil {
		return outs, eb.String(), fmt.Errorf("timeout")
	}
	return outs, eb.String(), werr
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = t.b[len(t.b)-(1<<19):]
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

// confirm replays a violation natively. Returns a description and whether it reproduced.
func (nv *native) confirm(v *Violation, tier string) (string, bool) {
	tries := 1
	if v.UsesSched {
		tries = 8
	}
	last := ""
	for i := 0; i < tries; i++ {
		outs, errOut, err := nv.run([]nativeCase{{v.Harness, v.Inputs, tier}}, 20*time.Second)
		if len(outs) == 1 {
			o := outs[0]
			if o.Status == "violation" || o.Status == "panic" {
				return "reproduced natively: " + o.Status + ": " + trunc(o.Msg, 400), true
			}
			last = "native run ended with " + o.Status
			continue
		}
		if err != nil && err.Error() == "timeout" {
			if v.Kind == "hang" || v.Kind == "deadlock" {
				return "reproduced natively: did not return within 20 s", true
			}
			last = "native run timed out"
			continue
		}
		if j := strings.Index(errOut, "panic: "); j >= 0 {
			return "reproduced natively: " + trunc(errOut[j:], 600), true
		}
		if j := strings.Index(errOut, "fatal error: "); j >= 0 {
			return "reproduced natively: " + trunc(errOut[j:], 600), true
		}
		last = fmt.Sprintf("native run failed: %v %s", err, trunc(errOut, 300))
	}
	return last, false
}
