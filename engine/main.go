package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type knownFinding struct {
	Property string
	Harness  string
	Contains string
	Text     string
}

// known-findings.txt: "finding: property=C13 harness=Check_x contains=<text> -- description" (fixed: lines suppress nothing).
func loadKnown(file, prop string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := knownFinding{}
		l = strings.TrimPrefix(l, "finding: ")
		if i := strings.Index(l, " -- "); i >= 0 {
			k.Text = l[i+4:]
			l = l[:i]
		}
		if i := strings.Index(l, " contains="); i >= 0 {
			k.Contains = l[i+10:]
			l = l[:i]
		}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "property=") {
				k.Property = f[9:]
			}
			if strings.HasPrefix(f, "harness=") {
				k.Harness = f[8:]
			}
		}
		if k.Property == prop && k.Harness != "" && k.Contains != "" {
			out = append(out, k)
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "check" {
		fatalf("usage: gosym check -prop ID [-tier quick|thorough] [-harness NAME]")
	}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "tier")
	filter := fs.String("harness", "", "only harnesses whose name contains this")
	workers := fs.Int("workers", 0, "workers")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification folder")
	noNative := fs.Bool("nonative", false, "skip native replay")
	dbg := fs.Bool("debug", false, "debug")
	budget := fs.Int("total", 0, "total exploration budget in seconds")
	fs.Parse(os.Args[2:])
	if *prop == "" {
		fatalf("missing -prop")
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	start := time.Now()
	e := &Engine{repo: *repo, verif: *verif, tier: *tier, seed: 1, solverTimeout: 20 * time.Second, debugPanic: *dbg}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &e.seed)
	}
	if *tier == "thorough" {
		e.solverTimeout = 60 * time.Second
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatalf("%v", err)
	}
	e.tmp = tmp
	code := e.check(*prop, *filter, *workers, *noNative, *budget, start, *dbg)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func (e *Engine) check(prop, filter string, workers int, noNative bool, total int, start time.Time, dbg bool) int {
	pkg := strings.ToLower(prop)
	evFile := filepath.Join(e.verif, "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(evFile), 0755)
	outDir := filepath.Join(e.verif, "evidence", "replay")
	ev := map[string]interface{}{"property": prop, "tier": e.tier, "seed": e.seed, "level": "model_checking"}
	writeEv := func() {
		ev["wall_s"] = round3(time.Since(start).Seconds())
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(evFile, append(b, '\n'), 0644)
	}
	if err := e.load(pkg); err != nil {
		fmt.Printf("INCONCLUSIVE property=%s: %v\n", prop, err)
		ev["coverage"] = map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "exhaustive": false, "inconclusive": err.Error()}
		ev["violations"] = 0
		writeEv()
		return 0
	}
	hs := e.harnesses(filter)
	if len(hs) == 0 {
		fatalf("no harness for %s", prop)
	}
	var names []string
	for _, h := range hs {
		names = append(names, h.name)
	}
	var nv *native
	if !noNative {
		nv = e.buildNative(pkg, names)
	}
	fmt.Printf("property %s, tier %s: %d harnesses, loaded in %.1fs\n", prop, e.tier, len(hs), e.loadS)
	known := loadKnown(filepath.Join(e.verif, "known-findings.txt"), prop)

	type repV struct {
		v      *Violation
		native string
	}
	var reported []repV
	var unconfirmed []string
	knownSeen := map[string]bool{}
	var results []*HarnessResult
	funcs := map[string]bool{}
	validated, mismatched := 0, []string{}
	var samplesOut []interface{}
	for hi, h := range hs {
		if e.tier == "quick" { // an answer within 15 minutes, also on a slow machine; every later harness keeps some time
			left := 660*time.Second - time.Since(start) - time.Duration(len(hs)-1-hi)*20*time.Second
			if left < 20*time.Second {
				left = 20 * time.Second
			}
			if h.budget > left {
				h.budget = left
			}
		}
		if total > 0 && int(h.budget.Seconds()) > total {
			h.budget = time.Duration(total) * time.Second
		}
		var r *HarnessResult
		rounds, first := 0, time.Now()
		e.shared = map[ssa.Instruction]bool{}
		for {
			rounds++
			e.sharedNew = map[ssa.Instruction]bool{}
			r = e.explore(h, workers)
			if !h.race || len(e.sharedNew) == 0 || len(r.violations) > 0 || rounds > 8 || time.Since(first) > h.budget {
				break
			}
			ns := map[ssa.Instruction]bool{}
			for k := range e.shared {
				ns[k] = true
			}
			for k := range e.sharedNew {
				ns[k] = true
			}
			e.shared = ns
		}
		results = append(results, r)
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		fmt.Printf("  %-40s paths=%d (done %d, outside %d) asserts=%d decisions=%d queries=%d solver=%.1fs wall=%.1fs exhausted=%v rounds=%d viol=%d\n",
			h.name, r.Paths, r.Completed, r.Pruned, r.Asserts, r.Transitions, r.Queries, r.SolverS, r.WallS, r.Exhausted, rounds, len(r.violations))
		for k, n := range r.Reduced {
			fmt.Printf("      reduced x%d: %s\n", n, trunc(strings.TrimSpace(k), 700))
		}
		for _, l := range h.needReach {
			if !r.Reached[l] && len(r.violations) == 0 {
				fmt.Printf("      NOT REACHED: %s\n", l)
				r.Reduced["coverage label not reached: "+l]++
				r.Exhausted = false
			}
		}
		for _, s := range r.SolverErrs {
			fmt.Printf("      solver error: %s\n", trunc(s, 300))
		}
		// violations
		seen, nrep := map[string]int{}, 0
		sort.SliceStable(r.violations, func(i, j int) bool { return len(r.violations[i].Sched) < len(r.violations[j].Sched) })
		for _, v := range r.violations {
			key := v.Kind + "|" + trunc(v.Msg, 120)
			if seen[key] >= 3 || nrep >= 5 {
				continue
			}
			seen[key]++
			kf := ""
			for _, k := range known {
				if k.Harness == v.Harness && strings.Contains(v.Kind+": "+v.Msg, k.Contains) {
					kf = k.Contains
					if !knownSeen[kf] {
						knownSeen[kf] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
					}
				}
			}
			if kf != "" {
				continue
			}
			how, ok := "not attempted", false
			if nv != nil && !h.noNative {
				how, ok = nv.confirm(v, e.tier)
			}
			sched := v.UsesSched
			for _, u := range v.Uses {
				if u == "sched" || u == "select" || u == "maporder" {
					sched = true
				}
			}
			nativeBroken := nv != nil && func() bool { <-nv.done; return nv.err != nil }()
			if !ok && !sched && !h.noNative && nv != nil && !nativeBroken {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: %s (%s)", v.Harness, v.Kind, trunc(v.Msg, 200), how))
				fmt.Printf("      UNCONFIRMED %s: %s [%s]\n", v.Kind, trunc(v.Msg, 300), trunc(how, 300))
				if dbg {
					b, _ := json.Marshal(v.Inputs)
					fmt.Printf("        inputs %s\n%s\n", b, v.Trace)
				}
				continue
			}
			if !ok {
				how = "replayed in the engine with the recorded inputs and schedule (" + how + ")"
			}
			v.Native = how
			fmt.Printf("      VIOLATED %s: %s\n        inputs: %s\n        replay: %s\n", v.Kind, trunc(v.Msg, 500), inputsText(v.Inputs), trunc(how, 400))
			if v.Trace != "" && nrep == 0 {
				fmt.Printf("%s\n", v.Trace)
			}
			reported = append(reported, repV{v, how})
			nrep++
		}
		// sampled completed paths against the real code
		if nv != nil && !h.noNative && len(r.samples) > 0 {
			var cases []nativeCase
			var idx []int
			want := 12
			if e.tier == "thorough" {
				want = 60
			}
			step := len(r.samples)/want + 1
			for i := 0; i < len(r.samples) && len(cases) < want; i += step {
				s := r.samples[i]
				if s.sched || len(s.obs) == 0 {
					continue
				}
				cases = append(cases, nativeCase{h.name, s.inputs, e.tier})
				idx = append(idx, i)
			}
			if len(cases) > 0 {
				outs, errOut, err := nv.run(cases, 60*time.Second)
				if err != nil {
					mismatched = append(mismatched, fmt.Sprintf("%s: native run: %v %s", h.name, err, trunc(errOut, 300)))
				}
				for j, o := range outs {
					s := r.samples[idx[j]]
					bad := ""
					if o.Status != "ok" {
						bad = "status " + o.Status + " " + o.Msg
					} else if len(o.Obs) != len(s.obs) {
						bad = fmt.Sprintf("%d observations instead of %d", len(o.Obs), len(s.obs))
					} else {
						for k, ob := range o.Obs {
							key := fmt.Sprintf("%03d:%s", k, ob.Name)
							if s.obs[key] != ob.V && !bothNaN(s.obs[key], ob.V) {
								bad = fmt.Sprintf("%s: symbolic %d native %d", key, s.obs[key], ob.V)
								break
							}
						}
					}
					if bad != "" {
						mismatched = append(mismatched, fmt.Sprintf("%s: %s (inputs %s)", h.name, bad, inputsText(s.inputs)))
					} else {
						validated++
						if len(samplesOut) < 6 {
							samplesOut = append(samplesOut, map[string]interface{}{"harness": h.name, "inputs": s.inputs, "observed_both_ways": s.obs})
						}
					}
				}
			}
		}
		if len(samplesOut) < 6 && len(r.samples) > 0 {
			s := r.samples[len(r.samples)/2]
			samplesOut = append(samplesOut, map[string]interface{}{"harness": h.name, "inputs": s.inputs, "path_decisions": s.decs})
		}
	}
	for _, m := range mismatched {
		fmt.Printf("  MODEL MISMATCH %s\n", trunc(m, 600))
	}
	if nv != nil {
		<-nv.done
		if nv.err != nil {
			fmt.Printf("  native replay unavailable: %v\n", trunc(nv.err.Error(), 2000))
		}
	}
	// evidence
	var states, trans, queries, asserts int
	var solverS float64
	exhausted := true
	var bounds []string
	for _, r := range results {
		states += r.Paths
		trans += r.Transitions
		queries += r.Queries
		asserts += r.Asserts
		solverS += r.SolverS
		exhausted = exhausted && r.Exhausted
		bounds = append(bounds, r.Name+": "+r.Bound)
	}
	var repoFns, depFns []string
	for f := range funcs {
		if strings.Contains(f, modPath) && !strings.Contains(f, "/verifh/") && !strings.Contains(f, "/verifrt") {
			repoFns = append(repoFns, strings.ReplaceAll(f, modPath+"/", ""))
		} else if !strings.Contains(f, "/verifh/") && !strings.Contains(f, "/verifrt") {
			depFns = append(depFns, f)
		}
	}
	sort.Strings(repoFns)
	sort.Strings(depFns)
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samplesOut, "exhaustive": exhausted,
		"meaning":                  "states = symbolic paths explored (each stands for all inputs satisfying its path condition), transitions = symbolic branch/choice decisions, traces_validated_against_impl = sampled completed paths replayed in the natively compiled code with identical observations",
		"functions_encoded":        repoFns,
		"dependency_functions_encoded": len(depFns),
		"bounds":                   bounds,
		"queries_discharged":       queries,
		"assertions_evaluated":     asserts,
		"solver_s":                 round3(solverS),
		"load_and_encode_s":        round3(e.loadS),
		"harnesses":                results,
		"model_mismatches":         mismatched,
		"unconfirmed":              unconfirmed,
		"known_findings_seen":      len(knownSeen),
	}
	if samplesOut == nil {
		cov["samples"] = []string{}
	}
	if nv != nil {
		cov["native_build_s"] = round3(nv.buildS)
	}
	ev["coverage"] = cov
	ev["assumptions"] = assumptions(prop)
	ev["violations"] = len(reported)
	code := 0
	if len(reported) > 0 {
		os.MkdirAll(outDir, 0755)
		rf := filepath.Join(outDir, prop+".json")
		var vs []*Violation
		for _, r := range reported {
			vs = append(vs, r.v)
		}
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "tier": e.tier, "violations": vs}, "", " ")
		os.WriteFile(rf, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
		code = 1
	}
	writeEv()
	fmt.Printf("%s %s: %d paths, %d decisions, %d queries, %d asserts, %d validated natively, exhausted=%v, %.1fs\n", prop, e.tier, states, trans, queries, asserts, validated, exhausted, time.Since(start).Seconds())
	return code
}

func bothNaN(a, b uint64) bool {
	isNaN := func(x uint64) bool { return x>>52&0x7ff == 0x7ff && x&(1<<52-1) != 0 }
	return isNaN(a) && isNaN(b)
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

func inputsText(m map[string]uint64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "%s=%d", k, int64(m[k]))
		if sb.Len() > 1500 {
			sb.WriteString(" ...")
			break
		}
	}
	return sb.String()
}

func assumptions(prop string) []string {
	a := []string{
		"go/ssa's translation of the source and this engine's instruction semantics (validated by native replay of sampled paths) stand for the compiled code",
		"z3 (cvc5 as fallback) answers are trusted; a query no solver decides is reported as a reduced bound, never as held",
		"sync, sync/atomic, time, os, sort, fmt, encoding/json, copier, gjson and grpc's client are models of their documented behaviour; goroutines interleave at synchronisation points (and at accesses to shared memory in race mode) under sequential consistency",
		"logging has no effect; the cache library's janitor goroutine is replaced by explicit DeleteExpired calls in the harnesses",
	}
	return a
}
