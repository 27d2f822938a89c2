// Command vengine decides properties of the limage packages by symbolic
// execution of their SSA form, with an SMT solver as the deciding step.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verbose bool
var xvectors int

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vengine: "+f+"\n", a...)
	os.Exit(3)
}

func logf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "# "+f+"\n", a...)
}

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"` // known or fixed
	Package  string `json:"package,omitempty"`
	Harness  string `json:"harness,omitempty"`
	Inputs   any    `json:"inputs,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown() []knownFinding {
	var k []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &k); err != nil {
			fatalf("known_findings.json: %v", err)
		}
	}
	return k
}

func main() {
	debug.SetGCPercent(200)
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "run only this harness")
	workers := flag.Int("workers", 8, "workers")
	budget := flag.Int("budget", 0, "time budget per property in seconds")
	prof := flag.String("prof", "", "cpu profile")
	keep := flag.Bool("keep", false, "keep going after a violation")
	flag.IntVar(&xvectors, "x", 0, "cross-check the engine with this many native runs instead of checking the property")
	flag.StringVar(&repoDir, "repo", repoDir, "tree to check; with any other than /repo no evidence is written")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	workDir = filepath.Join(verifDir, "work", fmt.Sprint("p", os.Getpid()))
	args := flag.Args()
	if len(args) < 1 {
		fatalf("usage: vengine check PROPERTY | replay FILE | list")
	}
	switch args[0] {
	case "list":
		for _, h := range scanHarnesses() {
			fmt.Println(h.Prop, h.Pkg, h.Name, h.Opts)
		}
	case "replay":
		if len(args) < 2 {
			fatalf("replay FILE")
		}
		var v Violation
		b, err := os.ReadFile(args[1])
		if err != nil {
			fatalf("%v", err)
		}
		if err := json.Unmarshal(b, &v); err != nil {
			fatalf("%v", err)
		}
		abs, _ := filepath.Abs(args[1])
		os.MkdirAll(workDir, 0o755)
		out, ok := nativeReplay(&Harness{Pkg: v.Package, Name: v.Harness}, abs)
		fmt.Println(out)
		os.RemoveAll(workDir)
		if ok {
			fmt.Println("reproduced")
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	case "check":
		if len(args) < 2 {
			fatalf("check PROPERTY")
		}
		code := check(args[1], *tier, *only, *workers, *budget, *keep)
		pprof.StopCPUProfile()
		os.Exit(code)
	default:
		fatalf("unknown command %s", args[0])
	}
}

func check(prop, tier, only string, workers, budget int, keep bool) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.MkdirAll(workDir, 0o755)
	var hs []*Harness
	pk := map[string]bool{}
	for _, h := range scanHarnesses() {
		if h.Prop != prop || only != "" && h.Name != only {
			continue
		}
		if t := h.Opts["tier"]; t != "" && t != tier && only == "" {
			continue
		}
		hs = append(hs, h)
		pk[h.Pkg] = true
	}
	if len(hs) == 0 {
		fatalf("no harness for %s", prop)
	}
	if budget == 0 {
		budget = 420
		if tier == "thorough" {
			budget = 3 * 3600
		}
	}
	var pkgs []string
	for p := range pk {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	P, _ := load(pkgs)
	tLoad := time.Since(t0)

	for _, k := range loadKnown() {
		if k.Property != prop || k.Status != "known" {
			continue
		}
		f := filepath.Join(workDir, "known-"+k.ID+".json")
		v := &Violation{Property: prop, Package: k.Package, Harness: k.Harness, Inputs: k.Inputs, file: f}
		v.save()
		if out, ok := nativeReplay(&Harness{Pkg: k.Package, Name: k.Harness}, f); ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k.ID, k.What)
		} else if verbose {
			logf("known finding %s no longer reproduces: %s", k.ID, out)
		}
	}

	var runs []*Run
	var viol *Violation
	xbad := 0
	deadline := t0.Add(time.Duration(budget) * time.Second)
	for _, h := range hs {
		hp := P.pkgs[modPath+"/zzverif/"+h.Pkg]
		fn := hp.Func(h.Name)
		if fn == nil {
			fatalf("no function %s in %s", h.Name, h.Pkg)
		}
		Q := *P
		Q.harness = fn
		cfg := &Cfg{
			tier:      tier,
			maxSteps:  int64(h.optInt("steps", tier, 20_000_000)),
			feasMs:    h.optInt("feasms", tier, 4000),
			assertSec: h.optInt("assertsec", tier, 60),
			maxDepth:  h.optInt("depth", tier, 400),
			kinds:     h.opt("kinds", tier, "bil"),
			stopFirst: !keep,
			noMerge:   h.opt("nomerge", tier, "") != "",
			maxTry:    3,
		}
		r := newRun(&Q, cfg, h, prop)
		r.deadline = deadline
		r.xn = xvectors
		r.xclaims = map[int][]string{}
		if s := h.optInt("secs", tier, 0); s > 0 {
			if d := time.Now().Add(time.Duration(s) * time.Second); d.Before(deadline) {
				r.deadline = d
			}
		}
		r.explore(h.optInt("workers", tier, workers))
		if xvectors > 0 {
			xbad += r.xcompare()
			continue
		}
		runs = append(runs, r)
		if verbose {
			logf("%s: %.1fs paths %v asserts %d (trivial %d, solver %d) branches %d feasUnknown %d steps %d queries %d complete=%v", h.Name, r.wall.Seconds(), r.paths, r.asserts.Load(), r.trivial.Load(), r.discharged.Load(), r.branches.Load(), r.feasUnk.Load(), r.steps.Load(), statQueries.Load(), r.complete())
			logf("  labels %v", r.labels)
			logf("  covers %v bounds %v", r.covers, r.bounds)
			if len(r.inconcl) > 0 {
				logf("  inconclusive %v", r.inconcl)
			}
			logf("  solvers %v", solveCnt)
			for _, s := range sortedMsgs(r.msgs) {
				logf("  %s", s)
			}
			for _, s := range r.spur {
				logf("  unconfirmed %s", s)
			}
		}
		if r.viol != nil {
			viol = r.viol
			if !keep {
				break
			}
		}
	}
	if xvectors > 0 {
		os.RemoveAll(workDir)
		if xbad > 0 {
			return 1
		}
		return 0
	}
	path := ""
	if viol != nil {
		path = filepath.Join(verifDir, "work", filepath.Base(viol.file))
		viol.file = path
		viol.save()
	}
	writeEvidence(prop, tier, seed, runs, viol, tLoad, time.Since(t0))
	if !verbose {
		os.RemoveAll(workDir)
	}
	if viol != nil {
		fmt.Printf("%s: %s in %s\n%s\n", prop, viol.Label, viol.Harness, clip(viol.Native, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	for _, r := range runs {
		if !r.complete() {
			fmt.Printf("INCOMPLETE property=%s harness=%s paths=%v\n", prop, r.h.Name, r.paths)
			for _, s := range sortedMsgs(r.msgs) {
				fmt.Println("  ", clip(s, 400))
			}
			if len(r.inconcl) > 0 {
				fmt.Println("   undecided:", r.inconcl)
			}
			for _, s := range r.spur {
				fmt.Println("   unconfirmed:", clip(s, 400))
			}
		}
	}
	fmt.Printf("OK property=%s tier=%s harnesses=%d wall=%.1fs\n", prop, tier, len(runs), time.Since(t0).Seconds())
	return 0
}

func writeEvidence(prop, tier string, seed int, runs []*Run, viol *Violation, tLoad, wall time.Duration) {
	type hev struct {
		Harness      string           `json:"harness"`
		Paths        map[string]int   `json:"paths"`
		Bounds       map[string]int64 `json:"bounds"`
		Assertions   map[string]int   `json:"assertions_discharged_by_label"`
		Covers       map[string]int   `json:"covers_reached"`
		Checked      int64            `json:"assertion_instances"`
		Syntactic    int64            `json:"closed_by_simplification"`
		Solver       int64            `json:"closed_by_solver_unsat"`
		Branches     int64            `json:"branch_feasibility_decisions"`
		FeasUnknown  int64            `json:"branch_feasibility_unknown_both_sides_kept"`
		Instructions int64            `json:"ssa_instructions_executed"`
		Complete     bool             `json:"complete_within_bounds"`
		Undecided    map[string]int   `json:"undecided,omitempty"`
		Messages     []string         `json:"incomplete_paths,omitempty"`
		Unconfirmed  []string         `json:"unconfirmed_by_native_replay,omitempty"`
		Wall         float64          `json:"wall_s"`
	}
	var hv []hev
	funcs := map[string]bool{}
	std := 0
	var samples []string
	obl, dis, paths := int64(0), int64(0), 0
	all := true
	for _, r := range runs {
		hv = append(hv, hev{r.h.Pkg + "." + r.h.Name, r.paths, r.bounds, r.labels, r.covers, r.asserts.Load(), r.trivial.Load(), r.discharged.Load(), r.branches.Load(), r.feasUnk.Load(), r.steps.Load(), r.complete(), r.inconcl, sortedMsgs(r.msgs), r.spur, r.wall.Seconds()})
		for f := range r.funcs {
			if strings.Contains(f, modPath) && !strings.Contains(f, "zzverif") {
				funcs[f] = true
			} else if !strings.Contains(f, "zzverif") {
				std++
			}
		}
		samples = append(samples, r.samples...)
		obl += r.asserts.Load()
		dis += r.trivial.Load() + r.discharged.Load()
		for _, n := range r.paths {
			paths += n
		}
		if !r.complete() {
			all = false
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":               "Bounded symbolic execution of the functions below (SSA regenerated from /repo on this run): every path within the bounds is explored with the inputs as solver variables; each assertion instance on each path is closed by simplification or by an unsat answer of the SMT solver for its negation; counterexamples are replayed on the compiled code before they are reported.",
			"functions_encoded":         fl,
			"library_functions_encoded": std,
			"obligations":               obl,
			"discharged":                dis,
			"paths":                     paths,
			"solver_queries":            statQueries.Load(),
			"solver_unknown":            statUnknown.Load(),
			"solver_time_s":             float64(statSolverNs.Load()) / 1e9,
			"complete_within_bounds":    all,
			"harnesses":                 hv,
			"samples":                   samples,
			"load_s":                    tLoad.Seconds(),
			"workers":                   runtime.NumCPU(),
		},
		"assumptions": assumptions(runs),
		"wall_s":      wall.Seconds(),
		"violations":  nv,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalf("evidence: %v", err)
	}
	if repoDir != "/repo" {
		return
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644); err != nil {
		fatalf("evidence: %v", err)
	}
}

func assumptions(runs []*Run) []string {
	r := []string{
		"the interpreter's semantics of Go SSA and its models of runtime, sync, strconv number formatting and fmt agree with the compiled code",
		"SMT solvers z3 and cvc5 answer correctly",
		"inputs outside the bounds of each harness are not covered",
	}
	ov := map[string]bool{}
	for _, x := range runs {
		for n := range x.P.overrides {
			ov[n] = true
		}
	}
	if len(ov) > 0 {
		var l []string
		for n := range ov {
			l = append(l, n)
		}
		sort.Strings(l)
		r = append(r, "model implementations stand in for: "+strings.Join(l, ", "))
	}
	return r
}
