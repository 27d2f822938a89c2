package main

// Path exploration over a pool of workers.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type work struct {
	prefix []Dec
	model  *Model
}

type Violation struct {
	Property string `json:"property"`
	Package  string `json:"package"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Where    string `json:"where,omitempty"`
	Inputs   any    `json:"inputs"`
	Native   string `json:"native,omitempty"`
	file     string
}

// Run is the exploration of one harness.
type Run struct {
	P    *Prog
	cfg  *Cfg
	h    *Harness
	prop string

	answers sync.Map

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []work
	active int
	stop   atomic.Bool

	branches, asserts, trivial, discharged, feasUnk atomic.Int64
	steps                                           atomic.Int64

	paths    map[string]int
	labels   map[string]int
	covers   map[string]int
	bounds   map[string]int64
	funcs    map[string]bool
	msgs     map[string]int
	inconcl  map[string]int
	tried    map[string]int
	viol     *Violation
	spur     []string
	timeout  bool
	wall     time.Duration
	samples  []string
	deadline time.Time
	xn       int // cross-check vectors
	xclaims  map[int][]string
}

func newRun(P *Prog, cfg *Cfg, h *Harness, prop string) *Run {
	r := &Run{P: P, cfg: cfg, h: h, prop: prop, paths: map[string]int{}, labels: map[string]int{}, covers: map[string]int{}, bounds: map[string]int64{}, funcs: map[string]bool{}, msgs: map[string]int{}, inconcl: map[string]int{}, tried: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (r *Run) stopped() bool {
	if r.stop.Load() {
		return true
	}
	if !r.deadline.IsZero() && time.Now().After(r.deadline) {
		r.mu.Lock()
		r.timeout = true
		r.mu.Unlock()
		r.halt()
		return true
	}
	return false
}

func (r *Run) halt() {
	r.stop.Store(true)
	r.mu.Lock()
	r.cond.Broadcast()
	r.mu.Unlock()
}

func (r *Run) push(prefix []Dec, model *Model, m *M) {
	r.mu.Lock()
	r.queue = append(r.queue, work{prefix, model})
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *Run) pop() (work, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop.Load() {
			return work{}, false
		}
		if n := len(r.queue); n > 0 {
			w := r.queue[n-1]
			r.queue = r.queue[:n-1]
			r.active++
			return w, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return work{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.active--
	if r.active == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Run) labelOK(l string) {
	r.mu.Lock()
	r.labels[l]++
	r.mu.Unlock()
}

func (r *Run) bound(l string, v int64) {
	r.mu.Lock()
	r.bounds[l] = v
	r.mu.Unlock()
}

func (r *Run) cover(l string, m *M) {
	r.mu.Lock()
	n := r.covers[l]
	r.covers[l]++
	r.mu.Unlock()
	if n == 0 && !m.ensureModel() {
		m.infeasible()
	}
}

func (r *Run) note(kind, msg string) {
	r.mu.Lock()
	r.msgs[kind+": "+msg]++
	r.mu.Unlock()
}

func (r *Run) inconclusive(m *M, label string, goal *Term) {
	r.mu.Lock()
	r.inconcl[label]++
	n := r.inconcl[label]
	r.mu.Unlock()
	if n <= 2 && verbose {
		logf("inconclusive %s: %s", label, clip(goal.String(), 600))
	}
	if os.Getenv("VENGINE_DUMP") != "" {
		js := buildJobs(m.c, append(append([]*Term{}, m.pc...), goal), 10*time.Second, "bil")
		for _, j := range js {
			os.WriteFile(fmt.Sprintf("/tmp/inc-%s-%d-%s.smt2", r.h.Name, n, j.name), []byte(j.script), 0o644)
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// violation handles a counterexample: it is written out and replayed against
// the real code.
func (r *Run) violation(m *M, label string, goal *Term, model *Model) {
	if r.xn > 0 {
		return
	}
	r.mu.Lock()
	n := r.tried[label]
	r.tried[label]++
	r.mu.Unlock()
	if n >= r.cfg.maxTry {
		return
	}
	if model == nil {
		r.mu.Lock()
		r.inconcl[label+" (no model)"]++
		r.mu.Unlock()
		return
	}
	if os.Getenv("VENGINE_DUMPV") != "" {
		js := buildJobs(m.c, append(append([]*Term{}, m.pc...), goal), 10*time.Second, "b")
		os.WriteFile("/tmp/viol.smt2", []byte(js[0].script), 0o644)
	}
	mod := m.minimise(model, goal)
	v := &Violation{Property: r.prop, Package: r.h.Pkg, Harness: r.h.Name, Label: label, Where: m.whereAmI(), Inputs: m.dumpInputs(mod)}
	m.c.evalReset()
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.viol != nil {
		return
	}
	v.file = filepath.Join(workDir, fmt.Sprintf("replay-%s-%s-%d.json", r.prop, r.h.Name, len(r.spur)))
	v.save()
	out, ok := nativeReplay(r.h, v.file)
	v.Native = out
	v.save()
	if ok {
		r.viol = v
		if r.cfg.stopFirst {
			r.stop.Store(true)
			r.cond.Broadcast()
		}
		return
	}
	r.spur = append(r.spur, fmt.Sprintf("%s: %s: native replay: %s (%s)", r.h.Name, label, clip(out, 300), v.file))
	if verbose {
		logf("unconfirmed %s: %s  inputs in %s", label, clip(out, 300), v.file)
	}
}

func (v *Violation) save() {
	b, _ := json.MarshalIndent(v, "", " ")
	os.MkdirAll(filepath.Dir(v.file), 0o755)
	os.WriteFile(v.file, b, 0o644)
}

// dumpInputs writes the inputs of the path as the native vsym expects them.
func (m *M) dumpInputs(mod *Model) any {
	type tab struct {
		N    int64            `json:"n"`
		Tabs []map[string]any `json:"tabs"`
	}
	out := map[string]any{}
	for _, in := range m.inputs {
		switch in.kind {
		case "bv", "const":
			out[in.name] = fmt.Sprint(m.c.Eval(in.t, mod))
		case "dense":
			n := in.n.c
			t := tab{N: int64(n)}
			for _, f := range in.fields {
				vals := map[string]string{}
				suffix := strings.TrimPrefix(f.name, in.name+"@0")
				for i := uint64(0); i < n; i++ {
					x := mod.vars[fmt.Sprintf("%s@%d%s", in.name, i, suffix)]
					if x != 0 {
						vals[fmt.Sprint(i)] = fmt.Sprint(x)
					}
				}
				t.Tabs = append(t.Tabs, map[string]any{"path": f.path, "w": f.w, "v": vals})
			}
			out[in.name] = t
		case "uf":
			n := int64(m.c.Eval(in.n, mod))
			t := tab{N: n}
			for _, f := range in.fields {
				vals := map[string]string{}
				for k, x := range mod.ufs["uf:"+f.name] {
					vals[k] = fmt.Sprint(x)
				}
				t.Tabs = append(t.Tabs, map[string]any{"path": f.path, "w": f.w, "v": vals})
			}
			out[in.name] = t
		}
	}
	return out
}

func newMachine(P *Prog, cfg *Cfg, r *Run) *M {
	m := &M{P: P, cfg: cfg, c: newCtx(), inc: newInc(cfg.feasMs), fns: map[*ssa.Function]*fnInfo{}, glob: map[*ssa.Global]*Value{}, init: map[*ssa.Package]bool{}, fns_used: map[*ssa.Function]bool{}, rec: r}
	return m
}

const ctxLimit = 6_000_000

func (r *Run) worker() {
	m := newMachine(r.P, r.cfg, r)
	finish := func() {
		m.inc.close()
		r.mu.Lock()
		for f := range m.fns_used {
			r.funcs[f.String()] = true
		}
		r.mu.Unlock()
	}
	defer func() { finish() }()
	for {
		w, ok := r.pop()
		if !ok {
			return
		}
		m.resetPath(w.prefix, w.model)
		kind, msg := m.runPath()
		if r.xn > 0 {
			m.xclaim(kind)
		}
		m.rollback()
		r.steps.Add(m.steps)
		r.mu.Lock()
		r.paths[kind]++
		total := 0
		for _, n := range r.paths {
			total += n
		}
		r.mu.Unlock()
		if msg != "" && kind != "stop" {
			r.note(kind, msg)
		}
		r.done()
		if int(m.c.n) > ctxLimit {
			finish()
			m = newMachine(r.P, r.cfg, r)
		}
	}
}

// runPath executes the harness once along the current prefix.
func (m *M) runPath() (kind, msg string) {
	defer func() {
		m.killAll()
		m.mg, m.spec, m.specSteps, m.initMode = nil, 0, 0, false
		m.panicFrames = nil
	}()
	var rec any
	var st string
	func() {
		defer func() {
			if rec = recover(); rec != nil {
				switch rec.(type) {
				case pathEnd, goPanic:
				default:
					st = string(debug.Stack())
				}
			}
		}()
		m.mainGor()
		m.call(m.P.harness, nil, nil)
	}()
	switch e := rec.(type) {
	case nil:
		if len(m.rec.samples) < 3 {
			if m.model != nil || m.ensureModel() {
				if m.model != nil {
					b, _ := json.Marshal(m.dumpInputs(m.model))
					m.c.evalReset()
					m.rec.mu.Lock()
					m.rec.samples = append(m.rec.samples, clip(string(b), 600))
					m.rec.mu.Unlock()
				}
			}
		}
		return "done", ""
	case pathEnd:
		return e.kind, e.msg
	case goPanic:
		txt := m.panicText(e)
		if m.replaying() {
			return "nondet", "panic while replaying: " + txt
		}
		if !m.ensureModel() {
			return "infeasible", ""
		}
		label := "no panic"
		if e.fatal {
			label = clip(e.where, 60)
			if i := strings.Index(label, ":"); i > 0 {
				label = label[:i]
			}
		}
		m.rec.asserts.Add(1)
		m.stack = m.stack[:0]
		r := m.rec
		if verbose {
			r.note("panic", txt)
		}
		r.violation(m, label+" ["+panicKey(txt)+"]", m.c.T, m.model)
		return "panic", ""
	}
	return "internal", clip(fmt.Sprint(rec), 200) + " @ " + m.whereAmI() + func() string {
		if verbose {
			return "\n" + st
		}
		return ""
	}()
}

func panicKey(txt string) string {
	if i := strings.Index(txt, " < "); i > 0 {
		txt = txt[:i]
	}
	return clip(txt, 160)
}

func (r *Run) explore(workers int) {
	t0 := time.Now()
	r.queue = []work{{nil, newModel()}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker()
		}()
	}
	if verbose {
		stopT := make(chan struct{})
		defer close(stopT)
		go func() {
			for {
				select {
				case <-stopT:
					return
				case <-time.After(10 * time.Second):
					r.mu.Lock()
					logf("%s: paths %v queue %d active %d asserts %d discharged %d queries %d", r.h.Name, r.paths, len(r.queue), r.active, r.asserts.Load(), r.discharged.Load(), statQueries.Load())
					r.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	r.wall = time.Since(t0)
}

func (r *Run) complete() bool {
	if r.timeout || len(r.inconcl) > 0 || len(r.spur) > 0 {
		return false
	}
	for k, n := range r.paths {
		if n > 0 && k != "done" && k != "infeasible" && k != "panic" {
			return false
		}
	}
	return true
}

func sortedMsgs(x map[string]int) []string {
	var r []string
	for k, n := range x {
		r = append(r, fmt.Sprintf("%dx %s", n, k))
	}
	sort.Strings(r)
	return r
}

var _ = types.Typ
