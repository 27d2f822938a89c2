package main

// Path state: decisions, path condition, solver use, assertions.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	kind  byte // 'b' branch, 'c' concretisation, 'k' choice
	taken bool
	val   uint64
	site  uint32
}

type pathEnd struct {
	kind string // "infeasible", "unsupported", "budget", "stop", "killed", "nondet"
	msg  string
}

type goPanic struct {
	v     Iface
	where string
	fatal bool
}

type (
	specAbort  struct{}
	mergeAbort struct{}
)

type mdec struct{ taken, alt bool }

type mergeCtx struct {
	prefix []mdec
	trace  []mdec
}

// Config of one harness run.
type Cfg struct {
	tier       string
	maxSteps   int64
	feasMs     int
	assertSec  int
	maxDepth   int
	kinds      string
	stopFirst  bool
	noMerge    bool
	extraCheck bool
	maxTry     int
}

// Shared program data.
type Prog struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	overrides map[string]*ssa.Function // by replaced function's String()
	pure      map[*ssa.Function]int    // 1 pure, 2 impure, 3 in progress
	harness   *ssa.Function
}

// M is one worker's machine.
type M struct {
	P    *Prog
	cfg  *Cfg
	c    *Ctx
	inc  *Inc
	fns  map[*ssa.Function]*fnInfo
	glob map[*ssa.Global]*Value
	init map[*ssa.Package]bool
	tc   *typeCache

	initMode bool
	undo     []undoRec

	// path state
	pc                   []*Term
	known                map[int32]bool
	knownLog             []int32
	bnd                  map[int32][2]uint64
	prefix               []Dec
	trace                []Dec
	pos                  int
	model                *Model
	spec                 int
	mg                   *mergeCtx
	obs                  []obsRec
	cuts                 map[*Term]*Term
	draws                []*Term
	drawPos              int
	steps                int64
	specSteps            int64
	depth                int
	nameCnt              map[string]int
	inputs               []Input
	soft                 []*Term
	curFn                *ssa.Function
	curPos               uint32
	stack                []*ssa.Function
	mapOrders, schedules bool
	maxAlloc             uint64
	mutexes              map[*Value]*mutexState
	wgs                  map[*Value]*int64
	gors                 []*Gor
	cur                  *Gor
	killing              bool
	outcome              chan any
	feasUnk              int
	edges                []dedge
	fns_used             map[*ssa.Function]bool
	pools                map[*Value][]Value
	rec                  *Run
	pathID               int
	sawUnk               bool
	events               []string
	ghost                map[string]Value
	panicFrames          []*frame
	abort                any
	prov                 map[string]*Term
	onceDone             map[*Value]bool
	rawFns               map[*ssa.Function]*fnInfo
}

// Input is a symbolic input in creation order.
type Input struct {
	name   string
	kind   string // bv, bool, uf, len ...
	t      *Term
	w      uint8
	uf     string
	fields []ufField
	n      *Term
}

type ufField struct {
	path []int
	w    uint8
	name string
}

func (m *M) unsupported(f string, a ...any) pathEnd {
	return pathEnd{"unsupported", fmt.Sprintf(f, a...) + " @ " + m.whereAmI()}
}

func (m *M) infeasible() { panic(pathEnd{"infeasible", ""}) }

func (m *M) whereAmI() string {
	n := len(m.stack)
	var s []string
	for i := n - 1; i >= 0 && i >= n-5; i-- {
		s = append(s, m.stack[i].String())
	}
	return strings.Join(s, " < ")
}

func (m *M) resetPath(prefix []Dec, model *Model) {
	m.pc = m.pc[:0]
	m.known = map[int32]bool{}
	m.knownLog = m.knownLog[:0]
	m.bnd = map[int32][2]uint64{}
	m.edges = m.edges[:0]
	m.prefix = prefix
	m.trace = append(m.trace[:0:0], make([]Dec, 0, len(prefix)+32)...)
	m.pos = 0
	m.model = model
	m.spec = 0
	m.mg = nil
	m.steps = 0
	m.depth = 0
	m.nameCnt = map[string]int{}
	m.inputs = nil
	m.obs = nil
	m.cuts = nil
	m.draws, m.drawPos = nil, 0
	m.soft = nil
	m.stack = m.stack[:0]
	m.mapOrders, m.schedules = false, false
	m.maxAlloc = 0
	m.mutexes = map[*Value]*mutexState{}
	m.wgs = map[*Value]*int64{}
	m.pools = map[*Value][]Value{}
	m.gors = nil
	m.killing = false
	m.sawUnk = false
	m.events = nil
	m.panicFrames = nil
	m.abort = nil
	m.prov = nil
	m.cur = nil
	m.ghost = map[string]Value{}
}

func (m *M) site() uint32 {
	h := fnv.New32a()
	if n := len(m.stack); n > 0 {
		h.Write([]byte(m.stack[n-1].Name()))
	}
	return h.Sum32()
}

// assume adds a conjunct to the path condition.
func (m *M) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.op == OpBAnd {
		m.assume(c.a[0])
		m.assume(c.a[1])
		return
	}
	if v, ok := m.known[c.id]; ok && v {
		return
	}
	m.pc = append(m.pc, c)
	m.learn(c, true)
}

func (m *M) learn(c *Term, v bool) {
	if _, ok := m.known[c.id]; ok {
		return
	}
	m.known[c.id] = v
	m.knownLog = append(m.knownLog, c.id)
	n := m.c.Not(c)
	if _, ok := m.known[n.id]; !ok {
		m.known[n.id] = !v
		m.knownLog = append(m.knownLog, n.id)
	}
	if v {
		m.learnDiff(c)
		// not(a or b) == and of negations
		if c.op == OpBNot && c.a[0].op == OpBOr {
			m.learn(m.c.Not(c.a[0].a[0]), true)
			m.learn(m.c.Not(c.a[0].a[1]), true)
		}
		if c.op == OpBAnd {
			m.learn(c.a[0], true)
			m.learn(c.a[1], true)
		}
	}
}

func (m *M) unlearn(n int) {
	for _, id := range m.knownLog[n:] {
		delete(m.known, id)
	}
	m.knownLog = m.knownLog[:n]
	for len(m.edges) > 0 && m.edges[len(m.edges)-1].at > n {
		m.edges = m.edges[:len(m.edges)-1]
	}
}

// lookup tells whether a condition's value follows syntactically.
func (m *M) lookup(c *Term) (bool, bool) {
	if c.isConst() {
		return c.c == 1, true
	}
	if v, ok := m.known[c.id]; ok {
		return v, true
	}
	switch c.op {
	case OpBNot:
		v, ok := m.lookup(c.a[0])
		return !v, ok
	case OpBAnd:
		x, ok1 := m.lookup(c.a[0])
		y, ok2 := m.lookup(c.a[1])
		if ok1 && !x || ok2 && !y {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	case OpBOr:
		x, ok1 := m.lookup(c.a[0])
		y, ok2 := m.lookup(c.a[1])
		if ok1 && x || ok2 && y {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	default:
		return m.lookupDiff(c)
	}
	return false, false
}

func (m *M) modelSays(c *Term) (bool, bool) {
	if m.model == nil {
		return false, false
	}
	return m.c.Eval(c, m.model) == 1, true
}

// decide tells whether the path condition together with c is satisfiable. The
// path condition itself is taken to be satisfiable, so only the conjuncts
// connected with c matter.
func (m *M) decide(c *Term) (Res, *Model) {
	q := m.sliceFor(c)
	hard := m.c.nonlinear(c)
	for _, t := range q {
		hard = hard || m.c.nonlinear(t)
	}
	if !hard {
		r, mod := m.inc.check(m.c, m.pc, c, true)
		if r != Unknown {
			return r, mod
		}
	}
	// Answers other than sat are kept, so that replays of a path see the same
	// ones whatever the time the solver takes.
	key := [2]uint64{c.hash(), 0}
	for _, t := range q {
		key[1] += mix64(1, t.hash())
	}
	if r, ok := m.rec.answers.Load(key); ok && (r.(Res) != Sat || m.mg != nil) {
		return r.(Res), nil
	}
	r, mod := m.decideHard(c, q)
	if o, dup := m.rec.answers.LoadOrStore(key, r); dup && o.(Res) != r {
		if o.(Res) == Sat {
			// keep the earlier answer; no model is at hand
			return Unknown, nil
		}
		return o.(Res), nil
	}
	return r, mod
}

func (m *M) decideHard(c *Term, q []*Term) (Res, *Model) {
	r, mod, _ := solveOnce(m.c, append(append([]*Term{}, q...), c), time.Duration(m.cfg.feasMs)*time.Millisecond, m.cfg.kinds)
	if r != Sat {
		return r, nil
	}
	return Sat, m.completeModel(mod, c)
}

// branch decides a condition, forking the path when both sides are possible.
func (m *M) branch(c *Term) bool {
	if c.isConst() {
		return c.c == 1
	}
	if v, ok := m.lookup(c); ok {
		return v
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.initMode {
		panic(m.unsupported("symbolic branch in package initialisation"))
	}
	if m.mg != nil {
		return m.mbranch(c)
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.kind != 'b' || d.site != m.site() {
			panic(pathEnd{"nondet", "decision mismatch @ " + m.whereAmI()})
		}
		m.pos++
		m.trace = append(m.trace, d)
		m.take(c, d.taken)
		return d.taken
	}
	m.rec.branches.Add(1)
	n := m.c.Not(c)
	var taken, both bool
	var altModel *Model
	if v, ok := m.modelSays(c); ok {
		taken = v
		other := n
		if !v {
			other = c
		}
		r, mod := m.decide(other)
		both = r != Unsat
		altModel = mod
		if r == Unknown {
			m.feasUnk++
			m.rec.feasUnk.Add(1)
		}
	} else {
		r1, m1 := m.decide(c)
		r2, m2 := Sat, (*Model)(nil)
		if r1 != Unsat {
			r2, m2 = m.decide(n)
		}
		if r1 == Unknown || r2 == Unknown {
			m.rec.feasUnk.Add(1)
		}
		switch {
		case r1 == Unsat:
			taken = false
			// the path may itself be infeasible
			if r, mod := m.decide(n); r == Unsat {
				m.infeasible()
			} else {
				m.model = mod
			}
		case r2 == Unsat:
			taken = true
			m.model = m1
		default:
			both = true
			// prefer a side known to be satisfiable
			taken = r1 == Sat || r2 != Sat
			if taken {
				m.model, altModel = m1, m2
			} else {
				m.model, altModel = m2, m1
			}
		}
	}
	d := Dec{kind: 'b', taken: taken, site: m.site()}
	if both {
		alt := append(append([]Dec{}, m.trace...), Dec{kind: 'b', taken: !taken, site: d.site})
		m.rec.push(alt, altModel, m)
	}
	m.trace = append(m.trace, d)
	m.take(c, taken)
	return taken
}

func (m *M) take(c *Term, v bool) {
	if v {
		m.assume(c)
	} else {
		m.assume(m.c.Not(c))
	}
}

// mbranch is branch inside a merged call: local exploration only.
func (m *M) mbranch(c *Term) bool {
	g := m.mg
	if len(g.trace) < len(g.prefix) {
		d := g.prefix[len(g.trace)]
		g.trace = append(g.trace, d)
		m.take(c, d.taken)
		return d.taken
	}
	if len(g.trace) > 64 {
		panic(mergeAbort{})
	}
	feas := func(x *Term) bool {
		if v, ok := m.modelSays(x); ok && v {
			okAll := true
			for _, p := range m.pc {
				if m.c.Eval(p, m.model) != 1 {
					okAll = false
					break
				}
			}
			if okAll {
				return true
			}
		}
		r, _ := m.decide(x)
		return r != Unsat
	}
	if !feas(c) {
		g.trace = append(g.trace, mdec{false, false})
		m.take(c, false)
		return false
	}
	alt := feas(m.c.Not(c))
	g.trace = append(g.trace, mdec{true, alt})
	m.take(c, true)
	return true
}

// concretize forks over the possible values of a term.
func (m *M) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.c
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.mg != nil {
		panic(mergeAbort{})
	}
	if m.initMode {
		panic(m.unsupported("symbolic value in package initialisation"))
	}
	for n := 0; ; n++ {
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			if d.kind != 'c' || d.site != m.site() {
				panic(pathEnd{"nondet", "decision mismatch @ " + m.whereAmI()})
			}
			m.pos++
			m.trace = append(m.trace, d)
			m.take(m.c.Eq(t, m.c.BV(t.w, d.val)), d.taken)
			if d.taken {
				return d.val
			}
			continue
		}
		if n > 5000 {
			panic(m.unsupported("too many values (%s)", why))
		}
		// syntactically known?
		if m.model == nil {
			r, mod := m.inc.check(m.c, m.pc, nil, true)
			if r == Unsat {
				m.infeasible()
			}
			if mod == nil {
				panic(m.unsupported("no model to concretise %s", why))
			}
			m.model = mod
		}
		m.rec.branches.Add(1)
		v := m.c.Eval(t, m.model)
		e := m.c.Eq(t, m.c.BV(t.w, v))
		d := Dec{kind: 'c', taken: true, val: v, site: m.site()}
		r, mod := m.decide(m.c.Not(e))
		if r == Unknown {
			m.rec.feasUnk.Add(1)
		}
		if r != Unsat {
			alt := append(append([]Dec{}, m.trace...), Dec{kind: 'c', taken: false, val: v, site: d.site})
			m.rec.push(alt, mod, m)
		}
		m.trace = append(m.trace, d)
		m.take(e, true)
		return v
	}
}

// choose is an unconstrained choice among n alternatives.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.mg != nil {
		panic(mergeAbort{})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.kind != 'k' {
			panic(pathEnd{"nondet", "choice mismatch @ " + m.whereAmI()})
		}
		m.pos++
		m.trace = append(m.trace, d)
		return int(d.val)
	}
	for i := 1; i < n; i++ {
		alt := append(append([]Dec{}, m.trace...), Dec{kind: 'k', val: uint64(i)})
		m.rec.push(alt, m.model, m)
	}
	m.trace = append(m.trace, Dec{kind: 'k', val: 0})
	return 0
}

func (m *M) replaying() bool { return m.pos < len(m.prefix) }

// ensureModel makes sure the path is satisfiable and a model is known.
func (m *M) ensureModel() bool {
	if m.model != nil {
		return true
	}
	r, mod := m.inc.check(m.c, m.pc, nil, true)
	if r == Unsat {
		return false
	}
	if r == Sat && mod != nil {
		m.model = mod
		return true
	}
	r, mod, _ = solveOnce(m.c, append([]*Term{m.c.T}, m.pc...), time.Duration(m.cfg.assertSec)*time.Second, m.cfg.kinds)
	if r == Unsat {
		return false
	}
	m.model = mod
	return mod != nil || r == Unknown
}

func (m *M) doAssume(c *Term) {
	if v, ok := m.lookup(c); ok {
		if !v {
			m.infeasible()
		}
		return
	}
	if m.replaying() {
		m.assume(c)
		return
	}
	if v, ok := m.modelSays(c); ok && v {
		m.assume(c)
		return
	}
	r, mod := m.decide(c)
	if r == Unsat {
		m.infeasible()
	}
	m.model = mod
	m.assume(c)
}

// slice keeps the conjuncts connected to goal through shared variables.
func (m *M) sliceFor(goal *Term) []*Term {
	vars := map[int32]bool{}
	var collect func(t *Term, out map[int32]bool, seen map[int32]bool)
	collect = func(t *Term, out map[int32]bool, seen map[int32]bool) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OpVar {
			out[t.id] = true
		}
		if t.op == OpUF {
			h := fnv.New32a()
			h.Write([]byte(t.name))
			out[-int32(h.Sum32()>>1)-1] = true
		}
		for _, a := range t.a {
			collect(a, out, seen)
		}
	}
	collect(goal, vars, map[int32]bool{})
	pv := make([]map[int32]bool, len(m.pc))
	for i, p := range m.pc {
		pv[i] = map[int32]bool{}
		collect(p, pv[i], map[int32]bool{})
	}
	in := make([]bool, len(m.pc))
	for again := true; again; {
		again = false
		for i := range m.pc {
			if in[i] {
				continue
			}
			for v := range pv[i] {
				if vars[v] {
					in[i] = true
					again = true
					for w := range pv[i] {
						vars[w] = true
					}
					break
				}
			}
		}
	}
	var r []*Term
	for i, p := range m.pc {
		if in[i] {
			r = append(r, p)
		}
	}
	return r
}

// cut makes proofs try first with the term replaced by an arbitrary value.
func (m *M) cut(t *Term) {
	if t.isConst() || t.op == OpVar || t.w == 0 {
		return
	}
	if m.cuts == nil {
		m.cuts = map[*Term]*Term{}
	}
	v := m.c.Var(fmt.Sprintf("cut!%d", len(m.cuts)), t.w)
	m.cuts[t] = v
	for _, w := range []uint8{16, 32, 64} {
		if w > t.w {
			m.cuts[m.c.Zext(t, w)] = m.c.Zext(v, w)
		}
	}
	if t.op == OpExtract && t.c == 0 && t.a[0].hi <= mask(t.w) {
		u := t.a[0]
		m.cuts[u] = m.c.Zext(v, u.w)
	}
}

// proveCut is the attempt to prove with the cut terms generalised: g and as are
// contradictory if their generalisation is.
func (m *M) proveCut(as []*Term, g *Term, d time.Duration) bool {
	if len(m.cuts) == 0 {
		return false
	}
	memo := map[*Term]*Term{}
	q := []*Term{}
	for _, a := range as {
		q = append(q, m.c.subst(a, m.cuts, memo))
	}
	q = append(q, m.c.subst(g, m.cuts, memo))
	r, _, _ := solveOnce(m.c, q, d, m.cfg.kinds)
	if verbose && r != Unsat {
		logf("cut proof: %v", r)
		if os.Getenv("VENGINE_DUMP") != "" {
			for _, j := range buildJobs(m.c, q, 10*time.Second, "bil") {
				os.WriteFile(fmt.Sprintf("/tmp/cut-%s.smt2", j.name), []byte(j.script), 0o644)
			}
		}
	}
	return r == Unsat
}

// hint adds c to the path condition if it follows from it; it never fails.
func (m *M) hint(c *Term) {
	if m.mg != nil {
		panic(mergeAbort{})
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.kind != 'h' {
			panic(pathEnd{"nondet", "hint mismatch @ " + m.whereAmI()})
		}
		m.pos++
		m.trace = append(m.trace, d)
		if d.val == 1 {
			m.assume(c)
		}
		return
	}
	ok := uint64(0)
	if v, kn := m.lookup(c); kn && v {
		ok = 1
	} else if v, kn := m.modelSays(c); !kn || v {
		g := m.inContext(m.c.Not(c))
		q := m.sliceFor(g)
		d := time.Duration(m.cfg.assertSec) * time.Second / 3
		r := Unsat
		if !m.proveCut(q, g, d) {
			r, _, _ = solveOnce(m.c, append(append([]*Term{}, q...), g), d, m.cfg.kinds)
		}
		if r == Unsat {
			ok = 1
		} else if verbose {
			logf("hint not proved (%v) @ %s", r, m.whereAmI())
		}
	}
	m.trace = append(m.trace, Dec{kind: 'h', val: ok, site: m.site()})
	if ok == 1 {
		m.assume(c)
	}
}

// assert checks that c follows from the path condition.
func (m *M) assert(c *Term, label string) {
	if m.mg != nil {
		panic(mergeAbort{})
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.replaying() {
		m.assume(c)
		if c.isFalse() {
			m.infeasible()
		}
		return
	}
	m.rec.asserts.Add(1)
	if v, ok := m.lookup(c); ok && v {
		m.rec.trivial.Add(1)
		m.rec.labelOK(label)
		return
	}
	n := m.c.Not(c)
	fail := func(mod *Model) {
		m.rec.violation(m, label, n, mod)
	}
	if v, ok := m.modelSays(c); ok && !v {
		fail(m.model)
	} else {
		res := Unsat
		for _, g := range conjuncts(c, nil) {
			if v, ok := m.lookup(g); ok && v {
				continue
			}
			g = m.inContext(m.c.Not(g))
			if g.isFalse() {
				continue
			}
			q := m.sliceFor(g)
			hard := m.c.nonlinear(g)
			for _, t := range q {
				hard = hard || m.c.nonlinear(t)
			}
			var r Res
			var mod *Model
			if !hard {
				r, mod = m.inc.check(m.c, m.pc, g, true)
			}
			if r == Unknown && m.proveCut(q, g, time.Duration(m.cfg.assertSec)*time.Second/4) {
				r = Unsat
			}
			if r == Unknown {
				r, mod, _ = solveOnce(m.c, append(append([]*Term{}, q...), g), time.Duration(m.cfg.assertSec)*time.Second, m.cfg.kinds)
			}
			if r == Sat {
				full := m.completeModel(mod, g)
				if full == nil {
					r = Unknown
				} else {
					fail(full)
				}
			}
			if r != Unsat {
				res = r
			}
			if r == Unknown {
				m.rec.inconclusive(m, label, g)
			}
		}
		if res == Unsat {
			m.rec.discharged.Add(1)
			m.rec.labelOK(label)
		}
	}
	if c.isFalse() {
		m.infeasible()
	}
	if v, ok := m.modelSays(c); !ok || !v {
		r, mod := m.decide(c)
		if r == Unsat {
			m.infeasible()
		}
		m.model = mod
	}
	m.assume(c)
}

func conjuncts(c *Term, l []*Term) []*Term {
	if c.op == OpBAnd {
		return conjuncts(c.a[1], conjuncts(c.a[0], l))
	}
	return append(l, c)
}

// completeModel extends a model of a sliced query to the whole path.
func (m *M) completeModel(mod *Model, goal *Term) *Model {
	if mod == nil {
		return nil
	}
	ok := func(x *Model) bool {
		for _, p := range m.pc {
			if m.c.Eval(p, x) != 1 {
				return false
			}
		}
		return m.c.Eval(goal, x) == 1
	}
	defer m.c.evalReset()
	if ok(mod) {
		return mod
	}
	if m.model != nil {
		x := newModel()
		for k, v := range m.model.vars {
			x.vars[k] = v
		}
		for k, v := range m.model.ufs {
			x.ufs[k] = v
		}
		for k, v := range mod.vars {
			x.vars[k] = v
		}
		for k, v := range mod.ufs {
			x.ufs[k] = v
		}
		if ok(x) {
			return x
		}
	}
	hard := m.c.nonlinear(goal)
	for _, t := range m.pc {
		hard = hard || m.c.nonlinear(t)
	}
	r, full := Unknown, (*Model)(nil)
	if !hard {
		r, full = m.inc.check(m.c, m.pc, goal, true)
	}
	if r == Unknown {
		r, full, _ = solveOnce(m.c, append(append([]*Term{}, m.pc...), goal), time.Duration(m.cfg.assertSec)*time.Second, m.cfg.kinds)
	}
	if r == Sat {
		return full
	}
	return nil
}

// minimise applies soft constraints greedily to a counterexample.
func (m *M) minimise(mod *Model, goal *Term) *Model {
	if len(m.soft) == 0 {
		return mod
	}
	cons := append(append([]*Term{}, m.pc...), goal)
	for _, s := range m.soft {
		if m.c.Eval(s, mod) == 1 {
			cons = append(cons, s)
			continue
		}
		r, x := m.inc.check(m.c, cons, s, true)
		if r == Sat && x != nil {
			mod = x
			cons = append(cons, s)
		}
	}
	return mod
}

// ---------- symbolic inputs ----------

func (m *M) fresh(name string) string {
	n := m.nameCnt[name]
	m.nameCnt[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s.%d", name, n)
}

func (m *M) newInput(name string, w uint8) *Term {
	nm := m.fresh(name)
	t := m.c.Var(nm, w)
	m.inputs = append(m.inputs, Input{name: nm, kind: "bv", t: t, w: w})
	return t
}

func (m *M) newIntInput(name string, lo, hi int64) *Term {
	nm := m.fresh(name)
	if lo > hi {
		m.infeasible()
	}
	var t *Term
	if lo == hi {
		t = m.c.Int(lo)
	} else {
		// the range is part of the name: the same name may be used with
		// another range on another path
		t = m.c.VarS(fmt.Sprintf("%s[%d,%d]", nm, lo, hi), 64, lo, hi)
	}
	m.inputs = append(m.inputs, Input{name: nm, kind: "bv", t: t, w: 64})
	return t
}

// newSlice makes a slice of length n with unconstrained contents.
func (m *M) newSlice(name string, elem types.Type, n *Term) *Slice {
	nm := m.fresh(name)
	in := Input{name: nm, kind: "uf", n: n}
	if n.isConst() && n.c <= 4096 {
		// dense array of individual variables
		a := &Arr{elemT: elem, n: n, dense: make([]Value, n.c)}
		for i := range a.dense {
			a.dense[i] = m.symElem(fmt.Sprintf("%s@%d", nm, i), elem, nil, &in, i == 0)
		}
		in.kind = "dense"
		m.inputs = append(m.inputs, in)
		return &Slice{a, m.c.Int(0), n, n}
	}
	a := &Arr{elemT: elem, n: n, log: true}
	a.base = func(idx *Term) Value { return m.symElem(nm, elem, idx, nil, false) }
	m.symElem(nm, elem, m.c.Int(0), &in, true)
	m.inputs = append(m.inputs, in)
	return &Slice{a, m.c.Int(0), n, n}
}

func (m *M) symElem(nm string, t types.Type, idx *Term, in *Input, rec bool) Value {
	var walk func(t types.Type, path []int) Value
	walk = func(t types.Type, path []int) Value {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s := &StructV{f: make([]Value, u.NumFields())}
			for i := range s.f {
				s.f[i] = walk(u.Field(i).Type(), append(append([]int{}, path...), i))
			}
			return s
		case *types.Basic:
			w := basicWidth(u)
			n := nm
			for _, p := range path {
				n += fmt.Sprintf("/%d", p)
			}
			if rec && in != nil {
				in.fields = append(in.fields, ufField{path: path, w: w, name: n})
			}
			if idx == nil {
				return m.c.Var(n, w)
			}
			return m.c.UF("uf:"+n, w, idx)
		}
		panic(m.unsupported("symbolic element of type %s", t))
	}
	return walk(t, nil)
}

func sortedKeys[V any](x map[string]V) []string {
	r := make([]string, 0, len(x))
	for k := range x {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
