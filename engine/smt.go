package main

// SMT-LIB printing (bit-vector and integer encodings) and solver processes.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

var (
	statQueries  atomic.Int64 // solver verdicts asked
	statUnknown  atomic.Int64
	statSolverNs atomic.Int64
)

func sortName(t *Term) string {
	if t.fp {
		if t.w == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func fpDims(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func bvLit(w uint8, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

// ref is how a term is referred to inside another definition.
func refBV(t *Term) string {
	switch t.op {
	case OpConst:
		if t.fp {
			if t.w == 32 {
				return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.c)
			}
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
		}
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		return bvLit(t.w, t.c)
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func bodyBV(t *Term) string {
	r := func(i int) string { return refBV(t.a[i]) }
	switch t.op {
	case OpUF:
		var sb strings.Builder
		sb.WriteString("(|" + t.name + "|")
		for i := range t.a {
			sb.WriteByte(' ')
			sb.WriteString(r(i))
		}
		sb.WriteByte(')')
		return sb.String()
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.c)+int(t.w)-1, t.c, r(0))
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return fmt.Sprintf("(%s RNE %s %s)", opNames[t.op], r(0), r(1))
	case OpFSqrt:
		return fmt.Sprintf("(fp.sqrt RNE %s)", r(0))
	case OpFFromS:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpDims(t.w), r(0))
	case OpFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpDims(t.w), r(0))
	case OpFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, r(0))
	case OpFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, r(0))
	case OpFF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpDims(t.w), r(0))
	case OpFRound:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", [...]string{"RTN", "RTP", "RTZ"}[t.c], r(0))
	case OpFFromBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpDims(t.w), r(0))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for i := range t.a {
		sb.WriteByte(' ')
		sb.WriteString(r(i))
	}
	sb.WriteByte(')')
	return sb.String()
}

// printer emits declarations and definitions for the cone of terms.
type printer struct {
	done map[int32]bool
	decl map[string]bool
	vars []*Term
	apps []*Term
	sb   *strings.Builder
	// base counts base-level assertions and declarations emitted
	base int
}

func newPrinter() *printer {
	return &printer{done: map[int32]bool{}, decl: map[string]bool{}, sb: &strings.Builder{}}
}

func (p *printer) define(t *Term) {
	type fr struct {
		t *Term
		i int
	}
	if p.done[t.id] {
		return
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.a) {
			n := f.t.a[f.i]
			f.i++
			if !p.done[n.id] {
				st = append(st, fr{n, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if p.done[x.id] {
			continue
		}
		p.done[x.id] = true
		switch x.op {
		case OpConst:
			continue
		case OpVar:
			if !p.decl[x.name] {
				p.decl[x.name] = true
				fmt.Fprintf(p.sb, "(declare-const |%s| %s)\n", x.name, sortName(x))
				p.vars = append(p.vars, x)
				p.base++
				if c := rangeConstraint(x); c != "" {
					p.sb.WriteString(c)
				}
			}
			continue
		case OpUF:
			if !p.decl[x.name] {
				p.decl[x.name] = true
				fmt.Fprintf(p.sb, "(declare-fun |%s| (", x.name)
				for _, a := range x.a {
					p.sb.WriteString(sortName(a) + " ")
				}
				fmt.Fprintf(p.sb, ") %s)\n", sortName(x))
			}
			p.apps = append(p.apps, x)
		case OpFBits:
			p.base++
			fmt.Fprintf(p.sb, "(declare-const t%d (_ BitVec %d))\n(assert (= ((_ to_fp %s) t%d) %s))\n", x.id, x.w, fpDims(x.w), x.id, refBV(x.a[0]))
			continue
		}
		fmt.Fprintf(p.sb, "(define-fun t%d () %s %s)\n", x.id, sortName(x), bodyBV(x))
	}
}

// rangeConstraint states the declared range of a variable (an assertion made
// at the base level, outside every push).
func rangeConstraint(x *Term) string {
	if x.fp || x.w == 0 {
		return ""
	}
	full := x.lo == 0 && x.hi == mask(x.w)
	fullS := x.sl == minS(x.w) && x.sh == maxS(x.w)
	var s string
	if !full {
		s += fmt.Sprintf("(assert (and (bvule %s |%s|) (bvule |%s| %s)))\n", bvLit(x.w, x.lo), x.name, x.name, bvLit(x.w, x.hi))
	}
	if !fullS && full {
		s += fmt.Sprintf("(assert (and (bvsle %s |%s|) (bvsle |%s| %s)))\n", bvLit(x.w, uint64(x.sl)&mask(x.w)), x.name, x.name, bvLit(x.w, uint64(x.sh)&mask(x.w)))
	}
	return s
}

// ---------- incremental process ----------

type Proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan string
	dead  bool
}

func startProc(argv []string) (*Proc, error) {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p := &Proc{cmd: cmd, in: in, lines: make(chan string, 1024)}
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			s, err := r.ReadString('\n')
			if s != "" {
				p.lines <- strings.TrimRight(s, "\r\n")
			}
			if err != nil {
				close(p.lines)
				return
			}
		}
	}()
	return p, nil
}

func (p *Proc) kill() {
	if p.dead {
		return
	}
	p.dead = true
	p.cmd.Process.Kill()
	go func() {
		for range p.lines {
		}
		p.cmd.Wait()
	}()
}

func (p *Proc) line(d time.Duration) (string, bool) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case s, ok := <-p.lines:
		return s, ok
	case <-t.C:
		return "", false
	}
}

// Inc is an incremental z3 bound to one Ctx.
type Inc struct {
	p       *Proc
	pr      *printer
	stack   []*Term
	base    int // definitions at which level: globals, always 0
	timeout int
	noise   []string
}

var slowLog = os.Getenv("VENGINE_SLOW") != ""

func newInc(timeout int) *Inc { return &Inc{timeout: timeout} }

func (s *Inc) start() bool {
	p, err := startProc([]string{"z3-new", "-in", "-smt2"})
	if err != nil {
		fatalf("cannot start z3-new: %v", err)
	}
	s.p = p
	s.pr = newPrinter()
	s.stack = nil
	fmt.Fprintf(p.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	return true
}

func (s *Inc) close() {
	if s.p != nil {
		s.p.kill()
		s.p = nil
	}
}

func (s *Inc) flushDefs() string {
	t := s.pr.sb.String()
	s.pr.sb.Reset()
	return t
}

// sync brings the solver's assertion stack to pc. Global declarations survive
// pops but assertions do not, so the range constraints that come with new
// variables are asserted at the base level after popping everything.
func (s *Inc) sync(pc []*Term, extra *Term) string {
	var sb strings.Builder
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	nv := s.pr.base
	for _, t := range pc[n:] {
		s.pr.define(t)
	}
	if extra != nil {
		s.pr.define(extra)
	}
	newVars := s.pr.base != nv
	defs := s.flushDefs()
	if newVars {
		// new variables bring base-level assertions: rewind fully
		if len(s.stack) > 0 {
			fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack))
		}
		n = 0
		s.stack = s.stack[:0]
		sb.WriteString(defs)
	} else {
		if len(s.stack) > n {
			fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack)-n)
		}
		sb.WriteString(defs)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", refBV(t))
		s.stack = append(s.stack, t)
	}
	return sb.String()
}

// check decides pc ∧ extra; with wantModel a model is returned when sat.
func (s *Inc) check(c *Ctx, pc []*Term, extra *Term, wantModel bool) (Res, *Model) {
	t0 := time.Now()
	statQueries.Add(1)
	defer func() {
		statSolverNs.Add(int64(time.Since(t0)))
		if slowLog && time.Since(t0) > 50*time.Millisecond {
			logf("slow query %v pc=%d vars=%d defs=%d extra %s", time.Since(t0), len(pc), len(s.pr.vars), len(s.pr.done), clip(fmt.Sprint(extra), 300))
		}
	}()
	for try := 0; try < 2; try++ {
		if s.p == nil || s.p.dead {
			s.start()
		}
		cmds := s.sync(pc, extra)
		var sb strings.Builder
		sb.WriteString(cmds)
		sb.WriteString("(push 1)\n")
		if extra != nil {
			fmt.Fprintf(&sb, "(assert %s)\n", refBV(extra))
		}
		sb.WriteString("(check-sat)\n")
		if _, err := io.WriteString(s.p.in, sb.String()); err != nil {
			s.p.kill()
			continue
		}
		l, ok := s.p.line(time.Duration(s.timeout)*time.Millisecond*3 + 2*time.Second)
		if !ok {
			s.p.kill()
			s.p = nil
			statUnknown.Add(1)
			return Unknown, nil
		}
		if strings.HasPrefix(l, "(error") {
			logf("solver error: %s", l)
			s.p.kill()
			s.p = nil
			statUnknown.Add(1)
			return Unknown, nil
		}
		var res Res
		var m *Model
		switch l {
		case "sat":
			res = Sat
			if wantModel {
				m = s.getModel(c)
			}
		case "unsat":
			res = Unsat
		default:
			statUnknown.Add(1)
		}
		if s.p != nil {
			io.WriteString(s.p.in, "(pop 1)\n")
		}
		return res, m
	}
	statUnknown.Add(1)
	return Unknown, nil
}

func (s *Inc) getModel(c *Ctx) *Model {
	var ts []*Term
	ts = append(ts, s.pr.vars...)
	ts = append(ts, s.pr.apps...)
	m := newModel()
	if len(ts) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, t := range ts {
		sb.WriteString(refBV(t))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n(echo \"=done=\")\n")
	io.WriteString(s.p.in, sb.String())
	var out strings.Builder
	for {
		l, ok := s.p.line(20 * time.Second)
		if !ok {
			s.p.kill()
			s.p = nil
			return nil
		}
		if l == "=done=" || l == "\"=done=\"" {
			break
		}
		out.WriteString(l)
		out.WriteByte('\n')
	}
	return parseModel(c, out.String(), ts, nil)
}

// ---------- model parsing ----------

type sx struct {
	atom string
	kids []sx
}

func parseSx(s string) (sx, int) {
	i := 0
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return sx{}, i
	}
	if s[i] == '(' {
		i++
		var r sx
		r.kids = []sx{}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return r, i
			}
			if s[i] == ')' {
				return r, i + 1
			}
			k, n := parseSx(s[i:])
			r.kids = append(r.kids, k)
			i += n
		}
	}
	j := i
	if s[i] == '|' {
		j++
		for j < len(s) && s[j] != '|' {
			j++
		}
		j++
		return sx{atom: s[i:j]}, j
	}
	for j < len(s) && s[j] != ' ' && s[j] != '\n' && s[j] != '(' && s[j] != ')' && s[j] != '\t' {
		j++
	}
	return sx{atom: s[i:j]}, j
}

func sxBits(x sx) (uint64, bool) {
	a := x.atom
	switch {
	case a == "true":
		return 1, true
	case a == "false":
		return 0, true
	case strings.HasPrefix(a, "#x"):
		v, err := strconv.ParseUint(a[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(a, "#b"):
		v, err := strconv.ParseUint(a[2:], 2, 64)
		return v, err == nil
	}
	if a != "" {
		b, ok := new(big.Int).SetString(a, 10)
		if ok {
			return new(big.Int).And(b, new(big.Int).SetUint64(^uint64(0))).Uint64(), true
		}
		return 0, false
	}
	if len(x.kids) == 2 && x.kids[0].atom == "-" {
		v, ok := sxBits(x.kids[1])
		return -v, ok
	}
	return 0, false
}

func sxValue(x sx, t *Term) (uint64, bool) {
	if !t.fp {
		v, ok := sxBits(x)
		return v & widthMask(t), ok
	}
	// (fp s e m) or (_ +zero 11 53) etc.
	if len(x.kids) == 4 && x.kids[0].atom == "fp" {
		s, _ := sxBits(x.kids[1])
		e, _ := sxBits(x.kids[2])
		m, ok := sxBits(x.kids[3])
		if t.w == 32 {
			return s<<31 | e<<23 | m, ok
		}
		return s<<63 | e<<52 | m, ok
	}
	if len(x.kids) == 4 && x.kids[0].atom == "_" {
		sh := uint(63)
		inf, nan := uint64(0x7ff)<<52, uint64(0x7ff8)<<48
		if t.w == 32 {
			sh, inf, nan = 31, 0x7f800000, 0x7fc00000
		}
		switch x.kids[1].atom {
		case "+zero":
			return 0, true
		case "-zero":
			return 1 << sh, true
		case "+oo":
			return inf, true
		case "-oo":
			return inf | 1<<sh, true
		case "NaN":
			return nan, true
		}
	}
	return 0, false
}

func widthMask(t *Term) uint64 {
	if t.w == 0 {
		return 1
	}
	return mask(t.w)
}

func parseModel(c *Ctx, out string, ts []*Term, _ any) *Model {
	m := newModel()
	x, _ := parseSx(out)
	if len(x.kids) != len(ts) {
		logf("model parse: %d values for %d terms: %.200s", len(x.kids), len(ts), out)
		return nil
	}
	vals := make([]uint64, len(ts))
	for i, t := range ts {
		k := x.kids[i]
		if len(k.kids) != 2 {
			return nil
		}
		v, ok := sxValue(k.kids[1], t)
		if !ok {
			logf("model parse: bad value for %s", t)
			return nil
		}
		vals[i] = v
		if t.op == OpVar {
			m.vars[t.name] = v
		}
	}
	// UF applications: definitions are in dependency order
	for i, t := range ts {
		if t.op != OpUF {
			continue
		}
		c.evalReset()
		args := make([]uint64, len(t.a))
		for j, a := range t.a {
			args[j] = c.Eval(a, m)
		}
		if m.ufs[t.name] == nil {
			m.ufs[t.name] = map[string]uint64{}
		}
		m.ufs[t.name][ufKey(args)] = vals[i]
	}
	c.evalReset()
	return m
}

// ---------- integer encoding ----------

type intPrinter struct {
	done map[int32]bool
	decl map[string]bool
	vars []*Term
	apps []*Term
	sb   strings.Builder
	bad  string
	nfr  int

	lin   *linAbs // linear abstraction: only unsat answers count
	c     *Ctx
	facts map[int32]bool
}

func pow2(n uint) string { return new(big.Int).Lsh(big.NewInt(1), n).String() }

func refInt(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		return strconv.FormatUint(t.c, 10)
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (p *intPrinter) signed(t *Term) string {
	r := refInt(t)
	if t.sl >= 0 {
		return r
	}
	if t.sh < 0 {
		return "(- " + r + " " + pow2(uint(t.w)) + ")"
	}
	if t.isConst() {
		v := sext64(t.c, t.w)
		if v < 0 {
			return "(- " + strconv.FormatUint(uint64(-v), 10) + ")"
		}
	}
	return "(ite (>= " + r + " " + pow2(uint(t.w)-1) + ") (- " + r + " " + pow2(uint(t.w)) + ") " + r + ")"
}

// andConst gives a & c for constant c as a sum of bit-field pieces.
func andConst(r string, hi uint64, c uint64) string {
	var parts []string
	for c != 0 {
		lo := uint(0)
		for c>>lo&1 == 0 {
			lo++
		}
		n := uint(0)
		for lo+n < 64 && c>>(lo+n)&1 == 1 {
			n++
		}
		e := r
		if lo > 0 {
			e = "(div " + e + " " + pow2(lo) + ")"
		}
		if lo+n < 64 && hi>>lo >= uint64(1)<<n {
			e = "(mod " + e + " " + pow2(n) + ")"
		}
		if lo > 0 {
			e = "(* " + e + " " + pow2(lo) + ")"
		}
		parts = append(parts, e)
		if lo+n >= 64 {
			break
		}
		c &^= (uint64(1)<<(lo+n) - 1)
	}
	switch len(parts) {
	case 0:
		return "0"
	case 1:
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (p *intPrinter) body(t *Term) string {
	r := func(i int) string { return refInt(t.a[i]) }
	w := uint(t.w)
	m := mask(t.w)
	switch t.op {
	case OpUF:
		s := "(|" + t.name + "|"
		for i := range t.a {
			s += " " + r(i)
		}
		return s + ")"
	case OpAdd:
		a, b := t.a[0], t.a[1]
		s := "(+ " + r(0) + " " + r(1) + ")"
		if h := a.hi + b.hi; h >= a.hi && h <= m {
			return s
		}
		if l := a.lo + b.lo; l > m || l < a.lo {
			return "(- " + s + " " + pow2(w) + ")"
		}
		return "(ite (>= " + s + " " + pow2(w) + ") (- " + s + " " + pow2(w) + ") " + s + ")"
	case OpSub:
		a, b := t.a[0], t.a[1]
		s := "(- " + r(0) + " " + r(1) + ")"
		if a.lo >= b.hi {
			return s
		}
		if a.hi < b.lo {
			return "(+ " + s + " " + pow2(w) + ")"
		}
		return "(ite (>= " + r(0) + " " + r(1) + ") " + s + " (+ " + s + " " + pow2(w) + "))"
	case OpMul:
		a, b := t.a[0], t.a[1]
		s := "(* " + r(0) + " " + r(1) + ")"
		hi := new(big.Int).Mul(new(big.Int).SetUint64(a.hi), new(big.Int).SetUint64(b.hi))
		if hi.BitLen() <= int(w) {
			return s
		}
		// signed no-wrap
		if t.sl > minS(t.w) || t.sh < maxS(t.w) || !wrapsS(a, b, t.w) {
			if !wrapsS(a, b, t.w) {
				sp := "(* " + p.signed(a) + " " + p.signed(b) + ")"
				if t.sl >= 0 {
					return sp
				}
				return "(ite (< " + sp + " 0) (+ " + sp + " " + pow2(w) + ") " + sp + ")"
			}
		}
		return "(mod " + s + " " + pow2(w) + ")"
	case OpUDiv:
		if t.a[1].lo > 0 {
			return "(div " + r(0) + " " + r(1) + ")"
		}
		return "(ite (= " + r(1) + " 0) " + strconv.FormatUint(m, 10) + " (div " + r(0) + " " + r(1) + "))"
	case OpURem:
		if t.a[1].lo > 0 {
			return "(mod " + r(0) + " " + r(1) + ")"
		}
		return "(ite (= " + r(1) + " 0) " + r(0) + " (mod " + r(0) + " " + r(1) + "))"
	case OpSDiv, OpSRem:
		a, b := p.signed(t.a[0]), p.signed(t.a[1])
		abs := func(x string) string { return "(ite (< " + x + " 0) (- " + x + ") " + x + ")" }
		var s string
		if t.op == OpSDiv {
			q := "(div " + abs(a) + " " + abs(b) + ")"
			s = "(ite (= (< " + a + " 0) (< " + b + " 0)) " + q + " (- " + q + "))"
		} else {
			q := "(mod " + abs(a) + " " + abs(b) + ")"
			s = "(ite (< " + a + " 0) (- " + q + ") " + q + ")"
		}
		s = "(mod " + s + " " + pow2(w) + ")"
		if t.a[1].lo > 0 {
			return s
		}
		if t.op == OpSRem {
			return "(ite (= " + r(1) + " 0) " + r(0) + " " + s + ")"
		}
		return "(ite (= " + r(1) + " 0) (ite (< " + a + " 0) 1 " + strconv.FormatUint(m, 10) + ") " + s + ")"
	case OpAnd:
		if t.a[1].isConst() {
			return andConst(r(0), t.a[0].hi, t.a[1].c)
		}
	case OpOr:
		if t.a[1].isConst() {
			return "(- (+ " + r(0) + " " + r(1) + ") " + andConst(r(0), t.a[0].hi, t.a[1].c) + ")"
		}
	case OpXor:
		if t.a[1].isConst() {
			return "(- (+ " + r(0) + " " + r(1) + ") (* 2 " + andConst(r(0), t.a[0].hi, t.a[1].c) + "))"
		}
	case OpNot:
		return "(- " + strconv.FormatUint(m, 10) + " " + r(0) + ")"
	case OpShl:
		if k := t.a[1]; k.isConst() && k.c < uint64(w) {
			s := "(* " + r(0) + " " + pow2(uint(k.c)) + ")"
			if t.a[0].hi <= m>>k.c {
				return s
			}
			return "(mod " + s + " " + pow2(w) + ")"
		}
	case OpLshr:
		if k := t.a[1]; k.isConst() && k.c < uint64(w) {
			return "(div " + r(0) + " " + pow2(uint(k.c)) + ")"
		}
	case OpAshr:
		if k := t.a[1]; k.isConst() && k.c < uint64(w) {
			return "(mod (div " + p.signed(t.a[0]) + " " + pow2(uint(k.c)) + ") " + pow2(w) + ")"
		}
	case OpExtract:
		s := r(0)
		if t.c > 0 {
			s = "(div " + s + " " + pow2(uint(t.c)) + ")"
		}
		if t.a[0].hi>>t.c <= m {
			return s
		}
		return "(mod " + s + " " + pow2(w) + ")"
	case OpZext:
		return r(0)
	case OpSext:
		a := t.a[0]
		if a.sl >= 0 {
			return r(0)
		}
		off := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), new(big.Int).Lsh(big.NewInt(1), uint(a.w))).String()
		return "(ite (>= " + r(0) + " " + pow2(uint(a.w)-1) + ") (+ " + r(0) + " " + off + ") " + r(0) + ")"
	case OpConcat:
		return "(+ (* " + r(0) + " " + pow2(uint(t.a[1].w)) + ") " + r(1) + ")"
	case OpEq, OpBAnd, OpBOr, OpBNot, OpIte:
		s := "(" + opNames[t.op]
		for i := range t.a {
			s += " " + r(i)
		}
		return s + ")"
	case OpUlt:
		return "(< " + r(0) + " " + r(1) + ")"
	case OpUle:
		return "(<= " + r(0) + " " + r(1) + ")"
	case OpSlt:
		return "(< " + p.signed(t.a[0]) + " " + p.signed(t.a[1]) + ")"
	case OpSle:
		return "(<= " + p.signed(t.a[0]) + " " + p.signed(t.a[1]) + ")"
	}
	p.bad = opNames[t.op]
	return "0"
}

func wrapsS(a, b *Term, w uint8) bool {
	for _, x := range [4][2]int64{{a.sl, b.sl}, {a.sl, b.sh}, {a.sh, b.sl}, {a.sh, b.sh}} {
		p, o := mulS(x[0], x[1])
		if o || p < minS(w) || p > maxS(w) {
			return true
		}
	}
	return false
}

func (p *intPrinter) define(t *Term) {
	type fr struct {
		t *Term
		i int
	}
	if p.done[t.id] {
		return
	}
	st := []fr{{t, 0}}
	for len(st) > 0 && p.bad == "" {
		f := &st[len(st)-1]
		if p.lin != nil && !f.t.fp && f.i == 0 && len(f.t.a) > 0 {
			fpArg := false
			for _, a := range f.t.a {
				fpArg = fpArg || a.fp
			}
			if fpArg {
				// opaque
				x := f.t
				st = st[:len(st)-1]
				if p.done[x.id] {
					continue
				}
				p.done[x.id] = true
				if x.w == 0 {
					fmt.Fprintf(&p.sb, "(declare-const t%d Bool)\n", x.id)
				} else {
					fmt.Fprintf(&p.sb, "(declare-const t%d Int)\n(assert (<= %d t%d %d))\n", x.id, x.lo, x.id, x.hi)
				}
				continue
			}
		}
		if f.i < len(f.t.a) {
			n := f.t.a[f.i]
			f.i++
			if !p.done[n.id] {
				st = append(st, fr{n, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if p.done[x.id] {
			continue
		}
		p.done[x.id] = true
		if x.fp {
			p.bad = "fp"
			return
		}
		srt := "Int"
		if x.w == 0 {
			srt = "Bool"
		}
		switch x.op {
		case OpConst:
			continue
		case OpVar:
			if !p.decl[x.name] {
				p.decl[x.name] = true
				p.vars = append(p.vars, x)
				fmt.Fprintf(&p.sb, "(declare-const |%s| %s)\n", x.name, srt)
				if x.w > 0 {
					fmt.Fprintf(&p.sb, "(assert (and (<= %d |%s|) (<= |%s| %d)))\n", x.lo, x.name, x.name, x.hi)
					if x.lo == 0 && x.hi == mask(x.w) && (x.sl > minS(x.w) || x.sh < maxS(x.w)) {
						s := p.signed(x)
						fmt.Fprintf(&p.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", intLit(x.sl), s, s, intLit(x.sh))
					}
				}
			}
			continue
		case OpUF:
			if !p.decl[x.name] {
				p.decl[x.name] = true
				fmt.Fprintf(&p.sb, "(declare-fun |%s| (", x.name)
				for _, a := range x.a {
					if a.w == 0 {
						p.sb.WriteString("Bool ")
					} else {
						p.sb.WriteString("Int ")
					}
				}
				fmt.Fprintf(&p.sb, ") %s)\n", srt)
			}
			p.apps = append(p.apps, x)
			if x.w > 0 {
				fmt.Fprintf(&p.sb, "(define-fun t%d () Int %s)\n(assert (and (<= 0 t%d) (<= t%d %d)))\n", x.id, p.body(x), x.id, x.id, x.hi)
				continue
			}
		}
		if p.lin != nil && x.w > 0 && p.linDefine(x) {
			continue
		}
		b := p.body(x)
		if p.lin != nil && p.bad != "" && x.w > 0 {
			// opaque
			p.bad = ""
			fmt.Fprintf(&p.sb, "(declare-const t%d Int)\n(assert (<= %d t%d %d))\n", x.id, x.lo, x.id, x.hi)
			continue
		}
		if p.lin != nil && x.op == OpIte && x.w > 0 {
			fmt.Fprintf(&p.sb, "(declare-const t%d Int)\n(assert (and (= t%d %s) (<= %d t%d %d)))\n", x.id, x.id, b, x.lo, x.id, x.hi)
			continue
		}
		fmt.Fprintf(&p.sb, "(define-fun t%d () %s %s)\n", x.id, srt, b)
	}
}

func intLit(v int64) string {
	if v < 0 {
		return "(- " + strconv.FormatUint(uint64(-v), 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}

// ---------- one-shot portfolio ----------

type job struct {
	name      string
	argv      []string
	script    string
	ts        []*Term
	unsatOnly bool
}

var procSem = make(chan struct{}, 10)

func logicBV(hasFP, hasUF bool) string {
	return "ALL"
}

func buildJobs(c *Ctx, as []*Term, timeout time.Duration, kinds string) []job {
	var jobs []job
	ms := int(timeout / time.Millisecond)
	bv := newPrinter()
	for _, a := range as {
		bv.define(a)
	}
	var body strings.Builder
	for _, a := range as {
		fmt.Fprintf(&body, "(assert %s)\n", refBV(a))
	}
	tail := func(ts []*Term) string {
		s := "(check-sat)\n"
		if len(ts) > 0 {
			s += "(get-value ("
			for _, t := range ts {
				s += refBV(t) + " "
			}
			s += "))\n"
		}
		return s
	}
	ts := append(append([]*Term{}, bv.vars...), bv.apps...)
	bvScript := bv.sb.String() + body.String() + tail(ts)
	hasFP := strings.Contains(bvScript, "FloatingPoint")
	if strings.Contains(kinds, "b") {
		jobs = append(jobs, job{"z3-bv", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", ms/1000+1)}, bvScript, ts, false})
	}
	if strings.Contains(kinds, "c") {
		jobs = append(jobs, job{"cvc5-bv", []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n" + bvScript, ts, false})
	}
	if strings.Contains(kinds, "l") {
		ip := &intPrinter{done: map[int32]bool{}, decl: map[string]bool{}, lin: newLin(), c: c, facts: map[int32]bool{}}
		for _, a := range as {
			ip.facts[a.id] = true
		}
		for _, a := range as {
			ip.define(a)
		}
		if ip.bad == "" {
			sc := ip.sb.String() + body.String() + "(check-sat)\n"
			jobs = append(jobs, job{"z3-lin", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", ms/1000+1)}, sc, nil, true})
		}
	}
	if !hasFP && strings.ContainsAny(kinds, "ij") {
		ip := &intPrinter{done: map[int32]bool{}, decl: map[string]bool{}}
		for _, a := range as {
			ip.define(a)
		}
		if ip.bad == "" {
			its := append(append([]*Term{}, ip.vars...), ip.apps...)
			sc := ip.sb.String() + body.String() + tail(its)
			if strings.Contains(kinds, "i") {
				jobs = append(jobs, job{"z3-int", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", ms/1000+1)}, sc, its, false})
			}
			if strings.Contains(kinds, "j") {
				jobs = append(jobs, job{"cvc5-int", []string{"cvc5", "--lang=smt2", "--produce-models", "--nl-ext-tplanes", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n" + sc, its, false})
			}
		}
	}
	return jobs
}

// solveOnce runs the portfolio on the conjunction of as.
func solveOnce(c *Ctx, as []*Term, timeout time.Duration, kinds string) (Res, *Model, string) {
	t0 := time.Now()
	statQueries.Add(1)
	defer func() {
		statSolverNs.Add(int64(time.Since(t0)))
		if slowLog {
			logf("portfolio query %v facts=%d goal %s", time.Since(t0), len(as), clip(fmt.Sprint(as[len(as)-1]), 300))
		}
	}()
	jobs := buildJobs(c, as, timeout, kinds)
	ctx, cancel := context.WithTimeout(context.Background(), timeout+5*time.Second)
	defer cancel()
	type ans struct {
		res  Res
		out  string
		j    job
		errs string
	}
	ch := make(chan ans, len(jobs))
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			select {
			case procSem <- struct{}{}:
			case <-ctx.Done():
				ch <- ans{Unknown, "", j, ""}
				return
			}
			defer func() { <-procSem }()
			cmd := exec.CommandContext(ctx, j.argv[0], j.argv[1:]...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.Stdin = strings.NewReader(j.script)
			out, _ := cmd.Output()
			s := string(out)
			nl := strings.IndexByte(s, '\n')
			if nl < 0 {
				ch <- ans{Unknown, s, j, s}
				return
			}
			switch strings.TrimSpace(s[:nl]) {
			case "sat":
				if j.unsatOnly {
					ch <- ans{Unknown, "", j, ""}
					return
				}
				ch <- ans{Sat, s[nl+1:], j, ""}
			case "unsat":
				// an unsat answer is followed by the error of get-value only
				ch <- ans{Unsat, "", j, ""}
			default:
				ch <- ans{Unknown, s, j, s}
			}
		}(j)
	}
	for range jobs {
		a := <-ch
		if verbose {
			solveStat(a.j.name, a.res, time.Since(t0))
		}
		if a.res == Unsat {
			return Unsat, nil, a.j.name
		}
		if a.res == Sat {
			var m *Model
			if len(a.j.ts) == 0 {
				m = newModel()
			} else {
				m = parseModel(c, a.out, a.j.ts, nil)
			}
			if m == nil {
				continue
			}
			ok := true
			for _, t := range as {
				if c.Eval(t, m) != 1 {
					ok = false
					logf("%s: model does not satisfy the query (term %d)", a.j.name, t.id)
					break
				}
			}
			c.evalReset()
			if ok {
				return Sat, m, a.j.name
			}
			continue
		}
		if strings.HasPrefix(a.errs, "(error") {
			logf("%s: %.300s", a.j.name, a.errs)
		}
	}
	statUnknown.Add(1)
	return Unknown, nil, ""
}

var (
	solveMu  sync.Mutex
	solveCnt = map[string][2]float64{}
)

func solveStat(name string, r Res, d time.Duration) {
	solveMu.Lock()
	defer solveMu.Unlock()
	k := name + "/" + r.String()
	x := solveCnt[k]
	solveCnt[k] = [2]float64{x[0] + 1, x[1] + d.Seconds()}
}

// nonlinear reports whether deciding t needs products or quotients of
// variables; results are memoised per context.
func (c *Ctx) nonlinear(t *Term) bool {
	if c.nl == nil {
		c.nl = map[int32]bool{}
	}
	if v, ok := c.nl[t.id]; ok {
		return v
	}
	c.nl[t.id] = false
	r := false
	switch t.op {
	case OpMul:
		r = !t.a[0].isConst() && !t.a[1].isConst()
		if !r && t.w >= 16 {
			// products by odd constants feeding divisions are hard for bits
			r = c.hardConst(t)
		}
	case OpUDiv, OpURem, OpSDiv, OpSRem:
		r = !t.a[1].isConst() || t.a[1].c&(t.a[1].c-1) != 0
	}
	if !r {
		for _, a := range t.a {
			if c.nonlinear(a) {
				r = true
				break
			}
		}
	}
	c.nl[t.id] = r
	return r
}

func (c *Ctx) hardConst(t *Term) bool { return false }
