package main

// SSA interpreter over symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int // >= 0 register
	val Value
	g   *ssa.Global
}

type pinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type pblock struct {
	b    *ssa.BasicBlock
	phis []pinstr
	ins  []pinstr
	pure int // 0 unknown 1 candidate for speculation 2 not
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	idx    map[ssa.Value]int
	blocks []*pblock
	intr   intrinsic
	over   *ssa.Function
	sym    string
	nparam int
}

type frame struct {
	fi     *fnInfo
	regs   []Value
	defers []deferred
	pan    *goPanic // panicking
	recov  bool
	result Value
	up     *frame
}

type deferred struct {
	fn   Value
	args []Value
	bi   *ssa.Builtin
	inst *ssa.Defer
}

type typeCache struct {
	rtErr types.Type
}

func (m *M) info(fn *ssa.Function) *fnInfo {
	if fi := m.fns[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}}
	m.fns[fn] = fi
	fi.sym = fn.String()
	if o := fn.Origin(); o != nil {
		fi.sym = o.String()
	}
	fi.intr = intrinsics[fi.sym]
	if fi.intr == nil {
		fi.intr = prefixIntrinsic(fi.sym)
	}
	fi.over = m.P.overrides[fn.String()]
	if fi.over == fn {
		fi.over = nil
	}
	if fi.intr != nil || fi.over != nil {
		return fi
	}
	m.fill(fi)
	return fi
}

// compile prepares a function's body whatever intrinsic it has.
func (m *M) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, sym: fn.String()}
	m.fill(fi)
	return fi
}

func (m *M) fill(fi *fnInfo) {
	fn := fi.fn
	n := 0
	add := func(v ssa.Value) {
		fi.idx[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	fi.nparam = n
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = n
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{reg: -1}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return opnd{reg: -1, val: m.constVal(v)}
		case *ssa.Global:
			return opnd{reg: -1, g: v}
		case *ssa.Function, *ssa.Builtin:
			return opnd{reg: -1, val: v}
		}
		i, ok := fi.idx[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, fn))
		}
		return opnd{reg: i}
	}
	fi.blocks = make([]*pblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		pb := &pblock{b: b}
		for _, in := range b.Instrs {
			p := pinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				p.dst = fi.idx[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range x.Edges {
					p.ops = append(p.ops, op(e))
				}
				pb.phis = append(pb.phis, p)
				continue
			case *ssa.BinOp:
				p.ops = []opnd{op(x.X), op(x.Y)}
			case *ssa.UnOp:
				p.ops = []opnd{op(x.X)}
			case *ssa.Call:
				p.ops = callOps(&x.Call, op)
			case *ssa.Go:
				p.ops = callOps(&x.Call, op)
			case *ssa.Defer:
				p.ops = callOps(&x.Call, op)
			case *ssa.Return:
				for _, r := range x.Results {
					p.ops = append(p.ops, op(r))
				}
			case *ssa.If:
				p.ops = []opnd{op(x.Cond)}
			case *ssa.Store:
				p.ops = []opnd{op(x.Addr), op(x.Val)}
			case *ssa.MapUpdate:
				p.ops = []opnd{op(x.Map), op(x.Key), op(x.Value)}
			case *ssa.Slice:
				p.ops = []opnd{op(x.X), op(x.Low), op(x.High), op(x.Max)}
			case *ssa.MakeSlice:
				p.ops = []opnd{op(x.Len), op(x.Cap)}
			case *ssa.MakeClosure:
				p.ops = []opnd{op(x.Fn)}
				for _, v := range x.Bindings {
					p.ops = append(p.ops, op(v))
				}
			case *ssa.Index:
				p.ops = []opnd{op(x.X), op(x.Index)}
			case *ssa.IndexAddr:
				p.ops = []opnd{op(x.X), op(x.Index)}
			case *ssa.Lookup:
				p.ops = []opnd{op(x.X), op(x.Index)}
			case *ssa.Send:
				p.ops = []opnd{op(x.Chan), op(x.X)}
			case *ssa.Select:
				for _, s := range x.States {
					p.ops = append(p.ops, op(s.Chan), op(s.Send))
				}
			default:
				for _, o := range in.Operands(nil) {
					p.ops = append(p.ops, op(*o))
				}
			}
			pb.ins = append(pb.ins, p)
		}
		fi.blocks[i] = pb
	}
}

func callOps(c *ssa.CallCommon, op func(ssa.Value) opnd) []opnd {
	r := []opnd{op(c.Value)}
	for _, a := range c.Args {
		r = append(r, op(a))
	}
	return r
}

func (m *M) constVal(v *ssa.Const) Value {
	t := v.Type()
	if v.Value == nil {
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(v.Value))
	case b.Info()&types.IsString != 0:
		if v.Value.Kind() == constant.String {
			return constant.StringVal(v.Value)
		}
		n, _ := constant.Int64Val(v.Value)
		return string(rune(n))
	case b.Info()&types.IsInteger != 0:
		x := constant.ToInt(v.Value)
		if n, ok := constant.Int64Val(x); ok {
			return m.c.BV(basicWidth(b), uint64(n))
		}
		n, _ := constant.Uint64Val(x)
		return m.c.BV(basicWidth(b), n)
	case b.Info()&types.IsFloat != 0:
		if basicWidth(b) == 32 {
			f, _ := constant.Float32Val(v.Value)
			return m.c.F32(f)
		}
		f, _ := constant.Float64Val(v.Value)
		return m.c.F64(f)
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(v.Value))
		im, _ := constant.Float64Val(constant.Imag(v.Value))
		return Tuple{m.c.F64(re), m.c.F64(im)}
	}
	panic("constant " + v.String())
}

func (m *M) get(fr *frame, o *opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.g != nil {
		return m.global(o.g)
	}
	return o.val
}

func (m *M) global(g *ssa.Global) *Value {
	m.needInit(g.Pkg)
	return m.rawGlobal(g)
}

func (m *M) rawGlobal(g *ssa.Global) *Value {
	if p, ok := m.glob[g]; ok {
		return p
	}
	save := m.initMode
	m.initMode = true
	v := m.zero(g.Type().(*types.Pointer).Elem())
	m.initMode = save
	p := new(Value)
	*p = v
	m.glob[g] = p
	return p
}

// needInit runs a package's initialiser the first time one of its globals is
// touched. Initialisation is concrete and survives across paths.
func (m *M) needInit(p *ssa.Package) {
	if p == nil || m.init[p] {
		return
	}
	m.init[p] = true
	if noInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	sMode, sSpec, sMg, sMap := m.initMode, m.spec, m.mg, m.mapOrders
	sSteps, sSpecSteps := m.steps, m.specSteps
	m.initMode, m.spec, m.mg, m.mapOrders = true, 0, nil, false
	m.specSteps = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if g, ok := r.(goPanic); ok {
					panic(pathEnd{"unsupported", "package init " + p.Pkg.Path() + ": " + m.panicText(g)})
				}
				panic(r)
			}
		}()
		m.call(fn, nil, nil)
	}()
	m.initMode, m.spec, m.mg, m.mapOrders = sMode, sSpec, sMg, sMap
	m.steps, m.specSteps = sSteps, sSpecSteps
}

var noInit = map[string]bool{"runtime": true, "internal/cpu": true, "internal/poll": true, "os": true, "syscall": true, "internal/godebug": true, "net": true, "internal/bisect": true, "time": true, "crypto/internal/fips140": true, "reflect": true}

// call runs a function.
func (m *M) call(fn *ssa.Function, args []Value, env []Value) Value {
	fi := m.info(fn)
	if fi.over != nil {
		return m.call(fi.over, args, env)
	}
	if m.depth > m.cfg.maxDepth {
		panic(pathEnd{"budget", "call depth @ " + fi.sym})
	}
	if fi.intr != nil {
		m.depth++
		m.stack = append(m.stack, fn)
		r := fi.intr(m, fn, args)
		m.stack = m.stack[:len(m.stack)-1]
		m.depth--
		return r
	}
	if len(fn.Blocks) == 0 {
		panic(m.unsupported("no body: %s", fi.sym))
	}
	if m.initMode && fn.Name() == "init" && fn.Parent() == nil && m.depth > 0 && len(m.stack) > 0 && m.stack[len(m.stack)-1].Name() == "init" && fn.Pkg != m.stack[len(m.stack)-1].Pkg {
		return nil // imports are initialised when touched
	}
	if !m.fns_used[fn] {
		m.fns_used[fn] = true
	}
	if !m.initMode && !m.cfg.noMerge && m.P.isPure(fn) && anySym(args, 0) {
		if r, ok := m.callMerged(fi, args, env); ok {
			return r
		}
		if m.mg != nil {
			panic(mergeAbort{})
		}
	} else if m.mg != nil && !m.P.isPure(fn) {
		panic(mergeAbort{})
	}
	return m.run(fi, args, env)
}

func anySym(args []Value, d int) bool {
	for _, a := range args {
		if valSym(a, d) {
			return true
		}
	}
	return false
}

func valSym(v Value, d int) bool {
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *Term:
		return !v.isConst()
	case *StructV:
		return anySym(v.f, d+1)
	case Tuple:
		return anySym(v, d+1)
	case Iface:
		return valSym(v.v, d+1)
	case *Slice:
		if v.arr == nil {
			return false
		}
		if !v.len.isConst() || v.arr.log {
			return true
		}
		if len(v.arr.dense) <= 16 {
			return anySym(v.arr.dense, d+1)
		}
		return true
	case *Arr:
		return v.log || anySym(v.dense, d+1)
	case *SymStr:
		return true
	case *Value:
		if v != nil {
			return valSym(*v, d+1)
		}
	case *ElemPtr:
		return true
	}
	return false
}

// callMerged explores the callee locally and merges the results into one
// value; ok is false when that is not possible.
func (m *M) callMerged(fi *fnInfo, args []Value, env []Value) (res Value, ok bool) {
	if m.spec > 0 {
		// inside speculation a plain run is tried (it aborts on any branch)
		return m.run(fi, args, env), true
	}
	saveMg := m.mg
	npc, nkn := len(m.pc), len(m.knownLog)
	nstack, depth := len(m.stack), m.depth
	cur := m.mg
	restore := func() {
		m.pc = m.pc[:npc]
		m.unlearn(nkn)
		m.mg = saveMg
		m.stack = m.stack[:nstack]
		m.depth = depth
	}
	_ = cur
	type one struct {
		c *Term
		v Value
	}
	var outs []one
	var prefix []mdec
	for n := 0; ; n++ {
		if n >= 64 {
			return nil, false
		}
		g := &mergeCtx{prefix: prefix}
		m.mg = g
		fail := false
		var v Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case mergeAbort, goPanic:
						fail = true
					default:
						restore()
						panic(r)
					}
				}
			}()
			v = m.run(fi, args, env)
		}()
		if fail {
			restore()
			return nil, false
		}
		c := m.c.T
		for _, x := range m.pc[npc:] {
			c = m.c.And(c, x)
		}
		outs = append(outs, one{c, v})
		restore()
		// backtrack
		i := len(g.trace) - 1
		for i >= 0 && !(g.trace[i].taken && g.trace[i].alt) {
			i--
		}
		if i < 0 {
			break
		}
		prefix = prefix[:0:0]
		prefix = append(prefix, g.trace[:i]...)
		prefix = append(prefix, mdec{false, false})
	}
	r := outs[len(outs)-1].v
	for i := len(outs) - 2; i >= 0; i-- {
		v, ok := m.merge(outs[i].c, outs[i].v, r)
		if !ok {
			return nil, false
		}
		r = v
	}
	return r, true
}

// run interprets a function body.
func (m *M) run(fi *fnInfo, args []Value, env []Value) Value {
	fr := &frame{fi: fi, regs: make([]Value, fi.nregs)}
	for i := range args {
		if i >= fi.nparam {
			panic(fmt.Sprintf("too many args to %s", fi.sym))
		}
		fr.regs[i] = args[i]
	}
	for i := range env {
		fr.regs[fi.nparam+i] = env[i]
	}
	m.depth++
	nst := len(m.stack)
	m.stack = append(m.stack, fi.fn)
	defer func() {
		m.depth--
		if len(m.stack) > nst {
			m.stack = m.stack[:nst]
		}
	}()
	if !usesDefer(fi) {
		return m.exec(fr, 0, -1)
	}
	return m.runWithDefers(fr)
}

func usesDefer(fi *fnInfo) bool {
	return fi.fn.Recover != nil
}

func (m *M) runWithDefers(fr *frame) (res Value) {
	depth, nst := m.depth, len(m.stack)
	func() {
		defer func() {
			if r := recover(); r != nil {
				g, ok := r.(goPanic)
				if !ok || g.fatal {
					panic(r)
				}
				m.depth = depth
				m.stack = m.stack[:nst]
				fr.pan = &g
			}
		}()
		res = m.exec(fr, 0, -1)
	}()
	if fr.pan == nil {
		return res
	}
	m.runDefers(fr)
	if fr.pan != nil {
		panic(*fr.pan)
	}
	// recovered: run the recover block
	return m.exec(fr, fr.fi.fn.Recover.Index, -1)
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, nst := m.depth, len(m.stack)
		func() {
			defer func() {
				if r := recover(); r != nil {
					g, ok := r.(goPanic)
					if !ok || g.fatal {
						panic(r)
					}
					m.depth = depth
					m.stack = m.stack[:nst]
					fr.pan = &g
				}
			}()
			m.panicFrames = append(m.panicFrames, fr)
			defer func() { m.panicFrames = m.panicFrames[:len(m.panicFrames)-1] }()
			if d.bi != nil {
				m.builtin(nil, d.bi, d.args, nil, nil)
			} else {
				m.callValue(d.fn, d.args)
			}
		}()
	}
}

func (m *M) callValue(f Value, args []Value) Value {
	switch f := f.(type) {
	case *ssa.Function:
		return m.call(f, args, nil)
	case *Closure:
		return m.call(f.fn, args, f.env)
	case NilFunc:
		m.nilDeref()
	case *ssa.Builtin:
		return m.builtin(nil, f, args, nil, nil)
	case nativeFn:
		return f(m, args)
	}
	panic(m.unsupported("call of %T", f))
}

type nativeFn func(m *M, args []Value) Value

func (m *M) step() {
	m.steps++
	if m.specSteps > 0 {
		m.specSteps--
		if m.specSteps == 0 {
			panic(specAbort{})
		}
	}
	if m.steps&0xfff == 0 {
		if m.steps > m.cfg.maxSteps && !m.initMode {
			panic(pathEnd{"budget", "step limit @ " + m.whereAmI()})
		}
		if m.rec.stopped() {
			panic(pathEnd{"stop", ""})
		}
	}
}

// exec runs from a block; stopAt >= 0 stops when control reaches that block
// (used by speculation).
func (m *M) exec(fr *frame, blk, prev int) Value {
	fi := fr.fi
	for {
		pb := fi.blocks[blk]
		if len(pb.phis) > 0 {
			pi := predIndex(pb.b, fi.blocks[prev].b)
			if len(pb.phis) == 1 {
				fr.regs[pb.phis[0].dst] = m.get(fr, &pb.phis[0].ops[pi])
			} else {
				var tmp [16]Value
				vs := tmp[:0]
				for i := range pb.phis {
					vs = append(vs, m.get(fr, &pb.phis[i].ops[pi]))
				}
				for i := range pb.phis {
					fr.regs[pb.phis[i].dst] = vs[i]
				}
			}
		}
		next := -1
		for i := range pb.ins {
			p := &pb.ins[i]
			m.step()
			switch in := p.in.(type) {
			case *ssa.Jump:
				next = pb.b.Succs[0].Index
			case *ssa.If:
				c := m.get(fr, &p.ops[0]).(*Term)
				if !c.isConst() {
					if v, ok := m.lookup(c); ok {
						c = m.c.Bool(v)
					}
				}
				if !c.isConst() {
					if j, ok := m.trySpec(fr, pb, c); ok {
						// control continues in block j with phis already set
						pb2 := fi.blocks[j]
						r, nx, done := m.execBody(fr, pb2)
						if done {
							return r
						}
						prev, next = j, nx
						goto cont
					}
				}
				if m.branch(c) {
					next = pb.b.Succs[0].Index
				} else {
					next = pb.b.Succs[1].Index
				}
			case *ssa.Return:
				return m.ret(fr, p)
			case *ssa.Panic:
				v := m.get(fr, &p.ops[0]).(Iface)
				m.raise(v)
			default:
				m.instr(fr, p, in)
			}
		}
		prev = blk
	cont:
		if next < 0 {
			panic(fmt.Sprintf("block fell through in %s", fi.sym))
		}
		blk = next
	}
}

// execBody runs a block whose phis are set; done reports a return.
func (m *M) execBody(fr *frame, pb *pblock) (res Value, next int, done bool) {
	for i := range pb.ins {
		p := &pb.ins[i]
		m.step()
		switch in := p.in.(type) {
		case *ssa.Jump:
			return nil, pb.b.Succs[0].Index, false
		case *ssa.If:
			c := m.get(fr, &p.ops[0]).(*Term)
			if !c.isConst() {
				if v, ok := m.lookup(c); ok {
					c = m.c.Bool(v)
				}
			}
			if !c.isConst() {
				if j, ok := m.trySpec(fr, pb, c); ok {
					return m.execBodyAt(fr, j)
				}
			}
			if m.branch(c) {
				return m.jumpFrom(fr, pb, 0)
			}
			return m.jumpFrom(fr, pb, 1)
		case *ssa.Return:
			return m.ret(fr, p), 0, true
		case *ssa.Panic:
			m.raise(m.get(fr, &p.ops[0]).(Iface))
		default:
			m.instr(fr, p, in)
		}
	}
	panic("block fell through")
}

// execBodyAt continues in block j whose phis were set by speculation; it runs
// the rest of the function.
func (m *M) execBodyAt(fr *frame, j int) (Value, int, bool) {
	pb := fr.fi.blocks[j]
	r, nx, done := m.execBody(fr, pb)
	if done {
		return r, 0, true
	}
	return m.exec(fr, nx, j), 0, true
}

func (m *M) jumpFrom(fr *frame, pb *pblock, i int) (Value, int, bool) {
	return m.exec(fr, pb.b.Succs[i].Index, pb.b.Index), 0, true
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	panic("no predecessor")
}

func (m *M) ret(fr *frame, p *pinstr) Value {
	switch len(p.ops) {
	case 0:
		return nil
	case 1:
		return m.get(fr, &p.ops[0])
	}
	t := make(Tuple, len(p.ops))
	for i := range p.ops {
		t[i] = m.get(fr, &p.ops[i])
	}
	return t
}

// trySpec merges a simple diamond or triangle: both sides are straight-line
// code without effects that join in one block.
func (m *M) trySpec(fr *frame, pb *pblock, c *Term) (int, bool) {
	if m.cfg.noMerge {
		return 0, false
	}
	t, f := pb.b.Succs[0], pb.b.Succs[1]
	if t == f {
		return 0, false
	}
	side := func(b *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
		if len(b.Preds) != 1 || len(b.Succs) != 1 {
			return nil, false
		}
		return b.Succs[0], m.specCandidate(fr.fi.blocks[b.Index])
	}
	tj, tok := side(t)
	fj, fok := side(f)
	var join *ssa.BasicBlock
	var tb, fb *ssa.BasicBlock // side blocks (nil: direct edge)
	switch {
	case tok && fok && tj == fj:
		join, tb, fb = tj, t, f
	case tok && tj == f:
		join, tb = f, t
	case fok && fj == t:
		join, fb = t, f
	default:
		return 0, false
	}
	jb := fr.fi.blocks[join.Index]
	if len(jb.phis) == 0 {
		return 0, false
	}
	run := func(b *ssa.BasicBlock) bool {
		if b == nil {
			return true
		}
		m.spec++
		ss := m.specSteps
		if m.specSteps == 0 {
			m.specSteps = 20000
		}
		nst, depth := len(m.stack), m.depth
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case specAbort, goPanic, mergeAbort:
						ok = false
						m.stack = m.stack[:nst]
						m.depth = depth
					default:
						panic(r)
					}
				}
			}()
			x := fr.fi.blocks[b.Index]
			for i := range x.ins {
				if _, isJ := x.ins[i].in.(*ssa.Jump); isJ {
					break
				}
				m.step()
				m.instr(fr, &x.ins[i], x.ins[i].in)
			}
		}()
		m.spec--
		m.specSteps = ss
		return ok
	}
	if !run(tb) || !run(fb) {
		return 0, false
	}
	from := func(b *ssa.BasicBlock) int {
		if b == nil {
			return predIndex(join, pb.b)
		}
		return predIndex(join, b)
	}
	ti, fi2 := from(tb), from(fb)
	vs := make([]Value, len(jb.phis))
	for i := range jb.phis {
		a, b := m.get(fr, &jb.phis[i].ops[ti]), m.get(fr, &jb.phis[i].ops[fi2])
		v, ok := m.merge(c, a, b)
		if !ok {
			return 0, false
		}
		vs[i] = v
	}
	for i := range jb.phis {
		fr.regs[jb.phis[i].dst] = vs[i]
	}
	return join.Index, true
}

func (m *M) specCandidate(pb *pblock) bool {
	if pb.pure == 0 {
		pb.pure = 1
		if len(pb.phis) > 0 || len(pb.ins) > 24 {
			pb.pure = 2
		}
		for _, p := range pb.ins {
			switch x := p.in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Jump, *ssa.MakeInterface, *ssa.ChangeInterface:
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					pb.pure = 2
				}
			case *ssa.Call:
				fn := x.Call.StaticCallee()
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max") {
					continue
				}
				if fn == nil || !m.P.isPure(fn) {
					pb.pure = 2
				}
			default:
				pb.pure = 2
			}
		}
	}
	return pb.pure == 1
}

// isPure: no effects outside memory allocated by the call itself.
func (P *Prog) isPure(fn *ssa.Function) bool {
	pureMu.Lock()
	defer pureMu.Unlock()
	return P.pureRec(fn)
}

func (P *Prog) pureRec(fn *ssa.Function) bool {
	switch P.pure[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	P.pure[fn] = 3
	r := P.pureBody(fn)
	if r {
		P.pure[fn] = 1
	} else {
		P.pure[fn] = 2
	}
	return r
}

func (P *Prog) pureBody(fn *ssa.Function) bool {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if pureIntr[name] {
		return true
	}
	if P.overrides[fn.String()] != nil || intrinsics[name] != nil || prefixIntrinsic(name) != nil || len(fn.Blocks) == 0 {
		return false
	}
	if fn.Recover != nil {
		return false
	}
	if strings.Contains(name, "zzverif") {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.MapUpdate, *ssa.Select, *ssa.RunDefers, *ssa.MakeClosure, *ssa.MakeChan, *ssa.MakeMap, *ssa.Range, *ssa.Next:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if x.Call.IsInvoke() {
					continue // checked when called
				}
				switch v := x.Call.Value.(type) {
				case *ssa.Builtin:
					switch v.Name() {
					case "len", "cap", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if !P.pureRec(v) {
						return false
					}
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

func (m *M) instr(fr *frame, p *pinstr, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.BinOp:
		fr.regs[p.dst] = m.binop(x, m.get(fr, &p.ops[0]), m.get(fr, &p.ops[1]))
	case *ssa.UnOp:
		fr.regs[p.dst] = m.unop(x, m.get(fr, &p.ops[0]))
	case *ssa.Alloc:
		c := new(Value)
		*c = m.zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[p.dst] = c
	case *ssa.Store:
		addr := m.get(fr, &p.ops[0])
		v := m.get(fr, &p.ops[1])
		if m.spec > 0 && !localAddr(x.Addr) {
			panic(specAbort{})
		}
		sp := m.spec
		m.spec = 0
		m.store(addr, v)
		m.spec = sp
	case *ssa.FieldAddr:
		fr.regs[p.dst] = m.fieldAddr(m.get(fr, &p.ops[0]), x.Field)
	case *ssa.Field:
		fr.regs[p.dst] = m.get(fr, &p.ops[0]).(*StructV).f[x.Field]
	case *ssa.IndexAddr:
		fr.regs[p.dst] = m.indexAddr(x, m.get(fr, &p.ops[0]), m.get(fr, &p.ops[1]).(*Term))
	case *ssa.Index:
		fr.regs[p.dst] = m.index(x, m.get(fr, &p.ops[0]), m.get(fr, &p.ops[1]).(*Term))
	case *ssa.Call:
		r := m.doCall(fr, &x.Call, p.ops, x)
		fr.regs[p.dst] = r
	case *ssa.Extract:
		fr.regs[p.dst] = m.get(fr, &p.ops[0]).(Tuple)[x.Index]
	case *ssa.Convert:
		fr.regs[p.dst] = m.convert(m.get(fr, &p.ops[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.regs[p.dst] = m.convert(m.get(fr, &p.ops[0]), x.X.Type(), x.Type())
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.regs[p.dst] = m.get(fr, &p.ops[0])
	case *ssa.MakeInterface:
		fr.regs[p.dst] = Iface{x.X.Type(), m.copyVal(m.get(fr, &p.ops[0]))}
	case *ssa.TypeAssert:
		fr.regs[p.dst] = m.typeAssert(x, m.get(fr, &p.ops[0]).(Iface))
	case *ssa.MakeClosure:
		env := make([]Value, len(p.ops)-1)
		for i := range env {
			env[i] = m.get(fr, &p.ops[i+1])
		}
		fr.regs[p.dst] = &Closure{m.get(fr, &p.ops[0]).(*ssa.Function), env}
	case *ssa.MakeSlice:
		fr.regs[p.dst] = m.makeSlice(x.Type().Underlying().(*types.Slice).Elem(), m.toInt(m.get(fr, &p.ops[0]).(*Term), x.Len.Type()), m.toInt(m.get(fr, &p.ops[1]).(*Term), x.Cap.Type()))
	case *ssa.Slice:
		fr.regs[p.dst] = m.slice(fr, x, p)
	case *ssa.MakeMap:
		fr.regs[p.dst] = &MapV{idx: map[string]int{}, persist: m.initMode}
	case *ssa.MapUpdate:
		m.impure()
		mp, _ := m.get(fr, &p.ops[0]).(*MapV)
		m.mapSet(mp, m.copyVal(m.get(fr, &p.ops[1])), m.copyVal(m.get(fr, &p.ops[2])))
	case *ssa.Lookup:
		fr.regs[p.dst] = m.lookupInstr(x, m.get(fr, &p.ops[0]), m.get(fr, &p.ops[1]))
	case *ssa.Range:
		fr.regs[p.dst] = m.rangeIter(m.get(fr, &p.ops[0]))
	case *ssa.Next:
		fr.regs[p.dst] = m.next(x, m.get(fr, &p.ops[0]))
	case *ssa.Defer:
		m.impure()
		d := deferred{inst: x}
		fn, args := m.prepCall(fr, &x.Call, p.ops)
		if b, ok := fn.(*ssa.Builtin); ok {
			d.bi, d.args = b, args
		} else {
			d.fn, d.args = fn, args
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		m.runDefers(fr)
		if fr.pan != nil {
			g := *fr.pan
			fr.pan = nil
			panic(g)
		}
	case *ssa.Go:
		m.impure()
		fn, args := m.prepCall(fr, &x.Call, p.ops)
		m.spawn(fn, args)
	case *ssa.MakeChan:
		m.impure()
		fr.regs[p.dst] = &ChanV{cap: m.constLen(m.get(fr, &p.ops[0]).(*Term))}
	case *ssa.Send:
		m.impure()
		m.chanSend(m.get(fr, &p.ops[0]).(*ChanV), m.copyVal(m.get(fr, &p.ops[1])))
	case *ssa.Select:
		m.impure()
		fr.regs[p.dst] = m.selectStmt(fr, x, p)
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, &p.ops[0]).(*Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !m.branch(m.c.Sle(m.c.Int(n), s.len)) {
			m.goPanicRT("cannot convert slice to array pointer")
		}
		if s.arr == nil {
			fr.regs[p.dst] = (*Value)(nil)
			return
		}
		if s.arr.log || !s.off.isConst() {
			panic(m.unsupported("slice to array pointer"))
		}
		// an alias of the sub-range: cells are shared through a view
		panic(m.unsupported("slice to array pointer"))
	default:
		panic(m.unsupported("instruction %T", in))
	}
}

func (m *M) impure() {
	if m.spec > 0 {
		panic(specAbort{})
	}
}

func (m *M) fieldAddr(p Value, i int) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(*StructV)
		if !ok {
			panic(m.unsupported("field address in %T", *p))
		}
		return &s.f[i]
	case *ElemPtr:
		return &ElemPtr{p.arr, p.idx, append(append([]int{}, p.path...), i)}
	}
	panic(m.unsupported("field address of %T", p))
}

// toInt widens an integer of any type to 64 bits.
func (m *M) toInt(t *Term, typ types.Type) *Term {
	if isSigned(typ) {
		return m.c.Sext(t, 64)
	}
	return m.c.Zext(t, 64)
}

func (m *M) boundsCheck(idx, n *Term, what string) {
	c := m.c.Ult(idx, n)
	if c.isTrue() {
		return
	}
	if !m.branch(c) {
		m.goPanicRT("runtime error: index out of range" + what)
	}
}

func (m *M) indexAddr(x *ssa.IndexAddr, base Value, i *Term) Value {
	i = m.toInt(i, x.Index.Type())
	switch b := base.(type) {
	case *Slice:
		m.boundsCheck(i, b.len, "")
		return m.elemAddr(b.arr, m.c.Add(b.off, i))
	case *Value:
		if b == nil {
			m.nilDeref()
		}
		a, ok := (*b).(*Arr)
		if !ok {
			panic(m.unsupported("index address in %T", *b))
		}
		m.boundsCheck(i, a.n, "")
		return m.elemAddr(a, i)
	case *ElemPtr:
		v := project(m.arrRead(b.arr, b.idx), b.path)
		if _, ok := v.(*Arr); ok {
			panic(m.unsupported("nested array element address"))
		}
	}
	panic(m.unsupported("index address of %T", base))
}

func (m *M) index(x *ssa.Index, base Value, i *Term) Value {
	i = m.toInt(i, x.Index.Type())
	switch b := base.(type) {
	case *Arr:
		m.boundsCheck(i, b.n, "")
		return m.copyVal(m.arrRead(b, i))
	case string, *SymStr:
		return m.strIndex(b, i)
	}
	panic(m.unsupported("index of %T", base))
}

func (m *M) strIndex(b Value, i *Term) Value {
	n := strLen(b)
	m.boundsCheck(i, m.c.Int(int64(n)), "")
	if i.isConst() {
		if s, ok := b.(string); ok {
			return m.c.BV(8, uint64(s[i.c]))
		}
		return b.(*SymStr).b[i.c]
	}
	bs := m.strBytes(b)
	lo, hi := i.lo, i.hi
	if hi >= uint64(n) {
		hi = uint64(n) - 1
	}
	r := bs[hi]
	for k := int64(hi) - 1; k >= int64(lo); k-- {
		r = m.c.Ite(m.c.Eq(i, m.c.Int(k)), bs[k], r)
	}
	return r
}

func (m *M) lookupInstr(x *ssa.Lookup, base, k Value) Value {
	switch b := base.(type) {
	case string, *SymStr:
		return m.strIndex(b, m.toInt(k.(*Term), x.Index.Type()))
	case *MapV:
		m.specNoSym(k)
		i := m.mapFind(b, k)
		if i >= 0 {
			v := m.copyVal(b.vals[i])
			if x.CommaOk {
				return Tuple{v, m.c.T}
			}
			return v
		}
		z := m.zero(x.X.Type().Underlying().(*types.Map).Elem())
		if x.CommaOk {
			return Tuple{z, m.c.F}
		}
		return z
	}
	panic(m.unsupported("lookup in %T", base))
}

func (m *M) specNoSym(Value) {}

func (m *M) makeSlice(elem types.Type, n, c *Term) Value {
	if !m.branch(m.c.Sle(m.c.Int(0), n)) {
		m.goPanicRT("runtime error: makeslice: len out of range")
	}
	sz := m.sizeof(elem)
	lim := int64(math.MaxInt64)
	if sz > 0 {
		lim = (1 << 47) / sz
	}
	if !m.branch(m.c.Ule(n, m.c.Int(lim))) {
		m.goPanicRT("runtime error: makeslice: len out of range")
	}
	if c != n {
		if !m.branch(m.c.And(m.c.Sle(n, c), m.c.Ule(c, m.c.Int(lim)))) {
			m.goPanicRT("runtime error: makeslice: cap out of range")
		}
	}
	if m.maxAlloc > 0 && sz > 0 && !m.initMode {
		if !m.branch(m.c.Ule(c, m.c.Int(int64(m.maxAlloc)/sz))) {
			panic(goPanic{v: Iface{}, where: "allocation larger than the stated limit: " + m.whereAmI(), fatal: true})
		}
	}
	a := m.newArr(elem, c)
	return &Slice{a, m.c.Int(0), n, c}
}

func (m *M) sizeof(t types.Type) int64 {
	defer func() { recover() }()
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

func (m *M) slice(fr *frame, x *ssa.Slice, p *pinstr) Value {
	get := func(i int, v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return m.toInt(m.get(fr, &p.ops[i]).(*Term), v.Type())
	}
	lo, hi, mx := get(1, x.Low), get(2, x.High), get(3, x.Max)
	base := m.get(fr, &p.ops[0])
	z := m.c.Int(0)
	if lo == nil {
		lo = z
	}
	oob := func() { m.goPanicRT("runtime error: slice bounds out of range") }
	switch b := base.(type) {
	case string, *SymStr:
		n := strLen(b)
		if hi == nil {
			hi = m.c.Int(int64(n))
		}
		if !m.branch(m.c.And(m.c.Ule(hi, m.c.Int(int64(n))), m.c.Ule(lo, hi))) {
			oob()
		}
		l := m.concretize(lo, "string slice")
		h := m.concretize(hi, "string slice")
		return substr(b, int(l), int(h))
	case *Slice:
		if hi == nil {
			hi = b.len
		}
		cp := b.cap
		if mx == nil {
			mx = cp
		} else if !m.branch(m.c.Ule(mx, cp)) {
			oob()
		}
		if !m.branch(m.c.And(m.c.Ule(hi, mx), m.c.Ule(lo, hi))) {
			oob()
		}
		if b.arr == nil {
			return b
		}
		return &Slice{b.arr, m.c.Add(b.off, lo), m.c.Sub(hi, lo), m.c.Sub(mx, lo)}
	case *Value:
		if b == nil {
			m.nilDeref()
		}
		a, ok := (*b).(*Arr)
		if !ok {
			panic(m.unsupported("slice of %T", *b))
		}
		if hi == nil {
			hi = a.n
		}
		if mx == nil {
			mx = a.n
		} else if !m.branch(m.c.Ule(mx, a.n)) {
			oob()
		}
		if !m.branch(m.c.And(m.c.Ule(hi, mx), m.c.Ule(lo, hi))) {
			oob()
		}
		return &Slice{a, lo, m.c.Sub(hi, lo), m.c.Sub(mx, lo)}
	}
	panic(m.unsupported("slice of %T", base))
}

func (m *M) doCall(fr *frame, c *ssa.CallCommon, ops []opnd, at *ssa.Call) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(ops)-1)
		for i := range args {
			args[i] = m.get(fr, &ops[i+1])
		}
		return m.builtin(fr, b, args, c, at)
	}
	fn, args := m.prepCall(fr, c, ops)
	if m.spec > 0 {
		f, ok := fn.(*ssa.Function)
		if !ok || !m.P.isPure(f) {
			panic(specAbort{})
		}
	}
	return m.callValue(fn, args)
}

func (m *M) prepCall(fr *frame, c *ssa.CallCommon, ops []opnd) (Value, []Value) {
	v := m.get(fr, &ops[0])
	if c.IsInvoke() {
		i, ok := v.(Iface)
		if !ok {
			panic(m.unsupported("invoke on %T", v))
		}
		if i.t == nil {
			m.nilDeref()
		}
		fn := m.P.method(i.t, c.Method)
		if fn == nil {
			panic(m.unsupported("method %s of %s", c.Method.Name(), i.t))
		}
		args := make([]Value, len(ops))
		args[0] = i.v
		for k := 1; k < len(ops); k++ {
			args[k] = m.copyVal(m.get(fr, &ops[k]))
		}
		return fn, args
	}
	args := make([]Value, len(ops)-1)
	for k := range args {
		args[k] = m.copyVal(m.get(fr, &ops[k+1]))
	}
	return v, args
}

func (P *Prog) method(t types.Type, f *types.Func) *ssa.Function {
	ssaMu.Lock()
	defer ssaMu.Unlock()
	return P.prog.LookupMethod(t, f.Pkg(), f.Name())
}

func (m *M) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.t, it)
		} else {
			ok = types.Identical(v.t, x.AssertedType)
		}
	}
	var r Value
	if ok {
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			r = v
		} else {
			r = m.copyVal(v.v)
		}
		if x.CommaOk {
			return Tuple{r, m.c.T}
		}
		return r
	}
	if x.CommaOk {
		return Tuple{m.zero(x.AssertedType), m.c.F}
	}
	have := "nil"
	if v.t != nil {
		have = v.t.String()
	}
	m.goPanicRT(fmt.Sprintf("interface conversion: interface is %s, not %s", have, x.AssertedType))
	return nil
}

// ---------- panics ----------

func (m *M) raise(v Iface) {
	panic(goPanic{v: v, where: m.whereAmI()})
}

func (m *M) goPanicRT(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if m.mg != nil {
		panic(mergeAbort{})
	}
	// runtime errors are represented by runtime.errorString
	var t types.Type
	if p := m.P.pkgs["runtime"]; p != nil {
		if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
			t = o.Type()
		}
	}
	if t == nil {
		t = types.Typ[types.String]
	}
	panic(goPanic{v: Iface{t, strings.TrimPrefix(msg, "runtime error: ")}, where: m.whereAmI()})
}

func (m *M) nilDeref() {
	m.goPanicRT("runtime error: invalid memory address or nil pointer dereference")
}

func (m *M) panicText(g goPanic) string {
	s := g.where
	if g.fatal {
		return s
	}
	switch v := g.v.v.(type) {
	case string:
		return v + " @ " + s
	case *Value:
		if v != nil {
			if st, ok := (*v).(*StructV); ok && len(st.f) > 0 {
				if t, ok := st.f[0].(string); ok {
					return t + " @ " + s
				}
			}
		}
	}
	if g.v.t != nil {
		return g.v.t.String() + " @ " + s
	}
	return s
}

// ---------- operators ----------

func (m *M) unop(x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		r := m.load(v)
		// reinterpretation through unsafe.Pointer: []byte header as string
		if s, ok := r.(*Slice); ok {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return mkStr(m.sliceTerms(s))
			}
		}
		if t, ok := r.(*Term); ok {
			if b, ok := x.Type().Underlying().(*types.Basic); ok {
				fl := b.Info()&types.IsFloat != 0
				if fl != t.fp && b.Info()&types.IsBoolean == 0 {
					if fl {
						return m.c.FFromBits(t)
					}
					return m.c.FBits(t)
				}
			}
		}
		return r
	case token.NOT:
		return m.c.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.fp {
			return m.c.FUn(OpFNeg, 0, t)
		}
		return m.c.Neg(t)
	case token.XOR:
		return m.c.BNotBV(v.(*Term))
	case token.ARROW:
		m.impure()
		ch, _ := v.(*ChanV)
		val, ok := m.chanRecv(ch, x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{val, m.c.Bool(ok)}
		}
		return val
	}
	panic(m.unsupported("unop %s", x.Op))
}

func (m *M) binop(x *ssa.BinOp, a, b Value) Value {
	switch x.Op {
	case token.EQL:
		return m.eqOp(x, a, b)
	case token.NEQ:
		return m.c.Not(m.eqOp(x, a, b))
	}
	switch p := a.(type) {
	case string, *SymStr:
		switch x.Op {
		case token.ADD:
			s, ok := a.(string)
			t, ok2 := b.(string)
			if ok && ok2 {
				return s + t
			}
			return mkStr(append(append([]*Term{}, m.strBytes(a)...), m.strBytes(b)...))
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return m.c.Not(m.strLess(b, a))
		case token.GEQ:
			return m.c.Not(m.strLess(a, b))
		}
	case *Term:
		q := b.(*Term)
		if p.fp {
			switch x.Op {
			case token.ADD:
				return m.c.FArith(OpFAdd, p, q)
			case token.SUB:
				return m.c.FArith(OpFSub, p, q)
			case token.MUL:
				return m.c.FArith(OpFMul, p, q)
			case token.QUO:
				return m.c.FArith(OpFDiv, p, q)
			case token.LSS:
				return m.c.FCmp(OpFLt, p, q)
			case token.LEQ:
				return m.c.FCmp(OpFLe, p, q)
			case token.GTR:
				return m.c.FCmp(OpFLt, q, p)
			case token.GEQ:
				return m.c.FCmp(OpFLe, q, p)
			}
			break
		}
		if p.w == 0 {
			switch x.Op {
			case token.AND, token.LAND:
				return m.c.And(p, q)
			case token.OR, token.LOR:
				return m.c.Or(p, q)
			case token.XOR:
				return m.c.Not(m.c.Eq(p, q))
			}
			break
		}
		sg := isSigned(x.X.Type())
		switch x.Op {
		case token.ADD:
			return m.c.Add(p, q)
		case token.SUB:
			return m.c.Sub(p, q)
		case token.MUL:
			return m.c.Mul(p, q)
		case token.QUO, token.REM:
			if m.branch(m.c.Eq(q, m.c.BV(q.w, 0))) {
				m.goPanicRT("runtime error: integer divide by zero")
			}
			switch {
			case x.Op == token.QUO && sg:
				return m.c.SDiv(p, q)
			case x.Op == token.QUO:
				return m.c.UDiv(p, q)
			case sg:
				return m.c.SRem(p, q)
			default:
				return m.c.URem(p, q)
			}
		case token.AND:
			return m.c.BAnd(p, q)
		case token.OR:
			return m.c.BOr(p, q)
		case token.XOR:
			return m.c.BXor(p, q)
		case token.AND_NOT:
			return m.c.BAnd(p, m.c.BNotBV(q))
		case token.SHL, token.SHR:
			if isSigned(x.Y.Type()) {
				if m.branch(m.c.Slt(q, m.c.BV(q.w, 0))) {
					m.goPanicRT("runtime error: negative shift amount")
				}
			}
			w := p.w
			switch {
			case q.w > w:
				q = m.c.Ite(m.c.Ult(q, m.c.BV(q.w, uint64(w))), m.c.Extract(q, 0, w), m.c.BV(w, uint64(w)))
			case q.w < w:
				q = m.c.Zext(q, w)
			}
			if x.Op == token.SHL {
				return m.c.Shl(p, q)
			}
			if sg {
				return m.c.Ashr(p, q)
			}
			return m.c.Lshr(p, q)
		case token.LSS:
			if sg {
				return m.c.Slt(p, q)
			}
			return m.c.Ult(p, q)
		case token.LEQ:
			if sg {
				return m.c.Sle(p, q)
			}
			return m.c.Ule(p, q)
		case token.GTR:
			if sg {
				return m.c.Slt(q, p)
			}
			return m.c.Ult(q, p)
		case token.GEQ:
			if sg {
				return m.c.Sle(q, p)
			}
			return m.c.Ule(q, p)
		}
	}
	panic(m.unsupported("binop %s on %T", x.Op, a))
}

func (m *M) eqOp(x *ssa.BinOp, a, b Value) *Term {
	_, ia := a.(Iface)
	_, ib := b.(Iface)
	if ia != ib { // comparing a concrete value with an interface
		if ia {
			return m.equal(a, Iface{x.Y.Type(), b})
		}
		return m.equal(Iface{x.X.Type(), a}, b)
	}
	return m.equal(a, b)
}

func (m *M) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			switch {
			case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
				return v
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return v
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				return m.runeString(m.c.Extract(m.toInt(v.(*Term), from), 0, 32), m.toInt(v.(*Term), from))
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				t := v.(*Term)
				w := basicWidth(tb)
				if w <= t.w {
					return m.c.Extract(t, 0, w)
				}
				if isSigned(from) {
					return m.c.Sext(t, w)
				}
				return m.c.Zext(t, w)
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
				return m.c.FFromInt(v.(*Term), isSigned(from), basicWidth(tb))
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
				return m.floatToInt(v.(*Term), isSigned(to), basicWidth(tb))
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
				return m.c.FConv(v.(*Term), basicWidth(tb))
			case fb.Info()&types.IsBoolean != 0:
				return v
			case fb.Info()&types.IsComplex != 0:
				return v
			}
		}
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			if widthOf(ts.Elem()) == 8 {
				return m.bytesSlice(append([]*Term{}, m.strBytes(v)...), ts.Elem())
			}
			// []rune
			var rs []*Term
			for i := 0; i < strLen(v); {
				r, n := m.decodeRune(v, i)
				rs = append(rs, r)
				i += n
			}
			return m.bytesSlice(rs, ts.Elem())
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			s := v.(*Slice)
			if s.arr == nil {
				return ""
			}
			if widthOf(fs.Elem()) == 8 {
				return mkStr(m.sliceTerms(s))
			}
			var r Value = ""
			for _, t := range m.sliceTerms(s) {
				e := m.runeString(t, m.c.Sext(t, 64))
				r = mkStr(append(append([]*Term{}, m.strBytes(r)...), m.strBytes(e)...))
			}
			return r
		}
	}
	return v
}

// floatToInt converts as Go on amd64 does; values outside the target range
// are taken through int64 as the compiler does for narrow types.
func (m *M) floatToInt(t *Term, signed bool, w uint8) *Term {
	if t.isConst() {
		return m.c.FToInt(t, signed, w)
	}
	if w == 64 {
		return m.c.FToInt(t, signed, w)
	}
	if w == 32 && !signed {
		return m.c.Extract(m.c.FToInt(t, true, 64), 0, 32)
	}
	// narrow: via a 32-bit signed conversion
	return m.c.Extract(m.c.FToInt(t, true, 32), 0, w)
}

func (m *M) runeString(r, wide *Term) Value {
	if r.isConst() && wide.isConst() {
		v := int64(wide.c)
		if v < 0 || v > 0x10ffff {
			v = 0xfffd
		}
		return string(rune(v))
	}
	// encode by case
	c := m.c
	u := func(v uint64) *Term { return c.BV(64, v) }
	bad := c.Or(c.Not(c.Ule(wide, u(0x10ffff))), c.And(c.Ule(u(0xd800), wide), c.Ule(wide, u(0xdfff))))
	b := func(t *Term) *Term { return c.Extract(t, 0, 8) }
	sh := func(n uint64) *Term { return c.Lshr(wide, u(n)) }
	cont := func(t *Term) *Term { return b(c.BOr(c.BAnd(t, u(0x3f)), u(0x80))) }
	if m.branch(c.Ult(wide, u(0x80))) {
		return mkStr([]*Term{b(wide)})
	}
	if m.branch(bad) {
		return "\ufffd"
	}
	if m.branch(c.Ult(wide, u(0x800))) {
		return mkStr([]*Term{b(c.BOr(sh(6), u(0xc0))), cont(wide)})
	}
	if m.branch(c.Ult(wide, u(0x10000))) {
		return mkStr([]*Term{b(c.BOr(sh(12), u(0xe0))), cont(sh(6)), cont(wide)})
	}
	return mkStr([]*Term{b(c.BOr(sh(18), u(0xf0))), cont(sh(12)), cont(sh(6)), cont(wide)})
}

// decodeRune decodes one UTF-8 sequence of a string at i.
func (m *M) decodeRune(v Value, i int) (*Term, int) {
	if s, ok := v.(string); ok {
		for k, r := range s[i:] {
			_ = k
			n := len(string(r))
			if r == 0xfffd {
				// may be an invalid byte
				n = 1
				if strings.HasPrefix(s[i:], "\ufffd") {
					n = 3
				}
			}
			return m.c.BV(32, uint64(r)), n
		}
	}
	b := v.(*SymStr).b
	c := m.c
	b0 := b[i]
	if m.branch(c.Ult(b0, c.BV(8, 0x80))) {
		return c.Zext(b0, 32), 1
	}
	fn := m.P.fn("unicode/utf8", "DecodeRuneInString")
	end := i + 4
	if end > len(b) {
		end = len(b)
	}
	r := m.call(fn, []Value{mkStr(b[i:end])}, nil).(Tuple)
	n := m.concretize(r[1].(*Term), "rune width")
	return r[0].(*Term), int(n)
}

func (P *Prog) fn(pkg, name string) *ssa.Function {
	p := P.pkgs[pkg]
	if p == nil {
		panic(pathEnd{"unsupported", "package " + pkg + " not loaded"})
	}
	f := p.Func(name)
	if f == nil {
		panic(pathEnd{"unsupported", "no function " + pkg + "." + name})
	}
	return f
}

// ---------- range / next ----------

type iter struct {
	s    Value
	pos  int
	mp   *MapV
	left []int
	n    int
}

func (m *M) rangeIter(v Value) Value {
	switch v := v.(type) {
	case string, *SymStr:
		return &iter{s: v}
	case *MapV:
		it := &iter{mp: v}
		if v != nil {
			for i := range v.keys {
				if v.keys[i] != nil {
					it.left = append(it.left, i)
				}
			}
		}
		return it
	}
	panic(m.unsupported("range over %T", v))
}

func (m *M) next(x *ssa.Next, v Value) Value {
	it := v.(*iter)
	m.impure()
	if it.s != nil {
		if it.pos >= strLen(it.s) {
			return Tuple{m.c.F, m.c.Int(0), m.c.BV(32, 0)}
		}
		r, n := m.decodeRune(it.s, it.pos)
		p := it.pos
		it.pos += n
		return Tuple{m.c.T, m.c.Int(int64(p)), r}
	}
	for len(it.left) > 0 {
		k := 0
		if m.mapOrders {
			k = m.choose(len(it.left))
		}
		i := it.left[k]
		it.left = append(append([]int{}, it.left[:k]...), it.left[k+1:]...)
		if it.mp.keys[i] == nil {
			continue
		}
		return Tuple{m.c.T, m.copyVal(it.mp.keys[i]), m.copyVal(it.mp.vals[i])}
	}
	tt := x.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if t == nil || t == types.Typ[types.Invalid] {
			return nil
		}
		return m.zero(t)
	}
	return Tuple{m.c.F, z(tt.At(1).Type()), z(tt.At(2).Type())}
}
