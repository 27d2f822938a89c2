package main

// Builtins, intrinsics and the vsym API.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var (
	ssaMu  sync.Mutex
	pureMu sync.Mutex
)

type intrinsic func(m *M, fn *ssa.Function, args []Value) Value

// ---------- builtins ----------

func (m *M) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon, at *ssa.Call) Value {
	switch b.Name() {
	case "len":
		return m.lenOf(args[0])
	case "cap":
		switch v := args[0].(type) {
		case *Slice:
			return v.cap
		case *ChanV:
			if v == nil {
				return m.c.Int(0)
			}
			return m.c.Int(int64(v.cap))
		}
		return m.lenOf(args[0])
	case "min", "max":
		r := args[0]
		sg := at != nil && isSigned(at.Type())
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				var lt *Term
				switch {
				case x.fp:
					// NaN handling: result NaN if either is NaN
					lt = m.c.FCmp(OpFLt, x, y)
					if b.Name() == "max" {
						lt = m.c.FCmp(OpFLt, y, x)
					}
					isn := m.c.Not(m.c.FCmp(OpFEq, x, x))
					r = m.c.Ite(m.c.Or(isn, lt), x, y)
					continue
				case sg:
					lt = m.c.Slt(x, y)
				default:
					lt = m.c.Ult(x, y)
				}
				if b.Name() == "max" {
					lt = m.c.Not(lt)
				}
				r = m.c.Ite(lt, x, y)
			default:
				lt := m.branch(m.strLess(r, a))
				if lt != (b.Name() == "min") {
					r = a
				}
			}
		}
		return r
	case "append":
		m.impure()
		return m.appendTo(args[0].(*Slice), args[1], c)
	case "copy":
		m.impure()
		return m.copyTo(args[0].(*Slice), args[1])
	case "delete":
		m.impure()
		mp, _ := args[0].(*MapV)
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		m.impure()
		switch v := args[0].(type) {
		case *MapV:
			if v != nil {
				if v.persist && !m.initMode {
					panic(m.unsupported("clear of a package-level map"))
				}
				v.keys, v.vals, v.idx, v.sym = nil, nil, map[string]int{}, false
			}
		case *Slice:
			n := m.constLen(v.len)
			for i := 0; i < n; i++ {
				m.arrWrite(v.arr, m.c.Add(v.off, m.c.Int(int64(i))), m.zero(v.arr.elemT))
			}
		}
		return nil
	case "close":
		m.impure()
		m.chanClose(args[0].(*ChanV))
		return nil
	case "print", "println":
		return nil
	case "recover":
		m.impure()
		if n := len(m.panicFrames); n > 0 {
			fr := m.panicFrames[n-1]
			if fr.pan != nil {
				v := fr.pan.v
				fr.pan = nil
				return v
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String
		n := m.constLen(args[1].(*Term))
		if n == 0 {
			return ""
		}
		ts := make([]*Term, n)
		switch p := args[0].(type) {
		case *ElemPtr:
			for i := range ts {
				ts[i] = m.arrRead(p.arr, m.c.Add(p.idx, m.c.Int(int64(i)))).(*Term)
			}
			return mkStr(ts)
		case bytePtr:
			return substr(p.s, p.i, p.i+n)
		}
		panic(m.unsupported("unsafe.String of %T", args[0]))
	case "StringData":
		return bytePtr{args[0], 0}
	case "SliceData":
		s := args[0].(*Slice)
		if s.arr == nil {
			return (*Value)(nil)
		}
		return &ElemPtr{arr: s.arr, idx: s.off}
	case "Slice":
		n := m.toTerm64(args[1])
		switch p := args[0].(type) {
		case *ElemPtr:
			return &Slice{p.arr, p.idx, n, n}
		case bytePtr:
			k := m.constLen(n)
			return m.bytesSlice(m.strBytes(substr(p.s, p.i, p.i+k)), types.Typ[types.Uint8])
		case *Value:
			if p == nil {
				return m.nilSlice()
			}
		}
		panic(m.unsupported("unsafe.Slice of %T", args[0]))
	case "real":
		return args[0].(Tuple)[0]
	case "imag":
		return args[0].(Tuple)[1]
	case "complex":
		return Tuple{args[0], args[1]}
	}
	panic(m.unsupported("builtin %s", b.Name()))
}

type bytePtr struct {
	s Value
	i int
}

func (m *M) toTerm64(v Value) *Term {
	t := v.(*Term)
	if t.w < 64 {
		return m.c.Sext(t, 64)
	}
	return t
}

func (m *M) lenOf(v Value) *Term {
	switch v := v.(type) {
	case *Slice:
		return v.len
	case string, *SymStr:
		return m.c.Int(int64(strLen(v)))
	case *MapV:
		return m.c.Int(int64(v.count()))
	case *ChanV:
		if v == nil {
			return m.c.Int(0)
		}
		return m.c.Int(int64(len(v.buf)))
	case *Arr:
		return v.n
	case *Value:
		if v != nil {
			if a, ok := (*v).(*Arr); ok {
				return a.n
			}
		}
	}
	panic(m.unsupported("len of %T", v))
}

// snapshot gives a reader of a slice's current contents.
func (m *M) snapshot(s *Slice) func(i *Term) Value {
	if s.arr.log {
		fz := &Arr{elemT: s.arr.elemT, n: s.arr.n, log: true, base: s.arr.base, layers: copyLayers(s.arr.layers)}
		off := s.off
		return func(i *Term) Value { return m.arrRead(fz, m.c.Add(off, i)) }
	}
	fz := &Arr{elemT: s.arr.elemT, n: s.arr.n, dense: append([]Value{}, s.arr.dense...)}
	off := s.off
	return func(i *Term) Value { return m.arrRead(fz, m.c.Add(off, i)) }
}

const bulkMax = 1 << 16

// blockWrite stores n elements read by src (relative index) at dst[off...].
func (m *M) blockWrite(dst *Arr, off, n *Term, src func(i *Term) Value) {
	if n.isConst() && n.c == 0 {
		return
	}
	if dst.log && !(n.isConst() && n.c <= 64 && off.isConst()) {
		m.saveArr(dst)
		dst.layers = append(dst.layers, arrLayer{cp: &arrCopy{dst: off, n: n, src: src}})
		return
	}
	if !n.isConst() && n.hi <= 4096 && flatElem(dst.elemT) && off.isConst() && int64(n.lo) >= 0 {
		for i := uint64(0); i < n.hi && off.c+i < dst.n.hi; i++ {
			in := m.c.Ult(m.c.BV(64, i), n)
			if in.isFalse() {
				break
			}
			if v, ok := m.lookup(in); ok {
				if !v {
					break
				}
				in = m.c.T
			}
			at := m.c.BV(64, off.c+i)
			var v Value
			if in.isTrue() {
				v = src(m.c.BV(64, i))
			} else {
				nv := src(m.c.BV(64, i))
				var ok bool
				v, ok = m.merge(in, nv, m.arrRead(dst, at))
				if !ok {
					panic(m.unsupported("block copy merge"))
				}
			}
			m.arrWrite(dst, at, v)
		}
		return
	}
	k := m.constLen(n)
	if k > 1<<22 {
		panic(m.unsupported("copy of %d elements", k))
	}
	tmp := make([]Value, k)
	for i := range tmp {
		tmp[i] = src(m.c.Int(int64(i)))
	}
	for i, v := range tmp {
		m.arrWrite(dst, m.c.Add(off, m.c.Int(int64(i))), v)
	}
}

func (m *M) copyTo(dst *Slice, src Value) Value {
	var sl *Term
	var rd func(i *Term) Value
	switch s := src.(type) {
	case string, *SymStr:
		b := m.strBytes(s)
		sl = m.c.Int(int64(len(b)))
		a := m.bytesSlice(b, types.Typ[types.Uint8]).arr
		rd = func(i *Term) Value { return m.arrRead(a, i) }
	case *Slice:
		sl = s.len
		if s.arr != nil {
			if s.arr == dst.arr || s.arr.log || !s.len.isConst() || !dst.len.isConst() {
				rd = nil
			} else {
				rd = func(i *Term) Value { return m.arrRead(s.arr, m.c.Add(s.off, i)) }
			}
		}
	default:
		panic(m.unsupported("copy from %T", src))
	}
	var n *Term
	lt := m.c.Slt(dst.len, sl)
	if v, ok := m.lookup(lt); ok {
		lt = m.c.Bool(v)
	}
	n = m.c.Ite(lt, dst.len, sl)
	if dst.arr == nil || n.isConst() && n.c == 0 {
		return m.c.Int(0)
	}
	if rd == nil {
		s := src.(*Slice)
		if s.arr == nil {
			return m.c.Int(0)
		}
		rd = m.snapshot(s)
	}
	m.blockWrite(dst.arr, dst.off, n, rd)
	return n
}

func (m *M) appendTo(s *Slice, src Value, c *ssa.CallCommon) Value {
	var elem types.Type
	if s.arr != nil {
		elem = s.arr.elemT
	}
	if c != nil {
		if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			elem = st.Elem()
		}
	}
	var sl *Term
	var rd func(i *Term) Value
	switch x := src.(type) {
	case string, *SymStr:
		b := m.strBytes(x)
		sl = m.c.Int(int64(len(b)))
		a := m.bytesSlice(b, types.Typ[types.Uint8]).arr
		rd = func(i *Term) Value { return m.arrRead(a, i) }
	case *Slice:
		sl = x.len
		if x.arr != nil {
			if x.arr == s.arr || x.arr.log || !x.len.isConst() {
				rd = m.snapshot(x)
			} else {
				rd = func(i *Term) Value { return m.arrRead(x.arr, m.c.Add(x.off, i)) }
			}
		}
		if elem == nil && x.arr != nil {
			elem = x.arr.elemT
		}
	default:
		panic(m.unsupported("append of %T", src))
	}
	if sl.isConst() && sl.c == 0 {
		return s
	}
	nl := m.c.Add(s.len, sl)
	if s.arr != nil && m.branch(m.c.Sle(nl, s.cap)) {
		m.blockWrite(s.arr, m.c.Add(s.off, s.len), sl, rd)
		return &Slice{s.arr, s.off, nl, s.cap}
	}
	// grow
	if elem == nil {
		panic(m.unsupported("append: element type unknown"))
	}
	var ncap *Term
	if nl.isConst() && s.cap.isConst() {
		n := s.cap.c * 2
		if s.cap.c > 1024 {
			n = s.cap.c + s.cap.c/4
		}
		if n < nl.c {
			n = nl.c
		}
		ncap = m.c.BV(64, n)
	} else {
		ncap = nl
	}
	na := m.newArr(elem, ncap)
	if s.arr != nil {
		var old func(i *Term) Value
		if s.arr.log || !s.len.isConst() {
			old = m.snapshot(s)
		} else {
			old = func(i *Term) Value { return m.arrRead(s.arr, m.c.Add(s.off, i)) }
		}
		if !na.log && !s.arr.log && s.len.isConst() && s.off.isConst() {
			for i := uint64(0); i < s.len.c; i++ {
				na.dense[i] = m.copyVal(s.arr.dense[s.off.c+i])
			}
		} else {
			m.blockWrite(na, m.c.Int(0), s.len, old)
		}
	}
	m.blockWrite(na, s.len, sl, rd)
	return &Slice{na, m.c.Int(0), nl, ncap}
}

// ---------- intrinsics ----------

var intrinsics map[string]intrinsic
var pureIntr = map[string]bool{}

func pureI(name string, f intrinsic) {
	intrinsics[name] = f
	pureIntr[name] = true
}

const vsymPath = "vimagination.zapto.org/limage/zzverif/vsym."

func fterm(v Value) *Term { return v.(*Term) }

func nop(m *M, fn *ssa.Function, args []Value) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func init() {
	intrinsics = map[string]intrinsic{}
	// ----- math
	f1 := func(name string, op Op, k uint64) {
		pureI("math."+name, func(m *M, fn *ssa.Function, a []Value) Value { return m.c.FUn(op, k, fterm(a[0])) })
		pureI("math."+strings.ToLower(name), func(m *M, fn *ssa.Function, a []Value) Value { return m.c.FUn(op, k, fterm(a[0])) })
	}
	f1("Ceil", OpFRound, 1)
	f1("Floor", OpFRound, 0)
	f1("Trunc", OpFRound, 2)
	f1("Sqrt", OpFSqrt, 0)
	f1("Abs", OpFAbs, 0)
	pureI("math.Float64bits", func(m *M, fn *ssa.Function, a []Value) Value { return m.c.FBits(fterm(a[0])) })
	pureI("math.Float32bits", func(m *M, fn *ssa.Function, a []Value) Value { return m.c.FBits(fterm(a[0])) })
	pureI("math.Float64frombits", func(m *M, fn *ssa.Function, a []Value) Value { return m.c.FFromBits(fterm(a[0])) })
	pureI("math.Float32frombits", func(m *M, fn *ssa.Function, a []Value) Value { return m.c.FFromBits(fterm(a[0])) })
	pureI("math.IsNaN", func(m *M, fn *ssa.Function, a []Value) Value {
		return m.c.Not(m.c.FCmp(OpFEq, fterm(a[0]), fterm(a[0])))
	})
	fmm := func(max bool) intrinsic {
		return func(m *M, fn *ssa.Function, a []Value) Value {
			x, y := fterm(a[0]), fterm(a[1])
			lt := m.c.FCmp(OpFLt, x, y)
			if max {
				lt = m.c.FCmp(OpFLt, y, x)
			}
			nan := m.c.Not(m.c.FCmp(OpFEq, x, x))
			return m.c.Ite(m.c.Or(nan, lt), x, y)
		}
	}
	pureI("math.Min", fmm(false))
	pureI("math.Max", fmm(true))
	m1 := func(name string, f func(float64) float64) {
		intrinsics["math."+name] = func(m *M, fn *ssa.Function, a []Value) Value {
			t := fterm(a[0])
			if !t.isConst() {
				panic(m.unsupported("math.%s of a symbolic value", name))
			}
			return m.c.F64(f(t.fval()))
		}
	}
	m1("Exp", math.Exp)
	m1("Log", math.Log)
	m1("Cbrt", math.Cbrt)
	m1("Sin", math.Sin)
	m1("Cos", math.Cos)
	intrinsics["math.Pow"] = func(m *M, fn *ssa.Function, a []Value) Value {
		x, y := fterm(a[0]), fterm(a[1])
		if !x.isConst() || !y.isConst() {
			panic(m.unsupported("math.Pow of symbolic values"))
		}
		return m.c.F64(math.Pow(x.fval(), y.fval()))
	}
	intrinsics["math.Mod"] = func(m *M, fn *ssa.Function, a []Value) Value {
		x, y := fterm(a[0]), fterm(a[1])
		if x.isConst() && y.isConst() {
			return m.c.F64(math.Mod(x.fval(), y.fval()))
		}
		// exact for |x/y| < 2 after branching; general case unsupported
		if y.isConst() && y.fval() > 0 {
			lt := m.c.FCmp(OpFLt, m.c.FUn(OpFAbs, 0, x), y)
			if m.branch(lt) {
				return x
			}
			two := m.c.F64(y.fval() * 2)
			if m.branch(m.c.And(m.c.FCmp(OpFLe, y, x), m.c.FCmp(OpFLt, x, two))) {
				return m.c.FArith(OpFSub, x, y)
			}
			if m.branch(m.c.And(m.c.FCmp(OpFLe, x, m.c.F64(-y.fval())), m.c.FCmp(OpFLt, m.c.F64(-y.fval()*2), x))) {
				return m.c.FArith(OpFAdd, x, y)
			}
		}
		panic(m.unsupported("math.Mod"))
	}
	// ----- bits
	pureI("math/bits.Len", func(m *M, fn *ssa.Function, a []Value) Value { return m.bitLen(fterm(a[0])) })
	for _, w := range []string{"8", "16", "32", "64"} {
		pureI("math/bits.Len"+w, func(m *M, fn *ssa.Function, a []Value) Value { return m.bitLen(fterm(a[0])) })
	}
	// ----- math/rand
	rnd := func(name string, lim bool) {
		for _, recv := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
			intrinsics[recv+name] = func(m *M, fn *ssa.Function, a []Value) Value {
				w := widthOf(fn.Signature.Results().At(0).Type())
				sg := isSigned(fn.Signature.Results().At(0).Type())
				m.impure()
				if m.drawPos < len(m.draws) {
					// the random source was reset: the same draw again
					if t := m.draws[m.drawPos]; t.w == w {
						m.drawPos++
						if lim {
							n := fterm(a[len(a)-1])
							m.doAssume(m.c.Ult(t, n))
						}
						return t
					}
				}
				t := m.newInput("rand", w)
				m.draws = append(m.draws, t)
				m.drawPos = len(m.draws)
				if lim {
					n := fterm(a[len(a)-1])
					if sg {
						if !m.branch(m.c.Slt(m.c.BV(w, 0), n)) {
							m.goPanicRT("invalid argument to " + name)
						}
					}
					m.assume(m.c.Ult(t, n))
				} else if sg {
					m.assume(m.c.Sle(m.c.BV(w, 0), t))
				} else if name == "Int31" {
					m.assume(m.c.Sle(m.c.BV(w, 0), t))
				}
				m.model = nil
				return t
			}
		}
	}
	for _, n := range []string{"Int31n", "Int63n", "Intn", "IntN", "Int32N", "Int64N", "Uint32N", "Uint64N", "UintN"} {
		rnd(n, true)
	}
	for _, n := range []string{"Int31", "Int63", "Int", "Uint32", "Uint64", "Int32", "Int64"} {
		rnd(n, false)
	}
	// ----- sync
	intrinsics["(*sync.Mutex).Lock"] = func(m *M, fn *ssa.Function, a []Value) Value { m.lock(a[0], true); return nil }
	intrinsics["(*sync.Mutex).Unlock"] = func(m *M, fn *ssa.Function, a []Value) Value { m.unlock(a[0], true); return nil }
	intrinsics["(*sync.Mutex).TryLock"] = func(m *M, fn *ssa.Function, a []Value) Value { return m.c.Bool(m.tryLock(a[0])) }
	intrinsics["(*sync.RWMutex).Lock"] = intrinsics["(*sync.Mutex).Lock"]
	intrinsics["(*sync.RWMutex).Unlock"] = intrinsics["(*sync.Mutex).Unlock"]
	intrinsics["(*sync.RWMutex).RLock"] = func(m *M, fn *ssa.Function, a []Value) Value { m.lock(a[0], false); return nil }
	intrinsics["(*sync.RWMutex).RUnlock"] = func(m *M, fn *ssa.Function, a []Value) Value { m.unlock(a[0], false); return nil }
	intrinsics["(*sync.WaitGroup).Add"] = func(m *M, fn *ssa.Function, a []Value) Value {
		m.wgAdd(a[0], int64(m.concretize(fterm(a[1]), "WaitGroup.Add")))
		return nil
	}
	intrinsics["(*sync.WaitGroup).Done"] = func(m *M, fn *ssa.Function, a []Value) Value { m.wgAdd(a[0], -1); return nil }
	intrinsics["(*sync.WaitGroup).Wait"] = func(m *M, fn *ssa.Function, a []Value) Value { m.wgWait(a[0]); return nil }
	intrinsics["(*sync.WaitGroup).Go"] = func(m *M, fn *ssa.Function, a []Value) Value {
		wg, f := a[0], a[1]
		m.wgAdd(wg, 1)
		m.spawn(nativeFn(func(m *M, _ []Value) Value {
			m.callValue(f, nil)
			m.wgAdd(wg, -1)
			return nil
		}), nil)
		return nil
	}
	intrinsics["(*sync.Once).Do"] = func(m *M, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		st := (*p).(*StructV)
		k := p
		_ = st
		n := m.wgs[k]
		if n == nil {
			n = new(int64)
			m.wgs[k] = n
		}
		if m.onceDone == nil {
			m.onceDone = map[*Value]bool{}
		}
		if m.onceDone[k] {
			return nil
		}
		m.onceDone[k] = true
		if !m.initMode {
			m.undo = append(m.undo, undoRec{f: func() { delete(m.onceDone, k) }})
		}
		m.callValue(a[1], nil)
		return nil
	}
	intrinsics["(*sync.Pool).Get"] = func(m *M, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if l := m.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			m.pools[p] = l[:len(l)-1]
			return v
		}
		st := (*p).(*StructV)
		nf := st.f[len(st.f)-1]
		if _, ok := nf.(NilFunc); ok {
			return Iface{}
		}
		return m.callValue(nf, nil)
	}
	intrinsics["(*sync.Pool).Put"] = func(m *M, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		m.pools[p] = append(m.pools[p], a[1])
		return nil
	}
	intrinsics["(*sync.Map).Load"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return Tuple{Iface{}, m.c.F}
	}
	// ----- errors
	intrinsics["errors.Is"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return m.errorsIs(a[0].(Iface), a[1].(Iface))
	}
	intrinsics["internal/reflectlite.TypeOf"] = nop
	// ----- strings / bytes
	intrinsics["(*strings.Builder).copyCheck"] = func(m *M, fn *ssa.Function, a []Value) Value { return nil }
	intrinsics["internal/bytealg.MakeNoZero"] = func(m *M, fn *ssa.Function, a []Value) Value {
		n := fterm(a[0])
		return m.makeSlice(types.Typ[types.Uint8], n, n)
	}
	intrinsics["internal/stringslite.Clone"] = func(m *M, fn *ssa.Function, a []Value) Value { return a[0] }
	intrinsics["strings.Clone"] = intrinsics["internal/stringslite.Clone"]
	idxByte := func(m *M, bs []*Term, c *Term) Value {
		for i, b := range bs {
			if m.branch(m.c.Eq(b, c)) {
				return m.c.Int(int64(i))
			}
		}
		return m.c.Int(-1)
	}
	intrinsics["internal/bytealg.IndexByteString"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return idxByte(m, m.strBytes(a[0]), fterm(a[1]))
	}
	intrinsics["internal/bytealg.IndexByte"] = func(m *M, fn *ssa.Function, a []Value) Value {
		s := a[0].(*Slice)
		if s.arr == nil {
			return m.c.Int(-1)
		}
		return idxByte(m, m.sliceTerms(s), fterm(a[1]))
	}
	lastIdx := func(m *M, bs []*Term, c *Term) Value {
		for i := len(bs) - 1; i >= 0; i-- {
			if m.branch(m.c.Eq(bs[i], c)) {
				return m.c.Int(int64(i))
			}
		}
		return m.c.Int(-1)
	}
	intrinsics["internal/bytealg.LastIndexByteString"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return lastIdx(m, m.strBytes(a[0]), fterm(a[1]))
	}
	cnt := func(m *M, bs []*Term, c *Term) Value {
		r := m.c.Int(0)
		for _, b := range bs {
			r = m.c.Add(r, m.c.Ite(m.c.Eq(b, c), m.c.Int(1), m.c.Int(0)))
		}
		return r
	}
	intrinsics["internal/bytealg.CountString"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return cnt(m, m.strBytes(a[0]), fterm(a[1]))
	}
	intrinsics["internal/bytealg.Count"] = func(m *M, fn *ssa.Function, a []Value) Value {
		s := a[0].(*Slice)
		if s.arr == nil {
			return m.c.Int(0)
		}
		return cnt(m, m.sliceTerms(s), fterm(a[1]))
	}
	eqB := func(m *M, fn *ssa.Function, a []Value) Value {
		s, t := a[0].(*Slice), a[1].(*Slice)
		ls, lt := m.constLen(s.len), m.constLen(t.len)
		if ls != lt {
			return m.c.F
		}
		if ls == 0 {
			return m.c.T
		}
		x, y := m.sliceTerms(s), m.sliceTerms(t)
		r := m.c.T
		for i := range x {
			r = m.c.And(r, m.c.Eq(x[i], y[i]))
		}
		return r
	}
	intrinsics["internal/bytealg.Equal"] = eqB
	intrinsics["bytes.Equal"] = eqB
	cmpS := func(m *M, a, b Value) Value {
		c := m.c
		return c.Ite(m.strEq(a, b), c.Int(0), c.Ite(m.strLess(a, b), c.Int(-1), c.Int(1)))
	}
	intrinsics["internal/bytealg.CompareString"] = func(m *M, fn *ssa.Function, a []Value) Value { return cmpS(m, a[0], a[1]) }
	intrinsics["internal/bytealg.Compare"] = func(m *M, fn *ssa.Function, a []Value) Value {
		g := func(v Value) Value {
			s := v.(*Slice)
			if s.arr == nil {
				return ""
			}
			return mkStr(m.sliceTerms(s))
		}
		return cmpS(m, g(a[0]), g(a[1]))
	}
	index := func(m *M, s, sub Value) Value {
		if x, ok := s.(string); ok {
			if y, ok := sub.(string); ok {
				return m.c.Int(int64(strings.Index(x, y)))
			}
		}
		n, k := strLen(s), strLen(sub)
		for i := 0; i+k <= n; i++ {
			if m.branch(m.strEq(substr(s, i, i+k), sub)) {
				return m.c.Int(int64(i))
			}
		}
		return m.c.Int(-1)
	}
	intrinsics["strings.Index"] = func(m *M, fn *ssa.Function, a []Value) Value { return index(m, a[0], a[1]) }
	intrinsics["internal/stringslite.Index"] = intrinsics["strings.Index"]
	intrinsics["bytes.Index"] = func(m *M, fn *ssa.Function, a []Value) Value {
		g := func(v Value) Value {
			s := v.(*Slice)
			if s.arr == nil {
				return ""
			}
			return mkStr(m.sliceTerms(s))
		}
		return index(m, g(a[0]), g(a[1]))
	}
	// ----- fmt
	intrinsics["fmt.Errorf"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return m.errorf(a[0], a[1].(*Slice))
	}
	intrinsics["fmt.Sprintf"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return mkStr(m.format(a[0], a[1].(*Slice)))
	}
	intrinsics["fmt.Appendf"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return m.appendTerms(a[0].(*Slice), m.format(a[1], a[2].(*Slice)))
	}
	intrinsics["fmt.Fprintf"] = func(m *M, fn *ssa.Function, a []Value) Value {
		b := m.bytesSlice(m.format(a[1], a[2].(*Slice)), types.Typ[types.Uint8])
		return m.invoke(a[0].(Iface), "Write", b)
	}
	sprint := func(ln bool) intrinsic {
		return func(m *M, fn *ssa.Function, a []Value) Value {
			s := a[0].(*Slice)
			var out []*Term
			n := m.constLen(s.len)
			for i := 0; i < n; i++ {
				v := m.arrRead(s.arr, m.c.Add(s.off, m.c.Int(int64(i)))).(Iface)
				if i > 0 && ln {
					out = append(out, m.c.BV(8, ' '))
				}
				out = append(out, m.fmtVal('v', "", v)...)
			}
			if ln {
				out = append(out, m.c.BV(8, '\n'))
			}
			return mkStr(out)
		}
	}
	intrinsics["fmt.Sprint"] = sprint(false)
	intrinsics["fmt.Sprintln"] = sprint(true)
	for _, n := range []string{"Printf", "Println", "Print", "Fprintln", "Fprint"} {
		intrinsics["fmt."+n] = nop
	}
	// ----- strconv
	intrinsics["strconv.Itoa"] = func(m *M, fn *ssa.Function, a []Value) Value { return m.formatInt(fterm(a[0]), true, 10) }
	intrinsics["strconv.FormatInt"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return m.formatInt(fterm(a[0]), true, int(m.concretize(fterm(a[1]), "base")))
	}
	intrinsics["strconv.FormatUint"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return m.formatInt(fterm(a[0]), false, int(m.concretize(fterm(a[1]), "base")))
	}
	intrinsics["strconv.AppendInt"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return m.appendTerms(a[0].(*Slice), m.strBytes(m.formatInt(fterm(a[1]), true, int(m.concretize(fterm(a[2]), "base")))))
	}
	intrinsics["strconv.AppendUint"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return m.appendTerms(a[0].(*Slice), m.strBytes(m.formatInt(fterm(a[1]), false, int(m.concretize(fterm(a[2]), "base")))))
	}
	intrinsics["strconv.FormatFloat"] = func(m *M, fn *ssa.Function, a []Value) Value {
		bits := int(m.concretize(fterm(a[3]), "bits"))
		v := m.constFloat(fterm(a[0]))
		return strconv.FormatFloat(v, byte(m.concretize(fterm(a[1]), "fmt")), int(int64(m.concretize(fterm(a[2]), "prec"))), bits)
	}
	intrinsics["strconv.ParseFloat"] = func(m *M, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			// concretise byte by byte
			b := m.strBytes(a[0])
			r := make([]byte, len(b))
			for i := range b {
				r[i] = byte(m.concretize(b[i], "ParseFloat byte"))
			}
			s = string(r)
		}
		bits := int(m.concretize(fterm(a[1]), "bits"))
		f, err := strconv.ParseFloat(s, bits)
		if err == nil {
			return Tuple{m.c.F64(f), Iface{}}
		}
		return Tuple{m.c.F64(f), m.numError("ParseFloat", s, err)}
	}
	intrinsics["strconv.Atoi"] = func(m *M, fn *ssa.Function, a []Value) Value {
		if t := m.provenance(a[0]); t != nil {
			return Tuple{t, Iface{}}
		}
		fi := m.rawInfo(fn)
		return m.run(fi, a, nil)
	}
	// ----- runtime & co
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.ReadRange", "internal/race.WriteRange", "internal/msan.Read", "internal/asan.Read"} {
		intrinsics[n] = nop
	}
	intrinsics["internal/godebug.New"] = nop
	intrinsics["(*internal/godebug.Setting).Value"] = func(m *M, fn *ssa.Function, a []Value) Value { return "" }
	intrinsics["(*internal/godebug.Setting).IncNonDefault"] = nop
	intrinsics["internal/abi.NoEscape"] = func(m *M, fn *ssa.Function, a []Value) Value { return a[0] }
	intrinsics["internal/abi.Escape"] = func(m *M, fn *ssa.Function, a []Value) Value { return a[0] }
	intrinsics["reflect.TypeFor"] = nop
	intrinsics["reflect.TypeOf"] = nop
	intrinsics["os.Getenv"] = func(m *M, fn *ssa.Function, a []Value) Value { return "" }
	intrinsics["runtime.GOMAXPROCS"] = func(m *M, fn *ssa.Function, a []Value) Value { return m.c.Int(4) }
	intrinsics["runtime.NumCPU"] = intrinsics["runtime.GOMAXPROCS"]
	initVsym()
}

func prefixIntrinsic(name string) intrinsic {
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicIntr(name)
	}
	return nil
}

func atomicIntr(name string) intrinsic {
	op := name[strings.LastIndex(name, ".")+1:]
	isM := strings.HasPrefix(name, "(")
	pre := func(s string) bool { return strings.HasPrefix(op, s) }
	cell := func(m *M, v Value) Value {
		m.yieldPoint()
		if !isM {
			return v
		}
		p := v.(*Value)
		if p == nil {
			m.nilDeref()
		}
		st := (*p).(*StructV)
		return &st.f[len(st.f)-1]
	}
	isBool := strings.Contains(name, "atomic.Bool")
	isVal := strings.Contains(name, "atomic.Value")
	if isVal || strings.Contains(name, "atomic.Uint128") {
		return nil
	}
	toB := func(m *M, v Value) Value {
		if isBool {
			if t, ok := v.(*Term); ok && t.w != 0 {
				return m.c.Not(m.c.Eq(t, m.c.BV(t.w, 0)))
			}
		}
		return v
	}
	frB := func(m *M, v Value) Value {
		if isBool {
			t := v.(*Term)
			return m.c.Ite(t, m.c.BV(32, 1), m.c.BV(32, 0))
		}
		return v
	}
	switch {
	case pre("Load"):
		return func(m *M, fn *ssa.Function, a []Value) Value { return toB(m, m.load(cell(m, a[0]))) }
	case pre("Store"):
		return func(m *M, fn *ssa.Function, a []Value) Value {
			m.store(cell(m, a[0]), frB(m, a[1]))
			return nil
		}
	case pre("Add"):
		return func(m *M, fn *ssa.Function, a []Value) Value {
			p := cell(m, a[0])
			r := m.c.Add(m.load(p).(*Term), a[1].(*Term))
			m.store(p, r)
			return r
		}
	case pre("Swap"):
		return func(m *M, fn *ssa.Function, a []Value) Value {
			p := cell(m, a[0])
			r := m.load(p)
			m.store(p, frB(m, a[1]))
			return toB(m, r)
		}
	case pre("CompareAndSwap"):
		return func(m *M, fn *ssa.Function, a []Value) Value {
			p := cell(m, a[0])
			if m.branch(m.equal(m.load(p), frB(m, a[1]))) {
				m.store(p, frB(m, a[2]))
				return m.c.T
			}
			return m.c.F
		}
	}
	return nil
}

// rawInfo compiles a function ignoring its intrinsic.
func (m *M) rawInfo(fn *ssa.Function) *fnInfo {
	if fi := m.rawFns[fn]; fi != nil {
		return fi
	}
	if m.rawFns == nil {
		m.rawFns = map[*ssa.Function]*fnInfo{}
	}
	fi := m.compile(fn)
	m.rawFns[fn] = fi
	return fi
}

func (m *M) bitLen(t *Term) *Term {
	r := m.c.Int(0)
	for i := uint8(0); i < t.w; i++ {
		r = m.c.Ite(m.c.Eq(m.c.Extract(t, i, 1), m.c.BV(1, 1)), m.c.Int(int64(i)+1), r)
	}
	return r
}

func (m *M) constFloat(t *Term) float64 {
	if !t.isConst() {
		b := m.c.FBits(t)
		// concretise a source of finitely many values when there is one
		v := m.concretize(b, "float")
		if t.w == 32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	return t.fval()
}

func (m *M) invoke(i Iface, name string, args ...Value) Value {
	if i.t == nil {
		m.nilDeref()
	}
	ssaMu.Lock()
	ms := m.P.prog.MethodSets.MethodSet(i.t)
	var fn *ssa.Function
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			fn = m.P.prog.MethodValue(ms.At(k))
		}
	}
	ssaMu.Unlock()
	if fn == nil {
		panic(m.unsupported("no method %s on %s", name, i.t))
	}
	return m.call(fn, append([]Value{i.v}, args...), nil)
}

func (m *M) hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	ssaMu.Lock()
	defer ssaMu.Unlock()
	ms := m.P.prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (m *M) errorsIs(err, target Iface) *Term {
	if err.t == nil || target.t == nil {
		return m.c.Bool(err.t == nil && target.t == nil)
	}
	for {
		if types.Comparable(target.t) && types.Identical(err.t, target.t) {
			e := m.equal(err.v, target.v)
			if m.branch(e) {
				return m.c.T
			}
		}
		if m.hasMethod(err.t, "Is") {
			r := m.invoke(err, "Is", target)
			if m.branch(r.(*Term)) {
				return m.c.T
			}
		}
		if !m.hasMethod(err.t, "Unwrap") {
			return m.c.F
		}
		u := m.invoke(err, "Unwrap")
		switch x := u.(type) {
		case Iface:
			if x.t == nil {
				return m.c.F
			}
			err = x
		case *Slice:
			n := m.constLen(x.len)
			for i := 0; i < n; i++ {
				e := m.arrRead(x.arr, m.c.Add(x.off, m.c.Int(int64(i)))).(Iface)
				if m.branch(m.errorsIs(e, target)) {
					return m.c.T
				}
			}
			return m.c.F
		default:
			return m.c.F
		}
	}
}

func (m *M) appendTerms(s *Slice, b []*Term) Value {
	bs := m.bytesSlice(b, types.Typ[types.Uint8])
	if s.arr == nil {
		return bs
	}
	return m.appendTo(s, bs, nil)
}

func (m *M) numError(fun, s string, err error) Value {
	ne := err.(*strconv.NumError)
	name := "ErrSyntax"
	if ne.Err == strconv.ErrRange {
		name = "ErrRange"
	}
	p := m.P.pkgs["strconv"]
	e := m.load(m.global(p.Var(name)))
	t := p.Type("NumError").Type()
	c := new(Value)
	*c = &StructV{f: []Value{fun, s, e}}
	return Iface{types.NewPointer(t), c}
}

// formatInt writes an integer in a base; symbolic values fork on the sign and
// the number of digits.
func (m *M) formatInt(t *Term, signed bool, base int) Value {
	if t.isConst() {
		if signed {
			return strconv.FormatInt(sext64(t.c, t.w), base)
		}
		return strconv.FormatUint(t.c, base)
	}
	orig := t
	if t.w < 64 {
		if signed {
			t = m.c.Sext(t, 64)
		} else {
			t = m.c.Zext(t, 64)
		}
	}
	neg := false
	if signed {
		neg = m.branch(m.c.Slt(t, m.c.Int(0)))
	}
	mag := t
	if neg {
		mag = m.c.Neg(t)
	}
	n := 1
	p := uint64(1)
	for {
		if p > math.MaxUint64/uint64(base) {
			break
		}
		p *= uint64(base)
		if m.branch(m.c.Ult(mag, m.c.BV(64, p))) {
			break
		}
		n++
	}
	var out []*Term
	if neg {
		out = append(out, m.c.BV(8, '-'))
	}
	div := uint64(1)
	for i := 1; i < n; i++ {
		div *= uint64(base)
	}
	for i := 0; i < n; i++ {
		q := m.c.UDiv(mag, m.c.BV(64, div))
		d := m.c.Extract(m.c.URem(q, m.c.BV(64, uint64(base))), 0, 8)
		ch := m.c.Add(d, m.c.BV(8, '0'))
		if base > 10 {
			ch = m.c.Ite(m.c.Ult(d, m.c.BV(8, 10)), ch, m.c.Add(d, m.c.BV(8, 'a'-10)))
		}
		out = append(out, ch)
		div /= uint64(base)
	}
	if base == 10 && orig.w == 64 {
		if m.prov == nil {
			m.prov = map[string]*Term{}
		}
		m.prov[termKey(out)] = orig
	}
	return mkStr(out)
}

func termKey(b []*Term) string {
	var sb strings.Builder
	for _, t := range b {
		sb.WriteString(strconv.Itoa(int(t.id)))
		sb.WriteByte(',')
	}
	return sb.String()
}

func (m *M) provenance(v Value) *Term {
	s, ok := v.(*SymStr)
	if !ok || m.prov == nil {
		return nil
	}
	return m.prov[termKey(s.b)]
}

func (m *M) errorf(f Value, args *Slice) Value {
	s, _ := f.(string)
	msg := mkStr(m.format(f, args))
	var wrapped *Iface
	if strings.Contains(s, "%w") {
		n := m.constLen(args.len)
		k := 0
		for i := 0; i+1 < len(s); i++ {
			if s[i] != '%' {
				continue
			}
			i++
			for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
				i++
			}
			if s[i] == '%' {
				continue
			}
			if s[i] == 'w' && k < n {
				w := m.arrRead(args.arr, m.c.Add(args.off, m.c.Int(int64(k)))).(Iface)
				wrapped = &w
			}
			k++
		}
	}
	c := new(Value)
	if wrapped != nil {
		*c = &StructV{f: []Value{msg, *wrapped}}
		return Iface{types.NewPointer(m.P.pkgs["fmt"].Type("wrapError").Type()), c}
	}
	*c = &StructV{f: []Value{msg}}
	return Iface{types.NewPointer(m.P.pkgs["errors"].Type("errorString").Type()), c}
}

func (m *M) lit(s string) []*Term { return m.strBytes(s) }

func (m *M) format(f Value, args *Slice) []*Term {
	s, ok := f.(string)
	if !ok {
		panic(m.unsupported("symbolic format string"))
	}
	n := m.constLen(args.len)
	k := 0
	var out []*Term
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, m.c.BV(8, uint64(s[i])))
			continue
		}
		i++
		st := i
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			break
		}
		if s[i] == '%' {
			out = append(out, m.c.BV(8, '%'))
			continue
		}
		if k >= n {
			out = append(out, m.lit("%!"+string(s[i])+"(MISSING)")...)
			continue
		}
		v := m.arrRead(args.arr, m.c.Add(args.off, m.c.Int(int64(k)))).(Iface)
		k++
		out = append(out, m.fmtVal(s[i], s[st:i], v)...)
	}
	return out
}

func (m *M) fmtVal(verb byte, flags string, v Iface) []*Term {
	if v.t == nil {
		return m.lit("<nil>")
	}
	switch verb {
	case 's', 'v', 'q', 'w':
		var str Value
		if p, ok := v.v.(*Value); ok && p == nil {
			return m.lit("<nil>")
		}
		switch {
		case m.hasMethod(v.t, "Error"):
			str = m.invoke(v, "Error")
		case m.hasMethod(v.t, "String"):
			str = m.invoke(v, "String")
		default:
			switch x := v.v.(type) {
			case string, *SymStr:
				str = x
			case *Slice:
				if b, ok := v.t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb != 'v' {
					str = ""
					if x.arr != nil {
						str = mkStr(m.sliceTerms(x))
					}
				}
			}
		}
		if str != nil {
			if verb == 'q' {
				if cs, ok := str.(string); ok && flags == "" {
					return m.lit(strconv.Quote(cs))
				}
				return m.strBytes(m.call(m.P.fn("strconv", "Quote"), []Value{str}, nil))
			}
			return m.strBytes(str)
		}
		if verb == 'q' {
			return m.lit("%!q(?)")
		}
	}
	if t, ok := v.v.(*Term); ok {
		if t.w == 0 {
			if t.isConst() {
				return m.lit(strconv.FormatBool(t.isTrue()))
			}
			if m.branch(t) {
				return m.lit("true")
			}
			return m.lit("false")
		}
		if t.fp {
			if t.isConst() {
				return m.lit(fmt.Sprintf("%"+flags+string(verb), t.fval()))
			}
			return m.lit("<float>")
		}
		sg := isSigned(v.t)
		if t.isConst() {
			if sg {
				return m.lit(fmt.Sprintf("%"+flags+string(verb), sext64(t.c, t.w)))
			}
			return m.lit(fmt.Sprintf("%"+flags+string(verb), t.c))
		}
		switch verb {
		case 'd', 'v':
			if flags == "" || flags == "+" {
				return m.strBytes(m.formatInt(t, sg, 10))
			}
		case 'x', 'X':
			// fixed width with zero padding, unsigned
			if len(flags) == 2 && flags[0] == '0' {
				w := int(flags[1] - '0')
				x := t
				if x.w < 64 {
					if sg {
						x = m.c.Sext(x, 64)
					} else {
						x = m.c.Zext(x, 64)
					}
				}
				if sg && m.branch(m.c.Slt(x, m.c.Int(0))) {
					panic(m.unsupported("%%x of a negative symbolic value"))
				}
				for w < 16 && !m.branch(m.c.Ult(x, m.c.BV(64, uint64(1)<<(4*uint(w))))) {
					w++
				}
				var out []*Term
				for i := w - 1; i >= 0; i-- {
					d := m.c.Zext(m.c.Extract(x, uint8(4*i), 4), 8)
					a := uint64('a' - 10)
					if verb == 'X' {
						a = 'A' - 10
					}
					out = append(out, m.c.Ite(m.c.Ult(d, m.c.BV(8, 10)), m.c.Add(d, m.c.BV(8, '0')), m.c.Add(d, m.c.BV(8, a))))
				}
				return out
			}
		case 'c':
			return m.strBytes(m.runeString(m.c.Extract(m.c.Zext(t, 64), 0, 32), m.c.Sext(t, 64)))
		case 'U':
			return m.lit("<rune>")
		}
		panic(m.unsupported("format %%%s%c of a symbolic value", flags, verb))
	}
	return m.lit("<" + v.t.String() + ">")
}

// ---------- vsym API ----------

func (m *M) cstr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(m.unsupported("symbolic name"))
	}
	return s
}

func initVsym() {
	reg := func(name string, f intrinsic) { intrinsics[vsymPath+name] = f }
	bv := func(name string, w uint8) {
		reg(name, func(m *M, fn *ssa.Function, a []Value) Value {
			m.impure()
			return m.newInput(m.cstr(a[0]), w)
		})
	}
	bv("Bool", 0)
	bv("U8", 8)
	bv("U16", 16)
	bv("U32", 32)
	bv("U64", 64)
	bv("I16", 16)
	bv("I32", 32)
	bv("I64", 64)
	reg("Int", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		lo, hi := fterm(a[1]), fterm(a[2])
		if lo.isConst() && hi.isConst() {
			return m.newIntInput(m.cstr(a[0]), int64(lo.c), int64(hi.c))
		}
		t := m.newInput(m.cstr(a[0]), 64)
		m.doAssume(m.c.And(m.c.Sle(lo, t), m.c.Sle(t, hi)))
		return t
	})
	reg("Choose", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		n := m.concretize(fterm(a[1]), "Choose")
		k := m.choose(int(n))
		m.inputs = append(m.inputs, Input{name: m.fresh(m.cstr(a[0])), kind: "const", t: m.c.Int(int64(k)), w: 64, n: m.c.Int(int64(n))})
		return m.c.Int(int64(k))
	})
	reg("Fork", func(m *M, fn *ssa.Function, a []Value) Value {
		return m.c.BV(64, m.concretize(fterm(a[0]), "Fork"))
	})
	reg("Bytes", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		return m.newSlice(m.cstr(a[0]), types.Typ[types.Uint8], fterm(a[1]))
	})
	reg("Slice", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		return m.newSlice(m.cstr(a[0]), fn.TypeArgs()[0], fterm(a[1]))
	})
	reg("Assume", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		m.doAssume(fterm(a[0]))
		return nil
	})
	reg("Assert", func(m *M, fn *ssa.Function, a []Value) Value {
		m.assert(fterm(a[0]), m.cstr(a[1]))
		return nil
	})
	reg("Cut", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		m.cut(fterm(a[0]))
		return nil
	})
	reg("RandReset", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		m.drawPos = 0
		return nil
	})
	reg("Hint", func(m *M, fn *ssa.Function, a []Value) Value {
		m.hint(fterm(a[0]))
		return nil
	})
	reg("Cover", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		if !m.replaying() {
			m.rec.cover(m.cstr(a[0]), m)
		}
		return nil
	})
	reg("Prefer", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		m.soft = append(m.soft, fterm(a[0]))
		return nil
	})
	reg("Symbolic", func(m *M, fn *ssa.Function, a []Value) Value { return m.c.T })
	reg("MapOrders", func(m *M, fn *ssa.Function, a []Value) Value { m.mapOrders = fterm(a[0]).isTrue(); return nil })
	reg("Schedules", func(m *M, fn *ssa.Function, a []Value) Value { m.schedules = fterm(a[0]).isTrue(); return nil })
	reg("MaxAlloc", func(m *M, fn *ssa.Function, a []Value) Value { m.maxAlloc = fterm(a[0]).c; return nil })
	reg("Bound", func(m *M, fn *ssa.Function, a []Value) Value {
		v := fterm(a[1])
		if m.cfg.tier == "thorough" {
			v = fterm(a[2])
		}
		m.rec.bound(m.cstr(a[0]), int64(v.c))
		return v
	})
	reg("Note", nop)
	reg("Observe", func(m *M, fn *ssa.Function, a []Value) Value {
		m.impure()
		if m.rec.xn > 0 {
			t := fterm(a[1])
			m.obs = append(m.obs, obsRec{m.cstr(a[0]), t})
		}
		return nil
	})
	fold := func(and bool) intrinsic {
		return func(m *M, fn *ssa.Function, a []Value) Value {
			s := a[0].(*Slice)
			n := m.constLen(s.len)
			r := m.c.Bool(and)
			for i := 0; i < n; i++ {
				t := m.arrRead(s.arr, m.c.Add(s.off, m.c.Int(int64(i)))).(*Term)
				if and {
					r = m.c.And(r, t)
				} else {
					r = m.c.Or(r, t)
				}
			}
			return r
		}
	}
	reg("And", fold(true))
	reg("Or", fold(false))
	reg("Implies", func(m *M, fn *ssa.Function, a []Value) Value { return m.c.Or(m.c.Not(fterm(a[0])), fterm(a[1])) })
	// Ite[T] picks a value without forking.
	reg("Ite", func(m *M, fn *ssa.Function, a []Value) Value {
		v, ok := m.merge(fterm(a[0]), a[1], a[2])
		if !ok {
			if m.branch(fterm(a[0])) {
				return a[1]
			}
			return a[2]
		}
		return v
	})
	// Registry for model packages: per-path identity → value.
	reg("PtrKey", func(m *M, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		k, ok := constKey(i.v)
		if !ok {
			panic(m.unsupported("PtrKey of %T", i.v))
		}
		return k
	})
}
