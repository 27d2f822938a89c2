package main

// Values and memory of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

// Runtime representation:
//
//	bool, integers, floats      *Term
//	string                      string | *SymStr (concrete length)
//	pointer, unsafe.Pointer     *Value (nil allowed) | *ElemPtr
//	struct                      *StructV
//	array                       *Arr
//	slice                       *Slice (arr == nil: nil slice)
//	map                         *MapV (nil allowed)
//	chan                        *ChanV (nil allowed)
//	interface                   Iface
//	func                        *ssa.Function | *Closure | *ssa.Builtin | nilFunc
//	tuple                       Tuple
type (
	StructV struct{ f []Value }
	Tuple   []Value
	Iface   struct {
		t types.Type
		v Value
	}
	Closure struct {
		fn  *ssa.Function
		env []Value
	}
	NilFunc struct{}
	SymStr  struct{ b []*Term }
	Slice   struct {
		arr           *Arr
		off, len, cap *Term
	}
	ElemPtr struct {
		arr  *Arr
		idx  *Term
		path []int
	}
)

// Arr is array storage. A dense array has one cell per element; otherwise the
// array is a log over a base (zero value or uninterpreted function).
type Arr struct {
	elemT types.Type
	n     *Term // length
	dense []Value
	log   bool
	// log mode
	base    func(idx *Term) Value // value before any write
	layers  []arrLayer            // oldest first
	persist bool
}

type arrLayer struct {
	sparse map[uint64]Value // writes at constant indices
	idx    *Term            // or one write at a symbolic index
	val    Value
	cp     *arrCopy // or a block copy
}

type arrCopy struct {
	dst, n *Term
	src    func(i *Term) Value // i relative to dst
}

type MapV struct {
	keys, vals []Value
	idx        map[string]int // canonical constant keys
	sym        bool           // some key is symbolic
	persist    bool
}

type ChanV struct {
	buf     []Value
	cap     int
	closed  bool
	waiting int
}

func (m *M) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return (*Value)(nil)
		}
		if t.Info()&types.IsString != 0 {
			return ""
		}
		if t.Info()&types.IsBoolean != 0 {
			return m.c.F
		}
		if t.Info()&types.IsFloat != 0 {
			return m.c.Flt(basicWidth(t), 0)
		}
		if t.Info()&types.IsInteger != 0 {
			return m.c.BV(basicWidth(t), 0)
		}
		if t.Info()&types.IsComplex != 0 {
			return Tuple{m.c.F64(0), m.c.F64(0)}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := &StructV{f: make([]Value, t.NumFields())}
		for i := range s.f {
			s.f[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		return m.newArr(t.Elem(), m.c.Int(t.Len()))
	case *types.Slice:
		return m.nilSlice()
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return NilFunc{}
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = m.zero(t.At(i).Type())
		}
		return r
	}
	panic(m.unsupported("zero of %s", t))
}

func (m *M) nilSlice() *Slice {
	z := m.c.Int(0)
	return &Slice{nil, z, z, z}
}

func basicWidth(t *types.Basic) uint8 {
	switch t.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func widthOf(t types.Type) uint8 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return basicWidth(b)
	}
	return 64
}

const denseMax = 1 << 18

// flatElem reports whether elements can live in log mode: scalars or structs
// of scalars.
func flatElem(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString == 0 && t.Kind() != types.UnsafePointer && t.Info()&types.IsComplex == 0
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !flatElem(t.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *M) newArr(elem types.Type, n *Term) *Arr {
	a := &Arr{elemT: elem, n: n, persist: m.initMode}
	if n.isConst() && n.c <= denseMax {
		a.dense = make([]Value, n.c)
		if len(a.dense) == 0 {
			return a
		}
		if flatScalar(elem) {
			z := m.zero(elem)
			for i := range a.dense {
				a.dense[i] = z
			}
			return a
		}
		for i := range a.dense {
			a.dense[i] = m.zero(elem)
		}
		return a
	}
	if !flatElem(elem) {
		if !n.isConst() {
			v := m.concretize(n, "array length")
			return m.newArr(elem, m.c.BV(64, v))
		}
		panic(m.unsupported("array of %d %s", n.c, elem))
	}
	a.log = true
	z := m.zero(elem)
	a.base = func(*Term) Value { return z }
	return a
}

func flatScalar(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		_ = t
		return true
	}
	return false
}

// copyVal makes an independent copy of a value (structs and arrays).
func (m *M) copyVal(v Value) Value {
	switch v := v.(type) {
	case *StructV:
		r := &StructV{f: make([]Value, len(v.f))}
		for i, x := range v.f {
			r.f[i] = m.copyVal(x)
		}
		return r
	case *Arr:
		r := &Arr{elemT: v.elemT, n: v.n, log: v.log, base: v.base, persist: m.initMode}
		if v.log {
			r.layers = copyLayers(v.layers)
		} else {
			r.dense = make([]Value, len(v.dense))
			for i, x := range v.dense {
				r.dense[i] = m.copyVal(x)
			}
		}
		return r
	}
	return v
}

func copyLayers(l []arrLayer) []arrLayer {
	r := make([]arrLayer, len(l))
	copy(r, l)
	for i := range r {
		if r[i].sparse != nil {
			s := make(map[uint64]Value, len(r[i].sparse))
			for k, v := range r[i].sparse {
				s[k] = v
			}
			r[i].sparse = s
		}
	}
	return r
}

// setCell stores v into the cell (structs and arrays are stored in place so
// that pointers into them stay valid).
func (m *M) setCell(p *Value, v Value) {
	switch nv := v.(type) {
	case *StructV:
		if old, ok := (*p).(*StructV); ok && len(old.f) == len(nv.f) {
			if old == nv {
				return
			}
			tmp := make([]Value, len(nv.f))
			for i := range nv.f {
				tmp[i] = m.copyVal(nv.f[i])
			}
			for i := range old.f {
				m.setCell(&old.f[i], tmp[i])
			}
			return
		}
		v = m.copyVal(v)
	case *Arr:
		if old, ok := (*p).(*Arr); ok && !old.log && !nv.log && len(old.dense) == len(nv.dense) {
			if old == nv {
				return
			}
			for i := range old.dense {
				m.setCell(&old.dense[i], m.copyVal(nv.dense[i]))
			}
			return
		}
		if old, ok := (*p).(*Arr); ok && old.log && nv.log {
			m.saveArr(old)
			old.base, old.layers = nv.base, copyLayers(nv.layers)
			return
		}
		v = m.copyVal(v)
	}
	if !m.initMode {
		m.undo = append(m.undo, undoRec{p, *p, nil})
	}
	*p = v
}

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

func (m *M) saveArr(a *Arr) {
	if a.persist && !m.initMode {
		base, layers := a.base, copyLayers(a.layers)
		m.undo = append(m.undo, undoRec{f: func() { a.base, a.layers = base, layers }})
	}
}

func (m *M) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := &m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undoRec{}
	}
	m.undo = m.undo[:0]
}

// load reads through a pointer.
func (m *M) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			m.nilDeref()
		}
		return m.copyVal(*p)
	case *ElemPtr:
		return m.copyVal(project(m.arrRead(p.arr, p.idx), p.path))
	}
	panic(m.unsupported("load through %T", p))
}

func project(v Value, path []int) Value {
	for _, i := range path {
		v = v.(*StructV).f[i]
	}
	return v
}

func inject(v Value, path []int, x Value) Value {
	if len(path) == 0 {
		return x
	}
	s := v.(*StructV)
	r := &StructV{f: append([]Value{}, s.f...)}
	r.f[path[0]] = inject(s.f[path[0]], path[1:], x)
	return r
}

func (m *M) store(p Value, v Value) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	switch p := p.(type) {
	case *Value:
		if p == nil {
			m.nilDeref()
		}
		m.setCell(p, v)
		return
	case *ElemPtr:
		if len(p.path) > 0 {
			v = inject(m.arrRead(p.arr, p.idx), p.path, v)
		}
		m.arrWrite(p.arr, p.idx, v)
		return
	}
	panic(m.unsupported("store through %T", p))
}

// elemAddr gives a pointer to element idx (already bounds checked).
func (m *M) elemAddr(a *Arr, idx *Term) Value {
	if !a.log && idx.isConst() {
		return &a.dense[idx.c]
	}
	if !a.log && !flatElem(a.elemT) {
		i := m.concretize(idx, "index")
		if i >= uint64(len(a.dense)) {
			m.infeasible()
		}
		return &a.dense[i]
	}
	return &ElemPtr{arr: a, idx: idx}
}

func (m *M) arrRead(a *Arr, idx *Term) Value {
	if !a.log {
		if idx.isConst() {
			return a.dense[idx.c]
		}
		lo, hi := idx.lo, idx.hi
		if hi >= uint64(len(a.dense)) {
			hi = uint64(len(a.dense)) - 1
		}
		if lo > hi {
			m.infeasible()
		}
		if hi-lo > 4200 {
			i := m.concretize(idx, "read index")
			if i >= uint64(len(a.dense)) {
				m.infeasible()
			}
			return a.dense[i]
		}
		r := a.dense[hi]
		for i := int64(hi) - 1; i >= int64(lo); i-- {
			if sameVal(a.dense[i], r) {
				continue
			}
			v, ok := m.merge(m.c.Eq(idx, m.c.BV(64, uint64(i))), a.dense[i], r)
			if !ok {
				k := m.concretize(idx, "read index")
				return a.dense[k]
			}
			r = v
		}
		return r
	}
	return m.logRead(a, len(a.layers), idx)
}

func sameVal(a, b Value) bool {
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	return ok && ok2 && x == y
}

func (m *M) logRead(a *Arr, n int, idx *Term) Value {
	type cw struct {
		c *Term
		v Value
	}
	var chain []cw
	var r Value
	for n--; ; n-- {
		if n < 0 {
			r = a.base(idx)
			break
		}
		l := &a.layers[n]
		if l.sparse != nil {
			if idx.isConst() {
				if v, ok := l.sparse[idx.c]; ok {
					r = v
					break
				}
				continue
			}
			keys := make([]uint64, 0, len(l.sparse))
			for k := range l.sparse {
				if k >= idx.lo && k <= idx.hi {
					keys = append(keys, k)
				}
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
			for _, k := range keys {
				e := m.c.Eq(idx, m.c.BV(64, k))
				if !e.isFalse() {
					chain = append(chain, cw{e, l.sparse[k]})
				}
			}
			continue
		}
		if l.cp != nil {
			rel := m.c.Sub(idx, l.cp.dst)
			in := m.c.Ult(rel, l.cp.n)
			if in.isFalse() {
				continue
			}
			if in.isTrue() {
				r = l.cp.src(rel)
				break
			}
			chain = append(chain, cw{in, l.cp.src(rel)})
			continue
		}
		e := m.c.Eq(idx, l.idx)
		if e.isFalse() {
			continue
		}
		if e.isTrue() {
			r = l.val
			break
		}
		chain = append(chain, cw{e, l.val})
	}
	for i := len(chain) - 1; i >= 0; i-- {
		v, ok := m.merge(chain[i].c, chain[i].v, r)
		if !ok {
			panic(m.unsupported("array element merge"))
		}
		r = v
	}
	return r
}

func (m *M) arrWrite(a *Arr, idx *Term, v Value) {
	v = m.copyVal(v)
	if !a.log {
		if idx.isConst() {
			m.setCell(&a.dense[idx.c], v)
			return
		}
		lo, hi := idx.lo, idx.hi
		if hi >= uint64(len(a.dense)) {
			hi = uint64(len(a.dense)) - 1
		}
		if hi-lo > 4200 {
			i := m.concretize(idx, "write index")
			m.setCell(&a.dense[i], v)
			return
		}
		for i := lo; i <= hi; i++ {
			e := m.c.Eq(idx, m.c.BV(64, i))
			if e.isFalse() {
				continue
			}
			x, ok := m.merge(e, v, a.dense[i])
			if !ok {
				panic(m.unsupported("array element merge"))
			}
			m.setCell(&a.dense[i], x)
		}
		return
	}
	m.saveArr(a)
	if idx.isConst() {
		if n := len(a.layers); n == 0 || a.layers[n-1].sparse == nil {
			a.layers = append(a.layers, arrLayer{sparse: map[uint64]Value{}})
		}
		a.layers[len(a.layers)-1].sparse[idx.c] = v
		return
	}
	a.layers = append(a.layers, arrLayer{idx: idx, val: v})
}

// merge builds ite(c, a, b) for values of equal shape.
func (m *M) merge(c *Term, a, b Value) (Value, bool) {
	if c.isTrue() {
		return a, true
	}
	if c.isFalse() {
		return b, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w || x.fp != y.fp {
			return nil, false
		}
		return m.c.Ite(c, x, y), true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		r := &StructV{f: make([]Value, len(x.f))}
		for i := range x.f {
			v, ok := m.merge(c, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			r.f[i] = v
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := m.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return nil, false
		}
		if x.t == nil {
			return x, true
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.merge(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	case string:
		if y, ok := b.(string); ok && x == y {
			return x, true
		}
		return m.mergeStr(c, a, b)
	case *SymStr:
		return m.mergeStr(c, a, b)
	case *Value:
		if y, ok := b.(*Value); ok && x == y {
			return x, true
		}
		return nil, false
	case *Slice:
		y, ok := b.(*Slice)
		if !ok || x.arr != y.arr {
			return nil, false
		}
		return &Slice{x.arr, m.c.Ite(c, x.off, y.off), m.c.Ite(c, x.len, y.len), m.c.Ite(c, x.cap, y.cap)}, true
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || x.log || y.log || len(x.dense) != len(y.dense) || len(x.dense) > 64 {
			return nil, false
		}
		r := &Arr{elemT: x.elemT, n: x.n, dense: make([]Value, len(x.dense)), persist: m.initMode}
		for i := range x.dense {
			v, ok := m.merge(c, x.dense[i], y.dense[i])
			if !ok {
				return nil, false
			}
			r.dense[i] = v
		}
		return r, true
	case *ElemPtr:
		y, ok := b.(*ElemPtr)
		if !ok || x.arr != y.arr || fmt.Sprint(x.path) != fmt.Sprint(y.path) {
			return nil, false
		}
		return &ElemPtr{x.arr, m.c.Ite(c, x.idx, y.idx), x.path}, true
	case NilFunc:
		_, ok := b.(NilFunc)
		return a, ok
	case *ssa.Function:
		if y, ok := b.(*ssa.Function); ok && x == y {
			return a, true
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return a, true
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && x == y {
			return a, true
		}
	case *ChanV:
		if y, ok := b.(*ChanV); ok && x == y {
			return a, true
		}
	case nil:
		return a, b == nil
	}
	return nil, false
}

func (m *M) mergeStr(c *Term, a, b Value) (Value, bool) {
	x, y := m.strBytes(a), m.strBytes(b)
	if x == nil && y == nil {
		return "", true
	}
	if len(x) != len(y) {
		return nil, false
	}
	r := make([]*Term, len(x))
	for i := range r {
		r[i] = m.c.Ite(c, x[i], y[i])
	}
	return mkStr(r), true
}

// ---------- strings ----------

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func (m *M) strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := range r {
			r[i] = m.c.BV(8, uint64(v[i]))
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(m.unsupported("string value %T", v))
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.c)
	}
	return string(r)
}

func substr(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi])
	}
	panic("substr")
}

func (m *M) strEq(a, b Value) *Term {
	x, ok := a.(string)
	y, ok2 := b.(string)
	if ok && ok2 {
		return m.c.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return m.c.F
	}
	p, q := m.strBytes(a), m.strBytes(b)
	r := m.c.T
	for i := range p {
		r = m.c.And(r, m.c.Eq(p[i], q[i]))
	}
	return r
}

func (m *M) strLess(a, b Value) *Term {
	x, ok := a.(string)
	y, ok2 := b.(string)
	if ok && ok2 {
		return m.c.Bool(x < y)
	}
	p, q := m.strBytes(a), m.strBytes(b)
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	r := m.c.Bool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		r = m.c.Or(m.c.Ult(p[i], q[i]), m.c.And(m.c.Eq(p[i], q[i]), r))
	}
	return r
}

// sliceBytes reads a []byte slice of concrete length.
func (m *M) sliceTerms(s *Slice) []*Term {
	n := m.constLen(s.len)
	r := make([]*Term, n)
	for i := range r {
		r[i] = m.arrRead(s.arr, m.c.Add(s.off, m.c.Int(int64(i)))).(*Term)
	}
	return r
}

func (m *M) constLen(t *Term) int {
	v := m.concretize(t, "length")
	if v > 1<<24 {
		panic(m.unsupported("length %d", v))
	}
	return int(v)
}

func (m *M) bytesSlice(b []*Term, elem types.Type) *Slice {
	a := &Arr{elemT: elem, n: m.c.Int(int64(len(b))), dense: make([]Value, len(b)), persist: m.initMode}
	for i, t := range b {
		a.dense[i] = t
	}
	return &Slice{a, m.c.Int(0), a.n, a.n}
}

// ---------- equality ----------

func (m *M) equal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.fp {
			return m.c.FCmp(OpFEq, x, y)
		}
		return m.c.Eq(x, y)
	case string, *SymStr:
		return m.strEq(a, b)
	case *StructV:
		y := b.(*StructV)
		r := m.c.T
		for i := range x.f {
			r = m.c.And(r, m.equal(x.f[i], y.f[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Arr:
		y := b.(*Arr)
		r := m.c.T
		if x.log || y.log {
			panic(m.unsupported("comparing large arrays"))
		}
		for i := range x.dense {
			r = m.c.And(r, m.equal(x.dense[i], y.dense[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(fmt.Sprintf("equal iface with %T", b))
		}
		if x.t == nil || y.t == nil {
			return m.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.c.F
		}
		if !types.Comparable(x.t) {
			m.goPanicRT("runtime error: comparing uncomparable type " + x.t.String())
		}
		return m.equal(x.v, y.v)
	case *Value:
		switch y := b.(type) {
		case *Value:
			return m.c.Bool(x == y)
		case *ElemPtr:
			if x == nil {
				return m.c.F
			}
			if !y.arr.log && y.idx.isConst() && len(y.path) == 0 {
				return m.c.Bool(x == &y.arr.dense[y.idx.c])
			}
			return m.c.F
		}
	case *ElemPtr:
		if y, ok := b.(*ElemPtr); ok {
			if x.arr != y.arr || len(x.path) != len(y.path) {
				return m.c.F
			}
			return m.c.Eq(x.idx, y.idx)
		}
		return m.equal(b, a)
	case *MapV:
		return m.c.Bool(x == b.(*MapV))
	case *ChanV:
		return m.c.Bool(x == b.(*ChanV))
	case *Slice:
		y := b.(*Slice)
		if y.arr == nil {
			return m.c.Bool(x.arr == nil)
		}
		if x.arr == nil {
			return m.c.Bool(y.arr == nil)
		}
	case NilFunc:
		_, ok := b.(NilFunc)
		return m.c.Bool(ok)
	case *ssa.Function, *Closure, *ssa.Builtin:
		if _, ok := b.(NilFunc); ok {
			return m.c.F
		}
		return m.c.Bool(a == b)
	case Tuple: // complex
		y := b.(Tuple)
		return m.c.And(m.equal(x[0], y[0]), m.equal(x[1], y[1]))
	}
	panic(m.unsupported("equality of %T and %T", a, b))
}

// constKey gives a canonical key for constant map keys.
func constKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return fmt.Sprintf("i%d", v.c), true
		}
	case string:
		return "s" + v, true
	case *StructV:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, f := range v.f {
			k, ok := constKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case *Arr:
		var sb strings.Builder
		sb.WriteByte('[')
		for _, f := range v.dense {
			k, ok := constKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), !v.log
	case Iface:
		if v.t == nil {
			return "n", true
		}
		k, ok := constKey(v.v)
		return "I" + types.TypeString(v.t, nil) + "|" + k, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *ChanV:
		return fmt.Sprintf("c%p", v), true
	}
	return "", false
}

func (m *M) mapFind(mp *MapV, k Value) int {
	if mp == nil {
		return -1
	}
	ck, isC := constKey(k)
	if isC && !mp.sym {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i := range mp.keys {
		if mp.keys[i] == nil {
			continue
		}
		if m.branch(m.equal(mp.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (m *M) mapSet(mp *MapV, k, v Value) {
	if mp == nil {
		m.goPanicRT("assignment to entry in nil map")
	}
	if mp.persist && !m.initMode {
		keys, vals, sym := append([]Value{}, mp.keys...), append([]Value{}, mp.vals...), mp.sym
		idx := make(map[string]int, len(mp.idx))
		for a, b := range mp.idx {
			idx[a] = b
		}
		m.undo = append(m.undo, undoRec{f: func() { mp.keys, mp.vals, mp.idx, mp.sym = keys, vals, idx, sym }})
	}
	if i := m.mapFind(mp, k); i >= 0 {
		mp.vals[i] = v
		return
	}
	if ck, ok := constKey(k); ok {
		mp.idx[ck] = len(mp.keys)
	} else {
		mp.sym = true
	}
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
}

func (m *M) mapDelete(mp *MapV, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	if mp.persist && !m.initMode {
		panic(m.unsupported("delete from a package-level map"))
	}
	if ck, ok := constKey(mp.keys[i]); ok {
		delete(mp.idx, ck)
	}
	mp.keys[i] = nil
	mp.vals[i] = nil
}

func (mp *MapV) count() int {
	if mp == nil {
		return 0
	}
	n := 0
	for _, k := range mp.keys {
		if k != nil {
			n++
		}
	}
	return n
}
