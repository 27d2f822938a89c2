package main

// Hash-consed terms over booleans, bit-vectors (<=64 bits) and IEEE floats,
// with constant folding and interval / known-bits information.

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpUF
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpShl
	OpLshr
	OpAshr
	OpExtract // c = lo bit; width = w
	OpZext
	OpSext
	OpConcat
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpBAnd
	OpBOr
	OpBNot
	// floating point (sort FP64 / FP32)
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFSqrt
	OpFLt
	OpFLe
	OpFEq
	OpFFromS // signed bv -> fp
	OpFFromU
	OpFToS // fp -> signed bv (truncate)
	OpFToU
	OpFF     // fp -> fp of other width
	OpFRound // c: 0 floor 1 ceil 2 trunc
	OpFBits  // bits of a float as bv (uninterpreted for NaN payload)
	OpFFromBits
)

var opNames = [...]string{"const", "var", "uf", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "extract", "zext", "sext", "concat", "=", "bvult", "bvule", "bvslt", "bvsle", "ite", "and", "or", "not",
	"fp.add", "fp.sub", "fp.mul", "fp.div", "fp.neg", "fp.abs", "fp.sqrt", "fp.lt", "fp.leq", "fp.eq", "ffroms", "ffromu", "ftos", "ftou", "ff", "fround", "fbits", "ffrombits"}

type Term struct {
	op     Op
	fp     bool  // sort is floating point of width w
	w      uint8 // 0 = bool
	a      []*Term
	c      uint64 // constant / extract low / fp rounding kind
	name   string
	id     int32
	lo, hi uint64 // unsigned interval (bv) or 0/1 (bool)
	sl, sh int64  // signed interval (bv)
	kz     uint64 // bits known to be zero
	hv     uint64 // structural hash, computed on demand
}

func commutes(op Op) bool {
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor, OpEq, OpBAnd, OpBOr:
		return true
	}
	return false
}

// subst replaces subterms.
func (c *Ctx) subst(t *Term, s map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r := s[t]; r != nil {
		return r
	}
	if len(t.a) == 0 {
		return t
	}
	if r := memo[t]; r != nil {
		return r
	}
	ch := false
	n := make([]*Term, len(t.a))
	for i, a := range t.a {
		n[i] = c.subst(a, s, memo)
		ch = ch || n[i] != a
	}
	r := t
	if ch {
		r = c.intern(&Term{op: t.op, fp: t.fp, w: t.w, a: n, c: t.c, name: t.name})
	}
	memo[t] = r
	return r
}

func mix64(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>33
}

// hash is the same for the same term in different contexts.
func (t *Term) hash() uint64 {
	if t.hv != 0 {
		return t.hv
	}
	h := mix64(uint64(t.op)<<16|uint64(t.w)<<1|b2u(t.fp), t.c)
	for i := 0; i < len(t.name); i++ {
		h = mix64(h, uint64(t.name[i]))
	}
	if len(t.a) == 2 && commutes(t.op) {
		x, y := t.a[0].hash(), t.a[1].hash()
		h = mix64(h, min(x, y))
		h = mix64(h, max(x, y))
	} else {
		for _, a := range t.a {
			h = mix64(h, a.hash())
		}
	}
	if h == 0 {
		h = 1
	}
	t.hv = h
	return h
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.c == 0 }

type tkey struct {
	op         Op
	fp         bool
	w          uint8
	c          uint64
	a0, a1, a2 int32
	name       string
}

type Ctx struct {
	nl    map[int32]bool
	tab   map[tkey]*Term
	n     int32
	small [5][]*Term // const caches for widths 8,16,32,64,1.. (c < 1024)
	T, F  *Term
	evalM *Model
	stamp []uint32
	cache []uint64
	epoch uint32
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}}
	for i := range c.small {
		c.small[i] = make([]*Term, 1024)
	}
	c.F = c.intern(&Term{op: OpConst, w: 0, c: 0})
	c.T = c.intern(&Term{op: OpConst, w: 0, c: 1})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func minS(w uint8) int64 { return -1 << (w - 1) }
func maxS(w uint8) int64 { return int64(1)<<(w-1) - 1 }

func (c *Ctx) intern(t *Term) *Term {
	k := tkey{op: t.op, fp: t.fp, w: t.w, c: t.c, name: t.name, a0: -1, a1: -1, a2: -1}
	switch len(t.a) {
	case 0:
	case 1:
		k.a0 = t.a[0].id
	case 2:
		k.a0, k.a1 = t.a[0].id, t.a[1].id
	case 3:
		k.a0, k.a1, k.a2 = t.a[0].id, t.a[1].id, t.a[2].id
	default:
		var sb strings.Builder
		sb.WriteString(t.name)
		for _, x := range t.a {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(int(x.id)))
		}
		k.name = sb.String()
	}
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = c.n
	c.n++
	c.ranges(t)
	// intervals may collapse a term to a constant
	if t.op != OpConst && t.op != OpVar && !t.fp {
		if t.w == 0 {
			if t.lo == t.hi {
				r := c.Bool(t.lo == 1)
				c.tab[k] = r
				return r
			}
		} else if t.lo == t.hi {
			r := c.BV(t.w, t.lo)
			c.tab[k] = r
			return r
		}
	}
	c.tab[k] = t
	return t
}

func smallIdx(w uint8) int {
	switch w {
	case 8:
		return 0
	case 16:
		return 1
	case 32:
		return 2
	case 64:
		return 3
	}
	return -1
}

func (c *Ctx) BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 0 {
		panic("BV width 0")
	}
	if v < 1024 {
		if i := smallIdx(w); i >= 0 {
			if t := c.small[i][v]; t != nil {
				return t
			}
			t := c.intern(&Term{op: OpConst, w: w, c: v})
			c.small[i][v] = t
			return t
		}
	}
	return c.intern(&Term{op: OpConst, w: w, c: v})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Int(v int64) *Term { return c.BV(64, uint64(v)) }

func (c *Ctx) F64(f float64) *Term {
	return c.intern(&Term{op: OpConst, fp: true, w: 64, c: math.Float64bits(f)})
}
func (c *Ctx) F32(f float32) *Term {
	return c.intern(&Term{op: OpConst, fp: true, w: 32, c: uint64(math.Float32bits(f))})
}

func (c *Ctx) Flt(w uint8, f float64) *Term {
	if w == 32 {
		return c.F32(float32(f))
	}
	return c.F64(f)
}

func (t *Term) fval() float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.c)))
	}
	return math.Float64frombits(t.c)
}

// Var makes (or returns) a variable; lo..hi is its declared unsigned range
// unless signed is set, in which case slo..shi is.
func (c *Ctx) Var(name string, w uint8) *Term {
	return c.intern(&Term{op: OpVar, w: w, name: name})
}

func (c *Ctx) VarS(name string, w uint8, lo, hi int64) *Term {
	k := tkey{op: OpVar, w: w, name: name, a0: -1, a1: -1, a2: -1}
	if o, ok := c.tab[k]; ok {
		return o
	}
	t := &Term{op: OpVar, w: w, name: name, id: c.n}
	c.n++
	t.sl, t.sh = lo, hi
	if lo >= 0 || hi < 0 {
		t.lo, t.hi = uint64(lo)&mask(w), uint64(hi)&mask(w)
	} else {
		t.lo, t.hi = 0, mask(w)
	}
	t.kz = kzFromHi(t.hi, w)
	c.tab[k] = t
	return t
}

func (c *Ctx) FVar(name string, w uint8) *Term {
	return c.intern(&Term{op: OpVar, fp: true, w: w, name: name})
}

func (c *Ctx) UF(name string, w uint8, args ...*Term) *Term {
	return c.intern(&Term{op: OpUF, w: w, name: name, a: args})
}

func kzFromHi(hi uint64, w uint8) uint64 {
	n := bits.Len64(hi)
	if n >= 64 {
		return 0
	}
	return mask(w) &^ (uint64(1)<<n - 1)
}

// ranges fills interval information of a fresh term.
func (c *Ctx) ranges(t *Term) {
	if t.fp {
		return
	}
	w := t.w
	if w == 0 {
		t.lo, t.hi = 0, 1
		switch t.op {
		case OpConst:
			t.lo, t.hi = t.c, t.c
		case OpUlt:
			a, b := t.a[0], t.a[1]
			if a.hi < b.lo {
				t.lo = 1
			} else if a.lo >= b.hi {
				t.hi = 0
			}
		case OpUle:
			a, b := t.a[0], t.a[1]
			if a.hi <= b.lo {
				t.lo = 1
			} else if a.lo > b.hi {
				t.hi = 0
			}
		case OpSlt:
			a, b := t.a[0], t.a[1]
			if a.sh < b.sl {
				t.lo = 1
			} else if a.sl >= b.sh {
				t.hi = 0
			}
		case OpSle:
			a, b := t.a[0], t.a[1]
			if a.sh <= b.sl {
				t.lo = 1
			} else if a.sl > b.sh {
				t.hi = 0
			}
		case OpEq:
			a, b := t.a[0], t.a[1]
			if a.w > 0 && !a.fp {
				if a.hi < b.lo || b.hi < a.lo || a.sh < b.sl || b.sh < a.sl {
					t.hi = 0
				} else if b.isConst() && b.c&a.kz != 0 || a.isConst() && a.c&b.kz != 0 {
					t.hi = 0
				}
			}
		}
		return
	}
	m := mask(w)
	t.lo, t.hi = 0, m
	t.sl, t.sh = minS(w), maxS(w)
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.c, t.c
	case OpAdd:
		a, b := t.a[0], t.a[1]
		// unsigned
		hi, c1 := bits.Add64(a.hi, b.hi, 0)
		if c1 == 0 && hi <= m {
			t.lo, t.hi = a.lo+b.lo, hi
		} else {
			lo, c0 := bits.Add64(a.lo, b.lo, 0)
			if w == 64 {
				if c0 == 1 { // both wrap
					t.lo, t.hi = lo, hi
				}
			} else if lo > m { // both wrap once
				t.lo, t.hi = lo&m, hi&m
			}
		}
		sl, o1 := addS(a.sl, b.sl)
		sh, o2 := addS(a.sh, b.sh)
		if !o1 && !o2 && sl >= minS(w) && sh <= maxS(w) {
			t.sl, t.sh = sl, sh
		}
	case OpSub:
		a, b := t.a[0], t.a[1]
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		} else if a.hi < b.lo { // always wraps
			t.lo, t.hi = (a.lo-b.hi)&m, (a.hi-b.lo)&m
		}
		sl, o1 := subS(a.sl, b.sh)
		sh, o2 := subS(a.sh, b.sl)
		if !o1 && !o2 && sl >= minS(w) && sh <= maxS(w) {
			t.sl, t.sh = sl, sh
		}
	case OpMul:
		a, b := t.a[0], t.a[1]
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
		var mn, mx int64
		ok := true
		for i, x := range [4][2]int64{{a.sl, b.sl}, {a.sl, b.sh}, {a.sh, b.sl}, {a.sh, b.sh}} {
			p, o := mulS(x[0], x[1])
			if o || p < minS(w) || p > maxS(w) {
				ok = false
				break
			}
			if i == 0 || p < mn {
				mn = p
			}
			if i == 0 || p > mx {
				mx = p
			}
		}
		if ok {
			t.sl, t.sh = mn, mx
		}
	case OpUDiv:
		a, b := t.a[0], t.a[1]
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OpURem:
		a, b := t.a[0], t.a[1]
		if b.lo > 0 {
			t.hi = b.hi - 1
			if a.hi < t.hi {
				t.hi = a.hi
			}
		} else {
			t.hi = a.hi
			if b.hi > 0 && b.hi-1 > t.hi { // x%0 = x
				t.hi = b.hi - 1
			}
		}
	case OpSDiv:
		a, b := t.a[0], t.a[1]
		if b.sl > 0 {
			q := []int64{a.sl / b.sl, a.sl / b.sh, a.sh / b.sl, a.sh / b.sh}
			t.sl, t.sh = q[0], q[0]
			for _, x := range q {
				if x < t.sl {
					t.sl = x
				}
				if x > t.sh {
					t.sh = x
				}
			}
			if a.sl <= 0 && a.sh >= 0 {
				if t.sl > 0 {
					t.sl = 0
				}
				if t.sh < 0 {
					t.sh = 0
				}
			}
		}
	case OpSRem:
		a, b := t.a[0], t.a[1]
		if b.sl > 0 {
			t.sl, t.sh = -(b.sh - 1), b.sh-1
			if a.sl >= 0 {
				t.sl = 0
				if a.sh < t.sh {
					t.sh = a.sh
				}
			}
			if a.sh <= 0 {
				t.sh = 0
			}
		}
	case OpAnd:
		a, b := t.a[0], t.a[1]
		t.kz = a.kz | b.kz
		t.hi = a.hi
		if b.hi < t.hi {
			t.hi = b.hi
		}
		if x := m &^ t.kz; x < t.hi {
			t.hi = x
		}
	case OpOr:
		a, b := t.a[0], t.a[1]
		t.kz = a.kz & b.kz
		t.hi = m &^ t.kz
		t.lo = a.lo
		if b.lo > t.lo {
			t.lo = b.lo
		}
	case OpXor:
		a, b := t.a[0], t.a[1]
		t.kz = a.kz & b.kz
		t.hi = m &^ t.kz
	case OpNot:
		a := t.a[0]
		t.lo, t.hi = m-a.hi, m-a.lo
		t.sl, t.sh = -a.sh-1, -a.sl-1
	case OpShl:
		a, b := t.a[0], t.a[1]
		if b.isConst() && b.c < uint64(w) {
			t.kz = (a.kz<<b.c | (uint64(1)<<b.c - 1)) & m
			if bits.Len64(a.hi)+int(b.c) <= int(w) {
				t.lo, t.hi = a.lo<<b.c, a.hi<<b.c
			} else {
				t.hi = m &^ t.kz
			}
		}
	case OpLshr:
		a, b := t.a[0], t.a[1]
		if b.isConst() && b.c < uint64(w) {
			t.lo, t.hi = a.lo>>b.c, a.hi>>b.c
			t.kz = a.kz>>b.c | (m &^ (m >> b.c))
		} else {
			t.hi = a.hi
		}
	case OpAshr:
		a, b := t.a[0], t.a[1]
		if b.isConst() && b.c < uint64(w) {
			t.sl, t.sh = a.sl>>b.c, a.sh>>b.c
		} else {
			t.sl, t.sh = a.sl, a.sh
			if t.sl > 0 {
				t.sl = 0
			}
			if t.sh < 0 {
				t.sh = -1
			}
		}
	case OpExtract:
		a := t.a[0]
		t.kz = (a.kz >> t.c) & m
		if h := a.hi >> t.c; h <= m {
			t.lo, t.hi = a.lo>>t.c, h
		}
	case OpZext:
		a := t.a[0]
		t.lo, t.hi = a.lo, a.hi
		t.kz = a.kz | (m &^ mask(a.w))
	case OpSext:
		a := t.a[0]
		t.sl, t.sh = a.sl, a.sh
	case OpConcat:
		a, b := t.a[0], t.a[1]
		t.kz = (a.kz<<b.w | b.kz) & m
		t.lo, t.hi = a.lo<<b.w|b.lo, a.hi<<b.w|b.hi
		if a.lo != a.hi {
			t.lo = a.lo << b.w
			t.hi = a.hi<<b.w | mask(b.w)
		}
	case OpIte:
		a, b := t.a[1], t.a[2]
		t.lo, t.hi = minU(a.lo, b.lo), maxU(a.hi, b.hi)
		t.sl, t.sh = a.sl, a.sh
		if b.sl < t.sl {
			t.sl = b.sl
		}
		if b.sh > t.sh {
			t.sh = b.sh
		}
		t.kz = a.kz & b.kz
	}
	// reconcile
	t.kz |= kzFromHi(t.hi, w)
	if x := m &^ t.kz; x < t.hi {
		t.hi = x
	}
	// unsigned -> signed
	if t.hi <= uint64(maxS(w)) {
		if int64(t.lo) > t.sl {
			t.sl = int64(t.lo)
		}
		if int64(t.hi) < t.sh {
			t.sh = int64(t.hi)
		}
	} else if t.lo > uint64(maxS(w)) {
		if s := sext64(t.lo, w); s > t.sl {
			t.sl = s
		}
		if s := sext64(t.hi, w); s < t.sh {
			t.sh = s
		}
	}
	// signed -> unsigned
	if t.sl >= 0 {
		t.lo = maxU(t.lo, uint64(t.sl))
		t.hi = minU(t.hi, uint64(t.sh))
	} else if t.sh < 0 {
		t.lo = maxU(t.lo, uint64(t.sl)&m)
		t.hi = minU(t.hi, uint64(t.sh)&m)
	}
	t.kz |= kzFromHi(t.hi, w)
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

func addS(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0)
}
func subS(a, b int64) (int64, bool) {
	s := a - b
	return s, (a >= 0 && b < 0 && s < 0) || (a < 0 && b > 0 && s >= 0)
}
func mulS(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	if p/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, true
	}
	return p, false
}

func (c *Ctx) mk(op Op, w uint8, a ...*Term) *Term {
	return c.intern(&Term{op: op, w: w, a: a})
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.c == 0)
	}
	switch a.op {
	case OpBNot:
		return a.a[0]
	case OpUlt:
		return c.Ule(a.a[1], a.a[0])
	case OpUle:
		return c.Ult(a.a[1], a.a[0])
	case OpSlt:
		return c.Sle(a.a[1], a.a[0])
	case OpSle:
		return c.Slt(a.a[1], a.a[0])
	}
	return c.mk(OpBNot, 0, a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBAnd, 0, a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBOr, 0, a, b)
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.isConst() {
		if k.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(k, b)
		}
		if a.isFalse() {
			return c.And(c.Not(k), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(k), a)
		}
		if b.isFalse() {
			return c.And(k, a)
		}
	}
	if k.op == OpBNot {
		return c.Ite(k.a[0], b, a)
	}
	if a.op == OpIte && a.a[0] == k {
		a = a.a[1]
	}
	if b.op == OpIte && b.a[0] == k {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	// minimum or maximum with the far end of the range
	if (k.op == OpUlt || k.op == OpUle) && a.w > 0 && !a.fp {
		x, y := k.a[0], k.a[1]
		if x == a && y == b || x == b && y == a {
			small, big := x, y
			if x == b {
				small, big = y, x // the maximum
			}
			if x.hi <= y.lo {
				return small
			}
			if y.hi <= x.lo {
				return big
			}
		}
	}
	// push common zext out
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return c.Zext(c.Ite(k, a.a[0], b.a[0]), a.w)
	}
	t := &Term{op: OpIte, w: a.w, fp: a.fp, a: []*Term{k, a, b}}
	return c.intern(t)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b && !a.fp {
		return c.T
	}
	if a.fp {
		panic("Eq on fp")
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.F
		}
	}
	if b.isConst() && a.w > 0 {
		switch a.op {
		case OpAdd:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.BV(a.w, b.c-a.a[1].c))
			}
		case OpZext:
			in := a.a[0]
			if b.c > mask(in.w) {
				return c.F
			}
			return c.Eq(in, c.BV(in.w, b.c))
		case OpIte:
			x, y := a.a[1], a.a[2]
			if x.isConst() && y.isConst() {
				if x.c == b.c {
					return a.a[0] // y differs since a not collapsed
				}
				if y.c == b.c {
					return c.Not(a.a[0])
				}
				return c.F
			}
			if x.isConst() || y.isConst() {
				return c.Ite(a.a[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OpXor:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.BV(a.w, b.c^a.a[1].c))
			}
		case OpConcat:
			h, l := a.a[0], a.a[1]
			return c.And(c.Eq(h, c.BV(h.w, b.c>>l.w)), c.Eq(l, c.BV(l.w, b.c)))
		case OpShl:
			if k := a.a[1]; k.isConst() && k.c < uint64(a.w) {
				if b.c&(uint64(1)<<k.c-1) != 0 {
					return c.F
				}
			}
		}
	}
	if a.op == OpZext && b.op == OpZext {
		x, y := a.a[0], b.a[0]
		if x.w == y.w {
			return c.Eq(x, y)
		}
		if x.w < y.w {
			return c.Eq(c.Zext(x, y.w), y)
		}
		return c.Eq(x, c.Zext(y, x.w))
	}
	if a.op == OpSext && b.op == OpSext && a.a[0].w == b.a[0].w {
		return c.Eq(a.a[0], b.a[0])
	}
	if a.op == OpConcat && b.op == OpConcat && a.a[1].w == b.a[1].w {
		return c.And(c.Eq(a.a[0], b.a[0]), c.Eq(a.a[1], b.a[1]))
	}
	if a.op == OpAdd && b.op == OpAdd {
		if a.a[1] == b.a[1] {
			return c.Eq(a.a[0], b.a[0])
		}
		if a.a[0] == b.a[0] {
			return c.Eq(a.a[1], b.a[1])
		}
	}
	if x, y, ok := c.cancel(a, b, false); ok {
		return c.Eq(x, y)
	}
	if a.op == OpAdd && (a.a[0] == b || a.a[1] == b) {
		o := a.a[0]
		if o == b {
			o = a.a[1]
		}
		return c.Eq(o, c.BV(a.w, 0))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, a, b)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c < b.c)
	}
	if a.op == OpZext && b.op == OpZext {
		x, y := a.a[0], b.a[0]
		if x.w == y.w {
			return c.Ult(x, y)
		}
	}
	if a.op == OpZext && b.isConst() {
		if b.c > mask(a.a[0].w) {
			return c.T
		}
		return c.Ult(a.a[0], c.BV(a.a[0].w, b.c))
	}
	if b.op == OpZext && a.isConst() {
		if a.c >= mask(b.a[0].w) {
			return c.F
		}
		return c.Ult(c.BV(b.a[0].w, a.c), b.a[0])
	}
	if b.isConst() && b.c == 1 {
		return c.Eq(a, c.BV(a.w, 0))
	}
	if a.isConst() && a.c == 0 {
		return c.Not(c.Eq(b, a))
	}
	return c.mk(OpUlt, 0, a, b)
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c <= b.c)
	}
	if a.op == OpZext && b.op == OpZext {
		x, y := a.a[0], b.a[0]
		if x.w == y.w {
			return c.Ule(x, y)
		}
	}
	// normalise with constants to strict
	if b.isConst() {
		if b.c == mask(b.w) {
			return c.T
		}
		return c.Ult(a, c.BV(a.w, b.c+1))
	}
	if a.isConst() {
		if a.c == 0 {
			return c.T
		}
		return c.Ult(c.BV(a.w, a.c-1), b)
	}
	return c.mk(OpUle, 0, a, b)
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext64(a.c, a.w) < sext64(b.c, b.w))
	}
	if a.sl >= 0 && b.sl >= 0 {
		return c.Ult(a, b)
	}
	if a.op == OpSext && b.op == OpSext && a.a[0].w == b.a[0].w {
		return c.Slt(a.a[0], b.a[0])
	}
	if r, ok := sameBase(a, b); ok {
		return c.Bool(r < 0)
	}
	if x, k := offS(a); k != 0 {
		if y, j := offS(b); j == k {
			return c.Slt(x, y)
		}
	}
	if x, y, ok := c.cancel(a, b, true); ok {
		return c.Slt(x, y)
	}
	return c.mk(OpSlt, 0, a, b)
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext64(a.c, a.w) <= sext64(b.c, b.w))
	}
	if a.sl >= 0 && b.sl >= 0 {
		return c.Ule(a, b)
	}
	if b.isConst() {
		if s := sext64(b.c, b.w); s == maxS(b.w) {
			return c.T
		} else {
			return c.Slt(a, c.BV(a.w, uint64(s+1)))
		}
	}
	if a.isConst() {
		if s := sext64(a.c, a.w); s == minS(a.w) {
			return c.T
		} else {
			return c.Slt(c.BV(a.w, uint64(s-1)), b)
		}
	}
	if a.op == OpSext && b.op == OpSext && a.a[0].w == b.a[0].w {
		return c.Sle(a.a[0], b.a[0])
	}
	if r, ok := sameBase(a, b); ok {
		return c.Bool(r <= 0)
	}
	if x, k := offS(a); k != 0 {
		if y, j := offS(b); j == k {
			return c.Sle(x, y)
		}
	}
	if x, y, ok := c.cancel(a, b, true); ok {
		return c.Sle(x, y)
	}
	return c.mk(OpSle, 0, a, b)
}

// offS splits a term into a base and a constant added without signed overflow.
func offS(t *Term) (*Term, int64) {
	if t.op == OpAdd && t.a[1].isConst() {
		k := sext64(t.a[1].c, t.w)
		b := t.a[0]
		lo, o1 := addS(b.sl, k)
		hi, o2 := addS(b.sh, k)
		if !o1 && !o2 && lo >= minS(t.w) && hi <= maxS(t.w) {
			return b, k
		}
	}
	return t, 0
}

// sameBase compares two terms that differ by a constant, as signed numbers.
func sameBase(a, b *Term) (int, bool) {
	x, k := offS(a)
	y, j := offS(b)
	if x != y {
		return 0, false
	}
	switch {
	case k < j:
		return -1, true
	case k > j:
		return 1, true
	}
	return 0, true
}

func (c *Ctx) Add(a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Add width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.BV(w, a.c+b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OpAdd && a.a[1].isConst() {
			return c.Add(a.a[0], c.BV(w, a.a[1].c+b.c))
		}
		if a.op == OpSub && a.a[0].isConst() {
			return c.Sub(c.BV(w, a.a[0].c+b.c), a.a[1])
		}
		if a.op == OpIte && a.a[1].isConst() && a.a[2].isConst() {
			return c.Ite(a.a[0], c.Add(a.a[1], b), c.Add(a.a[2], b))
		}
		return c.mk(OpAdd, w, a, b)
	}
	if r := c.ringSum(a, b, 1, w); r != nil {
		return r
	}
	// (x+c)+y -> (x+y)+c
	if a.op == OpAdd && a.a[1].isConst() {
		return c.Add(c.Add(a.a[0], b), a.a[1])
	}
	if b.op == OpAdd && b.a[1].isConst() {
		return c.Add(c.Add(a, b.a[0]), b.a[1])
	}
	// (x - y) + y -> x
	if a.op == OpSub && a.a[1] == b {
		return a.a[0]
	}
	if b.op == OpSub && b.a[1] == a {
		return b.a[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAdd, w, a, b)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(a.w, 0), a) }

func (c *Ctx) Sub(a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Sub width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return c.BV(w, 0)
	}
	if b.isConst() {
		return c.Add(a, c.BV(w, -b.c))
	}
	if a.isConst() {
		if b.op == OpAdd && b.a[1].isConst() {
			return c.Sub(c.BV(w, a.c-b.a[1].c), b.a[0])
		}
		if b.op == OpSub && b.a[0].isConst() {
			return c.Add(b.a[1], c.BV(w, a.c-b.a[0].c))
		}
		return c.mk(OpSub, w, a, b)
	}
	if r := c.ringSum(a, b, -1, w); r != nil {
		return r
	}
	if a.op == OpAdd {
		if a.a[0] == b {
			return a.a[1]
		}
		if a.a[1] == b {
			return a.a[0]
		}
		if a.a[1].isConst() {
			return c.Add(c.Sub(a.a[0], b), a.a[1])
		}
	}
	if b.op == OpAdd {
		if b.a[1].isConst() {
			return c.Add(c.Sub(a, b.a[0]), c.BV(w, -b.a[1].c))
		}
		if b.a[0] == a {
			return c.Neg(b.a[1])
		}
		if b.a[1] == a {
			return c.Neg(b.a[0])
		}
	}
	if b.op == OpSub && b.a[0] == a { // a-(a-y) = y
		return b.a[1]
	}
	if a.op == OpAdd && b.op == OpAdd {
		if a.a[0] == b.a[0] {
			return c.Sub(a.a[1], b.a[1])
		}
		if a.a[1] == b.a[1] {
			return c.Sub(a.a[0], b.a[0])
		}
		if a.a[0] == b.a[1] {
			return c.Sub(a.a[1], b.a[0])
		}
		if a.a[1] == b.a[0] {
			return c.Sub(a.a[0], b.a[1])
		}
	}
	return c.mk(OpSub, w, a, b)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.BV(w, a.c*b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch {
		case b.c == 0:
			return b
		case b.c == 1:
			return a
		case bits.OnesCount64(b.c) == 1:
			return c.Shl(a, c.BV(w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.op == OpIte && a.a[1].isConst() && a.a[2].isConst() {
			return c.Ite(a.a[0], c.Mul(a.a[1], b), c.Mul(a.a[2], b))
		}
		return c.mk(OpMul, w, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpMul, w, a, b)
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if b.c == 0 {
			return c.BV(w, mask(w))
		}
		return c.BV(w, a.c/b.c)
	}
	if b.isConst() {
		if b.c == 1 {
			return a
		}
		if bits.OnesCount64(b.c) == 1 {
			return c.Lshr(a, c.BV(w, uint64(bits.TrailingZeros64(b.c))))
		}
		// (x*c)/c with no overflow -> x
		if a.op == OpMul && a.a[1] == b {
			if h, l := bits.Mul64(a.a[0].hi, b.c); h == 0 && l <= mask(w) {
				return a.a[0]
			}
		}
	}
	return c.mk(OpUDiv, w, a, b)
}

func (c *Ctx) URem(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if b.c == 0 {
			return a
		}
		return c.BV(w, a.c%b.c)
	}
	if b.isConst() && b.c != 0 {
		if bits.OnesCount64(b.c) == 1 {
			return c.BAnd(a, c.BV(w, b.c-1))
		}
		if a.hi < b.c {
			return a
		}
	}
	if b.lo > 0 && a.hi < b.lo {
		return a
	}
	return c.mk(OpURem, w, a, b)
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := sext64(a.c, w), sext64(b.c, w)
		if y == -1 {
			return c.BV(w, uint64(-x))
		}
		return c.BV(w, uint64(x/y))
	}
	if a.sl >= 0 && b.sl > 0 {
		return c.UDiv(a, b)
	}
	return c.mk(OpSDiv, w, a, b)
}

func (c *Ctx) SRem(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := sext64(a.c, w), sext64(b.c, w)
		if y == -1 {
			return c.BV(w, 0)
		}
		return c.BV(w, uint64(x%y))
	}
	if a.sl >= 0 && b.sl > 0 {
		return c.URem(a, b)
	}
	return c.mk(OpSRem, w, a, b)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.BV(w, a.c&b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if (^b.c)&mask(w)&^a.kz == 0 { // mask covers all possibly-set bits
			return a
		}
		if b.c&^a.kz == 0 {
			return c.BV(w, 0)
		}
		if a.op == OpAnd && a.a[1].isConst() {
			return c.BAnd(a.a[0], c.BV(w, a.a[1].c&b.c))
		}
		if a.op == OpZext {
			in := a.a[0]
			return c.Zext(c.BAnd(in, c.BV(in.w, b.c)), w)
		}
		// low mask -> zext(extract)
		if n := bits.Len64(b.c); b.c == uint64(1)<<n-1 && n < int(w) && (n == 8 || n == 16 || n == 32) {
			return c.Zext(c.Extract(a, 0, uint8(n)), w)
		}
		return c.mk(OpAnd, w, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, w, a, b)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.BV(w, a.c|b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c == mask(w) {
			return b
		}
	}
	m := mask(w)
	if (m&^a.kz)&(m&^b.kz) == 0 { // disjoint bits
		return c.addDisjoint(a, b)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OpOr, w, a, b)
}

// addDisjoint is a|b for operands without common bits; byte reassembly
// (zext(lo) | zext(hi)<<8) is folded back into a wider value.
func (c *Ctx) addDisjoint(a, b *Term) *Term {
	if r := c.reassemble(a, b); r != nil {
		return r
	}
	if r := c.reassemble(b, a); r != nil {
		return r
	}
	return c.Add(a, b)
}

func (c *Ctx) reassemble(lo, hi *Term) *Term {
	// lo = zext(extract(x, l, n)), hi = shl(zext(extract(x, l+n, m)), n)
	l, ok := lo, lo.op == OpZext
	if ok {
		l = lo.a[0]
	}
	if hi.op != OpShl || !hi.a[1].isConst() {
		return nil
	}
	h := hi.a[0]
	if h.op == OpZext {
		h = h.a[0]
	}
	n := uint8(hi.a[1].c)
	if l.op == OpExtract && h.op == OpExtract && l.a[0] == h.a[0] && l.w == n && h.c == l.c+uint64(n) && ok {
		tw := l.w + h.w
		if tw <= lo.w && int(l.c)+int(tw) <= int(l.a[0].w) {
			return c.Zext(c.Extract(l.a[0], uint8(l.c), tw), lo.w)
		}
	}
	return nil
}

func (c *Ctx) BXor(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.BV(w, a.c^b.c)
	}
	if a == b {
		return c.BV(w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c == mask(w) {
			return c.BNotBV(a)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpXor, w, a, b)
}

// BNotBV: ~x = (2^w-1) - x
func (c *Ctx) BNotBV(a *Term) *Term {
	return c.Sub(c.BV(a.w, mask(a.w)), a)
}

// shifts: SMT semantics (count >= width gives 0 / sign), operands same width.
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(w) {
			return c.BV(w, 0)
		}
		if a.isConst() {
			return c.BV(w, a.c<<b.c)
		}
		if a.op == OpShl && a.a[1].isConst() {
			return c.Shl(a.a[0], c.BV(w, a.a[1].c+b.c))
		}
	}
	return c.mk(OpShl, w, a, b)
}

func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(w) {
			return c.BV(w, 0)
		}
		if a.isConst() {
			return c.BV(w, a.c>>b.c)
		}
		if a.op == OpZext {
			in := a.a[0]
			if b.c >= uint64(in.w) {
				return c.BV(w, 0)
			}
			return c.Zext(c.Lshr(in, c.BV(in.w, b.c)), w)
		}
		if a.op == OpLshr && a.a[1].isConst() {
			return c.Lshr(a.a[0], c.BV(w, a.a[1].c+b.c))
		}
		if a.op == OpShl && a.a[1] == b && bits.Len64(a.a[0].hi)+int(b.c) <= int(w) {
			return a.a[0]
		}
		if a.op == OpAdd {
			// (x + y<<k) >> k with x < 2^k and no overflow
			x, y := a.a[0], a.a[1]
			for i := 0; i < 2; i++ {
				if y.op == OpShl && y.a[1] == b && x.hi < uint64(1)<<b.c && bits.Len64(y.a[0].hi)+int(b.c) <= int(w) {
					return y.a[0]
				}
				x, y = y, x
			}
		}
	}
	return c.mk(OpLshr, w, a, b)
}

func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.w
	if a.sl >= 0 {
		return c.Lshr(a, b)
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.isConst() {
			n := b.c
			if n > 63 {
				n = 63
			}
			return c.BV(w, uint64(sext64(a.c, w)>>n))
		}
	}
	return c.mk(OpAshr, w, a, b)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrower")
	}
	if a.isConst() {
		return c.BV(w, a.c)
	}
	if a.op == OpZext {
		return c.Zext(a.a[0], w)
	}
	if a.op == OpIte && (a.a[1].isConst() || a.a[2].isConst()) {
		return c.intern(&Term{op: OpIte, w: w, a: []*Term{a.a[0], c.Zext(a.a[1], w), c.Zext(a.a[2], w)}})
	}
	return c.mk(OpZext, w, a)
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.BV(w, uint64(sext64(a.c, a.w)))
	}
	if a.sl >= 0 {
		return c.Zext(a, w)
	}
	if a.op == OpSext {
		return c.Sext(a.a[0], w)
	}
	return c.mk(OpSext, w, a)
}

// Extract returns bits lo..lo+w-1.
func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return c.BV(w, a.c>>lo)
	}
	switch a.op {
	case OpZext:
		in := a.a[0]
		if lo >= in.w {
			return c.BV(w, 0)
		}
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
		if lo == 0 {
			return c.Zext(in, w)
		}
		return c.Zext(c.Extract(in, lo, in.w-lo), w)
	case OpSext:
		in := a.a[0]
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
		if lo == 0 {
			return c.Sext(in, w)
		}
	case OpExtract:
		return c.Extract(a.a[0], uint8(a.c)+lo, w)
	case OpConcat:
		l := a.a[1]
		if lo+w <= l.w {
			return c.Extract(l, lo, w)
		}
		if lo >= l.w {
			return c.Extract(a.a[0], lo-l.w, w)
		}
	case OpLshr:
		if a.a[1].isConst() && int(lo)+int(w)+int(a.a[1].c) <= int(a.w) {
			return c.Extract(a.a[0], lo+uint8(a.a[1].c), w)
		}
	case OpShl:
		if a.a[1].isConst() {
			k := uint8(a.a[1].c)
			if lo >= k {
				return c.Extract(a.a[0], lo-k, w)
			}
			if lo+w <= k {
				return c.BV(w, 0)
			}
			if lo == 0 {
				return c.Shl(c.Extract(a.a[0], 0, w), c.BV(w, uint64(k)))
			}
		}
	case OpAdd:
		// sum of disjoint parts x + (y<<k)
		x, y := a.a[0], a.a[1]
		m := mask(a.w)
		if (m&^x.kz)&(m&^y.kz) == 0 {
			ex, ey := c.Extract(x, lo, w), c.Extract(y, lo, w)
			if ex.isConst() && ex.c == 0 {
				return ey
			}
			if ey.isConst() && ey.c == 0 {
				return ex
			}
			if lo != 0 {
				return c.BOr(ex, ey)
			}
		}
		if lo == 0 {
			return c.Add(c.Extract(x, 0, w), c.Extract(y, 0, w))
		}
	case OpSub:
		if lo == 0 && (a.a[0].isConst() || a.a[1].op == OpZext || a.a[0].op == OpZext) {
			return c.Sub(c.Extract(a.a[0], 0, w), c.Extract(a.a[1], 0, w))
		}
	case OpAnd:
		if lo == 0 || a.a[1].isConst() {
			return c.BAnd(c.Extract(a.a[0], lo, w), c.Extract(a.a[1], lo, w))
		}
	case OpOr:
		return c.BOr(c.Extract(a.a[0], lo, w), c.Extract(a.a[1], lo, w))
	case OpIte:
		return c.Ite(a.a[0], c.Extract(a.a[1], lo, w), c.Extract(a.a[2], lo, w))
	}
	return c.intern(&Term{op: OpExtract, w: w, c: uint64(lo), a: []*Term{a}})
}

// ---------- floating point ----------

func (c *Ctx) fmk(op Op, w uint8, k uint64, a ...*Term) *Term {
	return c.intern(&Term{op: op, fp: true, w: w, c: k, a: a})
}

func (c *Ctx) FArith(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		if a.w == 32 {
			x, y := math.Float32frombits(uint32(a.c)), math.Float32frombits(uint32(b.c))
			switch op {
			case OpFAdd:
				return c.F32(x + y)
			case OpFSub:
				return c.F32(x - y)
			case OpFMul:
				return c.F32(x * y)
			case OpFDiv:
				return c.F32(x / y)
			}
		}
		x, y := a.fval(), b.fval()
		switch op {
		case OpFAdd:
			return c.F64(x + y)
		case OpFSub:
			return c.F64(x - y)
		case OpFMul:
			return c.F64(x * y)
		case OpFDiv:
			return c.F64(x / y)
		}
	}
	return c.fmk(op, a.w, 0, a, b)
}

func (c *Ctx) FUn(op Op, k uint64, a *Term) *Term {
	if a.isConst() {
		x := a.fval()
		switch op {
		case OpFNeg:
			return c.Flt(a.w, -x)
		case OpFAbs:
			return c.Flt(a.w, math.Abs(x))
		case OpFSqrt:
			return c.Flt(a.w, math.Sqrt(x))
		case OpFRound:
			switch k {
			case 0:
				return c.Flt(a.w, math.Floor(x))
			case 1:
				return c.Flt(a.w, math.Ceil(x))
			case 2:
				return c.Flt(a.w, math.Trunc(x))
			}
		}
	}
	return c.fmk(op, a.w, k, a)
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.fval(), b.fval()
		switch op {
		case OpFLt:
			return c.Bool(x < y)
		case OpFLe:
			return c.Bool(x <= y)
		case OpFEq:
			return c.Bool(x == y)
		}
	}
	if x, ok := c.exact(a); ok {
		if y, ok := c.exact(b); ok {
			if x, y, ok = c.align(x, y); ok {
				switch op {
				case OpFLt:
					return c.Slt(x.n, y.n)
				case OpFLe:
					return c.Sle(x.n, y.n)
				case OpFEq:
					return c.Eq(x.n, y.n)
				}
			}
		}
	}
	return c.mk(op, 0, a, b)
}

func (c *Ctx) FFromInt(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		if signed {
			s := sext64(a.c, a.w)
			if w == 32 {
				return c.F32(float32(s))
			}
			return c.F64(float64(s))
		}
		if w == 32 {
			return c.F32(float32(a.c))
		}
		return c.F64(float64(a.c))
	}
	if signed && a.sl >= 0 {
		signed = false
	}
	if !signed {
		return c.fmk(OpFFromU, w, 0, a)
	}
	return c.fmk(OpFFromS, w, 0, a)
}

// goF2I converts as amd64 Go does (out of range values are implementation
// specific; the concrete behaviour of this platform is used for constants).
func goF2I(f float64, signed bool, w uint8) uint64 {
	if signed {
		switch w {
		case 8:
			return uint64(int8(f))
		case 16:
			return uint64(int16(f))
		case 32:
			return uint64(int32(f))
		}
		return uint64(int64(f))
	}
	switch w {
	case 8:
		return uint64(uint8(f))
	case 16:
		return uint64(uint16(f))
	case 32:
		return uint64(uint32(f))
	}
	return uint64(f)
}

func (c *Ctx) FToInt(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		return c.BV(w, goF2I(a.fval(), signed, w))
	}
	if n, ok := c.rounded(a, 2); ok && (w == 64 || n.sl >= 0 && uint64(n.sh) <= mask(w)>>b2u(signed)) && (signed || n.sl >= 0) {
		if w < 64 {
			n = c.Extract(n, 0, w)
		}
		return n
	}
	op := OpFToU
	if signed {
		op = OpFToS
	}
	return c.mk(op, w, a)
}

func (c *Ctx) FConv(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Flt(w, a.fval())
	}
	return c.fmk(OpFF, w, 0, a)
}

func (c *Ctx) FBits(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.w, a.c)
	}
	if a.op == OpFFromBits {
		return a.a[0]
	}
	return c.mk(OpFBits, a.w, a)
}

func (c *Ctx) FFromBits(a *Term) *Term {
	if a.isConst() {
		return c.intern(&Term{op: OpConst, fp: true, w: a.w, c: a.c})
	}
	return c.fmk(OpFFromBits, a.w, 0, a)
}

// ---------- models and evaluation ----------

type Model struct {
	gen  func(name string, w uint8) uint64 // values by name, for cross-checks
	vars map[string]uint64                 // by variable name
	ufs  map[string]map[string]uint64      // uf name -> args key -> value
}

func newModel() *Model {
	return &Model{vars: map[string]uint64{}, ufs: map[string]map[string]uint64{}}
}

func ufKey(args []uint64) string {
	var sb strings.Builder
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(strconv.FormatUint(a, 10))
	}
	return sb.String()
}

// Eval evaluates t (bv/bool: value, fp: bits) under m; unassigned variables
// get the low end of their range.
func (c *Ctx) Eval(t *Term, m *Model) uint64 {
	if c.evalM != m || c.evalM == nil {
		c.evalM = m
		c.epoch++
	}
	for len(c.stamp) < int(c.n) {
		c.stamp = append(c.stamp, make([]uint32, int(c.n)+1024-len(c.stamp))...)
		c.cache = append(c.cache, make([]uint64, len(c.stamp)-len(c.cache))...)
	}
	return c.eval(t, m)
}

func (c *Ctx) evalReset() { c.evalM = nil }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fv(x uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(x)))
	}
	return math.Float64frombits(x)
}
func fb(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (c *Ctx) eval(t *Term, m *Model) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if c.stamp[t.id] == c.epoch {
		return c.cache[t.id]
	}
	var r uint64
	switch t.op {
	case OpVar:
		v, ok := m.vars[t.name]
		if m.gen != nil {
			v, ok = genVar(m, t), true
		}
		if !ok {
			if t.fp {
				v = 0
			} else if t.sl > 0 || t.sh < 0 {
				v = uint64(t.sl) & mask(t.w)
			} else {
				v = 0
			}
		}
		r = v
	case OpUF:
		args := make([]uint64, len(t.a))
		for i, a := range t.a {
			args[i] = c.eval(a, m)
		}
		r = m.ufs[t.name][ufKey(args)]
		if m.gen != nil {
			r = genUF(m, t, args)
		}
	case OpIte:
		if c.eval(t.a[0], m) == 1 {
			r = c.eval(t.a[1], m)
		} else {
			r = c.eval(t.a[2], m)
		}
	case OpBAnd:
		r = c.eval(t.a[0], m)
		if r == 1 {
			r = c.eval(t.a[1], m)
		}
	case OpBOr:
		r = c.eval(t.a[0], m)
		if r == 0 {
			r = c.eval(t.a[1], m)
		}
	case OpBNot:
		r = 1 - c.eval(t.a[0], m)
	default:
		x := c.eval(t.a[0], m)
		var y uint64
		if len(t.a) > 1 {
			y = c.eval(t.a[1], m)
		}
		aw := t.a[0].w
		mk := mask(t.w)
		switch t.op {
		case OpAdd:
			r = (x + y) & mk
		case OpSub:
			r = (x - y) & mk
		case OpMul:
			r = (x * y) & mk
		case OpUDiv:
			if y == 0 {
				r = mk
			} else {
				r = x / y
			}
		case OpURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OpSDiv:
			sx, sy := sext64(x, aw), sext64(y, aw)
			if sy == 0 {
				if sx >= 0 {
					r = mk
				} else {
					r = 1
				}
			} else if sy == -1 {
				r = uint64(-sx) & mk
			} else {
				r = uint64(sx/sy) & mk
			}
		case OpSRem:
			sx, sy := sext64(x, aw), sext64(y, aw)
			if sy == 0 {
				r = x
			} else if sy == -1 {
				r = 0
			} else {
				r = uint64(sx%sy) & mk
			}
		case OpAnd:
			r = x & y
		case OpOr:
			r = x | y
		case OpXor:
			r = x ^ y
		case OpNot:
			r = ^x & mk
		case OpShl:
			if y < uint64(t.w) {
				r = (x << y) & mk
			}
		case OpLshr:
			if y < uint64(t.w) {
				r = x >> y
			}
		case OpAshr:
			if y > 63 {
				y = 63
			}
			r = uint64(sext64(x, aw)>>y) & mk
		case OpExtract:
			r = (x >> t.c) & mk
		case OpZext:
			r = x
		case OpSext:
			r = uint64(sext64(x, aw)) & mk
		case OpConcat:
			r = x<<t.a[1].w | y
		case OpEq:
			r = b2u(x == y)
		case OpUlt:
			r = b2u(x < y)
		case OpUle:
			r = b2u(x <= y)
		case OpSlt:
			r = b2u(sext64(x, aw) < sext64(y, aw))
		case OpSle:
			r = b2u(sext64(x, aw) <= sext64(y, aw))
		case OpFAdd, OpFSub, OpFMul, OpFDiv:
			if t.w == 32 {
				p, q := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
				switch t.op {
				case OpFAdd:
					p += q
				case OpFSub:
					p -= q
				case OpFMul:
					p *= q
				case OpFDiv:
					p /= q
				}
				r = uint64(math.Float32bits(p))
			} else {
				p, q := math.Float64frombits(x), math.Float64frombits(y)
				switch t.op {
				case OpFAdd:
					p += q
				case OpFSub:
					p -= q
				case OpFMul:
					p *= q
				case OpFDiv:
					p /= q
				}
				r = math.Float64bits(p)
			}
		case OpFNeg:
			r = fb(-fv(x, aw), t.w)
		case OpFAbs:
			r = fb(math.Abs(fv(x, aw)), t.w)
		case OpFSqrt:
			r = fb(math.Sqrt(fv(x, aw)), t.w)
		case OpFLt:
			r = b2u(fv(x, aw) < fv(y, aw))
		case OpFLe:
			r = b2u(fv(x, aw) <= fv(y, aw))
		case OpFEq:
			r = b2u(fv(x, aw) == fv(y, aw))
		case OpFFromS:
			if t.w == 32 {
				r = uint64(math.Float32bits(float32(sext64(x, aw))))
			} else {
				r = math.Float64bits(float64(sext64(x, aw)))
			}
		case OpFFromU:
			if t.w == 32 {
				r = uint64(math.Float32bits(float32(x)))
			} else {
				r = math.Float64bits(float64(x))
			}
		case OpFToS:
			r = goF2I(fv(x, aw), true, t.w) & mk
		case OpFToU:
			r = goF2I(fv(x, aw), false, t.w) & mk
		case OpFF:
			r = fb(fv(x, aw), t.w)
		case OpFRound:
			f := fv(x, aw)
			switch t.c {
			case 0:
				f = math.Floor(f)
			case 1:
				f = math.Ceil(f)
			case 2:
				f = math.Trunc(f)
			}
			r = fb(f, t.w)
		case OpFBits, OpFFromBits:
			r = x
		default:
			panic("eval: " + opNames[t.op])
		}
	}
	c.stamp[t.id] = c.epoch
	c.cache[t.id] = r
	return r
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OpConst:
		if t.fp {
			fmt.Fprintf(sb, "%g", t.fval())
		} else if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.c == 1)
		} else if t.w == 64 {
			fmt.Fprintf(sb, "%d", int64(t.c))
		} else {
			fmt.Fprintf(sb, "%d", t.c)
		}
		return
	case OpVar:
		sb.WriteString(t.name)
		return
	}
	if d == 0 {
		fmt.Fprintf(sb, "#%d", t.id)
		return
	}
	sb.WriteByte('(')
	if t.op == OpUF {
		sb.WriteString(t.name)
	} else {
		sb.WriteString(opNames[t.op])
	}
	if t.op == OpExtract || t.op == OpZext {
		fmt.Fprintf(sb, ".%d.%d", t.c, t.w)
	}
	for _, a := range t.a {
		sb.WriteByte(' ')
		a.str(sb, d-1)
	}
	sb.WriteByte(')')
}
