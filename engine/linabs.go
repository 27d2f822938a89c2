package main

// Linear abstraction: the integer encoding with every product expanded into
// monomials over atoms, each monomial a fresh integer constrained by implied
// linear facts. Only unsat answers are meaningful.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type linForm struct {
	k *big.Int
	m map[string]*big.Int // monomial key -> coefficient
}

type linAbs struct {
	lf    map[int32]*linForm
	atoms map[string]string      // atom key -> smt text
	rng   map[string][2]*big.Int // monomial bounds
	muls  map[int32][]*Term      // products by factor
	nmul  int
}

func newLin() *linAbs {
	return &linAbs{lf: map[int32]*linForm{}, atoms: map[string]string{}, rng: map[string][2]*big.Int{}, muls: map[int32][]*Term{}}
}

func bigU(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func (f *linForm) addScaled(g *linForm, s *big.Int) {
	f.k.Add(f.k, new(big.Int).Mul(g.k, s))
	for k, c := range g.m {
		x := f.m[k]
		if x == nil {
			x = new(big.Int)
		} else {
			x = new(big.Int).Set(x)
		}
		x.Add(x, new(big.Int).Mul(c, s))
		if x.Sign() == 0 {
			delete(f.m, k)
		} else {
			f.m[k] = x
		}
	}
}

func newForm() *linForm { return &linForm{new(big.Int), map[string]*big.Int{}} }

func bigLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (l *linAbs) monoText(k string) string {
	if t, ok := l.atoms[k]; ok {
		return t
	}
	return "|m:" + k + "|"
}

func (l *linAbs) text(f *linForm) string {
	if len(f.m) == 0 {
		return bigLit(f.k)
	}
	keys := make([]string, 0, len(f.m))
	for k := range f.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var parts []string
	if f.k.Sign() != 0 {
		parts = append(parts, bigLit(f.k))
	}
	for _, k := range keys {
		c := f.m[k]
		if c.IsInt64() && c.Int64() == 1 {
			parts = append(parts, l.monoText(k))
		} else {
			parts = append(parts, "(* "+bigLit(c)+" "+l.monoText(k)+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// form of a term: its linear form, or the term as an atom.
func (p *intPrinter) form(t *Term) *linForm {
	l := p.lin
	if f := l.lf[t.id]; f != nil {
		return f
	}
	f := newForm()
	if t.isConst() {
		f.k = bigU(t.c)
	} else {
		k := strconv.Itoa(int(t.id))
		l.atoms[k] = refInt(t)
		l.rng[k] = [2]*big.Int{bigU(t.lo), bigU(t.hi)}
		f.m[k] = big.NewInt(1)
	}
	l.lf[t.id] = f
	return f
}

func mulKeys(a, b string) string {
	s := append(strings.Split(a, "*"), strings.Split(b, "*")...)
	sort.Strings(s)
	return strings.Join(s, "*")
}

// product of two forms; new monomials are declared with their bounds.
func (p *intPrinter) product(a, b *linForm) *linForm {
	l := p.lin
	r := newForm()
	r.addScaled(&linForm{a.k, nil}, b.k)
	for k, c := range a.m {
		r.addScaled(&linForm{new(big.Int), map[string]*big.Int{k: c}}, b.k)
	}
	for k, c := range b.m {
		r.addScaled(&linForm{new(big.Int), map[string]*big.Int{k: c}}, a.k)
	}
	for ka, ca := range a.m {
		for kb, cb := range b.m {
			k := mulKeys(ka, kb)
			if _, ok := l.rng[k]; !ok {
				p.declareMono(k, ka, kb)
			}
			r.addScaled(&linForm{new(big.Int), map[string]*big.Int{k: new(big.Int).Mul(ca, cb)}}, big.NewInt(1))
		}
	}
	return r
}

func (p *intPrinter) declareMono(k, ka, kb string) {
	l := p.lin
	fmt.Fprintf(&p.sb, "(declare-const |m:%s| Int)\n", k)
	ra, rb := l.rng[ka], l.rng[kb]
	// atoms are non-negative
	lo := new(big.Int).Mul(ra[0], rb[0])
	hi := new(big.Int).Mul(ra[1], rb[1])
	l.rng[k] = [2]*big.Int{lo, hi}
	x, y, z := l.monoText(ka), l.monoText(kb), l.monoText(k)
	p.mccormick(x, y, z, ra, rb)
	if ka == kb && ra[1].IsUint64() && ra[1].Uint64() < 1<<32 {
		// squares: tangents at a few points
		h := ra[1].Uint64()
		for _, q := range []uint64{h / 4, h / 2, 3 * (h / 4)} {
			fmt.Fprintf(&p.sb, "(assert (>= %s (- (* %d %s) %s)))\n", z, 2*q, x, new(big.Int).Mul(bigU(q), bigU(q)))
		}
	}
}

func (p *intPrinter) mccormick(x, y, z string, ra, rb [2]*big.Int) {
	mul := func(a, b *big.Int) string { return bigLit(new(big.Int).Mul(a, b)) }
	c := func(a *big.Int, s string) string { return "(* " + bigLit(a) + " " + s + ")" }
	fmt.Fprintf(&p.sb, "(assert (and (>= %s (- (+ %s %s) %s)) (>= %s (- (+ %s %s) %s)) (<= %s (- (+ %s %s) %s)) (<= %s (- (+ %s %s) %s))))\n",
		z, c(ra[0], y), c(rb[0], x), mul(ra[0], rb[0]),
		z, c(ra[1], y), c(rb[1], x), mul(ra[1], rb[1]),
		z, c(ra[1], y), c(rb[0], x), mul(ra[1], rb[0]),
		z, c(ra[0], y), c(rb[1], x), mul(ra[0], rb[1]))
}

// linDefine handles a term in abstraction mode; false leaves it to the
// general encoding.
func (p *intPrinter) linDefine(t *Term) bool {
	l := p.lin
	m := mask(t.w)
	def := func(f *linForm) bool {
		l.lf[t.id] = f
		fmt.Fprintf(&p.sb, "(define-fun t%d () Int %s)\n", t.id, l.text(f))
		if len(f.m) > 0 && t.op != OpZext {
			fmt.Fprintf(&p.sb, "(assert (<= %d t%d %d))\n", t.lo, t.id, t.hi)
		}
		return true
	}
	atom := func() string {
		fmt.Fprintf(&p.sb, "(declare-const t%d Int)\n(assert (<= %d t%d %d))\n", t.id, t.lo, t.id, t.hi)
		return "t" + strconv.Itoa(int(t.id))
	}
	one := big.NewInt(1)
	switch t.op {
	case OpZext:
		return def(p.form(t.a[0]))
	case OpAdd:
		if h := t.a[0].hi + t.a[1].hi; h >= t.a[0].hi && h <= m {
			f := newForm()
			f.addScaled(p.form(t.a[0]), one)
			f.addScaled(p.form(t.a[1]), one)
			return def(f)
		}
	case OpSub:
		if t.a[0].lo >= t.a[1].hi {
			f := newForm()
			f.addScaled(p.form(t.a[0]), one)
			f.addScaled(p.form(t.a[1]), big.NewInt(-1))
			return def(f)
		}
		if p.ordered(t.a[1], t.a[0]) {
			f := newForm()
			f.addScaled(p.form(t.a[0]), one)
			f.addScaled(p.form(t.a[1]), big.NewInt(-1))
			return def(f)
		}
		// otherwise the general encoding (an ite)
	case OpNot:
		f := newForm()
		f.k = bigU(m)
		f.addScaled(p.form(t.a[0]), big.NewInt(-1))
		return def(f)
	case OpShl:
		if k := t.a[1]; k.isConst() && k.c < uint64(t.w) && t.a[0].hi <= m>>k.c {
			f := newForm()
			f.addScaled(p.form(t.a[0]), new(big.Int).Lsh(one, uint(k.c)))
			return def(f)
		}
	case OpMul:
		a, b := t.a[0], t.a[1]
		hi := new(big.Int).Mul(bigU(a.hi), bigU(b.hi))
		if hi.BitLen() > int(t.w) {
			if a.isConst() || b.isConst() {
				return false
			}
			atom()
			return true
		}
		fa, fb := p.form(a), p.form(b)
		if len(fa.m)*len(fb.m) > 64 {
			atom()
			return true
		}
		f := p.product(fa, fb)
		def(f)
		if !a.isConst() && !b.isConst() {
			ref := "t" + strconv.Itoa(int(t.id))
			p.mccormick(l.text(fa), l.text(fb), ref, [2]*big.Int{bigU(a.lo), bigU(a.hi)}, [2]*big.Int{bigU(b.lo), bigU(b.hi)})
			p.pairs(t, a, b)
			p.pairs(t, b, a)
			l.muls[a.id] = append(l.muls[a.id], t)
			l.muls[b.id] = append(l.muls[b.id], t)
		}
		return true
	case OpUDiv, OpLshr:
		a, b := t.a[0], t.a[1]
		n := p.form(a)
		if b.isConst() {
			d := bigU(b.c)
			if t.op == OpLshr {
				if b.c >= uint64(t.w) {
					return false
				}
				d = new(big.Int).Lsh(one, uint(b.c))
			}
			if d.Sign() == 0 {
				return false
			}
			q := atom()
			nt := l.text(n)
			fmt.Fprintf(&p.sb, "(assert (and (<= (* %s %s) %s) (<= %s (+ (* %s %s) %s))))\n", d, q, nt, nt, d, q, new(big.Int).Sub(d, one))
			return true
		}
		if t.op == OpLshr || b.lo == 0 {
			if t.op == OpLshr {
				return false
			}
			atom()
			return true
		}
		q := atom()
		fq := p.form(t)
		fb := p.form(b)
		pr := p.product(fq, fb)
		nt, bt := l.text(n), l.text(fb)
		fmt.Fprintf(&p.sb, "(assert (and (<= %s %s) (<= %s (+ %s (- %s 1)))))\n", l.text(pr), nt, nt, l.text(pr), bt)
		p.mccormick(q, bt, l.text(pr), [2]*big.Int{bigU(t.lo), bigU(t.hi)}, [2]*big.Int{bigU(b.lo), bigU(b.hi)})
		cs := map[string]*big.Int{}
		add := func(v *big.Int) { cs[v.String()] = v }
		add(one)
		if a.op == OpMul {
			for _, x := range a.a {
				if x.isConst() {
					add(bigU(x.c))
				}
			}
		}
		if a.op == OpShl && a.a[1].isConst() && a.a[1].c < 63 {
			add(new(big.Int).Lsh(one, uint(a.a[1].c)))
		}
		for _, c := range cs {
			fmt.Fprintf(&p.sb, "(assert (and (=> (<= %s (* %s %s)) (<= %s %s)) (=> (>= %s (* %s %s)) (>= %s %s)) (=> (< %s (* %s %s)) (< %s %s))))\n",
				nt, c, bt, q, c, nt, c, bt, q, c, nt, c, bt, q, c)
		}
		return true
	case OpURem:
		a, b := t.a[0], t.a[1]
		if b.isConst() || b.lo == 0 {
			if b.isConst() {
				return false
			}
			atom()
			return true
		}
		r := atom()
		fmt.Fprintf(&p.sb, "(assert (and (< %s %s) (<= %s %s)))\n", r, l.text(p.form(b)), r, l.text(p.form(a)))
		return true
	case OpSDiv, OpSRem:
		if !t.a[1].isConst() {
			atom()
			return true
		}
	case OpXor, OpAnd, OpOr:
		if !t.a[1].isConst() {
			atom()
			if t.op == OpAnd {
				fmt.Fprintf(&p.sb, "(assert (and (<= t%d %s) (<= t%d %s)))\n", t.id, refInt(t.a[0]), t.id, refInt(t.a[1]))
			}
			if t.op == OpOr {
				fmt.Fprintf(&p.sb, "(assert (and (>= t%d %s) (>= t%d %s) (<= t%d (+ %s %s))))\n", t.id, refInt(t.a[0]), t.id, refInt(t.a[1]), t.id, refInt(t.a[0]), refInt(t.a[1]))
			}
			return true
		}
	case OpAshr:
		if !t.a[1].isConst() {
			atom()
			return true
		}
	}
	return false
}

// pairs relates products that share a factor.
func (p *intPrinter) pairs(t, shared, other *Term) {
	l := p.lin
	ref := func(x *Term) string { return l.text(p.form(x)) }
	n := 0
	for i := len(l.muls[shared.id]) - 1; i >= 0 && n < 8; i-- {
		u := l.muls[shared.id][i]
		o := u.a[0]
		if o == shared {
			o = u.a[1]
		}
		if o == other || l.nmul > 400 {
			continue
		}
		n++
		l.nmul++
		x, y, ax, ay, s := ref(other), ref(o), ref(t), ref(u), ref(shared)
		fmt.Fprintf(&p.sb, "(assert (and (=> (= %s %s) (= %s %s)) (=> (< %s %s) (<= (+ %s %s) %s)) (=> (< %s %s) (<= (+ %s %s) %s))))\n", x, y, ax, ay, x, y, ax, s, ay, y, x, ay, s, ax)
	}
}

// ordered tells whether a <= b is among the asserted facts.
func (p *intPrinter) ordered(a, b *Term) bool {
	if p.c == nil {
		return false
	}
	for _, t := range []*Term{p.c.Ule(a, b), p.c.Ult(a, b), p.c.Eq(a, b)} {
		if t.isTrue() || p.facts[t.id] {
			return true
		}
	}
	return false
}
