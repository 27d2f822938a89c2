package main

import "sort"

// Sums and differences in a normal form, as far as terms cancel.

type lterm struct {
	t *Term
	k int64
}

type lsum struct {
	l []lterm
	c uint64
	n int // leaves met
	o bool // the constant overflowed
}

func (s *lsum) add(t *Term, k int64) {
	s.n++
	for i := range s.l {
		if s.l[i].t == t {
			s.l[i].k += k
			return
		}
	}
	s.l = append(s.l, lterm{t, k})
}

// collect splits a sum; with exact set only where nothing can overflow as
// signed numbers.
func (s *lsum) collect(t *Term, k int64, exact bool, depth int) {
	if t.isConst() {
		v := sext64(t.c, t.w)
		if k < 0 {
			v = -v
		}
		r, o := addS(int64(s.c), v)
		s.o = s.o || o || v == -1<<63
		s.c = uint64(r)
		return
	}
	if depth > 0 && (t.op == OpAdd || t.op == OpSub) && (!exact || noOverflow(t)) {
		s.collect(t.a[0], k, exact, depth-1)
		if t.op == OpSub {
			k = -k
		}
		s.collect(t.a[1], k, exact, depth-1)
		return
	}
	s.add(t, k)
}

func noOverflow(t *Term) bool {
	a, b := t.a[0], t.a[1]
	f := addS
	bl, bh := b.sl, b.sh
	if t.op == OpSub {
		f = subS
		bl, bh = bh, bl
	}
	lo, o1 := f(a.sl, bl)
	hi, o2 := f(a.sh, bh)
	return !o1 && !o2 && lo >= minS(t.w) && hi <= maxS(t.w)
}

func (s *lsum) clean() (cancelled bool) {
	l := s.l[:0]
	n := 0
	for _, x := range s.l {
		if x.k != 0 {
			l = append(l, x)
		}
		if x.k < 0 {
			n -= int(x.k)
		} else {
			n += int(x.k)
		}
	}
	s.l = l
	sort.Slice(l, func(i, j int) bool { return l[i].t.id < l[j].t.id })
	return n < s.n
}

// ringSum simplifies a sum or difference if parts of it cancel, modulo 2^w.
func (c *Ctx) ringSum(a, b *Term, k int64, w uint8) *Term {
	if w < 32 || a.op != OpAdd && a.op != OpSub && b.op != OpAdd && b.op != OpSub {
		return nil
	}
	var s lsum
	s.collect(a, 1, false, 4)
	s.collect(b, k, false, 4)
	if !s.clean() || len(s.l) > 6 {
		return nil
	}
	var r *Term
	for pass := 0; pass < 2; pass++ {
		for _, x := range s.l {
			if (x.k > 0) != (pass == 0) {
				continue
			}
			n := x.k
			if n < 0 {
				n = -n
			}
			if n > 4 {
				return nil
			}
			for ; n > 0; n-- {
				switch {
				case r == nil && x.k > 0:
					r = x.t
				case r == nil:
					r = c.mk(OpSub, w, c.BV(w, s.c), x.t)
					s.c = 0
				case x.k > 0:
					r = c.mk(OpAdd, w, r, x.t)
				default:
					r = c.mk(OpSub, w, r, x.t)
				}
			}
		}
	}
	if r == nil {
		return c.BV(w, s.c)
	}
	if v := s.c & mask(w); v != 0 {
		r = c.mk(OpAdd, w, r, c.BV(w, v))
	}
	return r
}

// cancel removes what both sides of a signed comparison have in common.
func (c *Ctx) cancel(a, b *Term, exact bool) (x, y *Term, ok bool) {
	if a.w < 32 || a.op != OpAdd && a.op != OpSub && b.op != OpAdd && b.op != OpSub {
		return
	}
	var s lsum
	s.collect(a, 1, exact, 4)
	s.collect(b, -1, exact, 4)
	if !s.clean() || len(s.l) > 4 || s.o && exact {
		return
	}
	k := int64(s.c)
	// partial sums of the decomposition stay small enough for the constant to
	// be exact; what is rebuilt must not overflow either
	var p, q *Term
	sum := func(r *Term, t *Term) *Term {
		if r == nil {
			return t
		}
		n := c.mk(OpAdd, a.w, r, t)
		if exact && n.op == OpAdd && !noOverflow(n) {
			ok = false
		}
		return n
	}
	ok = true
	for _, l := range s.l {
		switch l.k {
		case 1:
			p = sum(p, l.t)
		case -1:
			q = sum(q, l.t)
		default:
			return nil, nil, false
		}
	}
	if k < -1<<61 || k > 1<<61 {
		return nil, nil, false
	}
	if a.w < 64 && (k < minS(a.w) || k > maxS(a.w)) {
		return nil, nil, false
	}
	switch {
	case k != 0 && p != nil && (k > 0 || q == nil):
		p = sum(p, c.BV(a.w, uint64(k)))
	case k != 0 && q != nil:
		q = sum(q, c.BV(a.w, uint64(-k)))
	case k != 0:
		p = c.BV(a.w, uint64(k))
	}
	if p == nil {
		p = c.BV(a.w, 0)
	}
	if q == nil {
		q = c.BV(a.w, 0)
	}
	return p, q, ok
}
