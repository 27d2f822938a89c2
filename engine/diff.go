package main

// Difference constraints: the comparisons on the path condition that have the
// form x - y <= k, used to decide further comparisons without the solver. All
// terms are read as signed numbers and sums are only taken apart where their
// static ranges exclude overflow.

import "math"

// dedge states u - v <= k; a nil term is the constant zero.
type dedge struct {
	u, v *Term
	k    int64
	at   int // length of knownLog when it was learned
}

func satAdd(a, b int64) int64 {
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return math.MaxInt64
	}
	if a < 0 && b < 0 && s >= 0 {
		return math.MinInt64
	}
	return s
}

// side gives a term as base plus constant.
func (m *M) side(t *Term) (*Term, int64) {
	k := int64(0)
	for {
		if t.isConst() {
			return nil, satAdd(k, sext64(t.c, t.w))
		}
		if b, j := offS(t); b != t {
			t = b
			k = satAdd(k, j)
			continue
		}
		if t.op == OpIte {
			if v, ok := m.known[t.a[0].id]; ok {
				if v {
					t = t.a[1]
				} else {
					t = t.a[2]
				}
				continue
			}
		}
		return t, k
	}
}

// literal gives a comparison as u - v <= k.
func (m *M) literal(c *Term) (u, v *Term, k int64, eq, ok bool) {
	if len(c.a) != 2 {
		return
	}
	a, b := c.a[0], c.a[1]
	if a.fp || b.fp || a.w == 0 {
		return
	}
	switch c.op {
	case OpSlt, OpSle:
	case OpUlt, OpUle:
		if a.sl < 0 || b.sl < 0 {
			return
		}
	case OpEq:
		eq = true
	default:
		return
	}
	// differences against constants
	sub := func(t *Term) bool {
		if t.op != OpSub {
			return false
		}
		lo, o1 := subS(t.a[0].sl, t.a[1].sh)
		hi, o2 := subS(t.a[0].sh, t.a[1].sl)
		return !o1 && !o2 && lo >= minS(t.w) && hi <= maxS(t.w)
	}
	var i, j int64
	switch {
	case b.isConst() && sub(a):
		var x, y int64
		u, x = m.side(a.a[0])
		v, y = m.side(a.a[1])
		i = satAdd(x, -y)
		j = sext64(b.c, b.w)
	case a.isConst() && sub(b):
		// i < x - y  is  y - x < -i
		var x, y int64
		v, x = m.side(b.a[0])
		u, y = m.side(b.a[1])
		i = sext64(a.c, a.w)
		if i == math.MinInt64 {
			return
		}
		i, j = satAdd(y, -x), -i
	default:
		u, i = m.side(a)
		v, j = m.side(b)
	}
	const lim = math.MaxInt64 / 4
	if i == math.MinInt64 || i >= math.MaxInt64 || j == math.MinInt64 {
		return
	}
	k, o := subS(j, i)
	if o || k < -lim*3 {
		return
	}
	if c.op == OpSlt || c.op == OpUlt {
		k--
	}
	return u, v, k, eq, true
}

func (m *M) learnDiff(c *Term) {
	neg := false
	for c.op == OpBNot {
		neg = !neg
		c = c.a[0]
	}
	u, v, k, eq, ok := m.literal(c)
	if !ok || u == v {
		return
	}
	switch {
	case neg && eq:
	case neg:
		m.edges = append(m.edges, dedge{v, u, -k - 1, len(m.knownLog)})
	case eq:
		m.edges = append(m.edges, dedge{u, v, k, len(m.knownLog)})
		if k != math.MinInt64 {
			m.edges = append(m.edges, dedge{v, u, -k, len(m.knownLog)})
		}
	default:
		m.edges = append(m.edges, dedge{u, v, k, len(m.knownLog)})
	}
}

// upper is an upper bound of x - y.
func (m *M) upper(x, y *Term) (int64, bool) {
	dist := map[*Term]int64{y: 0}
	nodes := []*Term{nil, x, y}
	for _, e := range m.edges {
		nodes = append(nodes, e.u, e.v)
	}
	relax := func(u, v *Term, k int64) bool {
		d, ok := dist[v]
		if !ok {
			return false
		}
		s := satAdd(d, k)
		if s == math.MaxInt64 {
			return false
		}
		if s == math.MinInt64 {
			s++
		}
		if o, ok := dist[u]; ok && o <= s {
			return false
		}
		dist[u] = s
		return true
	}
	for n := 0; n < 40; n++ {
		ch := false
		for _, e := range m.edges {
			ch = relax(e.u, e.v, e.k) || ch
		}
		for _, t := range nodes {
			if t == nil {
				continue
			}
			if t.sh != math.MaxInt64 {
				ch = relax(t, nil, t.sh) || ch
			}
			if t.sl > math.MinInt64 {
				ch = relax(nil, t, -t.sl) || ch
			}
		}
		if !ch {
			break
		}
	}
	d, ok := dist[x]
	return d, ok
}

// lookupDiff decides a comparison from the difference constraints.
func (m *M) lookupDiff(c *Term) (val, ok bool) {
	if len(m.edges) == 0 {
		return false, false
	}
	u, v, k, eq, ok := m.literal(c)
	if !ok {
		return false, false
	}
	if u == v {
		if eq {
			return k == 0, true
		}
		return k >= 0, true
	}
	// u - v <= k ?
	a, ok1 := m.upper(u, v)
	b, ok2 := m.upper(v, u)
	if eq {
		if ok1 && a < k || ok2 && k > math.MinInt64 && b < -k {
			return false, true
		}
		if ok1 && ok2 && a <= k && k > math.MinInt64 && b <= -k {
			return true, true
		}
		return false, false
	}
	if ok1 && a <= k {
		return true, true
	}
	if ok2 && b <= -k-1 {
		return false, true
	}
	return false, false
}
