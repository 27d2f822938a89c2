package main

// Simplification of a term by what the path condition says syntactically:
// conditions known to hold or fail and terms known to equal constants.

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpAdd:
		return c.Add(a[0], a[1])
	case OpSub:
		return c.Sub(a[0], a[1])
	case OpMul:
		return c.Mul(a[0], a[1])
	case OpUDiv:
		return c.UDiv(a[0], a[1])
	case OpURem:
		return c.URem(a[0], a[1])
	case OpSDiv:
		return c.SDiv(a[0], a[1])
	case OpSRem:
		return c.SRem(a[0], a[1])
	case OpAnd:
		return c.BAnd(a[0], a[1])
	case OpOr:
		return c.BOr(a[0], a[1])
	case OpXor:
		return c.BXor(a[0], a[1])
	case OpNot:
		return c.BNotBV(a[0])
	case OpShl:
		return c.Shl(a[0], a[1])
	case OpLshr:
		return c.Lshr(a[0], a[1])
	case OpAshr:
		return c.Ashr(a[0], a[1])
	case OpExtract:
		return c.Extract(a[0], uint8(t.c), t.w)
	case OpZext:
		return c.Zext(a[0], t.w)
	case OpSext:
		return c.Sext(a[0], t.w)
	case OpEq:
		return c.Eq(a[0], a[1])
	case OpUlt:
		return c.Ult(a[0], a[1])
	case OpUle:
		return c.Ule(a[0], a[1])
	case OpSlt:
		return c.Slt(a[0], a[1])
	case OpSle:
		return c.Sle(a[0], a[1])
	case OpIte:
		return c.Ite(a[0], a[1], a[2])
	case OpBAnd:
		return c.And(a[0], a[1])
	case OpBOr:
		return c.Or(a[0], a[1])
	case OpBNot:
		return c.Not(a[0])
	}
	return c.intern(&Term{op: t.op, fp: t.fp, w: t.w, a: a, c: t.c, name: t.name})
}

// inContext is a term equal to t under the path condition.
func (m *M) inContext(t *Term) *Term {
	eqs := map[*Term]*Term{}
	for _, p := range m.pc {
		if p.op == OpEq && !p.a[0].fp && p.a[0].w > 0 {
			if p.a[0].isConst() {
				eqs[p.a[1]] = p.a[0]
			} else if p.a[1].isConst() {
				eqs[p.a[0]] = p.a[1]
			}
		}
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.isConst() {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		r := t
		if e := eqs[t]; e != nil {
			r = e
		} else if v, ok := m.truth(t); ok {
			r = m.c.Bool(v)
		} else if t.op == OpIte {
			k := rec(t.a[0])
			switch {
			case k.isTrue():
				r = rec(t.a[1])
			case k.isFalse():
				r = rec(t.a[2])
			default:
				r = m.c.Ite(k, rec(t.a[1]), rec(t.a[2]))
			}
		} else if len(t.a) > 0 {
			n := make([]*Term, len(t.a))
			ch := false
			for i, a := range t.a {
				n[i] = rec(a)
				ch = ch || n[i] != a
			}
			if ch {
				r = m.c.rebuild(t, n)
				if v, ok := m.truth(r); ok {
					r = m.c.Bool(v)
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (m *M) truth(t *Term) (bool, bool) {
	switch t.op {
	case OpEq, OpUlt, OpUle, OpSlt, OpSle, OpBAnd, OpBOr, OpBNot, OpFLt, OpFLe, OpFEq:
		return m.lookup(t)
	case OpVar, OpIte, OpUF:
		if t.w == 0 {
			return m.lookup(t)
		}
	}
	return false, false
}
