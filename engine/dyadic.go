package main

import "math"

// Floating point values that are exact multiples of a power of two.

type dyadic struct {
	n *Term // 64 bit integer, |n| < 2^53
	s uint  // the value is n / 2^s
}

const maxDy = 1 << 53

func (c *Ctx) dyOK(n *Term) bool { return n.sl > -maxDy && n.sh < maxDy }

func absBound(t *Term) float64 {
	return math.Max(math.Abs(float64(t.sl)), math.Abs(float64(t.sh)))
}

// scaleUp multiplies by 2^k if the result stays in range.
func (c *Ctx) scaleUp(d dyadic, k uint) (dyadic, bool) {
	if k == 0 {
		return d, true
	}
	if k > 52 || math.Ldexp(absBound(d.n), int(k)) >= maxDy {
		return d, false
	}
	d.n = c.Mul(d.n, c.BV(64, 1<<k))
	d.s += k
	return d, c.dyOK(d.n)
}

func (c *Ctx) align(x, y dyadic) (dyadic, dyadic, bool) {
	var ok bool
	if x.s < y.s {
		x, ok = c.scaleUp(x, y.s-x.s)
	} else {
		y, ok = c.scaleUp(y, x.s-y.s)
	}
	return x, y, ok
}

// exact gives the value of a double as an exact fraction, if it is known to be
// one. Every operation below is exact in floating point as its result needs
// fewer than 53 bits (a zero is never negative unless it is a product or a
// negation, and its sign never matters to the uses of exact).
func (c *Ctx) exact(t *Term) (d dyadic, ok bool) {
	if !t.fp || t.w != 64 {
		return d, false
	}
	switch t.op {
	case OpConst:
		f := t.fval()
		if f == 0 {
			return dyadic{c.Int(0), 0}, true
		}
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return d, false
		}
		s := uint(0)
		for f != math.Trunc(f) {
			f *= 2
			if s++; s > 40 {
				return d, false
			}
		}
		if math.Abs(f) >= maxDy {
			return d, false
		}
		return dyadic{c.Int(int64(f)), s}, true
	case OpFFromU:
		if t.a[0].hi >= maxDy {
			return d, false
		}
		n := t.a[0]
		if n.w < 64 {
			n = c.Zext(n, 64)
		}
		return dyadic{n, 0}, c.dyOK(n)
	case OpFFromS:
		n := t.a[0]
		if n.w < 64 {
			n = c.Sext(n, 64)
		}
		return dyadic{n, 0}, c.dyOK(n)
	case OpFNeg:
		if d, ok = c.exact(t.a[0]); ok {
			d.n = c.Neg(d.n)
			ok = c.dyOK(d.n)
		}
		return d, ok
	case OpFAdd, OpFSub, OpFMul:
		x, ok := c.exact(t.a[0])
		if !ok {
			return d, false
		}
		y, ok := c.exact(t.a[1])
		if !ok {
			return d, false
		}
		if t.op == OpFMul {
			if absBound(x.n)*absBound(y.n) >= maxDy || x.s+y.s > 60 {
				return d, false
			}
			d = dyadic{c.Mul(x.n, y.n), x.s + y.s}
			return d, c.dyOK(d.n)
		}
		if x, y, ok = c.align(x, y); !ok || absBound(x.n)+absBound(y.n) >= maxDy {
			return d, false
		}
		if t.op == OpFAdd {
			d = dyadic{c.Add(x.n, y.n), x.s}
		} else {
			d = dyadic{c.Sub(x.n, y.n), x.s}
		}
		return d, c.dyOK(d.n)
	case OpFDiv:
		x, ok := c.exact(t.a[0])
		if !ok || !t.a[1].isConst() {
			return d, false
		}
		f, e := math.Frexp(t.a[1].fval())
		if f != 0.5 || e < -20 || e > 40 {
			return d, false
		}
		if e--; e < 0 {
			x, ok = c.scaleUp(x, uint(-e))
			x.s += uint(e) // scaleUp kept the value
			return x, ok
		}
		x.s += uint(e)
		return x, x.s <= 60
	case OpIte:
		x, ok := c.exact(t.a[1])
		if !ok {
			return d, false
		}
		y, ok := c.exact(t.a[2])
		if !ok {
			return d, false
		}
		if x, y, ok = c.align(x, y); !ok {
			return d, false
		}
		d = dyadic{c.Ite(t.a[0], x.n, y.n), x.s}
		return d, c.dyOK(d.n)
	case OpFRound:
		n, ok := c.rounded(t.a[0], t.c)
		return dyadic{n, 0}, ok
	}
	return d, false
}

// rounded gives the integer a double is rounded to: downwards (0), upwards (1)
// or towards zero (2).
//
// For a quotient of integers a >= 0, b > 0 with a+b < 2^53 rounding the
// quotient to a double never moves it past an integer: a distance of a/b to an
// integer n > a/b is at least 1/b, more than half a unit in the last place
// below n, which is at most n * 2^-54; and likewise above.
func (c *Ctx) rounded(t *Term, k uint64) (*Term, bool) {
	if d, ok := c.exact(t); ok {
		if d.s == 0 {
			return d.n, true
		}
		s := c.BV(64, uint64(d.s))
		if k == 2 && d.n.sl >= 0 {
			k = 0
		}
		switch k {
		case 0:
			if d.n.sl >= 0 {
				return c.Lshr(d.n, s), true
			}
			return c.Ashr(d.n, s), true
		case 1:
			return c.Neg(c.Ashr(c.Neg(d.n), s)), true
		}
		return c.Ite(c.Slt(d.n, c.Int(0)), c.Neg(c.Ashr(c.Neg(d.n), s)), c.Ashr(d.n, s)), true
	}
	if t.fp && t.w == 64 && t.op == OpFDiv {
		x, ok := c.exact(t.a[0])
		if !ok || x.n.sl < 0 {
			return nil, false
		}
		y, ok := c.exact(t.a[1])
		if !ok || y.n.sl <= 0 {
			return nil, false
		}
		// (xn/2^xs) / (yn/2^ys) = (xn*2^ys) / (yn*2^xs)
		a, b := x, y
		ok = true
		if y.s > x.s {
			a, ok = c.scaleUp(a, y.s-x.s)
		} else {
			b, ok = c.scaleUp(b, x.s-y.s)
		}
		if !ok || absBound(a.n)+absBound(b.n) >= maxDy {
			return nil, false
		}
		q := c.UDiv(a.n, b.n)
		if k == 1 {
			q = c.Add(q, c.Ite(c.Eq(c.URem(a.n, b.n), c.Int(0)), c.Int(0), c.Int(1)))
		}
		return q, true
	}
	return nil, false
}
