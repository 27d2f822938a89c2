package hroot

import (
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

var separable = [...]limage.Composite{
	limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDifference,
	limage.CompositeAddition, limage.CompositeSubtract, limage.CompositeDarkenOnly, limage.CompositeLightenOnly,
	limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight,
	limage.CompositeSoftLight, limage.CompositeGrainExtract, limage.CompositeGrainMerge,
}

const full = 0xffff

func clampI(v int64) int64 { return min64(max64(v, 0), full) }

// With opaque inputs the channel function is the documented one.
//
//vsym:check C04
func H_C04_formula() {
	mode := separable[vsym.Choose("mode", len(separable))]
	b := nrgba64("b")
	t := nrgba64("t")
	b.A = full
	t.A = full
	c := nrgbaOf(mode.Composite(b, t))
	vsym.Assert(c.A == full, "opaque stays opaque")
	// red only: H_C04_channels shows that green and blue follow red
	x, y, r := int64(b.R), int64(t.R), int64(c.R)
	const F = full
	switch mode {
	case limage.CompositeMultiply:
		vsym.Assert(near(r*F, x*y, 2*F), "multiply")
	case limage.CompositeScreen:
		vsym.Assert(near((F-r)*F, (F-x)*(F-y), 2*F), "screen")
	case limage.CompositeOverlay, limage.CompositeSoftLight:
		vsym.Assert(near(r*F*F, (F-y)*(x*x)+y*(F*F-(F-y)*(F-y)), 3*F*F), "overlay")
	case limage.CompositeDifference:
		vsym.Assert(near(r, max64(x-y, y-x), 2), "difference")
	case limage.CompositeAddition:
		vsym.Assert(near(r, clampI(x+y), 2), "addition")
	case limage.CompositeSubtract:
		vsym.Assert(near(r, clampI(x-y), 2), "subtract")
	case limage.CompositeDarkenOnly:
		vsym.Assert(near(r, min64(x, y), 2), "darken")
	case limage.CompositeLightenOnly:
		vsym.Assert(near(r, max64(x, y), 2), "lighten")
	case limage.CompositeDivide:
		quotient(r, x, y, "divide")
	case limage.CompositeDodge:
		quotient(r, x, F-y, "dodge")
	case limage.CompositeBurn:
		quotient(F-r, F-x, y, "burn")
	case limage.CompositeHardLight:
		if 2*y < F {
			vsym.Assert(near(r*F, 2*x*y, 2*F), "hard light, lower half")
		} else {
			vsym.Assert(near((F-r)*F, 2*(F-x)*(F-y), 2*F), "hard light, upper half")
		}
	case limage.CompositeGrainExtract:
		vsym.Assert(vsym.Or(near(r, clampI(x-y+0x7fff), 2), near(r, clampI(x-y+0x8000), 2)), "grain extract")
	case limage.CompositeGrainMerge:
		vsym.Assert(vsym.Or(near(r, clampI(x+y-0x7fff), 2), near(r, clampI(x+y-0x8000), 2)), "grain merge")
	}
	vsym.Cover("result")
}

// quotient: r is x/y clamped to one, with 0/0 = 0.
func quotient(r, x, y int64, label string) {
	if y == 0 {
		if x == 0 {
			vsym.Assert(r <= 2, label+" 0/0")
		} else {
			vsym.Assert(r >= full-2, label+" x/0")
		}
		return
	}
	if x >= y {
		vsym.Assert(r >= full-2, label+" clamped")
	} else {
		vsym.Assert(near(r*y, full*x, 2*y), label)
	}
}

// Each channel depends only on the same channel, by the same function.
//
//vsym:check C04
func H_C04_channels() {
	mode := separable[vsym.Choose("mode", len(separable))]
	b := nrgba64("b")
	t := nrgba64("t")
	c := nrgbaOf(mode.Composite(b, t))
	// channels rotated
	d := nrgbaOf(mode.Composite(color.NRGBA64{R: b.G, G: b.B, B: b.R, A: b.A}, color.NRGBA64{R: t.G, G: t.B, B: t.R, A: t.A}))
	vsym.Assert(vsym.And(d.R == c.G, d.G == c.B, d.B == c.R), "rotating the channels rotates the result")
	vsym.Assert(vsym.Or(c.A == b.A, vsym.And(b.A == 0, c.A == 0)), "the bottom's alpha is kept")
	// other channels changed
	b2 := nrgba64("b2")
	t2 := nrgba64("t2")
	b2.R, b2.A, t2.R, t2.A = b.R, b.A, t.R, t.A
	e := nrgbaOf(mode.Composite(b2, t2))
	vsym.Assert(vsym.And(e.R == c.R, e.A == c.A), "red depends on red and the alphas only")
	vsym.Cover("result")
}

// With partial alphas the result mixes the bottom and the formula's value with
// weight m/(1-(1-a1)(1-m)), m the smaller alpha.
//
//vsym:check C04
func H_C04_alpha() {
	mode := separable[vsym.Choose("mode", len(separable))]
	b := nrgba64("b")
	t := nrgba64("t")
	vsym.Assume(b.A > 0)
	m := b.A
	if vsym.Choose("smaller alpha", 2) == 0 {
		vsym.Assume(t.A < b.A)
		m = t.A
	} else {
		vsym.Assume(t.A >= b.A)
	}
	ob, ot := b, t
	ob.A = full
	ot.A = full
	f := nrgbaOf(mode.Composite(ob, ot))
	vsym.Cut(f.R)
	c := nrgbaOf(mode.Composite(b, t))
	x1, x2, x := int64(b.R), int64(f.R), int64(c.R)
	mixture(x1, x2, x, b.A, m)
	vsym.Cover("result")
}

// mixture: x mixes x1 and x2, x2 having weight m/(1-(1-a1)(1-m)), to within
// three units.
func mixture(x1, x2, x int64, a1, m16 uint16) {
	m := int64(m16)
	a := int64(0xffff - (0xffff-uint32(a1))*(0xffff-uint32(m16))/0xffff)
	vsym.Assert(vsym.And(x+2 >= min64(x1, x2), x <= max64(x1, x2)), "between the bottom and the formula")
	// lemmas for the solver: the mixing weight rounded down
	k := int64(0xffff * uint32(m) / uint32(a))
	vsym.Hint(vsym.And(k <= 0xffff, k*a <= 0xffff*m, 0xffff*m < k*a+a))
	up := vsym.Ite(x2 > x1, x2-x1, 0)
	down := vsym.Ite(x2 > x1, 0, x1-x2)
	vsym.Hint(0xffff*x+2*0xffff > 0xffff*x1+k*up-k*down)
	ka := k * a
	rest := 0xffff*m - ka
	vsym.Hint(vsym.And(ka <= 0xffff*0xffff, rest >= 0, rest < a))
	vsym.Hint(vsym.And(rest*up <= a*0xffff, rest*down <= a*0xffff))
	ideal := x1*(a-m) + x2*m
	vsym.Assert(x*a-ideal <= 2*a, "mixture, from above")
	vsym.Assert(ideal-x*a <= 3*a, "mixture, from below")
}
