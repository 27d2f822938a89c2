package hroot

import (
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// same reports whether two colours have equal premultiplied components.
func same(a, b color.Color) bool {
	r1, g1, b1, a1 := a.RGBA()
	r2, g2, b2, a2 := b.RGBA()
	return vsym.And(r1 == r2, g1 == g2, b1 == b2, a1 == a2)
}

// A transparent top changes nothing, in every mode but destination in/atop.
//
//vsym:check C02
func H_C02_transparentTop() {
	mode := limage.Composite(vsym.Choose("mode", 44))
	if mode == 43 {
		mode = limage.Composite(vsym.U32("bigmode"))
		vsym.Assume(mode >= 43)
	}
	vsym.Assume(mode != limage.CompositeDestinationIn && mode != limage.CompositeDestinationAtop)
	b := nrgba64("b")
	t := nrgba64("t")
	t.A = 0
	c := mode.Composite(b, t)
	n := nrgbaOf(c)
	// lemma for the solver; equal components are the same picture
	vsym.Hint(vsym.Or(n == b, vsym.And(n.A == 0, b.A == 0)))
	vsym.Assert(same(c, b), "a transparent top leaves the bottom")
	vsym.Cover("result")
}

// Normal: an opaque top replaces the bottom, a transparent bottom is ignored.
//
//vsym:check C02
func H_C02_normal() {
	b := nrgba64("b")
	t := nrgba64("t")
	if vsym.Choose("case", 2) == 0 {
		t.A = 0xffff
	} else {
		b.A = 0
	}
	vsym.Assert(same(limage.CompositeNormal.Composite(b, t), t), "the top is shown exactly")
	vsym.Cover("result")
}
