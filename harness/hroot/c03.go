package hroot

import (
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// nrgbaOf gives the non-premultiplied form of a colour the code returned.
func nrgbaOf(c color.Color) color.NRGBA64 {
	switch c := c.(type) {
	case color.NRGBA64:
		return c
	case color.NRGBA:
		return color.NRGBA64{R: uint16(c.R) * 0x101, G: uint16(c.G) * 0x101, B: uint16(c.B) * 0x101, A: uint16(c.A) * 0x101}
	case interface{ ToNRGBA() color.NRGBA64 }:
		return c.ToNRGBA()
	}
	return color.NRGBA64Model.Convert(c).(color.NRGBA64)
}

func near(a, b, tol int64) bool { return vsym.And(a-b <= tol, b-a <= tol) }

func min64(a, b int64) int64 { return vsym.Ite(a < b, a, b) }
func max64(a, b int64) int64 { return vsym.Ite(a > b, a, b) }

//vsym:check C03
func H_C03_alpha() {
	b := nrgba64("b")
	t := nrgba64("t")
	r := nrgbaOf(limage.CompositeNormal.Composite(b, t))
	a1, a2, a := int64(b.A), int64(t.A), int64(r.A)
	vsym.Assert(vsym.And(a >= a1, a >= a2), "alpha not below either alpha")
	vsym.Assert(near(a*0xffff, (a1+a2)*0xffff-a1*a2, 0xffff), "alpha is a1+a2-a1*a2")
}

//vsym:check C03
func H_C03_channels() {
	b := nrgba64("b")
	t := nrgba64("t")
	vsym.Assume(b.A > 0 || t.A > 0)
	r := nrgbaOf(limage.CompositeNormal.Composite(b, t))
	a2, a := int64(t.A), int64(r.A)
	var x1, x2, x int64
	switch vsym.Choose("channel", 3) {
	case 0:
		x1, x2, x = int64(b.R), int64(t.R), int64(r.R)
	case 1:
		x1, x2, x = int64(b.G), int64(t.G), int64(r.G)
	case 2:
		x1, x2, x = int64(b.B), int64(t.B), int64(r.B)
	}
	vsym.Assert(vsym.And(x+2 >= min64(x1, x2), x <= max64(x1, x2)), "channel between the inputs")
	// lemmas for the solver: the mixing weight rounded down
	k := int64(0xffff * uint32(t.A) / uint32(r.A))
	vsym.Hint(vsym.And(k <= 0xffff, k*a <= 0xffff*a2, 0xffff*a2 < k*a+a))
	up := vsym.Ite(x2 > x1, x2-x1, 0)
	down := vsym.Ite(x2 > x1, 0, x1-x2)
	vsym.Hint(0xffff*x+2*0xffff > 0xffff*x1+k*up-k*down)
	ka := k * a
	vsym.Hint(ka <= 0xffff*0xffff)
	rest := 0xffff*a2 - ka
	vsym.Hint(vsym.And(rest >= 0, rest < a))
	vsym.Hint(rest*up <= a*0xffff)
	vsym.Hint(rest*down <= a*0xffff)
	ideal := x1*(a-a2) + x2*a2
	vsym.Assert(x*a-ideal <= 2*a, "channel is the source-over mixture, from above")
	vsym.Assert(ideal-x*a <= 3*a, "channel is the source-over mixture, from below")
}
