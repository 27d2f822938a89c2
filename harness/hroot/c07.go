package hroot

import (
	"image/color"

	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

func near16(a, b color.NRGBA64, tol int64) bool {
	return vsym.And(near(int64(a.R), int64(b.R), tol), near(int64(a.G), int64(b.G), tol), near(int64(a.B), int64(b.B), tol))
}

//vsym:check C07
func H_C07_hsv() {
	c := nrgba64("c")
	hi, _, lo := ordered(c, vsym.Choose("order", 6))
	h := lcolor.RGBToHSV(c)
	vsym.Assert(int64(h.V) == hi, "value is the largest channel")
	vsym.Assert(h.A == c.A, "alpha kept in HSV")
	r := h.ToNRGBA()
	vsym.Assert(r.A == c.A, "alpha kept from HSV")
	if hi == lo {
		vsym.Assert(h.S == 0, "greys have no saturation in HSV")
		vsym.Assert(r == c, "greys restored from HSV")
	} else {
		vsym.Assert(near(int64(r.R), int64(c.R), 16), "red restored from HSV")
		vsym.Assert(near(int64(r.G), int64(c.G), 16), "green restored from HSV")
		vsym.Assert(near(int64(r.B), int64(c.B), 16), "blue restored from HSV")
	}
	vsym.Observe("h", uint64(h.H))
	vsym.Observe("s", uint64(h.S))
	vsym.Observe("r", uint64(r.R))
	vsym.Observe("g", uint64(r.G))
	vsym.Observe("b", uint64(r.B))
}

// hueHints are lemmas for the solver about the hue h, for a colour with these
// channels in order; cp is the spread of the channels the way back assumes.
func hueHints(h uint16, n int, mid, lo, d, cp int64) {
	h6 := uint32(0)
	if h != 0xffff {
		h6 = uint32(h) * 6
	}
	fold := h6 % 0x1fffe
	fold = vsym.Ite(fold >= 0xffff, 0x1fffe-fold, fold)
	q := int64(0xffff * uint32(mid-lo) / uint32(d))
	vsym.Hint(vsym.And(q <= 0xffff, q*d <= 0xffff*(mid-lo), 0xffff*(mid-lo) < q*d+d))
	f := int64(fold)
	vsym.Hint(near(f, q, 6))
	e := f - q
	g := cp - d
	vsym.Hint(near(f*cp, q*d+q*g+e*d+e*g, 0))
	vsym.Hint(near(q*g, 0, 4*0xffff))
	vsym.Hint(near(e*d, 0, 6*0xffff))
	vsym.Hint(near(e*g, 0, 24))
	vsym.Hint(near(f*cp, 0xffff*(mid-lo), 12*0xffff))
	x := fold * uint32(cp) / 0xffff
	X := int64(x)
	vsym.Hint(near(X, mid-lo, 13))
	vsym.Hint(vsym.And(X <= cp, X >= 0, cp <= full))
	vsym.Hint(vsym.Implies(fold >= 0xffff-5, X+6 >= cp))
	vsym.Hint(vsym.Implies(fold <= 5, X <= 5))
	base := [...]int64{0, 6 * full, 2 * full, 2 * full, 4 * full, 4 * full}[n]
	hue := base + q
	if n == 1 || n == 2 || n == 5 {
		hue = base - q
	}
	vsym.Hint(vsym.Or(vsym.And(int64(h6) <= hue, hue <= int64(h6)+5), n == 1 && h6 == 0 && q <= 5))
	vsym.Cut(x)
	vsym.Cut(uint32(cp))
	vsym.Cut(h)
	vsym.Cut(uint32(q))
}

//vsym:check C07 secs.quick=120 assertsec.quick=10
func H_C07_hsl() {
	c := nrgba64("c")
	n := vsym.Choose("order", 6)
	hi, mid, lo := ordered(c, n)
	h := lcolor.RGBToHSL(c)
	if d, l, S := hi-lo, hi+lo, int64(h.S); d > 0 && h.S > 0 {
		cc := uint32(h.L) << 1
		if l > full {
			l = 2*full - l
			cc = 0x1fffe - cc
		}
		vsym.Hint(vsym.And(S <= full, S*l <= full*d, full*d < S*l+l))
		cp := int64(cc * uint32(h.S) / 0xffff)
		vsym.Hint(near(S*int64(cc), S*l, full))
		vsym.Hint(near(cp, d, 4))
		hueHints(h.H, n, mid, lo, d, cp)
	}
	vsym.Assert(int64(h.L) == (hi+lo)>>1, "lightness is the mean of the largest and smallest channel")
	vsym.Assert(h.A == c.A, "alpha kept in HSL")
	r := h.ToNRGBA()
	vsym.Assert(r.A == c.A, "alpha kept from HSL")
	if hi == lo {
		vsym.Assert(h.S == 0, "greys have no saturation in HSL")
		vsym.Assert(r == c, "greys restored from HSL")
	} else {
		vsym.Assert(near(int64(r.R), int64(c.R), 24), "red restored from HSL")
		vsym.Assert(near(int64(r.G), int64(c.G), 24), "green restored from HSL")
		vsym.Assert(near(int64(r.B), int64(c.B), 24), "blue restored from HSL")
	}
	vsym.Observe("h", uint64(h.H))
	vsym.Observe("s", uint64(h.S))
	vsym.Observe("r", uint64(r.R))
	vsym.Observe("g", uint64(r.G))
	vsym.Observe("b", uint64(r.B))
}
