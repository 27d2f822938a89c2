package hroot

import (
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// ordered restricts the colour to the n-th order of its channels.
func ordered(c color.NRGBA64, n int) (hi, mid, lo int64) {
	r, g, b := c.R, c.G, c.B
	switch n {
	case 0:
		vsym.Assume(r >= g && g >= b)
	case 1:
		r, g, b = c.R, c.B, c.G
		vsym.Assume(r >= g && g > b)
	case 2:
		r, g, b = c.G, c.R, c.B
		vsym.Assume(r > g && g >= b)
	case 3:
		r, g, b = c.G, c.B, c.R
		vsym.Assume(r >= g && g > b)
	case 4:
		r, g, b = c.B, c.R, c.G
		vsym.Assume(r > g && g >= b)
	case 5:
		r, g, b = c.B, c.G, c.R
		vsym.Assume(r > g && g > b)
	}
	return int64(r), int64(g), int64(b)
}

// orders picks channel orders for bottom and top; the quick tier pairs each
// order of one with one order of the other.
func orders() (bo, to int) {
	to = vsym.Choose("torder", 6)
	if vsym.Bound("pairs of channel orders", 6, 36) == 36 {
		return vsym.Choose("border", 6), to
	}
	return (to + 2) % 6, to
}

// orderHints suggests lemmas about the order of the channels.
func orderHints(c color.NRGBA64) {
	vsym.Hint(c.R >= c.G)
	vsym.Hint(c.R <= c.G)
	vsym.Hint(c.R >= c.B)
	vsym.Hint(c.R <= c.B)
	vsym.Hint(c.G >= c.B)
	vsym.Hint(c.G <= c.B)
}

func allLe(c color.NRGBA64, v int64) bool {
	return vsym.And(int64(c.R) <= v, int64(c.G) <= v, int64(c.B) <= v)
}

func allGe(c color.NRGBA64, v int64) bool {
	return vsym.And(int64(c.R) >= v, int64(c.G) >= v, int64(c.B) >= v)
}

func someGe(c color.NRGBA64, v int64) bool {
	return vsym.Or(int64(c.R) >= v, int64(c.G) >= v, int64(c.B) >= v)
}

func someLe(c color.NRGBA64, v int64) bool {
	return vsym.Or(int64(c.R) <= v, int64(c.G) <= v, int64(c.B) <= v)
}

// grey top: saturation and color make grey, hue leaves the bottom.
//
//vsym:check C05
func H_C05_grey() {
	b := nrgba64("b")
	t := nrgba64("t")
	t.G, t.B, t.A, b.A = t.R, t.R, full, full
	var c color.NRGBA64
	switch vsym.Choose("mode", 3) {
	case 0:
		c = nrgbaOf(limage.CompositeHue.Composite(b, t))
		vsym.Assert(c == b, "hue mode with a grey top leaves the bottom")
	case 1:
		c = nrgbaOf(limage.CompositeSaturation.Composite(b, t))
		vsym.Assert(vsym.And(c.R == c.G, c.G == c.B), "saturation mode with a grey top makes grey")
	case 2:
		c = nrgbaOf(limage.CompositeColor.Composite(b, t))
		vsym.Assert(vsym.And(c.R == c.G, c.G == c.B), "color mode with a grey top makes grey")
	}
	vsym.Assert(c.A == b.A, "alpha of the bottom")
	vsym.Cover("result")
}

// Both opaque: value-like component of the result.
//
//vsym:check C05
func H_C05_hsv() {
	b := nrgba64("b")
	t := nrgba64("t")
	b.A, t.A = full, full
	mode := vsym.Choose("mode", 3)
	bo, to := orders()
	bhi, _, blo := ordered(b, bo)
	thi, _, _ := ordered(t, to)
	switch mode {
	case 0:
		c := nrgbaOf(limage.CompositeHue.Composite(b, t))
		vsym.Assert(allLe(c, bhi+2), "hue mode: no channel above the bottom's value")
		vsym.Assert(someGe(c, bhi-2), "hue mode: some channel at the bottom's value")
		vsym.Assert(allGe(c, blo-2), "hue mode: no channel below the bottom's smallest")
		vsym.Assert(someLe(c, blo+2), "hue mode: some channel at the bottom's smallest")
	case 1:
		c := nrgbaOf(limage.CompositeSaturation.Composite(b, t))
		vsym.Assert(allLe(c, bhi+2), "saturation mode: no channel above the bottom's value")
		vsym.Assert(someGe(c, bhi-2), "saturation mode: some channel at the bottom's value")
	case 2:
		c := nrgbaOf(limage.CompositeValue.Composite(b, t))
		vsym.Assert(allLe(c, thi+2), "value mode: no channel above the top's value")
		vsym.Assert(someGe(c, thi-2), "value mode: some channel at the top's value")
	}
	vsym.Cover("result")
}

// Both opaque: lightness of the result.
//
//vsym:check C05
func H_C05_hsl() {
	b := nrgba64("b")
	t := nrgba64("t")
	b.A, t.A = full, full
	mode := vsym.Choose("mode", 2)
	bo, to := orders()
	bhi, _, blo := ordered(b, bo)
	thi, _, tlo := ordered(t, to)
	switch mode {
	case 0:
		c := nrgbaOf(limage.CompositeColor.Composite(b, t))
		orderHints(c)
		vsym.Assert(near(maxc(c)+minc(c), bhi+blo, 8), "color mode keeps the bottom's lightness")
	case 1:
		c := nrgbaOf(limage.CompositeLuminosity.Composite(b, t))
		orderHints(c)
		vsym.Assert(near(maxc(c)+minc(c), thi+tlo, 8), "luminosity mode takes the top's lightness")
	}
	vsym.Cover("result")
}

func maxc(c color.NRGBA64) int64 { return max64(int64(c.R), max64(int64(c.G), int64(c.B))) }
func minc(c color.NRGBA64) int64 { return min64(int64(c.R), min64(int64(c.G), int64(c.B))) }

// With partial alphas the result mixes the bottom and that colour.
//
//vsym:check C05
func H_C05_alpha() {
	modes := [...]limage.Composite{limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue, limage.CompositeLuminosity}
	n := vsym.Choose("mode", 5)
	mode := modes[n]
	ch := n % 3
	if vsym.Bound("channels per mode", 1, 3) == 3 {
		ch = vsym.Choose("channel", 3)
	}
	b := nrgba64("b")
	t := nrgba64("t")
	vsym.Assume(b.A > 0)
	m := b.A
	if vsym.Choose("smaller alpha", 2) == 0 {
		vsym.Assume(t.A < b.A)
		m = t.A
	} else {
		vsym.Assume(t.A >= b.A)
	}
	ob, ot := b, t
	ob.A = full
	ot.A = full
	if mode == limage.CompositeHue {
		// greyness may be judged on the premultiplied colour, so that very
		// transparent tops count as grey
		vsym.Assume(t.R == t.G && t.G == t.B || t.A > 0x7fff && (t.R > t.G+2 || t.G > t.R+2) && t.R < 0xfff0 && t.G < 0xfff0)
	}
	f := nrgbaOf(mode.Composite(ob, ot))
	c := nrgbaOf(mode.Composite(b, t))
	vsym.Assert(c.A == b.A, "alpha of the bottom")
	var x1, x2, x uint16
	switch ch {
	case 0:
		x1, x2, x = b.R, f.R, c.R
	case 1:
		x1, x2, x = b.G, f.G, c.G
	case 2:
		x1, x2, x = b.B, f.B, c.B
	}
	vsym.Cut(x2)
	mixture(int64(x1), int64(x2), int64(x), b.A, m)
	vsym.Cover("result")
}

// inOrder gives the channels of the colour in the n-th order.
func inOrder(c color.NRGBA64, n int) (hi, mid, lo int64) {
	r, g, b := int64(c.R), int64(c.G), int64(c.B)
	switch n {
	case 0:
		return r, g, b
	case 1:
		return r, b, g
	case 2:
		return g, r, b
	case 3:
		return g, b, r
	case 4:
		return b, r, g
	}
	return b, g, r
}

// The hue comes from the layer the mode takes it from: the channels of the
// result are in the order of that layer's.
//
//vsym:check C05 assertsec.quick=20 secs.quick=60
func H_C05_hue() {
	modes := [...]limage.Composite{limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue, limage.CompositeLuminosity}
	n := vsym.Choose("mode", len(modes))
	b := nrgba64("b")
	t := nrgba64("t")
	b.A, t.A = full, full
	bo, to := orders()
	bhi, _, blo := ordered(b, bo)
	thi, _, tlo := ordered(t, to)
	o := bo
	if n == 0 || n == 2 {
		o = to
		vsym.Assume(thi > tlo)
	} else {
		vsym.Assume(bhi > blo)
	}
	c := nrgbaOf(modes[n].Composite(b, t))
	hi, mid, lo := inOrder(c, o)
	const tolerance = 12
	vsym.Assert(vsym.And(hi >= mid-tolerance, mid >= lo-tolerance), "the channels of the result are in the order of the layer giving the hue")
	vsym.Cover("result")
}
