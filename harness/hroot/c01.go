// Package hroot checks the limage and lcolor packages and internal.
package hroot

import (
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

func nrgba64(name string) color.NRGBA64 {
	return color.NRGBA64{R: vsym.U16(name + "R"), G: vsym.U16(name + "G"), B: vsym.U16(name + "B"), A: vsym.U16(name + "A")}
}

// Every composite mode, on every pair of colours: no panic, and the result is a
// valid alpha-premultiplied colour.
//
//vsym:check C01
func H_C01_valid() {
	mode := limage.Composite(vsym.Choose("mode", 44))
	if mode == 43 {
		mode = limage.Composite(vsym.U32("bigmode"))
		vsym.Assume(mode >= 43)
	}
	b := nrgba64("b")
	t := nrgba64("t")
	r, g, bl, a := mode.Composite(b, t).RGBA()
	vsym.Observe("r", uint64(r))
	vsym.Observe("g", uint64(g))
	vsym.Observe("b", uint64(bl))
	vsym.Observe("a", uint64(a))
	vsym.Assert(vsym.And(r <= a, g <= a, bl <= a), "premultiplied components do not exceed alpha")
	vsym.Assert(a <= 0xffff, "alpha in range")
	vsym.Cover("result")
}
