package hroot

import "vimagination.zapto.org/limage/zzverif/vsym"

//vsym:check C12
func H_C12_opaque() {
	kind := vsym.Choose("kind", 3)
	r := anyRect("r", vsym.Bound("width", 3, 4), vsym.Bound("height", 2, 3))
	im := filled(kind, r)
	if vsym.Choose("sub", 2) == 1 {
		im = im.SubImage(boxOn("q", r)).(store)
	}
	b := im.Bounds()
	w, h := vsym.Fork(b.Dx()), vsym.Fork(b.Dy())
	all := true
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			_, _, _, a := im.At(b.Min.X+x, b.Min.Y+y).RGBA()
			all = vsym.And(all, a == 0xffff)
		}
	}
	vsym.Assert(im.Opaque() == all, "opaque if and only if every pixel is")
	vsym.Cover("result")
}
