package hroot

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// store is what the three image types have in common.
type store interface {
	image.Image
	Set(x, y int, c color.Color)
	SubImage(image.Rectangle) image.Image
	Opaque() bool
	PixOffset(x, y int) int
}

// anyRect is an arbitrary rectangle of a size within the bounds, anywhere.
func anyRect(name string, maxw, maxh int) image.Rectangle {
	w, h := vsym.Fork(vsym.Int(name+"W", 0, maxw)), vsym.Fork(vsym.Int(name+"H", 0, maxh))
	return sizedRect(name, [2]int{w, h})
}

func sizedRect(name string, s [2]int) image.Rectangle {
	w, h := s[0], s[1]
	const lim = 1 << 62
	x, y := vsym.Int(name+"X", -lim, lim), vsym.Int(name+"Y", -lim, lim)
	return image.Rect(x, y, x+w, y+h)
}

// filled is an image of the given kind with arbitrary contents.
func filled(kind int, r image.Rectangle) store {
	return filledP(kind, r, lcolor.AlphaPalette{lcolor.RGB{R: 10, G: 20, B: 200}, lcolor.RGB{R: 240, G: 3, B: 77}})
}

func filledP(kind int, r image.Rectangle, pal lcolor.AlphaPalette) store {
	n := r.Dx() * r.Dy()
	n = vsym.Fork(n)
	switch kind {
	case 0:
		i := limage.NewRGB(r)
		copy(i.Pix, vsym.Slice[lcolor.RGB]("pix", n))
		return i
	case 1:
		i := limage.NewGrayAlpha(r)
		copy(i.Pix, vsym.Slice[lcolor.GrayAlpha]("pix", n))
		return i
	}
	i := limage.NewPalettedAlpha(r, pal)
	s := vsym.Slice[lcolor.IndexedAlpha]("pix", n)
	for _, p := range s {
		vsym.Assume(p.I < 2)
	}
	copy(i.Pix, s)
	return i
}

// anyPoint is any point of the plane, told apart by where it lies in r.
func anyPoint(name string, r image.Rectangle) (x, y int) {
	w, h := r.Dx(), r.Dy()
	n := vsym.Choose(name+"at", w*h+4)
	if n < w*h {
		return r.Min.X + n%w, r.Min.Y + n/w
	}
	x, y = int(vsym.I64(name+"x")), int(vsym.I64(name+"y"))
	switch n - w*h {
	case 0:
		vsym.Assume(x < r.Min.X)
	case 1:
		vsym.Assume(x >= r.Max.X)
	case 2:
		vsym.Assume(vsym.And(x >= r.Min.X, x < r.Max.X, y < r.Min.Y))
	case 3:
		vsym.Assume(vsym.And(x >= r.Min.X, x < r.Max.X, y >= r.Max.Y))
	}
	return x, y
}

func in(x, y int, r image.Rectangle) bool {
	return vsym.And(r.Min.X <= x, x < r.Max.X, r.Min.Y <= y, y < r.Max.Y)
}

//vsym:check C10
func H_C10_set() {
	kind := vsym.Choose("kind", 3)
	r := anyRect("r", vsym.Bound("width", 3, 4), vsym.Bound("height", 2, 3))
	im := filledP(kind, r, palette(2))
	x, y := anyPoint("p", r)
	x2, y2 := anyPoint("p2", r)
	before := im.At(x2, y2)
	var c color.Color = color.NRGBA{R: vsym.U8("R"), G: vsym.U8("G"), B: vsym.U8("B"), A: vsym.U8("A")}
	switch vsym.Choose("setter", 2) {
	case 0:
		im.Set(x, y, c)
		c = im.ColorModel().Convert(c)
	case 1:
		switch i := im.(type) {
		case *limage.RGB:
			e := lcolor.RGB{R: vsym.U8("r"), G: vsym.U8("g"), B: vsym.U8("b")}
			i.SetRGB(x, y, e)
			c = e
		case *limage.GrayAlpha:
			e := lcolor.GrayAlpha{Y: vsym.U8("y8"), A: vsym.U8("a8")}
			i.SetGrayAlpha(x, y, e)
			c = e
		case *limage.PalettedAlpha:
			e := lcolor.IndexedAlpha{I: uint8(vsym.Choose("i8", 2)), A: vsym.U8("a8")}
			i.SetIndexAlpha(x, y, e)
			r, g, b, _ := i.Palette[e.I].RGBA()
			c = color.NRGBA{R: uint8(r >> 8), G: uint8(g >> 8), B: uint8(b >> 8), A: e.A}
		}
	}
	vsym.Assert(im.Bounds() == r, "bounds are kept")
	switch {
	case vsym.And(x == x2, y == y2, in(x, y, r)):
		got := im.At(x2, y2)
		vsym.Cover("pixel set")
		if kind == 2 {
			g, w := nrgbaOf(got), nrgbaOf(c)
			vsym.Assert(g.R == w.R && g.G == w.G && g.B == w.B && g.A>>8 == w.A>>8, "the colour set is read back")
		} else {
			vsym.Assert(got == c, "the colour set is read back")
		}
	default:
		vsym.Assert(im.At(x2, y2) == before, "no other pixel changes")
		vsym.Cover("other pixel")
		if !in(x2, y2, r) {
			_, _, _, a := before.RGBA()
			if kind == 0 {
				vsym.Assert(before == color.Color(lcolor.RGB{}), "outside is the zero colour")
			} else {
				vsym.Assert(a == 0, "outside is transparent")
			}
		}
	}
}

// The accessors of the stored form agree with At.
//
//vsym:check C10
func H_C10_accessors() {
	kind := vsym.Choose("kind", 3)
	r := anyRect("r", 3, 2)
	im := filled(kind, r)
	x, y := anyPoint("p", r)
	switch i := im.(type) {
	case *limage.RGB:
		vsym.Assert(color.Color(i.RGBAt(x, y)) == i.At(x, y), "RGBAt agrees with At")
		if in(x, y, r) {
			vsym.Assert(i.Pix[i.PixOffset(x, y)] == i.RGBAt(x, y), "PixOffset locates the pixel")
		}
	case *limage.GrayAlpha:
		vsym.Assert(color.Color(i.GrayAlphaAt(x, y)) == i.At(x, y), "GrayAlphaAt agrees with At")
		if in(x, y, r) {
			vsym.Assert(i.Pix[i.PixOffset(x, y)] == i.GrayAlphaAt(x, y), "PixOffset locates the pixel")
		}
	case *limage.PalettedAlpha:
		ia := i.IndexAlphaAt(x, y)
		n := nrgbaOf(i.At(x, y))
		e := nrgbaOf(i.Palette[ia.I])
		vsym.Assert(n.R == e.R && n.G == e.G && n.B == e.B && n.A>>8 == uint16(ia.A), "At shows the entry of the index")
		if in(x, y, r) {
			vsym.Assert(i.Pix[i.PixOffset(x, y)] == ia, "PixOffset locates the pixel")
		}
	}
	vsym.Cover("result")
}
