package hroot

import (
	"fmt"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

func palette(n int) lcolor.AlphaPalette {
	p := make(lcolor.AlphaPalette, n)
	for i := range p {
		s := fmt.Sprint("p", i)
		p[i] = lcolor.RGB{R: vsym.U8(s + "R"), G: vsym.U8(s + "G"), B: vsym.U8(s + "B")}
	}
	return p
}

func sqd(x, y uint32) uint32 {
	d := x - y
	return d * d >> 2
}

// dist is the distance of image/color between the opaque colours.
func dist(c color.NRGBA64, d color.Color) uint32 {
	r, g, b, _ := d.RGBA()
	return sqd(uint32(c.R), r) + sqd(uint32(c.G), g) + sqd(uint32(c.B), b)
}

//vsym:check C09
func H_C09_nearest() {
	p := palette(vsym.Choose("entries", vsym.Bound("palette entries", 3, 4)) + 1)
	c := nrgba64("c")
	i := p.Index(c)
	vsym.Assert(i >= 0 && i < len(p), "the index names an entry")
	if vsym.Choose("part", 2) == 0 {
		for j := range p {
			vsym.Assert(dist(c, p[i]) <= dist(c, p[j]), "no entry is nearer")
		}
		return
	}
	d := internal.ColourToNRGBA(p.Convert(c))
	r, g, b, _ := p[i].RGBA()
	vsym.Assert(vsym.And(uint32(d.R) == r, uint32(d.G) == g, uint32(d.B) == b), "the colour is that of the entry of the index")
	vsym.Assert(d.A == c.A, "alpha is kept")
}

//vsym:check C09
func H_C09_readBack() {
	p := palette(vsym.Choose("entries", 3) + 1)
	im := limage.NewPalettedAlpha(image.Rect(0, 0, 1, 1), p)
	k := vsym.Choose("set", len(p))
	r, g, b, _ := p[k].RGBA()
	c := color.NRGBA{R: uint8(r >> 8), G: uint8(g >> 8), B: uint8(b >> 8), A: vsym.U8("A")}
	im.Set(0, 0, c)
	vsym.Assert(im.At(0, 0) == color.Color(c), "a colour of the palette is read back")
	ia := im.IndexAlphaAt(0, 0)
	vsym.Assert(int(ia.I) < len(p) && p[ia.I] == p[k] && ia.A == c.A, "the index names the entry")
}
