package hroot

import (
	"image/color"

	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// anyColour gives an arbitrary legal colour of type n of nTypes.
const nTypes = 15

func anyColour(n int, name string) color.Color {
	u8 := func(s string) uint8 { return vsym.U8(name + s + "8") }
	u16 := func(s string) uint16 { return vsym.U16(name + s) }
	switch n {
	case 0:
		return color.NRGBA{R: u8("R"), G: u8("G"), B: u8("B"), A: u8("A")}
	case 1:
		return nrgba64(name)
	case 2:
		c := color.RGBA{R: u8("R"), G: u8("G"), B: u8("B"), A: u8("A")}
		vsym.Assume(vsym.And(c.R <= c.A, c.G <= c.A, c.B <= c.A))
		return c
	case 3:
		c := color.RGBA64{R: u16("R"), G: u16("G"), B: u16("B"), A: u16("A")}
		vsym.Assume(vsym.And(c.R <= c.A, c.G <= c.A, c.B <= c.A))
		return c
	case 4:
		return color.Gray{Y: u8("Y")}
	case 5:
		return color.Gray16{Y: u16("Y")}
	case 6:
		return color.Alpha{A: u8("A")}
	case 7:
		return color.Alpha16{A: u16("A")}
	case 8:
		return lcolor.RGB{R: u8("R"), G: u8("G"), B: u8("B")}
	case 9:
		return lcolor.GrayAlpha{Y: u8("Y"), A: u8("A")}
	case 10:
		return lcolor.HSVA{H: u16("H"), S: u16("S"), V: u16("V"), A: u16("A")}
	case 11:
		return lcolor.HSLA{H: u16("H"), S: u16("S"), L: u16("L"), A: u16("A")}
	case 12:
		return color.CMYK{C: u8("C"), M: u8("M"), Y: u8("Y"), K: u8("K")}
	case 13:
		return color.YCbCr{Y: u8("Y"), Cb: u8("b"), Cr: u8("r")}
	case 14:
		return color.NYCbCrA{YCbCr: color.YCbCr{Y: u8("Y"), Cb: u8("b"), Cr: u8("r")}, A: u8("A")}
	}
	return nil
}

// The premultiplied and the non-premultiplied form of a colour denote the same
// colour, and both are legal.
//
//vsym:check C08
func H_C08_forms() {
	c := anyColour(vsym.Choose("type", nTypes), "c")
	n := internal.ColourToNRGBA(c)
	r, g, b, a := c.RGBA()
	vsym.Assert(uint32(n.A) == a, "both forms have the same alpha")
	vsym.Assert(vsym.And(r <= a, g <= a, b <= a, a <= 0xffff), "premultiplied components do not exceed alpha")
	nr, ng, nb, _ := n.RGBA()
	vsym.Assert(near(int64(nr), int64(r), 1), "both forms have the same red")
	vsym.Assert(near(int64(ng), int64(g), 1), "both forms have the same green")
	vsym.Assert(near(int64(nb), int64(b), 1), "both forms have the same blue")
	vsym.Cover("result")
}

// An 8-bit grey or RGB colour keeps its components in the non-premultiplied form.
//
//vsym:check C08
func H_C08_exact() {
	w := func(v uint8) uint16 { return uint16(v) * 0x101 }
	switch vsym.Choose("type", 2) {
	case 0:
		c := lcolor.RGB{R: vsym.U8("R"), G: vsym.U8("G"), B: vsym.U8("B")}
		n := c.ToNRGBA()
		vsym.Assert(n == color.NRGBA64{R: w(c.R), G: w(c.G), B: w(c.B), A: 0xffff}, "RGB to NRGBA64")
	case 1:
		c := lcolor.GrayAlpha{Y: vsym.U8("Y"), A: vsym.U8("A")}
		n := c.ToNRGBA()
		vsym.Assert(n == color.NRGBA64{R: w(c.Y), G: w(c.Y), B: w(c.Y), A: w(c.A)}, "GrayAlpha to NRGBA64")
	}
}

// The models keep a colour of the model and convert twice as they convert once.
//
//vsym:check C08
func H_C08_models() {
	w := func(v uint8) uint16 { return uint16(v) * 0x101 }
	switch vsym.Choose("case", 7) {
	case 0:
		c := lcolor.RGB{R: vsym.U8("R"), G: vsym.U8("G"), B: vsym.U8("B")}
		vsym.Assert(lcolor.RGBModel.Convert(c) == color.Color(c), "the RGB model keeps RGB colours")
	case 1:
		c := lcolor.GrayAlpha{Y: vsym.U8("Y"), A: vsym.U8("A")}
		vsym.Assert(lcolor.GrayAlphaModel.Convert(c) == color.Color(c), "the GrayAlpha model keeps GrayAlpha colours")
	case 2:
		c := anyColour(vsym.Choose("type", nTypes), "c")
		d := lcolor.RGBModel.Convert(c)
		x, ok := d.(lcolor.RGB)
		vsym.Assert(ok, "the RGB model gives RGB colours")
		r, g, b, _ := c.RGBA()
		vsym.Assert(vsym.And(uint32(x.R) == r>>8, uint32(x.G) == g>>8, uint32(x.B) == b>>8), "the RGB model keeps the high bytes")
	case 3:
		c := anyColour(vsym.Choose("type", nTypes), "c")
		d := lcolor.GrayAlphaModel.Convert(c)
		x, ok := d.(lcolor.GrayAlpha)
		vsym.Assert(ok, "the GrayAlpha model gives GrayAlpha colours")
		_, _, _, a := c.RGBA()
		vsym.Assert(uint32(x.A) == a>>8, "the GrayAlpha model keeps alpha")
	case 4:
		// 8-bit grey with alpha, of two standard types
		y, a := vsym.U8("Y"), vsym.U8("A")
		var c color.Color
		switch vsym.Choose("type", 3) {
		case 0:
			c = color.NRGBA{R: y, G: y, B: y, A: a}
		case 1:
			c = color.NRGBA64{R: w(y), G: w(y), B: w(y), A: w(a)}
		case 2:
			vsym.Assume(a == 255)
			c = color.Gray{Y: y}
		}
		d, _ := lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)
		vsym.Assert(d == lcolor.GrayAlpha{Y: y, A: a}, "the GrayAlpha model keeps 8-bit grey")
	case 5:
		r, g, b := vsym.U8("R"), vsym.U8("G"), vsym.U8("B")
		var c color.Color
		switch vsym.Choose("type", 3) {
		case 0:
			c = color.NRGBA{R: r, G: g, B: b, A: 255}
		case 1:
			c = color.RGBA{R: r, G: g, B: b, A: 255}
		case 2:
			c = color.NRGBA64{R: w(r), G: w(g), B: w(b), A: 0xffff}
		}
		d, _ := lcolor.RGBModel.Convert(c).(lcolor.RGB)
		vsym.Assert(d == lcolor.RGB{R: r, G: g, B: b}, "the RGB model keeps opaque 8-bit colours")
	case 6:
		// grey from colour: the luma of the non-premultiplied colour
		c := nrgba64("c")
		d, _ := lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)
		y := int64(d.Y)
		lo, hi := min64(int64(c.R), min64(int64(c.G), int64(c.B))), max64(int64(c.R), max64(int64(c.G), int64(c.B)))
		vsym.Assert(vsym.And(y >= lo>>8, y <= hi>>8), "grey lies between the channels")
	}
	vsym.Cover("result")
}
