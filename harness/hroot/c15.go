package hroot

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// typedColour is any colour of one of several types.
func typedColour(name string) color.Color {
	switch vsym.Choose(name+"type", 7) {
	case 0:
		return nrgba64(name)
	case 1:
		return color.NRGBA{R: vsym.U8(name + "r"), G: vsym.U8(name + "g"), B: vsym.U8(name + "b"), A: vsym.U8(name + "a")}
	case 2:
		c := color.RGBA64{R: vsym.U16(name + "r6"), G: vsym.U16(name + "g6"), B: vsym.U16(name + "b6"), A: vsym.U16(name + "a6")}
		vsym.Assume(vsym.And(c.R <= c.A, c.G <= c.A, c.B <= c.A))
		return c
	case 3:
		return color.Gray16{Y: vsym.U16(name + "y6")}
	case 4:
		return lcolor.RGB{R: vsym.U8(name + "r"), G: vsym.U8(name + "g"), B: vsym.U8(name + "b")}
	case 5:
		return lcolor.GrayAlpha{Y: vsym.U8(name + "y"), A: vsym.U8(name + "a")}
	}
	return color.Alpha{A: vsym.U8(name + "a")}
}

// scaled checks that c is the colour of want with its alpha scaled by o/255.
func scaled(c, want color.Color, o uint8) {
	switch w := want.(type) {
	case color.RGBA64:
		// the non-premultiplied colour is a rounded quotient
		n := nrgbaOf(c)
		e := int64(w.A) * int64(o)
		d := int64(n.A)*255 - e
		vsym.Assert(vsym.And(d <= 255, d >= -255), "alpha is multiplied")
		x := nrgbaOf(w)
		vsym.Assert(vsym.Or(n.A == 0, vsym.And(n.R == x.R, n.G == x.G, n.B == x.B)), "the colour is not changed")
	default:
		scaledBy(nrgbaOf(c), nrgbaOf(want), o)
	}
	if o == 255 {
		vsym.Assert(premul(c) == premul(want), "full opacity changes nothing")
		vsym.Cover("full")
	} else if o == 0 {
		vsym.Assert(premul(c) == [4]uint32{}, "no opacity makes the pixel transparent")
		vsym.Cover("none")
	} else {
		vsym.Cover("partial")
	}
	r, g, b, a := c.RGBA()
	vsym.Assert(vsym.And(a <= full, r <= a, g <= a, b <= a), "the colour is a legal one")
}

//vsym:check C15
func H_C15_layer() {
	p := point("p")
	b := box("b")
	vsym.Assume(covers(b, p))
	want := typedColour("c")
	t := vsym.U8("T")
	l := limage.Layer{LayerBounds: b, Transparency: t, Invisible: vsym.Bool("invisible"),
		Image: &probe{model: color.NRGBA64Model, r: image.Rectangle{Max: b.Size()}, at: p.Sub(b.Min), c: want}}
	scaled(l.At(p.X, p.Y), want, 255-t)
}

// mask is a mask of an arbitrary place and arbitrary values.
func mask(name string, w, h int) *image.Gray {
	n := [2]int{vsym.Fork(vsym.Int(name+"W", 0, w)), vsym.Fork(vsym.Int(name+"H", 0, h))}
	m := image.NewGray(sizedRect(name, n))
	copy(m.Pix, vsym.Bytes(name+"pix", len(m.Pix)))
	return m
}

// Every pixel of the mask counts for its own place.
//
//vsym:check C15
func H_C15_mask() {
	m := mask("m", vsym.Bound("mask width", 3, 4), vsym.Bound("mask height", 2, 3))
	if vsym.Choose("sub", 2) == 1 {
		m = m.SubImage(boxOn("q", m.Rect)).(*image.Gray)
	}
	r := m.Rect
	w, h := vsym.Fork(r.Dx()), vsym.Fork(r.Dy())
	x, y := anyPoint("p", image.Rect(r.Min.X, r.Min.Y, r.Min.X+w, r.Min.Y+h))
	var o uint8
	if in(x, y, r) {
		o = m.Pix[(y-r.Min.Y)*m.Stride+(x-r.Min.X)]
	}
	want := color.NRGBA64{R: vsym.U16("cR"), G: vsym.U16("cG"), B: vsym.U16("cB"), A: vsym.U16("cA")}
	i := limage.MaskedImage{Image: &probe{model: color.NRGBA64Model, r: box("i"), at: image.Pt(x, y), c: want}, Mask: m}
	c := i.At(x, y)
	scaledBy(nrgbaOf(c), want, o)
	if in(x, y, r) {
		vsym.Cover("inside")
	} else {
		_, _, _, a := c.RGBA()
		vsym.Assert(a == 0, "pixels outside the mask are transparent")
		vsym.Cover("outside")
	}
}

// All types of colours, one mask value.
//
//vsym:check C15
func H_C15_maskValue() {
	p := point("p")
	want := typedColour("c")
	o := vsym.U8("mask")
	m := &image.Gray{Pix: []byte{o}, Stride: 1, Rect: image.Rectangle{Min: p, Max: p.Add(image.Pt(1, 1))}}
	i := limage.MaskedImage{Image: &probe{model: color.NRGBA64Model, at: p, c: want}, Mask: m}
	scaled(i.At(p.X, p.Y), want, o)
}

// A larger mask value or opacity never gives a smaller alpha.
//
//vsym:check C15
func H_C15_monotone() {
	want := nrgba64("c")
	o1, o2 := vsym.U8("less"), vsym.U8("more")
	vsym.Assume(o1 <= o2)
	var c [2]color.NRGBA64
	layer := vsym.Choose("layer", 2) == 1
	for n, o := range [...]uint8{o1, o2} {
		q := &probe{model: color.NRGBA64Model, c: want}
		if layer {
			c[n] = nrgbaOf(limage.Layer{LayerBounds: image.Rect(0, 0, 1, 1), Transparency: 255 - o, Image: q}.At(0, 0))
		} else {
			m := &image.Gray{Pix: []byte{o}, Stride: 1, Rect: image.Rect(0, 0, 1, 1)}
			c[n] = nrgbaOf(limage.MaskedImage{Image: q, Mask: m}.At(0, 0))
		}
	}
	vsym.Assert(c[0].A <= c[1].A, "more opacity never gives less alpha")
	vsym.Cover("result")
}
