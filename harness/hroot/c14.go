package hroot

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// cropped checks the bounds of a crop.
func croppedBounds(got, b, r image.Rectangle) (image.Rectangle, bool) {
	w, ok := overlap(b, r)
	if !ok {
		vsym.Assert(got.Empty(), "no intersection gives empty bounds")
		return w, false
	}
	vsym.Assert(got == w, "the bounds are those of the original restricted to the rectangle")
	return w, true
}

// around gives a box that contains the point, with its edges told apart by
// how they lie to those of b, which contains it too.
func around(name string, p image.Point, b image.Rectangle) (r, both image.Rectangle) {
	r = image.Rectangle{Min: point(name + "min"), Max: point(name + "max")}
	both = b
	n := vsym.Choose(name+"edges", 21)
	mask, same := n, 0
	if n >= 16 {
		// one edge of r is that of b, or all of them are
		mask, same = 5, 1<<(n-16)
		if n == 20 {
			same = 15
		}
	}
	pick := func(bit int, mine, other, both *int, sign int) {
		switch {
		case same>>bit&1 == 1:
			*mine = *other
		case mask>>bit&1 == 1:
			vsym.Assume(vsym.Ite(sign > 0, *mine > *other, *mine < *other))
			*both = *mine
		default:
			vsym.Assume(vsym.Ite(sign > 0, *mine < *other, *mine > *other))
		}
	}
	pick(0, &r.Min.X, &b.Min.X, &both.Min.X, 1)
	pick(1, &r.Min.Y, &b.Min.Y, &both.Min.Y, 1)
	pick(2, &r.Max.X, &b.Max.X, &both.Max.X, -1)
	pick(3, &r.Max.Y, &b.Max.Y, &both.Max.Y, -1)
	vsym.Assume(vsym.And(r.Min.X <= p.X, p.X < r.Max.X, r.Min.Y <= p.Y, p.Y < r.Max.Y))
	return r, both
}

func boxAround(name string, p image.Point) image.Rectangle {
	b := image.Rectangle{Min: point(name + "min"), Max: point(name + "max")}
	vsym.Assume(vsym.And(b.Min.X <= p.X, p.X < b.Max.X, b.Min.Y <= p.Y, p.Y < b.Max.Y))
	return b
}

// content is what a layer may show: a picture, a masked one, a text, a group.
// It shows an arbitrary colour at the point when its origin is put there.
func content(kind int, p, origin image.Point) image.Image {
	c := nrgba64("c")
	at := p.Sub(origin)
	pr := &probe{model: color.NRGBA64Model, at: at, c: c, r: image.Rect(0, 0, 5, 5)}
	switch kind {
	case 1, 2:
		m := &image.Gray{Pix: []byte{vsym.U8("mask"), 7, 99, 5}, Stride: 2, Rect: image.Rectangle{Min: at.Sub(image.Pt(1, 0)), Max: at.Add(image.Pt(1, 2))}}
		m.Pix[1] = vsym.U8("mask here")
		if kind == 2 {
			return &limage.MaskedImage{Image: pr, Mask: m}
		}
		return limage.MaskedImage{Image: pr, Mask: m}
	case 3:
		return limage.Text{Image: pr, TextData: limage.TextData{{Data: "text"}}}
	case 4:
		return &limage.Text{Image: pr, TextData: limage.TextData{{Data: "text"}}}
	case 5, 6:
		l, _ := anyLayer("inner", p, color.NRGBA64Model, 1)
		l.LayerBounds = l.LayerBounds.Sub(origin)
		if kind == 6 {
			return &limage.Image{l}
		}
		return limage.Image{l}
	}
	return pr
}

//vsym:check C14 nomerge=1
func H_C14_layer() {
	p := point("p")
	b := boxAround("b", p)
	r, w := around("r", p, b)
	l := limage.Layer{Name: "l", LayerBounds: b, Transparency: vsym.U8("T"), Mode: limage.Composite(vsym.U32("mode")), Invisible: vsym.Bool("invisible")}
	l.Image = content(vsym.Choose("content", 7), p, b.Min)
	var s image.Image
	switch vsym.Choose("method", 2) {
	case 0:
		s = l.SubImage(r)
	case 1:
		s = l.SubImageLayer(r)
	}
	vsym.Assert(s.Bounds() == w, "the bounds are those of the original restricted to the rectangle")
	vsym.Assert(premul(s.At(p.X, p.Y)) == premul(l.At(p.X, p.Y)), "the crop shows the colour of the original")
	if m, ok := s.(limage.Layer); ok {
		vsym.Assert(vsym.And(m.Name == l.Name, m.Transparency == l.Transparency, m.Mode == l.Mode, m.Invisible == l.Invisible), "nothing else changes")
	}
	vsym.Cover("result")
}

// Cropping twice.
//
//vsym:check C14 nomerge=1
func H_C14_twice() {
	p := point("p")
	b := boxAround("b", p)
	r, w := around("r", p, b)
	q, v := around("q", p, w)
	l := limage.Layer{LayerBounds: b, Transparency: vsym.U8("T")}
	l.Image = content([]int{0, 5, 1, 3}[vsym.Choose("content", vsym.Bound("kinds of content", 2, 4))], p, b.Min)
	s := l.SubImageLayer(r).SubImageLayer(q)
	vsym.Assert(s.Bounds() == v, "the bounds are those of the original restricted to the rectangles")
	vsym.Assert(premul(s.At(p.X, p.Y)) == premul(l.At(p.X, p.Y)), "the crop shows the colour of the original")
	vsym.Cover("result")
}

// The bounds, whatever the rectangle.
//
//vsym:check C14
func H_C14_bounds() {
	b, r := box("b"), box("r")
	g := limage.Image{{LayerBounds: b, Image: &probe{model: color.NRGBA64Model, r: b}}, {LayerBounds: image.Rect(1, 2, 3, 4), Image: &probe{model: color.NRGBA64Model, r: b}}}
	g[0].Invisible, g[0].Transparency, g[0].Mode = vsym.Bool("invisible"), vsym.U8("T"), limage.Composite(vsym.U32("mode"))
	var got image.Rectangle
	switch vsym.Choose("of", 2) {
	case 0:
		got = g[0].SubImageLayer(r).Bounds()
	case 1:
		h := g.SubImage(r).(limage.Image)
		vsym.Assert(len(h) == 2, "all layers stay")
		got = h[0].Bounds()
	}
	croppedBounds(got, b, r)
	vsym.Cover("result")
}

// A layered image, possibly with a group.
//
//vsym:check C14 nomerge=1
func H_C14_image() {
	p := point("p")
	b := boxAround("b", p)
	r, _ := around("r", p, b)
	l := limage.Layer{LayerBounds: b, Transparency: 155}
	l.Image = content(vsym.Choose("group", vsym.Bound("kinds of content", 2, 2))*5, p, b.Min)
	// another layer: over all of the rectangle, or beside the point
	ob := image.Rectangle{Min: point("omin"), Max: point("omax")}
	vsym.Assume(vsym.And(ob.Min.X < r.Min.X, ob.Min.Y < r.Min.Y, ob.Max.Y > r.Max.Y))
	kind := vsym.Choose("other", 3)
	if kind == 2 {
		vsym.Assume(vsym.And(ob.Max.X > r.Min.X, ob.Max.X <= p.X, ob.Max.X < r.Max.X))
	} else {
		vsym.Assume(ob.Max.X > r.Max.X)
	}
	other := limage.Layer{LayerBounds: ob, Transparency: 77, Invisible: kind == 1, Mode: someModes[vsym.Choose("omode", vsym.Bound("modes", 2, 3))],
		Image: &probe{model: color.NRGBA64Model, at: p.Sub(ob.Min), c: nrgba64("oc")}}
	g := limage.Image{l, other}
	if vsym.Choose("order", 2) == 1 {
		g = limage.Image{other, l}
	}
	s := g.SubImage(r)
	vsym.RandReset()
	x := s.At(p.X, p.Y)
	vsym.RandReset()
	y := g.At(p.X, p.Y)
	vsym.Assert(premul(x) == premul(y), "the crop shows the colour of the original")
	vsym.Cover("result")
}

// Outside of the rectangle nothing is shown.
//
//vsym:check C14
func H_C14_outside() {
	p := point("p")
	b := boxAround("b", p)
	r := box("r")
	switch vsym.Choose("side", 4) {
	case 0:
		vsym.Assume(p.X < r.Min.X)
	case 1:
		vsym.Assume(p.X >= r.Max.X)
	case 2:
		vsym.Assume(p.Y < r.Min.Y)
	case 3:
		vsym.Assume(p.Y >= r.Max.Y)
	}
	l := limage.Layer{LayerBounds: b, Image: content(0, p, b.Min)}
	s := limage.Image{l}.SubImage(r)
	_, _, _, alpha := s.At(p.X, p.Y).RGBA()
	vsym.Assert(alpha == 0, "nothing is shown outside the rectangle")
	vsym.Cover("result")
}
