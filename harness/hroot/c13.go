package hroot

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// probe is an image with one colour at one place and another elsewhere.
type probe struct {
	model color.Model
	r     image.Rectangle
	at    image.Point
	c     color.Color
}

func (p *probe) ColorModel() color.Model { return p.model }
func (p *probe) Bounds() image.Rectangle { return p.r }
func (p *probe) At(x, y int) color.Color {
	if x == p.at.X && y == p.at.Y {
		return p.c
	}
	return color.NRGBA64{R: 0x1111, G: 0x2222, B: 0x3333, A: 0x4444}
}

const far = 1 << 61

func point(name string) image.Point {
	return image.Point{X: vsym.Int(name+"x", -far, far), Y: vsym.Int(name+"y", -far, far)}
}

func box(name string) image.Rectangle {
	r := image.Rectangle{Min: point(name + "min"), Max: point(name + "max")}
	vsym.Assume(vsym.And(r.Min.X <= r.Max.X, r.Min.Y <= r.Max.Y))
	return r
}

// anyLayer is a layer of arbitrary place, opacity and visibility that shows
// an arbitrary colour at the point. It tells whether the layer takes part.
func anyLayer(name string, p image.Point, model color.Model, modes int) (l limage.Layer, part bool) {
	b := box(name)
	k := vsym.Choose(name+"where", 6)
	switch k {
	case 0, 1:
		vsym.Assume(covers(b, p))
	case 2:
		vsym.Assume(p.X < b.Min.X)
	case 3:
		vsym.Assume(p.X >= b.Max.X)
	case 4:
		vsym.Assume(vsym.And(p.X >= b.Min.X, p.X < b.Max.X, p.Y < b.Min.Y))
	case 5:
		vsym.Assume(vsym.And(p.X >= b.Min.X, p.X < b.Max.X, p.Y >= b.Max.Y))
	}
	l = limage.Layer{
		Name:         name,
		LayerBounds:  b,
		Invisible:    k == 1,
		Transparency: vsym.U8(name + "T"),
		Image: &probe{
			model: model,
			r:     image.Rectangle{Max: b.Size()},
			at:    p.Sub(b.Min),
			c:     nrgba64(name + "c"),
		},
	}
	if k == 0 {
		l.Mode = someModes[vsym.Choose(name+"mode", modes)]
	}
	return l, k == 0
}

func premul(c color.Color) [4]uint32 {
	r, g, b, a := c.RGBA()
	return [4]uint32{r, g, b, a}
}

// scaledBy checks that c is want with its alpha multiplied by o/255.
func scaledBy(c, want color.NRGBA64, o uint8) {
	e := int64(want.A) * int64(o)
	d := int64(c.A)*255 - e
	vsym.Assert(vsym.And(d <= 255, d >= -255), "alpha is multiplied by the opacity")
	vsym.Assert(vsym.Or(c.A == 0, vsym.And(c.R == want.R, c.G == want.G, c.B == want.B)), "the colour is not changed")
}

func covers(r image.Rectangle, p image.Point) bool {
	return r.Min.X <= p.X && p.X < r.Max.X && r.Min.Y <= p.Y && p.Y < r.Max.Y
}

// Modes of different kinds: over, per channel, deciding on the top only.
var someModes = [...]limage.Composite{
	limage.CompositeNormal, limage.CompositeDissolve, limage.CompositeMultiply,
	limage.CompositeDestinationIn, limage.CompositeAddition, limage.CompositeDifference,
	limage.CompositeColorErase, limage.CompositeDestinationOut,
}

//vsym:check C13 nomerge=1
func H_C13_flatten() {
	n := 1 + vsym.Choose("layers", 3)
	p := point("p")
	g := make(limage.Image, n)
	part := make([]bool, n)
	m := len(someModes)
	if n == 3 {
		m = vsym.Bound("modes of three layers", 2, 5)
	}
	for i := range g {
		g[i], part[i] = anyLayer(string(rune('a'+i)), p, color.NRGBA64Model, m)
	}
	vsym.RandReset()
	got := g.At(p.X, p.Y)
	vsym.RandReset()
	var c color.Color = color.Alpha{}
	for i := n - 1; i >= 0; i-- {
		if part[i] {
			c = g[i].Mode.Composite(c, g[i].At(p.X, p.Y))
		}
	}
	vsym.Assert(premul(got) == premul(c), "the layers covering the point are composed from the last to the first")
	vsym.Cover("result")
}

// solid is a picture that calls itself opaque, and is.
type solid struct{ *probe }

func (s solid) Opaque() bool { return true }
func (s solid) At(x, y int) color.Color {
	c := s.probe.At(x, y).(color.NRGBA64)
	c.A = full
	return c
}

// Pictures that know to be opaque, on layers of any opacity.
//
//vsym:check C13 nomerge=1
func H_C13_opaque() {
	n := 2
	p := point("p")
	g := make(limage.Image, n)
	part := make([]bool, n)
	for i := range g {
		g[i], part[i] = anyLayer(string(rune('a'+i)), p, color.NRGBA64Model, 3)
		if i == 0 || vsym.Choose(string(rune('a'+i))+"solid", 2) == 1 {
			g[i].Image = solid{g[i].Image.(*probe)}
		}
	}
	vsym.RandReset()
	got := g.At(p.X, p.Y)
	vsym.RandReset()
	var c color.Color = color.Alpha{}
	for i := n - 1; i >= 0; i-- {
		if part[i] {
			c = g[i].Mode.Composite(c, g[i].At(p.X, p.Y))
		}
	}
	vsym.Assert(premul(got) == premul(c), "the layers covering the point are composed from the last to the first")
	vsym.Cover("result")
}

// A single layer: its colour with its opacity.
//
//vsym:check C13
func H_C13_layer() {
	p := point("p")
	l, part := anyLayer("a", p, color.NRGBA64Model, 1)
	c := nrgbaOf(limage.Image{l}.At(p.X, p.Y))
	if part {
		scaledBy(c, l.Image.(*probe).c.(color.NRGBA64), 255-l.Transparency)
		vsym.Cover("shown")
	} else {
		vsym.Assert(c.A == 0, "no layer covers the point")
		vsym.Cover("not shown")
	}
}

// Images of a palette: no mixing of colours.
//
//vsym:check C13
func H_C13_palette() {
	n := 1 + vsym.Choose("layers", 3)
	p := point("p")
	pal := color.Palette{color.Black, color.White}
	g := make(limage.Image, n)
	part := make([]bool, n)
	for i := range g {
		g[i], part[i] = anyLayer(string(rune('a'+i)), p, pal, vsym.Bound("modes", 2, 3))
	}
	vsym.RandReset()
	got := g.At(p.X, p.Y)
	vsym.RandReset()
	var c color.Color = color.Alpha{}
	for i := n - 1; i >= 0; i-- {
		if !part[i] {
			continue
		}
		s := g[i].At(p.X, p.Y)
		if g[i].Mode == limage.CompositeDissolve {
			c = g[i].Mode.Composite(c, s)
		} else if d := nrgbaOf(s); d.A >= 0x8000 {
			d.A = full
			c = d
		}
	}
	vsym.Assert(premul(got) == premul(c), "only pixels at least half opaque replace what is below")
	vsym.Cover("result")
}

// A group within the image.
//
//vsym:check C13 nomerge=1
func H_C13_group() {
	p := point("p")
	grp, gpart := anyLayer("g", p, color.NRGBA64Model, vsym.Bound("modes of the group", 1, 3))
	q := grp.LayerBounds.Min
	inner := p.Sub(q)
	in := make(limage.Image, 2)
	part := make([]bool, 2)
	in[0], part[0] = anyLayer("a", p, color.NRGBA64Model, vsym.Bound("modes in the group", 1, 3))
	in[1], part[1] = anyLayer("b", p, color.NRGBA64Model, 1)
	for i := range in {
		in[i].LayerBounds = in[i].LayerBounds.Sub(q)
	}
	outer, opart := anyLayer("d", p, color.NRGBA64Model, 1)
	grp.Image = in
	got := limage.Image{grp, outer}.At(p.X, p.Y)
	var c color.Color = color.Alpha{}
	if opart {
		c = outer.Mode.Composite(c, outer.At(p.X, p.Y))
	}
	if gpart {
		var d color.Color = color.Alpha{}
		for i := 1; i >= 0; i-- {
			if part[i] {
				d = in[i].Mode.Composite(d, in[i].At(inner.X, inner.Y))
			}
		}
		if !opart {
			scaledBy(nrgbaOf(got), nrgbaOf(d), 255-grp.Transparency)
			vsym.Cover("only the group")
			return
		}
		if grp.Transparency == 0 {
			c = grp.Mode.Composite(c, d)
		} else {
			c = grp.Mode.Composite(c, grp.At(p.X, p.Y))
		}
	}
	vsym.Assert(premul(got) == premul(c), "a group is composed of its layers at its own place")
	vsym.Cover("result")
}

//vsym:check C13
func H_C13_bounds() {
	n := vsym.Choose("layers", 4)
	g := make(limage.Image, n)
	for i := range g {
		b := box(string(rune('a' + i)))
		g[i] = limage.Layer{LayerBounds: b, Invisible: vsym.Bool("invisible"), Image: &probe{r: b}}
	}
	got := g.Bounds()
	some := false
	var w image.Rectangle
	for _, l := range g {
		b := l.LayerBounds
		if b.Min.X == b.Max.X || b.Min.Y == b.Max.Y {
			continue
		}
		if !some {
			w, some = b, true
			continue
		}
		w.Min.X = vsym.Ite(b.Min.X < w.Min.X, b.Min.X, w.Min.X)
		w.Min.Y = vsym.Ite(b.Min.Y < w.Min.Y, b.Min.Y, w.Min.Y)
		w.Max.X = vsym.Ite(b.Max.X > w.Max.X, b.Max.X, w.Max.X)
		w.Max.Y = vsym.Ite(b.Max.Y > w.Max.Y, b.Max.Y, w.Max.Y)
	}
	if some {
		vsym.Assert(vsym.And(got.Min.X == w.Min.X, got.Min.Y == w.Min.Y, got.Max.X == w.Max.X, got.Max.Y == w.Max.Y), "smallest rectangle containing all layers")
		vsym.Cover("bounds")
	} else {
		vsym.Assert(got.Empty(), "no layer with an area")
		vsym.Cover("nothing")
	}
}

// The colour model is that of a layer, and asking an image without layers
// is allowed.
//
//vsym:check C13
func H_C13_empty() {
	var g limage.Image
	p := point("p")
	_, _, _, a := g.At(p.X, p.Y).RGBA()
	vsym.Assert(a == 0, "an image without layers is transparent")
	vsym.Assert(g.ColorModel() != nil, "an image without layers has a colour model")
	vsym.Assert(g.Bounds().Empty(), "an image without layers has no area")
	vsym.Cover("result")
}
