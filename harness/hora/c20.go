package hora

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// chart is a picture whose pixels tell their coordinates, of 12 bits each.
type chart struct{ b image.Rectangle }

func (p chart) ColorModel() color.Model { return color.NRGBAModel }
func (p chart) Bounds() image.Rectangle { return p.b }
func (p chart) At(x, y int) color.Color {
	if vsym.Or(x < p.b.Min.X, x >= p.b.Max.X, y < p.b.Min.Y, y >= p.b.Max.Y) {
		return color.NRGBA{}
	}
	x -= p.b.Min.X
	y -= p.b.Min.Y
	return color.NRGBA{uint8(x), uint8(y), uint8(x>>8)<<4 | uint8(y>>8)&15, 255}
}

// coordinates gives those a colour of a chart tells; ok is false for the
// colour outside of the chart.
func coordinates(c color.NRGBA) (x, y int, ok bool) {
	return int(c.R) | int(c.B>>4)<<8, int(c.G) | int(c.B&15)<<8, c.A == 255
}

func abs(x int) int { return vsym.Ite(x < 0, -x, x) }

func checkThumbnail(m image.Image, w, h int) {
	z, err := encoded(m)
	vsym.Assert(err == nil, "encoding succeeds")
	t := picture(z, "Thumbnails/thumbnail.png")
	vsym.Assert(t != nil, "there is a thumbnail")
	if t == nil {
		return
	}
	b := t.Bounds()
	tw, th := b.Dx(), b.Dy()
	vsym.Assert(vsym.And(tw <= 256, th <= 256, tw >= 1, th >= 1), "the thumbnail is not larger than 256x256")
	x, y := vsym.Int("tx", 0, 255), vsym.Int("ty", 0, 255)
	vsym.Assume(vsym.And(x < tw, y < th))
	px, py, in := coordinates(pixel(t, x+b.Min.X, y+b.Min.Y))
	vsym.Assert(in, "every pixel of the thumbnail is one of the picture")
	if w <= 256 && h <= 256 {
		vsym.Assert(tw == w && th == h, "a small picture is its own thumbnail")
		vsym.Assert(vsym.And(px == x, py == y), "a small picture is its own thumbnail")
		vsym.Cover("small")
		return
	}
	vsym.Cover("scaled")
	vsym.Assert(vsym.Or(abs(tw*h-th*w) <= w, abs(tw*h-th*w) <= h), "the aspect ratio is kept")
	vsym.Assert(vsym.And(px < w, py < h), "the position is inside the picture")
	vsym.Assert(abs(px*tw-x*w) <= w+tw, "the column is the proportional one")
	vsym.Assert(abs(py*th-y*h) <= h+th, "the row is the proportional one")
}

// Pictures of some sizes, every pixel of their thumbnails.
//
//vsym:check C20
func H_C20_sizes() {
	reset()
	s := [...]image.Point{{300, 4}, {4, 300}, {257, 257}, {1000, 513}, {256, 257}, {257, 256}, {511, 512}, {1, 257}, {256, 256}, {2049, 3}, {700, 699}, {17, 1024}}[vsym.Choose("size", 12)]
	p := chart{image.Rectangle{Max: s}}
	var m image.Image = p
	switch vsym.Choose("kind", 3) {
	case 1:
		p.b = p.b.Add(image.Pt(-3, 7))
		m = p
	case 2:
		m = limage.Image{{LayerBounds: p.b, Image: p}}
	}
	checkThumbnail(m, s.X, s.Y)
}

// A picture of any size.
//
//vsym:check C20
func H_C20_plain() {
	reset()
	n := vsym.Bound("size", 1023, 4095)
	w, h := vsym.Int("w", 1, n), vsym.Int("h", 1, n)
	p := chart{image.Rect(0, 0, w, h)}
	switch vsym.Choose("kind", 3) {
	case 1:
		p.b = p.b.Add(image.Pt(vsym.Int("x", -9, 9), vsym.Int("y", -9, 9)))
	case 2:
		checkThumbnail(limage.Image{{LayerBounds: p.b, Image: p}}, w, h)
		return
	}
	checkThumbnail(p, w, h)
}
