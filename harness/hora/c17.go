package hora

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// pic is a picture in which every pixel is different from its neighbours and
// which shows nothing outside its bounds.
type pic struct {
	id uint8
	b  image.Rectangle
}

func (p pic) ColorModel() color.Model { return color.NRGBAModel }
func (p pic) Bounds() image.Rectangle { return p.b }
func (p pic) At(x, y int) color.Color {
	if vsym.Or(x < p.b.Min.X, x >= p.b.Max.X, y < p.b.Min.Y, y >= p.b.Max.Y) {
		return color.NRGBA{}
	}
	return color.NRGBA{uint8(x) ^ p.id, uint8(y), uint8(x>>8)<<4 | uint8(y>>8)&15, p.id | 1}
}

// The canvas of the tests.
const canvasW, canvasH = 120, 50

// leaf is a layer of the given place with a picture of the given kind.
func leaf(id uint8, r image.Rectangle, kind int) limage.Layer {
	s := r.Size()
	p := pic{id: id, b: image.Rectangle{Max: s}}
	switch kind {
	case 1: // a picture that does not start at the origin
		p.b = image.Rect(-2, -1, s.X, s.Y)
	case 2: // larger
		p.b = image.Rect(0, 0, s.X+3, s.Y+1)
	case 3: // partly missing
		p.b = image.Rect(1, 0, s.X, s.Y-1)
	case 4:
		return limage.Layer{LayerBounds: r, Image: limage.Text{Image: p}}
	case 5:
		return limage.Layer{LayerBounds: r, Image: &p}
	}
	return limage.Layer{LayerBounds: r, Image: p}
}

// group is a layer that holds the given ones.
func group(at image.Point, ls ...limage.Layer) limage.Layer {
	im := limage.Image(ls)
	l := limage.Layer{LayerBounds: image.Rectangle{Max: im.Bounds().Max}.Add(at), Image: im}
	return l
}

// base covers the canvas.
func base() limage.Layer {
	return limage.Layer{Name: "base", LayerBounds: image.Rect(0, 0, canvasW, canvasH), Image: pic{id: 7, b: image.Rect(0, 0, canvasW, canvasH)}}
}

// within is a rectangle within a canvas of the given size.
func within(name string, w, h int) image.Rectangle {
	x0, y0 := vsym.Int(name+".x", 0, w-1), vsym.Int(name+".y", 0, h-1)
	x1, y1 := vsym.Int(name+".x1", 1, w), vsym.Int(name+".y1", 1, h)
	vsym.Assume(vsym.And(x0 < x1, y0 < y1))
	return image.Rectangle{image.Pt(x0, y0), image.Pt(x1, y1)}
}

func pixel(m image.Image, x, y int) color.NRGBA {
	return color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA)
}

// same compares a decoded layer with the encoded one.
func same(want, got limage.Layer) {
	vsym.Assert(want.Name == got.Name, "the name is kept")
	vsym.Assert(want.LayerBounds == got.LayerBounds, "position and size are kept")
	vsym.Assert(want.Invisible == got.Invisible, "visibility is kept")
	vsym.Assert(want.Transparency == got.Transparency, "the opacity is kept")
	vsym.Assert(want.Mode == got.Mode, "the mode is kept")
	var g limage.Image
	switch im := want.Image.(type) {
	case limage.Image:
		g = im
	case *limage.Image:
		g = *im
	default:
		_, isg := got.Image.(limage.Image)
		vsym.Assert(!isg, "a layer is not a group")
		if isg {
			return
		}
		s := want.LayerBounds.Size()
		x, y := vsym.Int("px", 0, canvasW), vsym.Int("py", 0, canvasH)
		vsym.Assume(vsym.And(x < s.X, y < s.Y))
		vsym.Assert(pixel(want.Image, x, y) == pixel(got.Image, x, y), "the pixels are kept")
		vsym.Cover("pixel")
		return
	}
	gi, isg := got.Image.(limage.Image)
	vsym.Assert(isg, "a group is a group")
	if isg {
		sameAll(g, gi)
	}
}

func sameAll(want, got limage.Image) {
	vsym.Assert(len(want) == len(got), "the number of layers is kept")
	if len(want) != len(got) {
		return
	}
	for i := range want {
		same(want[i], got[i])
	}
}

func roundTrip(m image.Image) (limage.Image, bool) {
	z, err := encoded(m)
	vsym.Assert(err == nil, "encoding succeeds")
	if err != nil {
		return nil, false
	}
	got, err := ora.Decode(z)
	vsym.Assert(err == nil, "an encoded image can be decoded")
	return got, err == nil
}

// Positions, sizes and pixels.
//
//vsym:check C17
func H_C17_place() {
	reset()
	r := within("r", canvasW, canvasH)
	im := limage.Image{leaf(3, r, vsym.Choose("kind", 6)), base()}
	if got, ok := roundTrip(im); ok {
		sameAll(im, got)
	}
}

// Nesting.
//
//vsym:check C17
func H_C17_tree() {
	reset()
	// the rectangles of the leaves are concrete, the offsets of groups symbolic
	gx, gy := vsym.Int("gx", 0, 60), vsym.Int("gy", 0, 20)
	at := image.Pt(gx, gy)
	a := leaf(3, image.Rect(0, 0, 2, 3), 0)
	b := leaf(9, image.Rect(1, 2, 11, 12), 1)
	c := leaf(17, image.Rect(12, 0, 13, 9), 0)
	a.Name, c.Name = "a", "c"
	var im limage.Image
	switch vsym.Choose("tree", 8) {
	case 0:
		im = limage.Image{a, b, c, base()}
	case 1:
		im = limage.Image{group(at, a), base()}
	case 2:
		im = limage.Image{a, group(at, b, c), base()}
	case 3:
		im = limage.Image{group(at, a, b), c, base()}
	case 4:
		im = limage.Image{group(at, a, group(image.Pt(5, 6), b)), c, base()}
	case 5:
		im = limage.Image{group(image.Pt(5, 6), group(at, a, c), b), base()}
	case 6:
		im = limage.Image{base(), group(image.Pt(5, 6), group(at, group(image.Pt(1, 0), a), b), c)}
	case 7:
		g := limage.Image{a, b}
		l := group(at, a, b)
		l.Image = &g
		im = limage.Image{l, group(image.Pt(0, 3), c), base()}
	}
	if vsym.Choose("hide", 2) == 1 {
		im[0].Invisible = true
		im[0].Name = "top"
		im[0].Mode = limage.CompositeScreen
		im[0].Transparency = 3
	}
	var m image.Image = im
	if vsym.Choose("ptr", 2) == 1 {
		m = &im
	}
	if got, ok := roundTrip(m); ok {
		sameAll(im, got)
		vsym.Cover("tree")
	}
}

// Names.
//
//vsym:check C17
func H_C17_name() {
	reset()
	n := vsym.Choose("n", vsym.Bound("chars", 2, 3))
	b := vsym.Bytes("name", n)
	for i := range b { // characters of XML
		vsym.Assume(vsym.Or(vsym.And(b[i] >= 0x20, b[i] < 0x7f), b[i] == '\t', b[i] == '\n', b[i] == '\r'))
	}
	name := string(b)
	switch vsym.Choose("more", 3) {
	case 1: // a character of two bytes
		hi, lo := vsym.U8("hi"), vsym.U8("lo")
		vsym.Assume(vsym.And(hi >= 0xc2, hi < 0xe0, lo >= 0x80, lo < 0xc0))
		name += string([]byte{hi, lo})
	case 2:
		name = "\u4f60\U0001f600 " + name
	}
	l := leaf(3, image.Rect(1, 2, 5, 5), 0)
	g := group(image.Pt(2, 2), l)
	l.Name = name
	im := limage.Image{l, base()}
	if vsym.Choose("group", 2) == 1 {
		g.Name = name
		im[0] = g
	}
	if got, ok := roundTrip(im); ok {
		vsym.Assert(len(got) == 2 && got[0].Name == name && got[1].Name == "base", "the name is kept")
		vsym.Cover("name")
	}
}

var oraModes = [...]limage.Composite{
	limage.CompositeNormal, limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay,
	limage.CompositeDarkenOnly, limage.CompositeLightenOnly, limage.CompositeDodge, limage.CompositeBurn,
	limage.CompositeHardLight, limage.CompositeSoftLight, limage.CompositeDifference, limage.CompositeColor,
	limage.CompositeLuminosity, limage.CompositeHue, limage.CompositeSaturation, limage.CompositePlus,
	limage.CompositeDestinationIn, limage.CompositeDestinationOut, limage.CompositeSourceAtop, limage.CompositeDestinationAtop,
}

// Opacity, visibility and mode.
//
//vsym:check C17
func H_C17_attrs() {
	reset()
	l := leaf(3, image.Rect(1, 0, 5, 5), 0)
	mode := 0
	t := vsym.Choose("transparency", 256)
	if t == 0 || t == 100 {
		mode = vsym.Choose("mode", len(oraModes))
	}
	inv := vsym.Bool("invisible")
	if vsym.Choose("group", 2) == 1 {
		l = group(image.Pt(2, 2), l)
	}
	l.Mode = oraModes[mode]
	l.Transparency = uint8(t)
	l.Invisible = inv
	im := limage.Image{l, base()}
	if got, ok := roundTrip(im); ok {
		sameAll(im, got)
		vsym.Cover("attributes")
	}
}

// Pictures that are not layered, and single layers.
//
//vsym:check C17
func H_C17_plain() {
	reset()
	w, h := vsym.Int("w", 1, 99), vsym.Int("h", 1, 99)
	min := image.Pt(vsym.Int("x", -50, 50), vsym.Int("y", -50, 50))
	size := image.Pt(w, h)
	p := pic{id: 3, b: image.Rectangle{Max: size}.Add(min)}
	var m image.Image = p
	pos := min // of the picture's first pixel
	switch vsym.Choose("kind", 4) {
	case 0:
	case 1:
		p.b = image.Rectangle{Max: size}
		m = limage.Layer{LayerBounds: p.b.Add(min), Image: p, Name: "name"}
	case 2:
		p.b = image.Rectangle{Max: size}
		m = &limage.Layer{LayerBounds: p.b.Add(min), Image: p}
	case 3:
		m = limage.Text{Image: p}
	}
	got, ok := roundTrip(m)
	if !ok {
		return
	}
	vsym.Assert(len(got) == 1, "one layer")
	if len(got) != 1 {
		return
	}
	vsym.Assert(got[0].LayerBounds == image.Rectangle{Max: size}, "the layer has the size of the picture")
	vsym.Assert(vsym.And(got[0].Transparency == 0, !got[0].Invisible, got[0].Mode == limage.CompositeNormal), "the layer is shown as it is")
	x, y := vsym.Int("px", 0, 99), vsym.Int("py", 0, 99)
	vsym.Assume(vsym.And(x < w, y < h))
	vsym.Assert(pixel(m, x+pos.X, y+pos.Y) == pixel(got[0].Image, x, y), "the layer shows the picture")
	vsym.Cover("plain")
}

// The merged picture.
//
//vsym:check C17 nomerge=1
func H_C17_merged() {
	reset()
	var m image.Image
	switch vsym.Choose("image", 4) {
	case 0:
		m = limage.Image{leaf(3, image.Rect(1, 2, 9, 9), 0), base()}
	case 1:
		l := group(image.Pt(3, 4), leaf(3, image.Rect(1, 2, 9, 9), 0), leaf(5, image.Rect(4, 0, 19, 9), 0))
		l.Transparency = 100
		l.Mode = limage.CompositeMultiply
		m = limage.Image{l, base()}
	case 2:
		m = leaf(3, image.Rect(2, 1, 7, 8), 0)
	case 3:
		m = pic{id: 3, b: image.Rect(-2, 1, 7, 8)}
	}
	b := m.Bounds()
	z, err := encoded(m)
	vsym.Assert(err == nil, "encoding succeeds")
	got := picture(z, "mergedimage.png")
	vsym.Assert(got != nil, "there is a merged picture")
	if got == nil {
		return
	}
	vsym.Assert(got.Bounds() == image.Rectangle{Max: b.Size()}, "the merged picture has the size of the image")
	x, y := vsym.Int("px", 0, canvasW), vsym.Int("py", 0, canvasH)
	vsym.Assume(vsym.And(x < b.Dx(), y < b.Dy()))
	vsym.Assert(pixel(m, x+b.Min.X, y+b.Min.Y) == pixel(got, x, y), "the merged picture shows the image")
	vsym.Cover("merged")
}
