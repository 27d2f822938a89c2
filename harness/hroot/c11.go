package hroot

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// anyBox is any well-formed rectangle at all.
func anyBox(name string) image.Rectangle {
	r := image.Rectangle{
		Min: image.Point{X: int(vsym.I64(name + "x0")), Y: int(vsym.I64(name + "y0"))},
		Max: image.Point{X: int(vsym.I64(name + "x1")), Y: int(vsym.I64(name + "y1"))},
	}
	vsym.Assume(vsym.And(r.Min.X <= r.Max.X, r.Min.Y <= r.Max.Y))
	return r
}

// boxOn is any well-formed rectangle at all, with its edges told apart by how
// they lie to those of r, so that the solver has little to decide.
func boxOn(name string, r image.Rectangle) image.Rectangle {
	edge := func(s string, lo, n, least int) (int, int) {
		k := least + vsym.Choose(name+s, n+3-least)
		if k > 0 && k < n+2 {
			return lo + k - 1, k
		}
		e := int(vsym.I64(name + s + "far"))
		if k == 0 {
			vsym.Assume(e < lo)
		} else {
			vsym.Assume(e > lo+n)
		}
		return e, k
	}
	w, h := r.Dx(), r.Dy()
	x0, k := edge("x0", r.Min.X, w, 0)
	x1, _ := edge("x1", r.Min.X, w, k)
	y0, k := edge("y0", r.Min.Y, h, 0)
	y1, _ := edge("y1", r.Min.Y, h, k)
	q := image.Rectangle{Min: image.Point{X: x0, Y: y0}, Max: image.Point{X: x1, Y: y1}}
	vsym.Assume(vsym.And(q.Min.X <= q.Max.X, q.Min.Y <= q.Max.Y))
	return q
}

// overlap is the intersection by definition; ok is false when it is empty.
func overlap(r, q image.Rectangle) (s image.Rectangle, ok bool) {
	s = r
	if q.Min.X > s.Min.X {
		s.Min.X = q.Min.X
	}
	if q.Min.Y > s.Min.Y {
		s.Min.Y = q.Min.Y
	}
	if q.Max.X < s.Max.X {
		s.Max.X = q.Max.X
	}
	if q.Max.Y < s.Max.Y {
		s.Max.Y = q.Max.Y
	}
	return s, s.Min.X < s.Max.X && s.Min.Y < s.Max.Y
}

//vsym:check C11
func H_C11_window() {
	kind := vsym.Choose("kind", 3)
	r := sizedRect("r", [][2]int{{3, 2}, {0, 0}, {2, 3}}[vsym.Choose("size", vsym.Bound("sizes", 2, 3))])
	im := filled(kind, r)
	q := boxOn("q", r)
	sub := im.SubImage(q).(store)
	want, ok := overlap(r, q)
	if !ok {
		isEmpty(sub, kind)
		return
	}
	window(im, sub, r, want)
}

// A window of a window.
//
//vsym:check C11
func H_C11_nested() {
	kind := vsym.Choose("kind", 3)
	r := sizedRect("r", [2]int{2, vsym.Bound("height", 1, 2)})
	im := filled(kind, r)
	q := boxOn("q", r)
	sub := im.SubImage(q).(store)
	want, ok := overlap(r, q)
	if !ok {
		isEmpty(sub.SubImage(anyBox("q2")).(store), kind)
		return
	}
	q2 := boxOn("q2", want)
	sub = sub.SubImage(q2).(store)
	want, ok = overlap(want, q2)
	if !ok {
		isEmpty(sub, kind)
		return
	}
	window(im, sub, r, want)
}

func isEmpty(sub store, kind int) {
	x, y := int(vsym.I64("x")), int(vsym.I64("y"))
	vsym.Assert(sub.Bounds().Empty(), "no intersection gives empty bounds")
	sub.At(x, y)
	sub.Set(x, y, color.White)
	sub.Opaque()
	vsym.Cover("empty")
}

func window(im, sub store, r, want image.Rectangle) {
	vsym.Assert(sub.Bounds() == want, "bounds are the intersection")
	x, y := anyPoint("p", want)
	inside := in(x, y, want)
	vsym.Assert(sub.ColorModel() != nil, "the window has a colour model")
	c := color.NRGBA{R: vsym.U8("R"), G: vsym.U8("G"), B: vsym.U8("B"), A: vsym.U8("A")}
	if _, ok := im.(*limage.PalettedAlpha); ok {
		// C09 is about finding the entry
		c = color.NRGBA{R: 200, G: 10, B: 77, A: c.A}
	}
	var before []color.Color
	for i := 0; i < r.Dx()*r.Dy(); i++ {
		before = append(before, im.At(r.Min.X+i%r.Dx(), r.Min.Y+i/r.Dx()))
	}
	if inside {
		vsym.Assert(sub.At(x, y) == im.At(x, y), "the window shows the pixels of the original")
	} else {
		vsym.Assert(sub.At(x, y) == sub.At(want.Max.X, want.Max.Y), "points outside the window show nothing")
	}
	if !inside || vsym.Choose("through", 2) == 0 {
		sub.Set(x, y, c)
	} else {
		im.Set(x, y, c)
	}
	for i := range before {
		px, py := r.Min.X+i%r.Dx(), r.Min.Y+i/r.Dx()
		if inside && px == x && py == y {
			continue
		}
		vsym.Assert(im.At(px, py) == before[i], "setting through the window changes no other pixel")
	}
	if inside {
		vsym.Assert(sub.At(x, y) == im.At(x, y), "a pixel set through one is seen through the other")
		vsym.Assert(nrgbaOf(im.At(x, y)).A == nrgbaOf(im.ColorModel().Convert(c)).A>>8*0x101, "the pixel is set")
		vsym.Cover("inside")
	} else {
		vsym.Cover("outside")
	}
}
