#!/usr/bin/env python3
import sys,os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'plant.py')).read())
want=sys.argv[1:]
def P(id,*a,**k):
    if want and id not in want: return
    try: plant(id,*a,**k)
    except AssertionError as e: print(id,'FAILED',str(e)[-800:]); 
H='''package limage

import (
	"image"
	"image/color"
	"testing"
)

var _ = image.Rect
var _ color.Color

'''
P('c06-two-draws','C06',[('composite.go','''		top.A = 0xffff

		return top
	}

	return bottom
}''','''		if top.A > 0xff00 && bottom.A != 0 {
			top.A = 0xffff
		}

		return top
	}

	return bottom
}''')],'a nearly transparent top that is nevertheless drawn, or any partial alpha over a bottom','dissolve shows the top with its own partial alpha instead of making it opaque',H+'''
func TestDemo(t *testing.T) {
	bottom := color.NRGBA64{1, 2, 3, 0xffff}
	for i := 0; i < 1000; i++ {
		r := color.NRGBA64Model.Convert(CompositeDissolve.Composite(bottom, color.NRGBA64{9, 9, 9, 0x8000})).(color.NRGBA64)
		if r.A != 0xffff {
			t.Fatal("DEMO: neither the bottom nor the opaque top:", r)
		}
	}
}
''')
P('c08-rgb-model','C08',[('lcolor/rgb.go','''	r, g, b, _ := c.RGBA()

	return RGB{''','''	if n, ok := c.(color.NRGBA); ok {
		return RGB{n.R, n.G, n.B}
	}

	r, g, b, _ := c.RGBA()

	return RGB{''')],'a translucent color.NRGBA converted by the RGB model','the RGB model gives non-premultiplied bytes for one colour type and premultiplied ones for all others','''package limage

import (
	"image/color"
	"testing"

	"vimagination.zapto.org/limage/lcolor"
)

func TestDemo(t *testing.T) {
	a := lcolor.RGBModel.Convert(color.NRGBA{200, 100, 50, 128})
	b := lcolor.RGBModel.Convert(color.NRGBA64{200 * 257, 100 * 257, 50 * 257, 128 * 257})
	if a != b {
		t.Fatal("DEMO: the same colour converts differently:", a, b)
	}
}
''')
P('c13-opaque-shortcut','C13',[('image.go','''	for i := len(g) - 1; i >= 0; i-- {
		if g[i].Invisible {''','''	start := len(g) - 1

	for i, l := range g { // nothing shows through an opaque layer
		if o, ok := l.Image.(interface{ Opaque() bool }); ok && o.Opaque() && l.Mode == CompositeNormal && point.In(l.Bounds()) {
			start = i

			break
		}
	}

	for i := start; i >= 0; i-- {
		if g[i].Invisible {''')],'an opaque picture in Normal mode on a layer that is invisible or has partial opacity','layers below a translucent or invisible layer with an opaque picture are left out',H+'''
func TestDemo(t *testing.T) {
	r := image.Rect(0, 0, 1, 1)
	g := image.NewGray(r)
	im := Image{
		{LayerBounds: r, Transparency: 200, Image: g},
		{LayerBounds: r, Image: image.NewUniform(color.White)},
	}
	if y, _, _, a := im.At(0, 0).RGBA(); a != 0xffff || y < 0x1000 {
		t.Fatal("DEMO: the layer below is gone:", y, a)
	}
}
''')
P('c13-palette-threshold','C13',[('image.go','d.A > 0x7fff {','d.A > 0x8000 {')],'a paletted layer with alpha exactly 0x8000 (half opaque)','a half opaque pixel no longer replaces what is below',H+'''
type half struct{ image.Image }

func (half) At(x, y int) color.Color { return color.NRGBA64{5, 5, 5, 0x8000} }

func TestDemo(t *testing.T) {
	r := image.Rect(0, 0, 1, 1)
	p := image.NewPaletted(r, color.Palette{color.Black})
	im := Image{{LayerBounds: r, Image: half{p}}, {LayerBounds: r, Image: p}}
	if y, _, _, _ := im.At(0, 0).RGBA(); y != 5 {
		t.Fatal("DEMO: half opaque pixel not shown")
	}
}
''')
P('c14-skip-hidden','C14',[('image.go','''	for n, l := range g {
		h[n] = l.SubImageLayer(r)''','''	for n, l := range g {
		if l.Invisible { // not seen anyway
			h[n] = l

			continue
		}

		h[n] = l.SubImageLayer(r)''')],'cropping an image that has an invisible layer','invisible layers keep their size, so the cropped image is larger than the rectangle',H+'''
func TestDemo(t *testing.T) {
	im := Image{{LayerBounds: image.Rect(0, 0, 9, 9), Invisible: true, Image: image.NewUniform(color.White)}}
	if b := im.SubImage(image.Rect(1, 1, 2, 2)).Bounds(); b != image.Rect(1, 1, 2, 2) {
		t.Fatal("DEMO: bounds of the cropped image are", b)
	}
}
''')
P('c15-mask-origin','C15',[('misc.go','m.Mask.GrayAt(x, y).Y)','m.Mask.GrayAt(x-m.Image.Bounds().Min.X, y-m.Image.Bounds().Min.Y).Y)')],'a masked image whose picture does not start at the origin','the mask is taken at another position than the pixel',H+'''
func TestDemo(t *testing.T) {
	r := image.Rect(3, 3, 5, 5)
	m := MaskedImage{Image: image.NewNRGBA(r), Mask: image.NewGray(r)}
	for i := range m.Mask.Pix {
		m.Mask.Pix[i] = 255
	}
	m.Image.(*image.NRGBA).Set(4, 4, color.White)
	if _, _, _, a := m.At(4, 4).RGBA(); a != 0xffff {
		t.Fatal("DEMO: the mask hides the pixel")
	}
}
''')
P('c15-short-scale','C15',[('misc.go','	o |= o << 8\n	c.A = uint16(o * uint32(c.A) / 0xffff)','	c.A = uint16(o * uint32(c.A) >> 8)')],'any partial opacity (full and none are handled apart)','a layer of opacity 254/255 is shown with 254/256',H+'''
func TestDemo(t *testing.T) {
	c := transparency(color.NRGBA64{100, 200, 300, 0xffff}, 254).(color.NRGBA64)
	if c.A < 254*257-1 {
		t.Fatal("DEMO: alpha is", c.A, "instead of", 254*257)
	}
}
''')
HI='''package internal

import (
	"bufio"
	"bytes"
	"io"
	"testing"
)

'''
P('c16-buffered','C16',[('internal/bufioToReader.go','''		rs.Seek(0, 0)

		return &readerAt{
			ReadSeeker: rs,
		}''','''		rs.Seek(0, 0)

		return &readerAt{
			ReadSeeker: rs,
			pos:        int64(b.Buffered()),
			sought:     true,
		}''')],'a buffered reader that has already buffered bytes, whose first random read is at the buffered count','the first read at that offset returns the bytes of offset 0',HI+'''
type rs struct{ r *bytes.Reader }

func (r rs) Read(p []byte) (int, error)            { return r.r.Read(p) }
func (r rs) Seek(o int64, w int) (int64, error) { return r.r.Seek(o, w) }

var _ io.ReadSeeker = rs{}

func TestDemo(t *testing.T) {
	b := bufio.NewReader(rs{bytes.NewReader([]byte("0123456789"))})
	b.Peek(4)
	var p [2]byte
	at := int64(b.Buffered())
	if at >= 10 {
		at = 10
	}
	GetReaderAt(b).ReadAt(p[:], at)
	if at == 10 && p[0] == '0' {
		t.Fatal("DEMO: read past the end returns", string(p[:]))
	}
}
''',pkg='internal')
HO='''package ora

import (
	"archive/zip"
	"bytes"
	"image"
	"image/color"
	"image/png"
	"testing"

	"vimagination.zapto.org/limage"
)

var _ = limage.CompositeNormal
var _ = png.Encode
var _ color.Color
var _ image.Image

func archive(t *testing.T, members ...string) *zip.Reader {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for i := 0; i < len(members); i += 2 {
		f, _ := z.Create(members[i])
		f.Write([]byte(members[i+1]))
	}
	z.Close()
	r, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func encoded(t *testing.T, m image.Image) *zip.Reader {
	var b bytes.Buffer
	if err := Encode(&b, m); err != nil {
		t.Fatal(err)
	}
	r, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func pngOf() string {
	var b bytes.Buffer
	png.Encode(&b, image.NewNRGBA(image.Rect(0, 0, 2, 2)))
	return b.String()
}

func plain(c uint8, r image.Rectangle) limage.Layer {
	m := image.NewNRGBA(image.Rectangle{Max: r.Size()})
	for i := range m.Pix {
		m.Pix[i] = c | 1
	}
	return limage.Layer{LayerBounds: r, Image: m}
}

'''
P('c17-nested-number','C17',[('ora/encode.go','''	for _, l := range lim {
		layerNum, err = writeStack(e, l, layerNum)
		if err != nil {
			return 0, err
		}
	}
''','''	next := layerNum

	for _, l := range lim {
		if next, err = writeStack(e, l, layerNum); err != nil {
			return 0, err
		} else if _, ok := l.Image.(*limage.Image); !ok {
			layerNum = next
		}
	}
''')],'a group given by pointer followed by another layer','layers after such a group get pictures of the group',HO+'''
func TestDemo(t *testing.T) {
	g := limage.Image{plain(8, image.Rect(0, 0, 4, 4))}
	im := limage.Image{
		{LayerBounds: image.Rect(0, 0, 4, 4), Image: &g},
		plain(64, image.Rect(0, 0, 4, 4)),
	}
	d, err := Decode(encoded(t, im))
	if err != nil {
		t.Fatal(err)
	}
	if c := color.NRGBAModel.Convert(d[1].Image.At(1, 1)).(color.NRGBA); c.R != 65 {
		t.Fatal("DEMO: the second layer shows", c)
	}
}
''',pkg='ora')
P('c17-trim-name','C17',[('ora/stack.go','			l.Name = a.Value\n','			l.Name = strings.TrimSpace(a.Value)\n'),('ora/stack.go','	"strconv"\n','	"strconv"\n	"strings"\n')],'a layer name that starts or ends with white space','such names come back changed',HO+'''
func TestDemo(t *testing.T) {
	l := plain(1, image.Rect(0, 0, 4, 4))
	l.Name = "a "
	d, err := Decode(encoded(t, limage.Image{l}))
	if err != nil {
		t.Fatal(err)
	}
	if d[0].Name != "a " {
		t.Fatalf("DEMO: name is now %q", d[0].Name)
	}
}
''',pkg='ora')
P('c17-dst-pair','C17',[('ora/encode.go','''		op = "svg:src-atop"
	case limage.CompositeDestinationAtop:
		op = "svg:dst-atop"''','''		op = "svg:src-atop"
	case limage.CompositeDestinationAtop:
		op = "svg:dst-over"''')],'a layer of mode destination-atop','the mode is written under a name that is not understood and comes back as Normal',HO+'''
func TestDemo(t *testing.T) {
	l := plain(1, image.Rect(0, 0, 4, 4))
	l.Mode = limage.CompositeDestinationAtop
	d, err := Decode(encoded(t, limage.Image{l}))
	if err != nil {
		t.Fatal(err)
	}
	if d[0].Mode != l.Mode {
		t.Fatal("DEMO: mode is now", d[0].Mode)
	}
}
''',pkg='ora')
P('c17-transparent-hidden','C17',[('ora/encode.go','	if lim.Transparency != 0 {\n','	if lim.Transparency != 0 && !lim.Invisible {\n')],'a layer that is both invisible and translucent','its opacity is lost',HO+'''
func TestDemo(t *testing.T) {
	l := plain(1, image.Rect(0, 0, 4, 4))
	l.Invisible = true
	l.Transparency = 7
	d, err := Decode(encoded(t, limage.Image{l}))
	if err != nil {
		t.Fatal(err)
	}
	if d[0].Transparency != 7 {
		t.Fatal("DEMO: transparency is now", d[0].Transparency)
	}
}
''',pkg='ora')
P('c18-eof-stack','C18',[('ora/stack.go','''		t, err := d.x.Token()
		if err != nil {
			return nil, err
		}

		switch t := t.(type) {''','''		t, err := d.x.Token()
		if err != nil {
			if s, ok := err.(*xml.SyntaxError); ok && s.Msg == "unexpected EOF" && len(i) > 0 {
				break
			}

			return nil, err
		}

		switch t := t.(type) {''')],'a description that stops after at least one complete layer','a truncated description decodes without an error',HO+'''
func TestDemo(t *testing.T) {
	s := `<image w="4" h="4"><stack><layer src="a.png"/><layer src="a.png"/></stack></image>`
	_, err := Decode(archive(t, "stack.xml", s[:len(s)-25], "a.png", pngOf()))
	if err == nil {
		t.Fatal("DEMO: truncated description accepted")
	}
}
''',pkg='ora')
P('c18-hidden-source','C18',[('ora/stack.go','''		if l.Image == nil {
			return l, ErrInvalidSource
		}
''','''		if l.Image == nil {
			if !l.Invisible {
				return l, ErrInvalidSource
			}

			l.Image = limage.Image{}
		}
''')],'an invisible layer whose source is missing','a layer without source is accepted when it is hidden',HO+'''
func TestDemo(t *testing.T) {
	s := `<image w="4" h="4"><stack><layer src="b.png" visibility="hidden"/></stack></image>`
	_, err := Decode(archive(t, "stack.xml", s, "a.png", pngOf()))
	if err == nil {
		t.Fatal("DEMO: missing source accepted")
	}
}
''',pkg='ora')
P('c18-mime-prefix','C18',[('ora/decode.go','	if mimetype.UncompressedSize64 != uint64(len(mimetypeStr)) {','	if mimetype.UncompressedSize64 < uint64(len(mimetypeStr)) {')],'a mimetype that merely starts with the right one','image/openraster-something is accepted',HO+'''
func TestDemo(t *testing.T) {
	s := `<image w="4" h="4"><stack><layer src="a.png"/></stack></image>`
	_, err := Decode(archive(t, "mimetype", "image/openraster2", "stack.xml", s, "a.png", pngOf()))
	if err == nil {
		t.Fatal("DEMO: wrong mimetype accepted")
	}
}
''',pkg='ora')
P('c19-late-check','C19',[('ora/decode.go','''					if err != nil {
						return err
					}
				}

				if !w''','''				}

				if err != nil {
					return err
				}

				if !w''')],'a malformed width (or height) followed by a well-formed other size','the malformed number is taken for 0',HO+'''
func TestDemo(t *testing.T) {
	if c, err := DecodeConfig(archive(t, "stack.xml", `<image w="x4" h="4"><stack></stack></image>`)); err == nil {
		t.Fatal("DEMO: malformed width accepted as", c.Width)
	}
}
''',pkg='ora')
P('c19-attr-prefix','C19',[('ora/decode.go','''				for _, attr := range se.Attr {
					switch attr.Name.Local {''','''				for _, attr := range se.Attr {
					if w && h { // all that is needed
						break
					}

					switch attr.Name.Local[:1] {''')],'another attribute whose name starts with w or h, standing first','the size is taken from another attribute',HO+'''
func TestDemo(t *testing.T) {
	if c, err := DecodeConfig(archive(t, "stack.xml", `<image height="9" w="4" h="4"><stack></stack></image>`)); err != nil || c.Height != 4 {
		t.Fatal("DEMO: height is", c.Height, err)
	}
}
''',pkg='ora')
P('c20-integer-scale','C20',[('ora/encode.go','scale = float64(lim.LayerBounds.Max.X) / 256','scale = float64(lim.LayerBounds.Max.X / 256)')],'a picture wider than high, whose width is not a multiple of 256','thumbnails are up to 511 pixels wide',HO+'''
func TestDemo(t *testing.T) {
	z := encoded(t, image.NewGray(image.Rect(0, 0, 300, 4)))
	for _, f := range z.File {
		if f.Name == "Thumbnails/thumbnail.png" {
			r, _ := f.Open()
			c, err := png.DecodeConfig(r)
			if err != nil || c.Width > 256 {
				t.Fatal("DEMO: thumbnail width", c.Width, err)
			}
		}
	}
}
''',pkg='ora')
P('c20-long-side','C20',[('ora/encode.go','else if lim.LayerBounds.Max.X > 256 || lim.LayerBounds.Max.Y > 256 {','else if lim.LayerBounds.Max.X > 256 || lim.LayerBounds.Max.Y > 256 && lim.LayerBounds.Max.X >= 16 {')],'a picture less than 16 pixels wide and more than 256 high','its thumbnail is as high as the picture',HO+'''
func TestDemo(t *testing.T) {
	z := encoded(t, image.NewGray(image.Rect(0, 0, 3, 300)))
	for _, f := range z.File {
		if f.Name == "Thumbnails/thumbnail.png" {
			r, _ := f.Open()
			c, err := png.DecodeConfig(r)
			if err != nil || c.Height > 256 {
				t.Fatal("DEMO: thumbnail height", c.Height, err)
			}
		}
	}
}
''',pkg='ora')
HC='''package limage

import (
	"image"
	"testing"

	"vimagination.zapto.org/limage/lcolor"
)

var _ lcolor.RGB

'''
