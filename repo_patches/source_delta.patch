From 7f8e7a336c6be7bcfcf22826d461940287f012af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 01/22] fix: blend each colour channel with the same channel of
 the bottom

---
 composite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 0033617..4b099f1 100644
--- a/composite.go
+++ b/composite.go
@@ -171,8 +171,8 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 
 	return color.NRGBA64{
 		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
-		G: blend(bottom.A, bottom.G, ma, f(bottom.R, top.G)),
-		B: blend(bottom.A, bottom.B, ma, f(bottom.R, top.B)),
+		G: blend(bottom.A, bottom.G, ma, f(bottom.G, top.G)),
+		B: blend(bottom.A, bottom.B, ma, f(bottom.B, top.B)),
 		A: bottom.A,
 	}
 }
-- 
2.43.0


From a5259e3f61289055474d2a56820403e693415e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 02/22] fix: burn mode must darken to black instead of wrapping
 to white

---
 composite.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index 4b099f1..4092109 100644
--- a/composite.go
+++ b/composite.go
@@ -271,13 +271,13 @@ func compositeDodge(x, y uint16) uint16 {
 func compositeBurn(x, y uint16) uint16 {
 	if y == 0 {
 		if x == 0xffff {
-			return 0
+			return 0xffff
 		}
 
-		return 0xffff
+		return 0
 	}
 
-	return clamp(0xffff - 0xffff*(0xffff-uint32(x))/uint32(y))
+	return 0xffff - clamp(0xffff*(0xffff-uint32(x))/uint32(y))
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-- 
2.43.0


From fb23858fa61811d478bf306cd96bdd51b85f4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 03/22] fix: grain merge must subtract half, not add it

---
 composite.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 4092109..181f03a 100644
--- a/composite.go
+++ b/composite.go
@@ -303,8 +303,15 @@ func compositeGrainExtract(ax, ay uint16) uint16 {
 	return clamp(x - y + 0x7fff)
 }
 
-func compositeGrainMerge(x, y uint16) uint16 {
-	return clamp(uint32(x) + uint32(y) + 0x7fff)
+func compositeGrainMerge(ax, ay uint16) uint16 {
+	x := uint32(ax)
+	y := uint32(ay)
+
+	if x+y < 0x7fff {
+		return 0
+	}
+
+	return clamp(x + y - 0x7fff)
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-- 
2.43.0


From ed0a8c59fc41ba0241fbd8bc0554a13de0405629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 04/22] fix: dissolve must use the alpha of the top layer

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 181f03a..4a30e32 100644
--- a/composite.go
+++ b/composite.go
@@ -191,7 +191,7 @@ func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositeDissolve(bottom, top color.NRGBA64) color.NRGBA64 {
-	if uint16(rand.Int31n(0xffff)) < bottom.A {
+	if uint16(rand.Int31n(0xffff)) < top.A {
 		top.A = 0xffff
 
 		return top
-- 
2.43.0


From 58bdb55915e8a6a16a765d427c344e28b2d389f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 05/22] fix: hue, saturation, color, value and luminosity must
 respect the top alpha

---
 composite.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/composite.go b/composite.go
index 4a30e32..049798d 100644
--- a/composite.go
+++ b/composite.go
@@ -140,15 +140,15 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	case CompositeDissolve:
 		return compositeDissolve(bottom, top)
 	case CompositeHue:
-		return compositeHue(bottom, top)
+		return blendColour(bottom, top, compositeHue(bottom, top))
 	case CompositeSaturation:
-		return compositeSaturation(bottom, top)
+		return blendColour(bottom, top, compositeSaturation(bottom, top))
 	case CompositeColor:
-		return compositeColor(bottom, top)
+		return blendColour(bottom, top, compositeColor(bottom, top))
 	case CompositeValue:
-		return compositeValue(bottom, top)
+		return blendColour(bottom, top, compositeValue(bottom, top))
 	case CompositeLuminosity:
-		return compositeColor(top, bottom)
+		return blendColour(bottom, top, compositeColor(top, bottom))
 	case CompositePlus:
 		return compositePlus(bottom, top)
 	case CompositeDestinationIn:
@@ -375,6 +375,24 @@ func clamp(n uint32) uint16 {
 	return uint16(n)
 }
 
+// blendColour mixes the result of a composite into the bottom colour according
+// to the alpha of the top, keeping the alpha of the bottom.
+func blendColour(bottom, top color.NRGBA64, c color.Color) color.Color {
+	if bottom.A == 0 {
+		return color.NRGBA64{}
+	}
+
+	n := internal.ColourToNRGBA(c)
+	ma := internal.Min(bottom.A, top.A)
+
+	return color.NRGBA64{
+		R: blend(bottom.A, bottom.R, ma, n.R),
+		G: blend(bottom.A, bottom.G, ma, n.G),
+		B: blend(bottom.A, bottom.B, ma, n.B),
+		A: bottom.A,
+	}
+}
+
 func blend(aa1, ax1, aa2, ax2 uint16) uint16 {
 	a1 := uint32(aa1)
 	x1 := uint32(ax1)
-- 
2.43.0


From c7fdfb0b83eaf2ae65fcc801a72ec11f24fc018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 06/22] fix: hard light must not wrap from black to white at
 the middle of the range

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 049798d..3028680 100644
--- a/composite.go
+++ b/composite.go
@@ -281,7 +281,7 @@ func compositeBurn(x, y uint16) uint16 {
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-	if y < 0x7fff {
+	if y <= 0x7fff {
 		return uint16(uint32(x) * (uint32(y) << 1) / 0xffff)
 	}
 
-- 
2.43.0


From 8aad8a5b51cf14c4a6c599e3ab532af1ce72bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 07/22] fix: converting HSL colours to RGB must undo the
 conversion from RGB

---
 lcolor/hsl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcolor/hsl.go b/lcolor/hsl.go
index b623cef..978d35e 100644
--- a/lcolor/hsl.go
+++ b/lcolor/hsl.go
@@ -57,13 +57,13 @@ func (h HSLA) ToNRGBA() color.NRGBA64 {
 	}
 
 	c := uint32(h.L) << 1
-	if c < 0x7fff {
+	if c > 0xffff {
 		c = 0x1fffe - c
 	}
 
 	c = c * uint32(h.S) / 0xffff
 
-	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>2), h.A)
+	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>1), h.A)
 }
 
 // HSVA represents the Hue, Saturation, Value and Alpha of a pixel.
-- 
2.43.0


From 43903ecbdede43d1178230ed72c9e4569b577d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 08/22] fix: a paletted image is opaque when all its visible
 pixels are, not when one is not

---
 indexedalpha.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index dd51a6f..8de9420 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -66,13 +66,15 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 
 // Opaque returns true if the image is completely opaque.
 func (p *PalettedAlpha) Opaque() bool {
-	for _, c := range p.Pix {
-		if c.A != 255 {
-			return true
+	for y := p.Rect.Min.Y; y < p.Rect.Max.Y; y++ {
+		for x := p.Rect.Min.X; x < p.Rect.Max.X; x++ {
+			if p.Pix[p.PixOffset(x, y)].A != 255 {
+				return false
+			}
 		}
 	}
 
-	return false
+	return true
 }
 
 // PixOffset returns the index of the Pix array corresponding to the given
-- 
2.43.0


From ae07058c644c68e4123794e95bc30d31f223b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 09/22] fix: the opacity of a gray sub-image must not depend on
 pixels outside it

---
 grayalpha.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grayalpha.go b/grayalpha.go
index 2349a4b..92c396d 100644
--- a/grayalpha.go
+++ b/grayalpha.go
@@ -52,9 +52,11 @@ func (g *GrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 
 // Opaque returns true if all pixels have full alpha.
 func (g *GrayAlpha) Opaque() bool {
-	for _, c := range g.Pix {
-		if c.A != 255 {
-			return false
+	for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
+		for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
+			if g.Pix[g.PixOffset(x, y)].A != 255 {
+				return false
+			}
 		}
 	}
 
-- 
2.43.0


From 4b01072a9bf55a7181ae1d7573f8ad3646be9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 10/22] fix: converting to GrayAlpha must not darken
 translucent colours

---
 lcolor/gray.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lcolor/gray.go b/lcolor/gray.go
index 71a16dc..ab625be 100644
--- a/lcolor/gray.go
+++ b/lcolor/gray.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // GrayAlpha represents a Gray color with an Alpha channel.
 type GrayAlpha struct {
@@ -30,10 +34,12 @@ func (c GrayAlpha) ToNRGBA() color.NRGBA64 {
 }
 
 func grayAlphaColourModel(c color.Color) color.Color {
-	_, _, _, a := c.RGBA()
+	n := internal.ColourToNRGBA(c)
+	a := n.A
+	n.A = 0xffff
 
 	return GrayAlpha{
-		Y: color.GrayModel.Convert(c).(color.Gray).Y,
+		Y: color.GrayModel.Convert(n).(color.Gray).Y,
 		A: uint8(a >> 8),
 	}
 }
-- 
2.43.0


From 50ce79f8c3e87c170e27c08e40297bcfca496575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 11/22] fix: translucent colours must map to the palette entry
 of their colour

---
 lcolor/indexed.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lcolor/indexed.go b/lcolor/indexed.go
index 27afb72..eea9641 100644
--- a/lcolor/indexed.go
+++ b/lcolor/indexed.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // AlphaPalette is an extension to the normal color.Palette type.
 type AlphaPalette color.Palette
@@ -8,7 +12,7 @@ type AlphaPalette color.Palette
 // Convert converts the given color to the nearest color in the palette, but
 // preserves the alpha channel.
 func (ap AlphaPalette) Convert(c color.Color) color.Color {
-	r, g, b, _ := color.Palette(ap).Convert(c).RGBA()
+	r, g, b, _ := color.Palette(ap).Convert(opaque(c)).RGBA()
 	_, _, _, a := c.RGBA()
 
 	return color.NRGBA64{
@@ -19,9 +23,18 @@ func (ap AlphaPalette) Convert(c color.Color) color.Color {
 	}
 }
 
-// Index returns the palette index of the nearest color.
+// Index returns the palette index of the nearest color, ignoring alpha.
 func (ap AlphaPalette) Index(c color.Color) int {
-	return color.Palette(ap).Index(c)
+	return color.Palette(ap).Index(opaque(c))
+}
+
+// opaque removes the transparency of a color, which plays no part in finding
+// the nearest color of the palette.
+func opaque(c color.Color) color.Color {
+	n := internal.ColourToNRGBA(c)
+	n.A = 0xffff
+
+	return n
 }
 
 // IndexedAlpha is the combination of a palette index and an Alpha channel.
-- 
2.43.0


From e248cb82157fffec678b93729f1f5c7a0e004710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:20 +0000
Subject: [PATCH 12/22] fix: cropping a layer must not move its pixels

---
 layer.go | 54 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index f156769..f6b59c4 100644
--- a/layer.go
+++ b/layer.go
@@ -34,7 +34,59 @@ func (l Layer) SubImage(r image.Rectangle) image.Image {
 // SubImageLayer returns an image representing the portion of the image p
 // visible through r. The returned value shares pixels with the original image.
 func (l Layer) SubImageLayer(r image.Rectangle) Layer {
-	l.LayerBounds = r.Intersect(l.LayerBounds)
+	b := r.Intersect(l.LayerBounds)
+
+	if d := b.Min.Sub(l.LayerBounds.Min); !b.Empty() && d != (image.Point{}) {
+		l.Image = shift(l.Image, d)
+	}
+
+	l.LayerBounds = b
 
 	return l
 }
+
+// shift makes the given point of the image its new origin.
+func shift(m image.Image, d image.Point) image.Image {
+	switch im := m.(type) {
+	case Image:
+		h := make(Image, len(im))
+
+		for n, l := range im {
+			l.LayerBounds = l.LayerBounds.Sub(d)
+			h[n] = l
+		}
+
+		return h
+	case *Image:
+		return shift(*im, d)
+	case Text:
+		return Text{Image: shift(im.Image, d), TextData: im.TextData}
+	case *Text:
+		return shift(*im, d)
+	case MaskedImage:
+		mask := *im.Mask
+		mask.Rect = mask.Rect.Sub(d)
+
+		return MaskedImage{Image: shift(im.Image, d), Mask: &mask}
+	case *MaskedImage:
+		return shift(*im, d)
+	}
+
+	return shifted{Image: m, by: d}
+}
+
+// shifted is an image seen from a different origin.
+type shifted struct {
+	image.Image
+	by image.Point
+}
+
+// Bounds returns the limits for the dimensions of the image.
+func (s shifted) Bounds() image.Rectangle {
+	return s.Image.Bounds().Sub(s.by)
+}
+
+// At returns the colour at the specified coords.
+func (s shifted) At(x, y int) color.Color {
+	return s.Image.At(x+s.by.X, y+s.by.Y)
+}
-- 
2.43.0


From bf98c275a591aad6b9e82a040fbc4299d20d3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:09 +0000
Subject: [PATCH 13/22] fix: random access to a seekable stream must not block
 after a failed seek, nor rely on full reads or its position

---
 internal/bufioToReader.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 0a64028..d5679f2 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -2,6 +2,7 @@ package internal // import "vimagination.zapto.org/limage/internal"
 
 import (
 	"bufio"
+	"errors"
 	"io"
 	"sync"
 	"unsafe"
@@ -21,26 +22,30 @@ type readerAt struct {
 	readMutex  sync.Mutex
 	ReadSeeker io.ReadSeeker
 	pos        int64
+	sought     bool // pos is the position of the ReadSeeker
 }
 
 func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 	r.readMutex.Lock()
+	defer r.readMutex.Unlock()
 
-	var (
-		n   int
-		err error
-	)
+	if !r.sought || offset != r.pos {
+		r.sought = false
 
-	if offset != r.pos {
-		r.pos, err = r.ReadSeeker.Seek(offset, io.SeekStart)
-		if err != nil {
+		if _, err := r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
 			return 0, err
 		}
+
+		r.pos = offset
 	}
 
-	n, err = r.ReadSeeker.Read(p)
+	n, err := io.ReadFull(r.ReadSeeker, p)
 	r.pos += int64(n)
-	r.readMutex.Unlock()
+	r.sought = err == nil
+
+	if errors.Is(err, io.ErrUnexpectedEOF) {
+		err = io.EOF
+	}
 
 	return n, err
 }
-- 
2.43.0


From 4565e91333db31e09737ec7eb76852d9f1484ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:04 +0000
Subject: [PATCH 14/22] fix: the opacity of an ORA layer belongs in the opacity
 attribute

---
 ora/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index f1bd534..f6f0c5a 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -195,7 +195,7 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	if lim.Transparency != 0 {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: "visibility"},
+			Name:  xml.Name{Local: "opacity"},
 			Value: strconv.FormatFloat(float64(255-lim.Transparency)/255, 'f', -1, 64),
 		})
 	}
-- 
2.43.0


From 865944a715a3d99c359eeb31190370c2d6f1b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:04 +0000
Subject: [PATCH 15/22] fix: decoding an ORA opacity must round to the nearest
 transparency

---
 ora/stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/stack.go b/ora/stack.go
index ef75333..f4e4fed 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -125,7 +125,7 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 				return "", err
 			}
 
-			l.Transparency = uint8(255 * (1 - o))
+			l.Transparency = uint8(255*(1-o) + 0.5)
 		case "visibility":
 			l.Invisible = a.Value == "hidden"
 		case "composite-op":
-- 
2.43.0


From f17c500a7fddf6fe62c7c4959c5daa9669bbb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:04 +0000
Subject: [PATCH 16/22] fix: negative layer offsets must not be dropped from an
 ORA file

---
 ora/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f6f0c5a..033ba52 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -172,14 +172,14 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 		})
 	}
 
-	if b.X > 0 {
+	if b.X != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "x"},
 			Value: strconv.Itoa(b.X),
 		})
 	}
 
-	if b.Y > 0 {
+	if b.Y != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "y"},
 			Value: strconv.Itoa(b.Y),
-- 
2.43.0


From c49baabf275cc29249ae3fbd52ce5981af9d3284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:04 +0000
Subject: [PATCH 17/22] fix: a failure to complete an ORA file must be reported

---
 ora/encode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index 033ba52..5324006 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -21,8 +21,17 @@ func Encode(w io.Writer, m image.Image) error {
 	lim.LayerBounds.Max.Y = b.Dy()
 
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
+	if err := writeArchive(zw, m, lim); err != nil {
+		zw.Close()
+
+		return err
+	}
+
+	return zw.Close()
+}
+
+func writeArchive(zw *zip.Writer, m image.Image, lim limage.Layer) error {
 	fw, err := zw.CreateHeader(&zip.FileHeader{
 		Name:   "mimetype",
 		Method: zip.Store,
-- 
2.43.0


From d2e697608ce63043739f54627a808841ac960285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:42 +0000
Subject: [PATCH 18/22] fix: an ORA file of a plain image must have a root
 stack

---
 ora/encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ora/encode.go b/ora/encode.go
index 5324006..5fef5ca 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -20,6 +20,12 @@ func Encode(w io.Writer, m image.Image) error {
 	lim.LayerBounds.Max.X = b.Dx()
 	lim.LayerBounds.Max.Y = b.Dy()
 
+	switch lim.Image.(type) {
+	case limage.Image, *limage.Image:
+	default: // the root of the file has to be a stack
+		lim.Image = limage.Image{lim}
+	}
+
 	zw := zip.NewWriter(w)
 
 	if err := writeArchive(zw, m, lim); err != nil {
-- 
2.43.0


From 7176e81c08e7b43e94f82d757e9ff6ef1a16d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:42 +0000
Subject: [PATCH 19/22] fix: an ORA layer must be written with the pixels and
 size it shows

---
 ora/encode.go | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index 5fef5ca..c0641e6 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"encoding/xml"
 	"image"
+	"image/color"
 	"image/png"
 	"io"
 	"strconv"
@@ -83,6 +84,21 @@ func writeArchive(zw *zip.Writer, m image.Image, lim limage.Layer) error {
 	return writeImage(e, zw, m, lim)
 }
 
+// origin is an image moved to the origin.
+type origin struct {
+	image.Image
+}
+
+func (o origin) Bounds() image.Rectangle {
+	return image.Rectangle{Max: o.Image.Bounds().Size()}
+}
+
+func (o origin) At(x, y int) color.Color {
+	b := o.Image.Bounds().Min
+
+	return o.Image.At(x+b.X, y+b.Y)
+}
+
 func toLayer(m image.Image) limage.Layer {
 	switch im := m.(type) {
 	case limage.Layer:
@@ -93,7 +109,15 @@ func toLayer(m image.Image) limage.Layer {
 		return limage.Layer{
 			Image: im.Image,
 		}
+	case limage.Image, *limage.Image:
+		return limage.Layer{
+			Image: im,
+		}
 	default:
+		if m.Bounds().Min != (image.Point{}) {
+			m = origin{Image: m}
+		}
+
 		return limage.Layer{
 			Image: m,
 		}
@@ -154,7 +178,7 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			return 0, err
 		}
 
-		err = png.Encode(f, lim.Image)
+		err = png.Encode(f, layerImage(lim))
 		if err != nil {
 			return 0, err
 		}
@@ -163,6 +187,26 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 	return layerNum, err
 }
 
+// layerImage returns the part of the image of a layer that the layer shows.
+func layerImage(lim limage.Layer) image.Image {
+	b := image.Rectangle{Max: lim.LayerBounds.Size()}
+	if lim.Image.Bounds() == b {
+		return lim.Image
+	}
+
+	return window{Image: lim.Image, bounds: b}
+}
+
+// window is an image with different bounds.
+type window struct {
+	image.Image
+	bounds image.Rectangle
+}
+
+func (w window) Bounds() image.Rectangle {
+	return w.bounds
+}
+
 func writeGroup(zw *zip.Writer, lim limage.Image, layerNum int) (int, error) {
 	var err error
 
-- 
2.43.0


From 45fd237c503a0641a20e8e9c6f4198ce2d15ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:42 +0000
Subject: [PATCH 20/22] fix: ORA layers keep their place within groups and
 their pixels when cut by the canvas

---
 ora/stack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index f4e4fed..4d0fbcf 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -93,9 +93,9 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits.Add(offset)}).Sub(offset)
+	l.LayerBounds = image.Rectangle{Max: l.Image.Bounds().Max}.Add(l.LayerBounds.Min)
 
-	return l, nil
+	return l.SubImageLayer(image.Rectangle{Max: d.limits}.Sub(offset)), nil
 }
 
 func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
-- 
2.43.0


From 9ad5493ae9b112f655ef2a17dc0ab4256f983890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:42 +0000
Subject: [PATCH 21/22] fix: the ORA thumbnail must show the whole picture

---
 ora/thumbnail.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index cf12819..86ab2e2 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -12,14 +12,21 @@ type thumbnail struct {
 
 func (t thumbnail) Bounds() image.Rectangle {
 	b := t.Image.Bounds()
-	b.Min.X = int(float64(b.Min.X) / t.scale)
-	b.Min.Y = int(float64(b.Min.Y) / t.scale)
-	b.Max.X = int(float64(b.Max.X) / t.scale)
-	b.Max.Y = int(float64(b.Max.Y) / t.scale)
 
-	return b
+	return image.Rect(0, 0, t.length(b.Dx()), t.length(b.Dy()))
+}
+
+// length scales a length, which never vanishes.
+func (t thumbnail) length(l int) int {
+	if s := int(float64(l) / t.scale); s > 0 {
+		return s
+	}
+
+	return 1
 }
 
 func (t thumbnail) At(x, y int) color.Color {
-	return t.Image.At(int(float64(x)/t.scale), int(float64(x)/t.scale))
+	b := t.Image.Bounds().Min
+
+	return t.Image.At(b.X+int(float64(x)*t.scale), b.Y+int(float64(y)*t.scale))
 }
-- 
2.43.0


From 4cab931bebb3dad7ea10c73634496a5af17a0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:25 +0000
Subject: [PATCH 22/22] fix: an ORA canvas of negative size is invalid

---
 ora/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/decode.go b/ora/decode.go
index 0d2c16f..c4ce53f 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -89,7 +89,7 @@ func (d *decoder) getDimensions() error {
 					}
 				}
 
-				if !w || !h {
+				if !w || !h || d.limits.X < 0 || d.limits.Y < 0 {
 					return ErrInvalidStack
 				}
 
-- 
2.43.0

