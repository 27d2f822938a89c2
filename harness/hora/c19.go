package hora

import (
	"image"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

const (
	mime   = "image/openraster"
	header = `<?xml version='1.0' encoding='UTF-8'?>` + "\n"
)

// digits gives n decimal digits and their value.
func digits(name string, n int) (string, int) {
	v := 0
	b := vsym.Bytes(name, n)
	for i := range b {
		vsym.Assume(vsym.And(b[i] >= '0', b[i] <= '9'))
		v = v*10 + int(b[i]-'0')
	}
	return string(b), v
}

func config(stack string) (image.Config, error) {
	arc.members = []member{{name: "mimetype", data: []byte(mime)}, {name: "stack.xml", data: []byte(stack)}}
	return ora.DecodeConfig(arc.reader())
}

//vsym:check C19
func H_C19_size() {
	reset()
	w, wv := digits("w", 1+vsym.Choose("wn", vsym.Bound("digits", 3, 6)))
	h, hv := digits("h", 1+vsym.Choose("hn", vsym.Bound("digits", 3, 6)))
	wa, ha := ` w="`+w+`"`, ` h="`+h+`"`
	attrs := ""
	switch vsym.Choose("order", 6) {
	case 0:
		attrs = ` version="0.0.3"` + wa + ha
	case 1:
		attrs = ha + wa
	case 2:
		attrs = wa + ` name="w" xres="72"` + ha + ` yres="3"`
	case 3:
		attrs = ` version="0.0.3" yres="7" name="h"` + ha + ` width="8" height="9"` + wa
	case 4:
		attrs = "\n w='" + w + "'\n h = '" + h + "' "
	case 5:
		attrs = wa + ha + ` version="0.0.3"`
	}
	pre, post := header, `<stack></stack></image>`
	switch vsym.Choose("form", 5) {
	case 0:
		pre = ""
	case 1:
		pre += "<!-- w=\"3\" -->\n"
	case 2:
		post = `<w>5</w><stack w="9" h="8"/></image>`
	case 3:
		post = ""
	}
	c, err := config(pre + `<image` + attrs + `>` + post)
	vsym.Assert(err == nil, "a well-formed file has a configuration")
	vsym.Assert(c.Width == wv && c.Height == hv, "width and height are those of the stack description")
	vsym.Cover("result")
}

// Arbitrary text as a size.
//
//vsym:check C19
func H_C19_number() {
	reset()
	b := vsym.Bytes("b", vsym.Choose("n", vsym.Bound("chars", 4, 6)))
	neg, ok, v := false, true, 0
	for _, c := range b { // characters an attribute holds as they are
		vsym.Assume(vsym.And(c >= 0x20, c < 0x7f, c != '"', c != '<', c != '&'))
	}
	for i, c := range b {
		if i == 0 && (c == '-' || c == '+') {
			neg = c == '-'
			continue
		}
		if c < '0' || c > '9' {
			ok = false
			break
		}
		v = v*10 + int(c-'0')
	}
	if len(b) == 0 || len(b) == 1 && (b[0] == '-' || b[0] == '+') || neg && v > 0 {
		ok = false
	}
	wa, ha := ` w="`+string(b)+`"`, ` h="12"`
	isH := vsym.Choose("which", 2) == 1
	if isH {
		wa, ha = ` w="12"`, ` h="`+string(b)+`"`
	}
	c, err := config(header + `<image` + wa + ha + `><stack/></image>`)
	vsym.Assert((err == nil) == ok, "a number is accepted exactly when it is one that can be a size")
	if ok {
		vsym.Cover("number")
		if isH {
			vsym.Assert(c.Width == 12 && c.Height == v, "the height is the number stated")
		} else {
			vsym.Assert(c.Width == v && c.Height == 12, "the width is the number stated")
		}
	} else {
		vsym.Cover("malformed")
	}
}

// Required parts missing or wrong.
//
//vsym:check C19
func H_C19_missing() {
	reset()
	w, _ := digits("w", 2)
	h, _ := digits("h", 2)
	good := header + `<image w="` + w + `" h="` + h + `"><stack></stack></image>`
	m := []byte(mime)
	k := vsym.Choose("what", 14)
	switch k {
	case 0: // no width
		good = header + `<image h="` + h + `"><stack></stack></image>`
	case 1: // no height
		good = header + `<image w="` + w + `" hh="2"><stack></stack></image>`
	case 2: // neither
		good = header + `<image><stack w="1" h="2"></stack></image>`
	case 3: // another root element
		good = header + `<stack w="` + w + `" h="` + h + `"></stack>`
	case 4: // root element of another name
		n := vsym.Bytes("name", 5)
		for _, c := range n {
			vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
		}
		vsym.Assume(string(n) != "image")
		good = header + `<` + string(n) + ` w="` + w + `" h="` + h + `"/>`
	case 5: // nothing
		good = ""
	case 6:
		good = header
	case 7: // cut off at any place within the element
		n := len(header) + vsym.Choose("cut", len(`<image w="12" h="12">`))
		good = good[:n]
	case 8: // mimetype of other content
		m = vsym.Bytes("mime", len(mime))
		vsym.Assume(string(m) != mime)
	case 9: // mimetype cut short
		m = m[:vsym.Choose("mlen", len(mime))]
	case 10: // mimetype too long
		m = append(m, vsym.Bytes("mext", 1)...)
	case 11: // no stack at all
		arc.members = []member{{name: "mimetype", data: m}, {name: "mergedimage.png", data: nil}}
	case 12: // a stack of another name
		arc.members = []member{{name: "mimetype", data: m}, {name: "data/stack.xml", data: []byte(good)}}
	case 13: // size too large for a number
		good = header + `<image w="99999999999999999999" h="` + h + `"><stack></stack></image>`
	}
	if arc.members == nil { // not set above
		arc.members = []member{{name: "stack.xml", data: []byte(good)}, {name: "mimetype", data: m}}
		if vsym.Choose("first", 2) == 1 {
			arc.members = []member{{name: "mimetype", data: m}, {name: "a.png", data: nil}, {name: "stack.xml", data: []byte(good)}, {name: "b.png", data: nil}}
		}
	}
	_, err := ora.DecodeConfig(arc.reader())
	vsym.Assert(err != nil, "a file with a missing or malformed part has no configuration")
	vsym.Cover("error")
}

// uniform is an image of any bounds.
func uniformLayer(b image.Rectangle) limage.Layer {
	return limage.Layer{LayerBounds: b, Image: image.NewUniform(colours[0])}
}

// The configuration of an encoded image is its size.
//
//vsym:check C19
func H_C19_encoded() {
	reset()
	n := 1 + vsym.Choose("n", vsym.Bound("layers", 2, 2))
	var im limage.Image
	for i := 0; i < n; i++ {
		x, y := vsym.Choose("x", 3), vsym.Choose("y", 2)
		w, h := 1+vsym.Choose("w", 3), 1+vsym.Choose("h", 2)
		im = append(im, uniformLayer(image.Rect(x, y, x+w, y+h)))
	}
	b := im.Bounds()
	z, err := encoded(im)
	vsym.Assert(err == nil, "encoding succeeds")
	c, err := ora.DecodeConfig(z)
	vsym.Assert(err == nil, "an encoded image has a configuration")
	vsym.Assert(c.Width == b.Dx() && c.Height == b.Dy(), "the size is that of the image")
	vsym.Cover("encoded")
}
