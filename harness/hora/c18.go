package hora

import (
	"image"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// sound checks what every decoded image must satisfy. The origin is that of
// the coordinates of the layers.
func sound(im limage.Image, origin image.Point, w, h int) {
	for _, l := range im {
		vsym.Assert(l.Image != nil, "every layer has content")
		if l.Image == nil {
			continue
		}
		b := l.LayerBounds.Add(origin)
		empty := vsym.Or(b.Min.X >= b.Max.X, b.Min.Y >= b.Max.Y)
		vsym.Assert(vsym.Or(empty, vsym.And(b.Min.X >= 0, b.Min.Y >= 0, b.Max.X <= w, b.Max.Y <= h)), "every layer lies within the canvas")
		if g, ok := l.Image.(limage.Image); ok && !empty {
			sound(g, b.Min, w, h)
		}
		// reading any pixel is safe
		l.At(l.LayerBounds.Min.X, l.LayerBounds.Min.Y)
	}
}

// document decodes a stack description, with the members a.png (a picture of
// 4x3), g.png (no picture) and u.png (which cannot be opened).
func document(stack []byte) (limage.Image, error) {
	arc.members = []member{
		{name: "mimetype", data: []byte(mime)},
		{name: "stack.xml", data: stack},
		{name: "a.png", data: pngOf(pic{id: 3, b: image.Rect(0, 0, 4, 3)})},
		{name: "g.png", data: vsym.Bytes("garbage", 3)},
		{name: "u.png", data: pngOf(pic{id: 3, b: image.Rect(0, 0, 4, 3)}), fail: true},
	}
	return ora.Decode(arc.reader())
}

// signed gives a number of two digits, its text and value.
func signed(name string) (string, int) {
	s, v := digits(name, 2)
	if vsym.Choose(name+".neg", 2) == 1 {
		return "-" + s, -v
	}
	return s, v
}

// layerText is a layer or stack element's attributes; ok is false if they are
// malformed.
func layerText(n string, kinds int, isStack bool) (string, bool) {
	ok := true
	s := ""
	k := vsym.Choose(n+".what", kinds)
	switch k {
	case 1:
		x, _ := signed(n + ".x")
		s = ` x="` + x + `" y="-1"`
		if vsym.Choose(n+".xy", 2) == 1 {
			s = ` x="10" y="` + x + `"`
		}
	case 2:
		s = ` opacity="0.25" name="q" visibility="hidden" composite-op="svg:multiply"`
	case 3:
		s = ` composite-op="nothing" visibility="" opacity="1"`
	case 4:
		s, ok = ` x="1x"`, false
	case 5:
		s, ok = ` y=""`, false
	case 6:
		s, ok = ` y="1.5"`, false
	case 7:
		s, ok = ` opacity="half"`, false
	case 8:
		s, ok = ` opacity=""`, false
	case 9:
		s, ok = ` x="99999999999999999999"`, false
	case 10:
		s = ` x="9223372036854775807" y="-9223372036854775808"`
	}
	if isStack {
		return s, ok
	}
	switch vsym.Choose(n+".src", 5) {
	case 0:
		s += ` src="a.png"`
	case 1: // undecodable
		s, ok = ` src="g.png"`+s, false
	case 2: // absent
		s, ok = s+` src="data/a.png"`, false
	case 3: // none
		ok = false
	case 4: // cannot be opened
		s, ok = s+` src="u.png"`, false
	}
	return s, ok
}

// Documents of a few elements, well formed as XML.
//
//vsym:check C18
func H_C18_elements() {
	reset()
	body, ok := "", true
	count := 0
	bad := vsym.Choose("badstack", 2) == 1
	a, aok := "", true
	if !bad {
		a, aok = layerText("a", 11, false)
	} else {
		a = ` src="a.png"`
	}
	shape := 8
	if !bad {
		shape = vsym.Choose("shape", 8)
	}
	switch shape {
	case 0:
		body, ok, count = `<layer`+a+`/>`, aok, 1
	case 1:
		b, bok := layerText("b", 2, true)
		body, ok, count = `<stack`+b+`><layer`+a+`/></stack>`, vsym.And(aok, bok), 1
	case 2:
		b, bok := layerText("b", 2, true)
		body, ok, count = `<stack`+b+`></stack><layer`+a+`><x a="1"/> text <y/></layer>`, vsym.And(aok, bok), 2
	case 3: // unknown elements hold nothing
		body, ok, count = `<other><layer`+a+`/></other>`, true, 0
	case 4:
		body, ok, count = "<!-- c --> t <other x='x'/><layer"+a+"/>\n", aok, 1
	case 5:
		b, bok := layerText("b", 3, true)
		body, ok, count = `<stack`+b+`><layer`+a+`/><stack x="1" y="2"><layer src="a.png"/></stack></stack>`, vsym.And(aok, bok), 1
	case 6:
		body, ok, count = `<layer src="a.png"/><layer`+a+`/>`, aok, 2
	case 7:
		body, ok, count = ``, true, 0
	case 8:
		b, bok := layerText("b", 11, true)
		body, ok, count = `<stack`+b+`><layer`+a+`/></stack>`, bok, 1
	}
	w, wv := digits("w", 2)
	pre := ``
	switch shape {
	case 5:
		pre = `<layer src="none"/>`
	case 0:
		pre = `<foo><stack><layer/></stack></foo>`
	}
	im, err := document([]byte(header + `<image w="` + w + `" h="20">` + pre + `<stack>` + body + `</stack></image>`))
	vsym.Assert((err == nil) == ok, "decoding fails exactly when something is malformed or missing")
	if err != nil {
		vsym.Cover("malformed")
		return
	}
	vsym.Cover("decoded")
	vsym.Assert(len(im) == count, "the number of layers is that of the description")
	sound(im, image.Point{}, wv, 20)
}

// A description cut short.
//
//vsym:check C18
func H_C18_truncated() {
	reset()
	stack := header + `<image w="12" h="20"><stack><layer src="a.png" x="3"/><stack y="2"><layer src="a.png"></layer></stack>`
	full := len(stack) + len(`</stack>`)
	stack += `</stack></image>`
	n := vsym.Choose("cut", len(stack)+1)
	im, err := document([]byte(stack[:n]))
	vsym.Assert((err == nil) == (n >= full), "a description cut short is reported")
	if err == nil {
		sound(im, image.Point{}, 12, 20)
		vsym.Cover("complete")
	} else {
		vsym.Cover("cut")
	}
}

// Missing and wrong members.
//
//vsym:check C18
func H_C18_members() {
	reset()
	w, _ := digits("w", 2)
	stack := header + `<image w="` + w + `" h="20"><stack><layer src="a.png"/></stack></image>`
	st := member{name: "stack.xml", data: []byte(stack)}
	mt := member{name: "mimetype", data: []byte(mime)}
	ok := false
	switch vsym.Choose("what", 14) {
	case 0:
		ok = true
	case 1:
		mt.data = vsym.Bytes("mime", len(mime))
		vsym.Assume(string(mt.data) != mime)
	case 2:
		mt.data = mt.data[:vsym.Choose("mlen", len(mime))]
	case 3:
		mt.data = append(mt.data, vsym.Bytes("mext", 1)...)
	case 4:
		mt.fail = true
	case 5:
		st.fail = true
	case 6:
		st.name = "stack"
	case 7:
		st.name = "STACK.XML"
	case 8:
		st.data = []byte(header + `<image h="20"><stack><layer src="a.png"/></stack></image>`)
	case 9:
		st.data = []byte(header + `<image w="20"><stack><layer src="a.png"/></stack></image>`)
	case 10:
		st.data = []byte(header + `<image w="20" h=""><stack><layer src="a.png"/></stack></image>`)
	case 11:
		st.data = []byte(header + `<image w="-` + w + `" h="20"><stack><layer src="a.png"/></stack></image>`)
		vsym.Assume(w != "00")
	case 12:
		st.data = []byte(header + `<images w="20" h="20"><stack><layer src="a.png"/></stack></images>`)
	case 13:
		st.data = []byte(header + `<image w="20" h="20"><layer src="a.png"/></image>`)
	}
	arc.members = []member{mt, st, {name: "a.png", data: pngOf(pic{id: 3, b: image.Rect(0, 0, 4, 3)})}}
	if vsym.Choose("order", 2) == 1 {
		arc.members[0], arc.members[2] = arc.members[2], arc.members[0]
	}
	im, err := ora.Decode(arc.reader())
	vsym.Assert((err == nil) == ok, "a missing or wrong part is reported")
	if err == nil {
		vsym.Assert(len(im) == 1 && im[0].Image != nil, "the layer is read")
		vsym.Cover("decoded")
	} else {
		vsym.Cover("error")
	}
}

// Arbitrary text as a position.
//
//vsym:check C18
func H_C18_position() {
	reset()
	b := vsym.Bytes("b", vsym.Choose("n", vsym.Bound("chars", 5, 6)))
	for _, c := range b { // characters an attribute holds as they are
		vsym.Assume(vsym.And(c >= 0x20, c < 0x7f, c != '"', c != '<', c != '&'))
	}
	ok := true
	for i, c := range b {
		if i == 0 && (c == '-' || c == '+') {
			continue
		}
		if c < '0' || c > '9' {
			ok = false
			break
		}
	}
	if len(b) == 0 || len(b) == 1 && (b[0] == '-' || b[0] == '+') {
		ok = false
	}
	at := `x`
	if vsym.Choose("y", 2) == 1 {
		at = `y`
	}
	body := `<layer src="a.png" ` + at + `="` + string(b) + `"/>`
	if vsym.Choose("stack", 2) == 1 {
		body = `<stack ` + at + `="` + string(b) + `"><layer src="a.png" x="2"/></stack>`
	}
	im, err := document([]byte(header + `<image w="30" h="20"><stack>` + body + `</stack></image>`))
	vsym.Assert((err == nil) == ok, "a position is accepted exactly when it is a number")
	if err == nil {
		sound(im, image.Point{}, 30, 20)
		vsym.Cover("number")
	} else {
		vsym.Cover("malformed")
	}
}

// Arbitrary bytes in a description.
//
//vsym:check C18 steps=4000000
func H_C18_bytes() {
	reset()
	n := 1 + vsym.Choose("n", vsym.Bound("bytes", 3, 4))
	b := vsym.Bytes("b", n)
	for _, c := range b {
		vsym.Assume(c < 0x80)
	}
	pre, post := ``, `</stack></image>`
	switch vsym.Choose("where", 5) {
	case 0:
		pre = header + `<image w="12" h="20"><stack>`
	case 1:
		pre = header + `<image w="12" h="20"><stack><layer src="a.png" `
		post = `/></stack></image>`
	case 2:
		pre = header + `<image w="12" h="20"><stack><layer src="a.png"`
		post = `="1"></layer></stack></image>`
	case 3:
		post = `<image w="12" h="20"><stack></stack></image>`
	case 4:
		pre = header + `<image w="12" h="20"><stack><layer src="a.png" name="`
		post = `"/></stack></image>`
	}
	s := append([]byte(pre), b...)
	im, err := document(append(s, post...))
	if err == nil {
		sound(im, image.Point{}, 12, 20)
		vsym.Cover("decoded")
	} else {
		vsym.Cover("error")
	}
}

// Arbitrary text as an opacity.
//
//vsym:check C18
func H_C18_opacity() {
	reset()
	b := vsym.Bytes("b", vsym.Choose("n", vsym.Bound("chars", 2, 3)))
	for _, c := range b { // characters an attribute holds as they are
		vsym.Assume(vsym.And(c >= 0x20, c < 0x7f, c != '"', c != '<', c != '&'))
	}
	im, err := document([]byte(header + `<image w="30" h="20"><stack><layer src="a.png" opacity="` + string(b) + `"/></stack></image>`))
	point, digit, letter := 0, 0, 0
	for _, c := range b {
		isd := vsym.And(c >= '0', c <= '9')
		point += vsym.Ite(c == '.', 1, 0)
		digit += vsym.Ite(isd, 1, 0)
		letter += vsym.Ite(vsym.Or(c == '.', isd), 0, 1)
	}
	vsym.Assert(vsym.Implies(vsym.And(letter == 0, digit > 0, point <= 1), err == nil), "a decimal number is accepted")
	vsym.Assert(vsym.Implies(vsym.And(digit == 0, letter != 3), err != nil), "text that is no number is reported")
	if err == nil {
		sound(im, image.Point{}, 30, 20)
		vsym.Cover("number")
	} else {
		vsym.Cover("malformed")
	}
}
