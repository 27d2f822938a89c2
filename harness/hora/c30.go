package hora

import (
	"bytes"
	"image"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// limited accepts a number of bytes.
type limited struct {
	left   int
	failed bool
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.left = 0
		l.failed = true
		return n, errWrite
	}
	l.left -= len(p)
	return len(p), nil
}

// A failure of any operation on the archive.
//
//vsym:check C30
func H_C30_ora() {
	var m image.Image
	switch vsym.Choose("image", 4) {
	case 0:
		m = pic{id: 3, b: image.Rect(0, 0, 3, 2)}
	case 1:
		l := leaf(3, image.Rect(1, 2, 9, 9), 0)
		l.Name = vsym.Ite(vsym.Bool("named"), "name", "")
		m = limage.Image{group(image.Pt(3, 4), l, leaf(5, image.Rect(4, 0, 19, 9), 0)), base()}
	case 2:
		m = leaf(3, image.Rect(2, 1, 7, 8), 0)
	case 3:
		m = limage.Image{leaf(1, image.Rect(0, 0, 300, 2), 0)}
	}
	if !vsym.Symbolic() { // the output stops at any byte
		var buf bytes.Buffer
		if ora.Encode(&buf, m) != nil {
			return
		}
		for k := 0; k < buf.Len(); k++ {
			w := limited{left: k}
			err := ora.Encode(&w, m)
			vsym.Assert(!w.failed || err != nil, "a failed write is reported")
		}
		return
	}
	reset()
	ora.Encode(nil, m)
	total := arc.ops
	reset()
	arc.failAt = vsym.Choose("failAt", total+1)
	err := ora.Encode(nil, m)
	if arc.failAt < total {
		vsym.Assert(err != nil, "a failed write is reported")
		vsym.Cover("failure")
	} else {
		vsym.Assert(vsym.And(err == nil, arc.closed), "success is reported")
		vsym.Cover("success")
	}
}
