// Package hora checks the OpenRaster part.
package hora

import (
	"archive/zip"
	"bytes"
	"errors"
	"image"
	"image/color"
	"image/png"
	"io"

	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

// The zip archive and the PNG codec are modelled when the engine runs: an
// archive is a list of named members, a PNG file a reference to the picture
// that was encoded. Natively the real ones are used.

type member struct {
	name string
	data []byte
	fail bool // cannot be opened
}

type archive struct {
	members []member
	ops     int // operations on the archive so far
	failAt  int // the operation from which everything fails, -1 for none
	closed  bool
}

var arc *archive // the archive being written

var errWrite = errors.New("write failed")
var errOpen = errors.New("cannot be opened")

func (a *archive) op() error {
	a.ops++
	if a.failAt >= 0 && a.ops > a.failAt {
		return errWrite
	}
	return nil
}

//vsym:replace archive/zip.NewWriter
func newWriter(w io.Writer) *zip.Writer { return new(zip.Writer) }

//vsym:replace (*archive/zip.Writer).CreateHeader
func createHeader(z *zip.Writer, h *zip.FileHeader) (io.Writer, error) { return create(z, h.Name) }

//vsym:replace (*archive/zip.Writer).Create
func create(z *zip.Writer, name string) (io.Writer, error) {
	if err := arc.op(); err != nil {
		return nil, err
	}
	arc.members = append(arc.members, member{name: name})
	return memberWriter(len(arc.members) - 1), nil
}

//vsym:replace (*archive/zip.Writer).Close
func closeWriter(z *zip.Writer) error {
	arc.closed = true
	return arc.op()
}

//vsym:replace (*archive/zip.Writer).Flush
func flushWriter(z *zip.Writer) error { return arc.op() }

type memberWriter int

func (m memberWriter) Write(p []byte) (int, error) {
	if int(m) != len(arc.members)-1 || arc.closed {
		return 0, errors.New("zip: write to closed file")
	}
	if err := arc.op(); err != nil {
		return 0, err
	}
	arc.members[m].data = append(arc.members[m].data, p...)
	return len(p), nil
}

// reading

var opened []openable

type openable struct {
	f    *zip.File
	data []byte
	fail bool // cannot be opened
}

type memberReader struct {
	data []byte
	pos  int
}

func (m *memberReader) Read(p []byte) (int, error) {
	if m.pos >= len(m.data) {
		return 0, io.EOF
	}
	n := copy(p, m.data[m.pos:])
	m.pos += n
	return n, nil
}

func (m *memberReader) Close() error { return nil }

//vsym:replace (*archive/zip.File).Open
func openFile(f *zip.File) (io.ReadCloser, error) {
	for _, o := range opened {
		if o.f == f && o.fail {
			break
		} else if o.f == f {
			return &memberReader{data: o.data}, nil
		}
	}
	return nil, errOpen
}

// reader gives the archive for reading.
func (a *archive) reader() *zip.Reader {
	if vsym.Symbolic() {
		z := new(zip.Reader)
		for _, m := range a.members {
			f := new(zip.File)
			f.Name = m.name
			f.UncompressedSize64 = uint64(len(m.data))
			z.File = append(z.File, f)
			opened = append(opened, openable{f: f, data: m.data, fail: m.fail})
		}
		return z
	}
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, m := range a.members {
		f, err := w.Create(m.name)
		if err == nil {
			f.Write(m.data)
		}
	}
	w.Close()
	z, err := zip.NewReader(bytes.NewReader(buf.Bytes()), int64(buf.Len()))
	if err != nil {
		panic(err)
	}
	for i, m := range a.members {
		if m.fail {
			z.File[i].Method = 99
		}
	}
	return z
}

// pictures

var pictures []image.Image

const pngMark = "\x89PNG\r\n\x1a\n"

//vsym:replace image/png.Encode
func encodePNG(w io.Writer, m image.Image) error {
	b := m.Bounds()
	if b.Dx() <= 0 || b.Dy() <= 0 || b.Dx() >= 1<<32 || b.Dy() >= 1<<32 {
		return png.FormatError("invalid image size")
	}
	pictures = append(pictures, m)
	_, err := w.Write([]byte(pngMark + string(rune('0'+len(pictures)-1))))
	return err
}

// decoded is a picture read back.
type decoded struct{ m image.Image }

func (d decoded) ColorModel() color.Model { return color.NRGBAModel }
func (d decoded) Bounds() image.Rectangle { return image.Rectangle{Max: d.m.Bounds().Size()} }
func (d decoded) At(x, y int) color.Color {
	if !image.Pt(x, y).In(d.Bounds()) {
		return color.NRGBA{}
	}
	b := d.m.Bounds().Min
	return color.NRGBAModel.Convert(d.m.At(x+b.X, y+b.Y))
}

//vsym:replace image.Decode
func decodeImage(r io.Reader) (image.Image, string, error) {
	var b [16]byte
	n, err := io.ReadFull(r, b[:])
	if err != io.ErrUnexpectedEOF || n != len(pngMark)+1 || string(b[:len(pngMark)]) != pngMark {
		return nil, "", image.ErrFormat
	}
	i := int(b[len(pngMark)]) - '0'
	if i < 0 || i >= len(pictures) {
		return nil, "", image.ErrFormat
	}
	return decoded{pictures[i]}, "png", nil
}

// pngOf is a PNG file of the picture.
func pngOf(m image.Image) []byte {
	var buf bytes.Buffer
	if vsym.Symbolic() {
		encodePNG(&buf, m)
	} else if err := png.Encode(&buf, m); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// reset starts a run.
func reset() {
	arc = &archive{failAt: -1}
	opened = nil
	pictures = nil
}

var colours = [...]color.NRGBA{{1, 2, 3, 255}, {200, 100, 50, 128}, {9, 8, 7, 0}}

// encoded encodes the image and gives the archive for reading.
func encoded(m image.Image) (*zip.Reader, error) {
	var buf bytes.Buffer
	if err := ora.Encode(&buf, m); err != nil {
		return nil, err
	}
	if vsym.Symbolic() {
		if !arc.closed {
			return nil, errors.New("archive not closed")
		}
		return arc.reader(), nil
	}
	return zip.NewReader(bytes.NewReader(buf.Bytes()), int64(buf.Len()))
}

// picture is the picture in the last member of the given name.
func picture(z *zip.Reader, name string) (m image.Image) {
	for _, f := range z.File {
		if f.Name == name {
			r, err := f.Open()
			if err == nil {
				m, _, _ = image.Decode(r)
			}
		}
	}
	return m
}
