package hroot

import (
	"bufio"
	"errors"
	"io"
	"sync"
	"time"

	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

var errFault = errors.New("fault")

// stream is a seekable stream that reads as little as it likes and fails when
// it likes, at most faults times.
type stream struct {
	data        []byte
	pos         int
	faults      int
	zero        int
	short       bool
	failed      bool
	seekFailed  bool
	slow        bool
	mu          sync.Mutex
	name        string
	lateEOF     int
	interrupted int
}

func (s *stream) fault() bool {
	if s.faults > 0 && vsym.Choose(s.name+"fault", 2) == 1 {
		s.faults--
		s.failed = true
		return true
	}
	return false
}

func (s *stream) yield() {
	if !s.slow {
		return
	}
	if vsym.Symbolic() {
		s.mu.Lock()
		s.mu.Unlock()
	} else {
		time.Sleep(5 * time.Millisecond)
	}
}

func (s *stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.fault() {
		return 0, errFault
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	pos := vsym.Fork(s.pos)
	m := len(s.data) - pos
	if len(p) < m {
		m = len(p)
	}
	n := m
	if s.short {
		n = m - vsym.Choose(s.name+"short", m)
	}
	if s.zero > 0 && vsym.Choose(s.name+"zero", 2) == 1 {
		s.zero--
		return 0, nil
	}
	copy(p, s.data[pos:pos+n])
	s.pos = pos + n
	if s.pos == len(s.data) && s.lateEOF == 1 {
		return n, io.EOF
	}
	return n, nil
}

func (s *stream) Seek(off int64, whence int) (int64, error) {
	if s.fault() {
		s.seekFailed = true
		return 0, errFault
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(s.pos)
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		s.failed, s.seekFailed = true, true
		return 0, errors.New("negative position")
	}
	s.pos = int(off)
	s.yield()
	return off, nil
}

func newStream(name string, size int) *stream {
	return &stream{data: vsym.Bytes(name+"data", size), name: name, pos: vsym.Int(name+"pos", 0, size+1), short: true, lateEOF: vsym.Choose(name+"lateEOF", 2)}
}

// readOnce reads at an arbitrary place and checks what is got.
func readOnce(ra io.ReaderAt, s *stream, off, n int) {
	p := make([]byte, n)
	s.failed, s.seekFailed = false, false
	got, err := ra.ReadAt(p, int64(off))
	vsym.Assert(got >= 0 && got <= n, "the count is between zero and the bytes asked for")
	vsym.Assert(got == n || err != nil, "an error is given with fewer bytes than asked")
	for i := 0; i < got; i++ {
		vsym.Assert(off+i < len(s.data) && p[i] == s.data[off+i], "the bytes are those stored at the offset")
	}
	if s.seekFailed {
		vsym.Assert(err != nil, "a seek failure is reported")
		vsym.Cover("seek failed")
		return
	}
	if s.failed {
		vsym.Cover("read failed")
		return
	}
	if off+n <= len(s.data) {
		vsym.Assert(got == n, "all bytes are got")
		vsym.Assert(err == nil || err == io.EOF && off+n == len(s.data), "no error without a failure")
		vsym.Cover("all read")
		return
	}
	if off < len(s.data) {
		vsym.Assert(got == len(s.data)-off, "all bytes up to the end are got")
	}
	vsym.Assert(err == io.EOF || n == 0, "the end is reported as such")
	vsym.Cover("end")
}

//vsym:check C16
func H_C16_reads() {
	size := vsym.Bound("stream size", 4, 6)
	s := newStream("s", size)
	s.faults = vsym.Bound("faults", 1, 2)
	ra := internal.GetReaderAt(s)
	vsym.Assert(ra != nil, "a seekable stream can be read at any place")
	for i := 0; i < vsym.Bound("reads", 2, 3); i++ {
		off := vsym.Int("off", -1<<62, 1<<62)
		readOnce(ra, s, off, vsym.Choose("n", vsym.Bound("bytes read at once", 4, 5)))
	}
}

// More reads, no faults.
//
//vsym:check C16
func H_C16_three() {
	size := vsym.Bound("stream size", 2, 3)
	s := newStream("s", size)
	s.lateEOF = 0
	s.zero = 1
	ra := internal.GetReaderAt(s)
	for i := 0; i < 3; i++ {
		readOnce(ra, s, vsym.Choose("off", size+1), 1+vsym.Choose("n", 2))
	}
}

// Two reads at once.
//
//vsym:check C16
func H_C16_parallel() {
	vsym.Schedules(true)
	s := &stream{data: []byte{1, 2, 3, 4}, name: "s", slow: true}
	ra := internal.GetReaderAt(s)
	var p [2][2]byte
	var wg sync.WaitGroup
	offs := [2]int64{0, 1}
	var errs [2]error
	for i := range p {
		wg.Add(1)
		go func(i int) {
			_, errs[i] = ra.ReadAt(p[i][:], offs[i])
			wg.Done()
		}(i)
	}
	wg.Wait()
	for i := range p {
		vsym.Assert(errs[i] == nil, "reads at the same time give no error")
		o := offs[i]
		vsym.Assert(p[i][0] == s.data[o] && p[i][1] == s.data[o+1], "reads at the same time get their own bytes")
	}
	vsym.Cover("result")
}

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

type at struct{ s *stream }

func (a at) Read(p []byte) (int, error) { return a.s.Read(p) }
func (a at) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || int(off) > len(a.s.data) {
		return 0, io.EOF
	}
	n := copy(p, a.s.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// The kinds of readers, and what was read before does not matter.
//
//vsym:check C16
func H_C16_kinds() {
	s := newStream("s", 3)
	s.short = false
	var r io.Reader = s
	kind := vsym.Choose("kind", 6)
	switch kind {
	case 1:
		r = at{s}
	case 2:
		r = onlyReader{s}
	case 3:
		r = bufio.NewReader(s)
	case 4:
		r = bufio.NewReader(at{s})
	case 5:
		r = bufio.NewReader(onlyReader{s})
	}
	if vsym.Choose("before", 2) == 1 {
		var p [1]byte
		r.Read(p[:])
	}
	ra := internal.GetReaderAt(r)
	if kind == 2 || kind == 5 {
		vsym.Assert(ra == nil, "other readers cannot be read at any place")
		vsym.Cover("none")
		return
	}
	vsym.Assert(ra != nil, "the stream can be read at any place")
	for i := 0; i < 2; i++ {
		readOnce(ra, s, vsym.Choose("off", 4), 1+vsym.Choose("n", 2))
	}
}
