package h

import (
	"bytes"
	"io"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// oddReader delivers data in arbitrary pieces at first, then in pieces of the same length. It may deliver nothing
// at times, or tell the end together with the last piece.
type oddReader struct {
	b      []byte
	pos    int64
	first  []int // lengths of the first pieces, 0 for everything
	rest   int   // length of others, 0 for everything
	endEOF bool
	n      int
}

func (p *oddReader) Read(b []byte) (int, error) {
	if p.pos >= int64(len(p.b)) {
		return 0, io.EOF
	}
	l := p.rest
	if p.n < len(p.first) {
		l = p.first[p.n]
	}
	p.n++
	if l < 0 {
		return 0, nil
	}
	if l > 0 && l < len(b) {
		b = b[:l]
	}
	n := copy(b, p.b[p.pos:])
	p.pos += int64(n)
	if p.endEOF && p.pos == int64(len(p.b)) {
		return n, io.EOF
	}
	return n, nil
}

func (p *oddReader) Seek(o int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		o += p.pos
	case io.SeekEnd:
		o += int64(len(p.b))
	}
	if o < 0 {
		return p.pos, errFault
	}
	p.pos = o
	return o, nil
}

// oddSized also tells its size.
type oddSized struct{ oddReader }

func (p *oddSized) Size() int64 { return int64(len(p.b)) }

// anyPos is any position, some of them first.
func anyPos(b []byte) int64 {
	if sym.Choice("from", 2) == 0 {
		return int64(len(b) - 60)
	}
	return int64(sym.U32("pos"))
}

// anyReader is a source of one of many kinds, positioned anywhere.
func anyReader(b []byte) io.ReadSeeker {
	switch sym.Choice("kind", 4) {
	case 0:
		r := bytes.NewReader(b)
		r.Seek(anyPos(b), io.SeekStart)
		return r
	case 1:
		r := &oddSized{oddReader{b: b, rest: []int{1, 0}[sym.Choice("rest", 2)]}}
		r.pos = anyPos(b)
		return r
	case 2:
		r := &oddReader{b: b, rest: 1 + sym.Choice("rest", 5), endEOF: sym.Choice("endEOF", 2) == 1}
		r.pos = anyPos(b)
		return r
	}
	n := 3
	if sym.Thorough() {
		n = 6
	}
	r := &oddReader{b: b, rest: []int{0, 33}[sym.Choice("rest", 2)], first: make([]int, n), endEOF: true}
	for i := range r.first {
		r.first[i] = []int{0, -1, 1, 3}[sym.Choice(num("piece", i), 4)]
	}
	return r
}

// P26_Patch: any source and any destination give the same executable.
func P26_Patch() {
	s, _ := buildShape(sym.Choice("shape", nShapes), sym.Choice("plus", 2) == 1, 100)
	for i := range s.secs {
		if len(s.secs[i].data) > 0 {
			s.secs[i].data[0] = sym.U8(num("sec", i))
		}
	}
	s.overlay = []byte("overlay")
	s.checksum = sym.Choice("checksum", 2)
	src := s.build()
	rs := oneResource(0, []byte{sym.U8("data"), 2, 3})
	if sym.Choice("large", 2) == 1 {
		rs.Set(winres.RT_RCDATA, winres.ID(2), 0, make([]byte, 333))
	}
	want := mustWrite(rs, src, "written")
	var got []byte
	switch sym.Choice("destination", 3) {
	case 0:
		var w bytes.Buffer
		sym.Assert(rs.WriteToEXE(&w, anyReader(src)) == nil, "written from any source")
		got = w.Bytes()
	case 1:
		w := &memFile{}
		sym.Assert(rs.WriteToEXE(w, bytes.NewReader(src)) == nil, "written to a file")
		got = w.b
		sym.Assert(w.pos == len(w.b), "positioned at the end")
	case 2:
		w := &faultyWriter{f: &fault{}}
		sym.Assert(rs.WriteToEXE(w, bytes.NewReader(src)) == nil, "written to a plain writer")
		got = w.b
	}
	sym.Assert(sym.EqBytes(got, want), "the same bytes")
	sym.Cover("same")
}

// P26_Load: any source gives the same resources.
func P26_Load() {
	rs := aTree()
	s, _ := buildShape(sym.Choice("shape", nShapes), sym.Choice("plus", 2) == 1, 16)
	s.overlay = make([]byte, 3)
	exe := mustWrite(rs, s.build(), "written")
	got, err := winres.LoadFromEXE(anyReader(exe))
	sym.Assert(err == nil, "read from any source")
	sameItems(got, walkItems(rs))
	sym.Cover("same")
}

// P26_None: no resources and malformed executables are reported in the same way for any source.
func P26_None() {
	s, _ := buildShape([]int{0, 1, 3}[sym.Choice("shape", 3)], sym.Choice("plus", 2) == 1, 16)
	exe := s.build()
	switch sym.Choice("damage", 4) {
	case 1:
		exe = exe[:len(exe)-1-sym.Choice("cut", 3)]
	case 2:
		exe = exe[:[]int{0, 63, 64, 100, 200, 300}[sym.Choice("cut", 6)]]
	case 3:
		exe[sym.Choice("at", 2)] = sym.U8("magic")
	}
	_, want := winres.LoadFromEXE(bytes.NewReader(exe))
	_, got := winres.LoadFromEXE(anyReader(exe))
	sym.Assert((want == nil) == (got == nil), "the same verdict")
	sym.Assert((want == winres.ErrNoResources) == (got == winres.ErrNoResources), "the same verdict")
	sym.Cover("same")
}

// P26_Signed: the query gives the same answer for any source, and leaves it where it was.
func P26_Signed() {
	s, _ := buildShape([]int{0, 3}[sym.Choice("shape", 2)], sym.Choice("plus", 2) == 1, 16)
	va := sym.U32("cert")
	s.dirs[dirSec] = [2]int{int(va), 8}
	r := anyReader(s.build())
	before, _ := r.Seek(0, io.SeekCurrent)
	is, err := winres.IsSignedEXE(r)
	after, _ := r.Seek(0, io.SeekCurrent)
	sym.Assert(err == nil, "answered")
	sym.Assert(sym.Iff(is, va != 0), "the right answer")
	sym.Assert(before == after, "the reader is where it was")
	sym.Cover("same")
}

// P26_Images: icons and cursors are loaded in the same way from any source.
func P26_Images() {
	imgs := anyCur("img", sym.Choice("n", 3))
	first := sym.Choice("first", 3)
	var a, b bytes.Buffer
	wrap := func(f []byte) io.ReadSeeker {
		return &oddReader{b: f, rest: 1 + sym.Choice("rest", 5), first: []int{first - 1}, endEOF: sym.Choice("endEOF", 2) == 1}
	}
	if sym.Choice("cursor", 2) == 1 {
		f := icoFile(2, imgs, 0)
		mustCUR(imgs, 0).SaveCUR(&a)
		cur, err := winres.LoadCUR(wrap(f))
		sym.Assert(err == nil, "loaded")
		cur.SaveCUR(&b)
	} else {
		f := icoFile(1, imgs, 0)
		mustICO(imgs, 0).SaveICO(&a)
		ico, err := winres.LoadICO(wrap(f))
		sym.Assert(err == nil, "loaded")
		ico.SaveICO(&b)
	}
	sym.Assert(sym.EqBytes(a.Bytes(), b.Bytes()), "the same images")
	sym.Cover("same")
}
