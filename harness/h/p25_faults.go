package h

import (
	"bytes"
	"errors"
	"io"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

var errFault = errors.New("fault")

// fault makes one operation fail, at an arbitrary time, and maybe every operation after that.
type fault struct {
	n, at  int
	sticky bool
	style  int
	hit    bool
}

func anyFault(styles int) *fault {
	return &fault{at: int(sym.U8("fault")), sticky: sym.Choice("sticky", 2) == 1, style: sym.Choice("style", styles)}
}

func (f *fault) now() bool {
	f.n++
	if f.hit {
		return f.sticky
	}
	if f.n == f.at {
		f.hit = true
		return true
	}
	return false
}

// faultyReader is a reader whose reads and seeks fail.
type faultyReader struct {
	r *bytes.Reader
	f *fault
}

func (p *faultyReader) Read(b []byte) (int, error) {
	if p.f.now() {
		switch p.f.style {
		case 1: // fails after some data
			n, _ := p.r.Read(b[:len(b)/2])
			return n, errFault
		case 2: // ends too early
			return 0, io.EOF
		}
		return 0, errFault
	}
	return p.r.Read(b)
}

func (p *faultyReader) Seek(o int64, whence int) (int64, error) {
	if p.f.now() {
		if p.f.style == 1 {
			return -1, errFault
		}
		return 0, errFault
	}
	return p.r.Seek(o, whence)
}

// sizedReader also tells its size.
type sizedReader struct{ faultyReader }

func (p *sizedReader) Size() int64 { return p.r.Size() }

// failing is a source that fails.
func failing(b []byte, f *fault) io.ReadSeeker {
	r := faultyReader{bytes.NewReader(b), f}
	if sym.Choice("sized", 2) == 1 {
		return &sizedReader{r}
	}
	return &r
}

// faultyWriter keeps what is written until it fails.
type faultyWriter struct {
	b []byte
	f *fault
}

func (p *faultyWriter) Write(b []byte) (int, error) {
	if p.f.now() {
		if p.f.style == 1 && len(b) > 0 {
			p.b = append(p.b, b[:len(b)-1]...)
			return len(b) - 1, errFault
		}
		return 0, errFault
	}
	p.b = append(p.b, b...)
	return len(b), nil
}

// faultyFile is a new file that can fail to be written and positioned.
type faultyFile struct {
	memFile
	f *fault
}

func (p *faultyFile) Write(b []byte) (int, error) {
	if p.f.now() {
		if p.f.style == 1 && len(b) > 0 {
			p.memFile.Write(b[:len(b)-1])
			return len(b) - 1, errFault
		}
		return 0, errFault
	}
	return p.memFile.Write(b)
}

func (p *faultyFile) Seek(o int64, whence int) (int64, error) {
	if p.f.now() {
		return 0, errFault
	}
	return p.memFile.Seek(o, whence)
}

// memFile is a file in memory.
type memFile struct {
	b   []byte
	pos int
}

func (p *memFile) Write(b []byte) (int, error) {
	if n := p.pos + len(b) - len(p.b); n > 0 {
		p.b = append(p.b, make([]byte, n)...)
	}
	copy(p.b[p.pos:], b)
	p.pos += len(b)
	return len(b), nil
}

func (p *memFile) Seek(o int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		o += int64(p.pos)
	case io.SeekEnd:
		o += int64(len(p.b))
	}
	if o < 0 {
		return 0, errFault
	}
	p.pos = int(o)
	return o, nil
}

// reported asserts that a failure is reported, unless everything was written regardless.
func (f *fault) reported(err error, got, want []byte) {
	sym.ObserveErr("err", err)
	if err == nil {
		sym.Assert(sym.EqBytes(got, want), "success means that everything was written")
	}
	if !f.hit {
		sym.Assert(err == nil, "no failure, no error")
		sym.Cover("no failure")
	} else if err != nil {
		sym.Cover("reported")
	} else {
		sym.Cover("overcome")
	}
}

// aTree is a set with several types, names and languages.
func aTree() *winres.ResourceSet {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, []byte{sym.U8("d0")})
	rs.Set(winres.RT_RCDATA, winres.Name("AB"), 0, []byte("12345678"))
	rs.Set(winres.RT_RCDATA, winres.Name("AB"), 7, []byte("abc"))
	rs.Set(winres.Name("T"), winres.ID(2), 0x409, []byte{})
	return rs
}

// P25_Object: the writer fails while an object is written.
func P25_Object() {
	rs := aTree()
	arch := []winres.Arch{winres.ArchAMD64, winres.ArchI386}[sym.Choice("arch", 2)]
	var ref bytes.Buffer
	sym.Assert(rs.WriteObject(&ref, arch) == nil, "written")
	w := &faultyWriter{f: anyFault(2)}
	err := rs.WriteObject(w, arch)
	w.f.reported(err, w.b, ref.Bytes())
}

// exeSource is an executable to patch, and the expected result.
func exeSource() ([]byte, *winres.ResourceSet, []byte) {
	s, _ := buildShape(sym.Choice("shape", nShapes), sym.Choice("plus", 2) == 1, 100)
	s.overlay = []byte("overlay")
	if sym.Choice("checksum", 2) == 1 {
		s.checksum = 1
	}
	rs := oneResource(40, make([]byte, []int{0, 150}[sym.Choice("size", 2)]))
	src := s.build()
	return src, rs, mustWrite(rs, src, "written")
}

// P25_PatchWrite: the destination fails while an executable is patched.
func P25_PatchWrite() {
	src, rs, want := exeSource()
	f := anyFault(2)
	if sym.Choice("file", 2) == 1 {
		w := &faultyFile{f: f}
		err := rs.WriteToEXE(w, bytes.NewReader(src))
		f.reported(err, w.b, want)
	} else {
		w := &faultyWriter{f: f}
		err := rs.WriteToEXE(w, bytes.NewReader(src))
		f.reported(err, w.b, want)
	}
}

// P25_PatchRead: the source fails while an executable is patched.
func P25_PatchRead() {
	src, rs, want := exeSource()
	f := anyFault(3)
	var w bytes.Buffer
	err := rs.WriteToEXE(&w, failing(src, f))
	f.reported(err, w.Bytes(), want)
}

// P25_Load: the source fails while an executable is read.
func P25_Load() {
	rs := aTree()
	s, _ := buildShape(sym.Choice("shape", nShapes), sym.Choice("plus", 2) == 1, 16)
	exe := mustWrite(rs, s.build(), "written")
	want := copyItems(rs)
	f := anyFault(3)
	r := failing(exe, f)
	var got *winres.ResourceSet
	var err error
	if sym.Choice("single", 2) == 1 {
		got, err = winres.LoadFromEXESingleType(r, winres.RT_RCDATA)
		want = want[1:]
	} else {
		got, err = winres.LoadFromEXE(r)
	}
	sym.ObserveErr("err", err)
	if err == nil {
		sameItems(got, want)
		sym.Cover("read")
	} else {
		sym.Assert(f.hit, "no failure, no error")
		sym.Assert(err != winres.ErrNoResources, "a failure does not look like the absence of resources")
		sym.Cover("reported")
	}
}

// P25_Empty: the source fails while looking for resources that are not there.
func P25_Empty() {
	s, _ := buildShape([]int{0, 1}[sym.Choice("shape", 2)], sym.Choice("plus", 2) == 1, 16)
	f := anyFault(3)
	_, err := winres.LoadFromEXE(failing(s.build(), f))
	sym.Assert(err != nil, "an error in any case")
	if !f.hit {
		sym.Assert(err == winres.ErrNoResources, "no resources")
		sym.Cover("none")
	} else {
		sym.Cover("reported")
	}
}

// P25_Signed: the source fails while it is asked whether it is signed.
func P25_Signed() {
	s, _ := buildShape([]int{0, 3}[sym.Choice("shape", 2)], sym.Choice("plus", 2) == 1, 16)
	is := sym.Bool("signed")
	if is {
		s.dirs[dirSec] = [2]int{s.end(), 8}
	}
	s.overlay = make([]byte, 8)
	f := anyFault(3)
	src := bytes.NewReader(s.build())
	src.Seek(int64(sym.Choice("pos", 2)*5), io.SeekStart)
	before, _ := src.Seek(0, io.SeekCurrent)
	got, err := winres.IsSignedEXE(&faultyReader{src, f})
	if err == nil {
		after, _ := src.Seek(0, io.SeekCurrent)
		sym.Assert(got == is, "the right answer or an error")
		sym.Assert(after == before, "the reader is where it was, or an error is reported")
		sym.Cover("answered")
	} else {
		sym.Assert(f.hit, "no failure, no error")
		sym.Cover("reported")
	}
}

// P25_Save: the writer fails while an icon or a cursor is saved.
func P25_Save() {
	imgs := anyCur("img", sym.Choice("n", 4))
	f := anyFault(2)
	w := &faultyWriter{f: f}
	var ref bytes.Buffer
	var err error
	if sym.Choice("cursor", 2) == 1 {
		cur := mustCUR(imgs, 0)
		cur.SaveCUR(&ref)
		err = cur.SaveCUR(w)
	} else {
		ico := mustICO(imgs, 0)
		ico.SaveICO(&ref)
		err = ico.SaveICO(w)
	}
	f.reported(err, w.b, ref.Bytes())
}

// P25_LoadImages: the source fails while an icon or a cursor is loaded.
func P25_LoadImages() {
	imgs := anyCur("img", sym.Choice("n", 4))
	f := anyFault(3)
	var ref, got bytes.Buffer
	var err error
	if sym.Choice("cursor", 2) == 1 {
		mustCUR(imgs, 1).SaveCUR(&ref)
		var cur *winres.Cursor
		cur, err = winres.LoadCUR(&faultyReader{bytes.NewReader(icoFile(2, imgs, 1)), f})
		if err == nil {
			cur.SaveCUR(&got)
		}
	} else {
		mustICO(imgs, 1).SaveICO(&ref)
		var ico *winres.Icon
		ico, err = winres.LoadICO(&faultyReader{bytes.NewReader(icoFile(1, imgs, 1)), f})
		if err == nil {
			ico.SaveICO(&got)
		}
	}
	f.reported(err, got.Bytes(), ref.Bytes())
}
