package h

import (
	"bytes"
	"io"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// P08_Refuse: for every certificate entry, default options refuse exactly the executables that IsSignedEXE reports,
// write nothing, and the query restores the position of the reader.
func P08_Refuse() {
	k := sym.Choice("shape", nShapes)
	s, _ := buildShape(k, sym.Choice("plus", 2) == 1, 100)
	va, size := sym.U32("cert"), sym.U32("size")
	s.dirs[dirSec] = [2]int{int(va), int(size)}
	s.overlay = make([]byte, 24)
	src := s.build()
	r := bytes.NewReader(src)
	pos := []int{0, 5, len(src)}[sym.Choice("pos", 3)]
	r.Seek(int64(pos), io.SeekStart)
	signed, err := winres.IsSignedEXE(r)
	sym.Assert(err == nil, "a well-formed executable can be queried")
	now, _ := r.Seek(0, io.SeekCurrent)
	sym.Assert(now == int64(pos), "the query leaves the reader where it was")
	var out bytes.Buffer
	err = oneResource(3, make([]byte, 3)).WriteToEXE(&out, r)
	sym.Assert(signed == (va != 0), "an executable is signed when it has a certificate table")
	if signed {
		sym.Assert(err == winres.ErrSignedPE, "a signed executable is refused")
		sym.Assert(out.Len() == 0, "nothing is written on refusal")
		sym.Cover("signed")
	} else {
		sym.Assert(err == nil, "an unsigned executable is accepted")
		sym.Cover("unsigned")
	}
	var out2 bytes.Buffer
	err = oneResource(3, make([]byte, 3)).WriteToEXE(&out2, r, winres.WithAuthenticode(winres.ErrorIfSigned))
	sym.Assert((err == winres.ErrSignedPE) == signed && (out2.Len() == 0) == signed, "the explicit option does as the default")
}

// P08_Options: a signature at the end or followed by more data, removed or ignored.
func P08_Options() {
	k := sym.Choice("shape", nShapes)
	s, rsrc := buildShape(k, sym.Choice("plus", 2) == 1, 100)
	before := []int{0, 7}[sym.Choice("before", 2)]
	after := []int{0, 5}[sym.Choice("after", 2)]
	const sig = 16
	s.overlay = make([]byte, before+sig+after)
	for i := range s.overlay {
		s.overlay[i] = byte(0xB0 + i)
	}
	copy(s.overlay[before:], sym.Bytes("sig", 2))
	s.dirs[dirSec] = [2]int{s.end() + before, sig}
	src := s.build()
	remove := sym.Choice("remove", 2) == 1
	how := winres.WithAuthenticode(winres.IgnoreSignature)
	if remove {
		how = winres.WithAuthenticode(winres.RemoveSignature)
	}
	n := []int{3, 70, 300}[sym.Choice("newLen", 3)]
	var out bytes.Buffer
	err := oneResource(n, make([]byte, n)).WriteToEXE(&out, bytes.NewReader(src), how)
	sym.Assert(err == nil, "a signed executable is accepted on request")
	p := newPatched(s, rsrc, src, out.Bytes())
	end := p.dataEnd()
	va, size := p.b.dir(dirSec)
	tail := p.out[end:]
	if remove {
		sym.Assert(va == 0 && size == 0, "the certificate entry is cleared")
		signed, err := winres.IsSignedEXE(bytes.NewReader(p.out))
		sym.Assert(!signed && err == nil, "the result is not signed")
		want := s.overlay
		if after == 0 {
			want = s.overlay[:before]
		}
		sym.Assert(sym.EqBytes(tail, want), "a signature at the end is dropped and other appended data is kept")
		s.overlay = want
		sym.Cover("removed")
	} else {
		sym.Assert(size == sig && va == end+before, "the certificate entry follows the signature")
		sym.Assert(sym.EqBytes(tail, s.overlay), "the signature and other appended data are kept")
		sym.Cover("ignored")
	}
	s.dirs[dirSec] = [2]int{va, size}
	checkPreserved(p)
	checkHeaders(p)
	sym.ObserveInt("len", len(p.out))
}

// P08_Odd: a certificate entry that designates section data, or anything out of the file, never makes removal lose
// anything but the signature.
func P08_Odd() {
	k := sym.Choice("shape", nShapes)
	s, rsrc := buildShape(k, false, 100)
	s.overlay = []byte{1, 2, 3}
	total := s.end() + 3
	ats := []int{1, s.secs[0].ptr, s.secs[0].ptr + 4, s.end() - 1, s.end() + 1, total, total + 1, 0x7FFFFFFF, 0xFFFFFFF0}
	at := ats[sym.Choice("at", len(ats))]
	size := total - at // the end of the file, possibly beyond 4 GB
	if size < 0 {
		size += 1 << 32
	}
	if sym.Choice("end", 2) == 1 {
		size = int(sym.U32("size"))
	}
	s.dirs[dirSec] = [2]int{at, size}
	src := s.build()
	var out bytes.Buffer
	err := oneResource(3, make([]byte, 3)).WriteToEXE(&out, bytes.NewReader(src), winres.WithAuthenticode(winres.RemoveSignature))
	if err != nil {
		sym.Assert(out.Len() == 0, "nothing is written on refusal")
		return
	}
	p := newPatched(s, rsrc, src, out.Bytes())
	va, n := p.b.dir(dirSec)
	sym.Assert(va == 0 && n == 0, "the certificate entry is cleared")
	if tail := len(p.out) - p.dataEnd(); at > s.end() && at < total && tail == at-s.end() {
		sym.Assert(at+size >= total, "only a signature at the end is dropped")
		s.overlay = s.overlay[:tail]
	} else if at > s.end() && at < total {
		sym.Assert(at+size != total, "a signature at the end is dropped")
	}
	s.dirs[dirSec] = [2]int{0, 0}
	checkPreserved(p)
	sym.Cover("patched")
}
