package h

import (
	"bytes"
	"io"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// shortReader delivers its data in pieces: each Read returns at most the next of the given lengths,
// then everything that is asked for.
type shortReader struct {
	r    *bytes.Reader
	cuts []int
}

func (p *shortReader) Read(b []byte) (int, error) {
	if len(p.cuts) > 0 {
		c := p.cuts[0]
		p.cuts = p.cuts[1:]
		if c > 0 && c < len(b) {
			b = b[:c]
		}
	}
	return p.r.Read(b)
}
func (p *shortReader) Seek(o int64, whence int) (int64, error) { return p.r.Seek(o, whence) }

// everyCut delivers n bytes at a time, always.
type everyCut struct {
	r *bytes.Reader
	n int
}

func (p *everyCut) Read(b []byte) (int, error) {
	if len(b) > p.n {
		b = b[:p.n]
	}
	return p.r.Read(b)
}
func (p *everyCut) Seek(o int64, whence int) (int64, error) { return p.r.Seek(o, whence) }

// P07_Policy: for every source checksum, with and without forcing, every parity and chunking.
func P07_Policy() {
	k := []int{0, 3}[sym.Choice("shape", 2)]
	ov := sym.Choice("overlay", 4)
	force := sym.Choice("force", 2) == 1
	s, _ := buildShape(k, k == 3, 16)
	s.overlay = make([]byte, ov)
	for i := range s.overlay {
		s.overlay[i] = byte(0xF1 + i)
	}
	sum := sym.U32("checksum")
	s.checksum = int(sum)
	src := s.build()
	var r io.ReadSeeker = bytes.NewReader(src)
	switch sym.Choice("reader", 4) {
	case 1:
		r = &everyCut{bytes.NewReader(src), 1}
	case 2:
		r = &everyCut{bytes.NewReader(src), 3}
	case 3:
		r = &everyCut{bytes.NewReader(src), 64}
	}
	var out bytes.Buffer
	rs := oneResource(5, []byte{1, 2, 3, 4, 5})
	var err error
	if force {
		err = rs.WriteToEXE(&out, r, winres.ForceCheckSum())
	} else {
		err = rs.WriteToEXE(&out, r)
	}
	sym.Assert(err == nil, "a well-formed executable is accepted")
	o := out.Bytes()
	v := viewPE(o)
	if sum != 0 || force {
		sym.Assert(v.checksum() == refChecksum(o, v.opt+64), "the checksum is that of the bytes written")
		sym.Cover("summed")
	} else {
		sym.Assert(v.checksum() == 0, "no checksum is written when there was none")
		sym.Cover("zero")
	}
	sym.ObserveInt("sum", v.checksum())
}

// P07_Content: arbitrary words anywhere in the file, including the end of an odd file, and chunks that split them.
func P07_Content() {
	s, _ := buildShape(3, false, 16)
	ov := sym.Choice("overlay", 2)
	s.overlay = append([]byte{0xFF, 0xFE, 0xFF, 0xFF}, sym.Bytes("tail", 2+ov)...)
	text := s.secs[0].data
	copy(text[4:], sym.Bytes("word", 2))
	copy(text[10:], []byte{0xFF, 0xFF, 0xFF, 0xFF})
	s.checksum = 1
	src := s.build()
	r := &shortReader{r: bytes.NewReader(src)}
	cut := sym.Choice("cut", 4)
	if cut > 0 {
		r.cuts = make([]int, 40)
		for i := range r.cuts {
			r.cuts[i] = []int{1, 2, 5}[(i*cut+cut)%3]
		}
	}
	var out bytes.Buffer
	err := oneResource(3, sym.Bytes("data", 3)).WriteToEXE(&out, r)
	sym.Assert(err == nil, "a well-formed executable is accepted")
	o := out.Bytes()
	v := viewPE(o)
	sym.Assert(v.checksum() == refChecksum(o, v.opt+64), "the checksum is that of the bytes written")
	sym.ObserveInt("sum", v.checksum())
	sym.Cover("summed")
}
