package h

import (
	"bytes"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// ---- building executables

const (
	scnCode   = 0x60000020
	scnData   = 0x40000040
	scnBSS    = 0xC0000080
	scnReloc  = 0x42000040
	dirRsrc   = 2
	dirSec    = 4
	dirReloc  = 5
	offNSec   = 2
	offSymTab = 8
)

type secSpec struct {
	name      string
	va, vsize int
	ptr, raw  int
	chars     int
	data      []byte
	trim      bool // the size in the file is not rounded up
	slack     int  // room in the file before the data
}

type peSpec struct {
	plus      bool // PE32+
	stub      int  // position of the PE signature
	fileAlign int
	sectAlign int
	ndirs     int
	dirs      [16][2]int
	secs      []secSpec
	optPad    int // bytes after the directories in the optional header
	hdrSlack  int // bytes between the section table and the first section
	checksum  int
	initData  int
	overlay   []byte
	fileOrder []int          // order of the sections in the file
	fill      func(b []byte) // last touch on the headers
}

func (s *peSpec) optSize() int {
	if s.plus {
		return 112 + 8*s.ndirs + s.optPad
	}
	return 96 + 8*s.ndirs + s.optPad
}

func (s *peSpec) optAt() int   { return s.stub + 24 }
func (s *peSpec) dirsAt() int  { return s.optAt() + s.optSize() - s.optPad - 8*s.ndirs }
func (s *peSpec) tableAt() int { return s.optAt() + s.optSize() }
func (s *peSpec) hdrEnd() int  { return s.tableAt() + 40*len(s.secs) }

// layout places the raw data of the sections one after the other.
func (s *peSpec) layout() {
	at := roundUp(s.hdrEnd()+s.hdrSlack, s.fileAlign)
	for i := range s.secs {
		if s.fileOrder != nil {
			i = s.fileOrder[i]
		}
		c := &s.secs[i]
		if len(c.data) == 0 {
			continue
		}
		c.ptr = at + c.slack
		c.raw = roundUp(len(c.data), s.fileAlign)
		at = c.ptr + c.raw
		if c.trim {
			c.raw = len(c.data)
		}
	}
}

func roundUp(n, a int) int { return (n + a - 1) / a * a }

func (s *peSpec) end() int {
	e := s.hdrEnd()
	for _, c := range s.secs {
		if c.ptr+c.raw > e {
			e = c.ptr + c.raw
		}
	}
	return e
}

func (s *peSpec) build() []byte {
	b := make([]byte, s.end()+len(s.overlay))
	for i := 2; i < s.stub; i++ {
		b[i] = byte(i*7 + 1)
	}
	b[0], b[1] = 'M', 'Z'
	p32(b, 0x3c, s.stub)
	copy(b[s.stub:], "PE\x00\x00")
	f := s.stub + 4
	p16(b, f, 0x14c)
	p16(b, f+offNSec, len(s.secs))
	p32(b, f+4, 0x5f5e100)
	p32(b, f+8, 0x44) // nothing there moves
	p32(b, f+12, 3)
	p16(b, f+16, s.optSize())
	p16(b, f+18, 0x102)
	o := s.optAt()
	for i := 2; i < s.optSize()-8*s.ndirs; i++ {
		b[o+i] = byte(i*5 + 3)
	}
	b[o], b[o+1] = 11, 1
	if s.plus {
		b[o+1] = 2
	}
	p32(b, o+8, s.initData)
	p32(b, o+32, s.sectAlign)
	p32(b, o+36, s.fileAlign)
	p32(b, o+60, roundUp(s.hdrEnd(), s.fileAlign))
	p32(b, o+64, s.checksum)
	p32(b, s.dirsAt()-4, s.ndirs)
	for i := 0; i < s.ndirs; i++ {
		p32(b, s.dirsAt()+8*i, s.dirs[i][0])
		p32(b, s.dirsAt()+8*i+4, s.dirs[i][1])
	}
	for i, c := range s.secs {
		t := s.tableAt() + 40*i
		copy(b[t:t+8], c.name)
		p32(b, t+8, c.vsize)
		p32(b, t+12, c.va)
		p32(b, t+16, c.raw)
		p32(b, t+20, c.ptr)
		p32(b, t+24, 0x40+i)
		p32(b, t+28, 0x48+i)
		p16(b, t+32, 1+i)
		p16(b, t+34, 2+i)
		p32(b, t+36, c.chars)
		if len(c.data) > 0 {
			copy(b[c.ptr:], c.data)
		}
	}
	copy(b[s.end():], s.overlay)
	if s.fill != nil {
		s.fill(b)
	}
	return b
}

// ---- reading executables (independent of the implementation)

type secView struct {
	name      string
	va, vsize int
	ptr, raw  int
	chars     int
	at        int // offset of its header
}

type peView struct {
	b       []byte
	stub    int
	opt     int
	optSize int
	ndirs   int
	dirs    int
	table   int
	secs    []secView
}

func viewPE(b []byte) *peView {
	v := &peView{b: b}
	v.stub = u32(b, 0x3c)
	v.opt = v.stub + 24
	v.optSize = u16(b, v.stub+20)
	v.table = v.opt + v.optSize
	base := 96
	if b[v.opt+1] == 2 {
		base = 112
	}
	v.dirs = v.opt + base
	v.ndirs = u32(b, v.dirs-4)
	n := u16(b, v.stub+6)
	for i := 0; i < n; i++ {
		t := v.table + 40*i
		v.secs = append(v.secs, secView{string(b[t : t+8]), u32(b, t+12), u32(b, t+8), u32(b, t+20), u32(b, t+16), u32(b, t+36), t})
	}
	return v
}

func (v *peView) dir(i int) (int, int) { return u32(v.b, v.dirs+8*i), u32(v.b, v.dirs+8*i+4) }
func (v *peView) fileAlign() int       { return u32(v.b, v.opt+36) }
func (v *peView) sectAlign() int       { return u32(v.b, v.opt+32) }
func (v *peView) sizeOfImage() int     { return u32(v.b, v.opt+56) }
func (v *peView) checksum() int        { return u32(v.b, v.opt+64) }
func (c *secView) bss() bool           { return c.raw == 0 }

// mem is the size of a section in memory.
func (c *secView) mem() int {
	if c.vsize == 0 {
		return c.raw
	}
	return c.vsize
}

// refChecksum is the PE checksum: the 16-bit end-around-carry sum of the words of the file without its CheckSum field,
// plus the file size.
func refChecksum(b []byte, field int) int {
	var sum uint32
	for i := 0; i < len(b); i += 2 {
		var w uint32
		if i < field || i >= field+4 {
			w = uint32(b[i])
		}
		if i+1 < len(b) && (i+1 < field || i+1 >= field+4) {
			w |= uint32(b[i+1]) << 8
		}
		sum += w
		sum = (sum + sum>>16) & 0xffff
	}
	return int(sum + uint32(len(b)))
}

// ---- readers and writers

// plainReader hides every method but Read and Seek.
type plainReader struct{ r *bytes.Reader }

func (p *plainReader) Read(b []byte) (int, error)              { return p.r.Read(b) }
func (p *plainReader) Seek(o int64, whence int) (int64, error) { return p.r.Seek(o, whence) }

// ---- resource sets

// oneResource is a set with a single resource of n bytes.
func oneResource(n int, data []byte) *winres.ResourceSet {
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, data)
	return rs
}

// shape is a family of executables, by the place of the resource section.
type shape struct {
	name string
	rsrc int // index of the resource section or -1
	rel  int // index of the relocation section or -1
}

// buildShape returns an executable of one of several layouts. oldLen is the length of the existing resource data.
func buildShape(k int, plus bool, oldLen int) (*peSpec, int) {
	return buildAligned(k, plus, oldLen, 16, 64)
}

func buildAligned(k int, plus bool, oldLen, fileAlign, sectAlign int) (*peSpec, int) {
	s := &peSpec{plus: plus, stub: 0x40, fileAlign: fileAlign, sectAlign: sectAlign, ndirs: 6, initData: 0x100}
	if k%2 == 1 {
		s.stub, s.ndirs = 0x48, 16
	}
	va := 0
	add := func(name string, chars int, n, vsize int) int {
		va = roundUp(va, s.sectAlign)
		if va == 0 {
			va = roundUp(0x400, s.sectAlign)
		}
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(len(s.secs)*16 + i + 1)
		}
		s.secs = append(s.secs, secSpec{name: name, va: va, vsize: vsize, chars: chars, data: d})
		va += vsize
		return len(s.secs) - 1
	}
	setDir := func(d, sec int) {
		s.dirs[d] = [2]int{s.secs[sec].va, s.secs[sec].vsize}
	}
	rsrc := -1
	switch k {
	case 0: // no resources
		add(".text", scnCode, 20, 20)
	case 1: // no resources, uninitialised data at the end, relocations
		add(".text", scnCode, 20, 70)
		setDir(dirReloc, add(".reloc", scnReloc, 9, 9))
		add(".bss", scnBSS, 0, 200)
	case 2: // resources at the end
		add(".text", scnCode, 33, 33)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
	case 3: // relocations follow
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		setDir(dirReloc, add(".reloc", scnReloc, 24, 24))
	case 4: // data follows, no relocations
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		add(".data", scnData, 40, 40)
	case 5: // relocations and data follow
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		setDir(dirReloc, add(".reloc", scnReloc, 24, 24))
		add(".data", scnData, 40, 40)
	case 6: // resources first, relocations last
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		add(".text", scnCode, 16, 16)
		setDir(dirReloc, add(".reloc", scnReloc, 24, 24))
	case 7: // resources last, after uninitialised data
		add(".text", scnCode, 16, 16)
		add(".bss", scnBSS, 0, 100)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
	case 8: // no resources, a section without raw data that is not marked as uninitialised
		add(".text", scnCode, 20, 20)
		add(".tls", scnData, 0, 8)
	case 9: // resources last, after a section without raw data that is not marked as uninitialised
		add(".text", scnCode, 20, 20)
		add(".tls", scnData, 0, 8)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
	case 10: // uninitialised data last
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		add(".bss", scnBSS, 0, 100)
	case 11: // resources last in memory but first in the file
		add(".text", scnCode, 40, 40)
		add(".data", scnData, 20, 90)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		s.fileOrder = []int{2, 1, 0}
	case 12: // a resource section without data
		add(".text", scnCode, 40, 40)
		rsrc = add(".rsrc", scnData, 0, oldLen)
	case 13: // a resource section marked as uninitialised although it has data
		add(".text", scnCode, 40, 40)
		rsrc = add(".rsrc", scnBSS|scnData, oldLen, oldLen)
	case 14: // data follows, in descending order in the section table
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		add(".text", scnCode, 16, 16)
		add(".data", scnData, 40, 40)
		s.secs[1], s.secs[2] = s.secs[2], s.secs[1]
		s.fileOrder = []int{0, 2, 1}
	case 15: // relocations follow in memory, but come first in the section table and in the file
		add(".text", scnCode, 16, 16)
		add(".rsrc", scnData, oldLen, oldLen)
		add(".reloc", scnReloc, 24, 24)
		s.secs[0], s.secs[1], s.secs[2] = s.secs[2], s.secs[0], s.secs[1]
		rsrc = 2
		setDir(dirReloc, 0)
	case 16: // relocations follow, the size of the resources in the file is not aligned
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen-5, oldLen-5)
		s.secs[rsrc].trim = true
		setDir(dirReloc, add(".reloc", scnReloc, 24, 24))
	case 17: // data follows, resources are larger in memory than in the file
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen, oldLen+150)
		add(".data", scnData, 40, 40)
	case 18: // data follows, resources are larger in the file than in memory, with room before and after
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen, 10)
		s.secs[rsrc].slack = roundUp(32, fileAlign)
		add(".data", scnData, 40, 40)
		s.secs[2].slack = fileAlign
	case 19: // resources last, whose size in the file is not aligned
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen-5, oldLen-5)
		s.secs[rsrc].trim = true
	case 20: // no resources, the last section has an unaligned size in the file
		add(".text", scnCode, 16, 16)
		add(".data", scnData, 23, 80)
		s.secs[1].trim = true
	case 21: // no virtual sizes (sizes in the file are used instead), no resources
		add(".text", scnCode, 16, 70)
		add(".data", scnData, 80, 80)
		s.secs[0].vsize, s.secs[1].vsize = 0, 0
	case 22: // no virtual sizes, resources at the end
		add(".text", scnCode, 16, 70)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		s.secs[0].vsize, s.secs[1].vsize = 0, 0
	case 23: // no virtual sizes, relocations follow
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		setDir(dirReloc, add(".reloc", scnReloc, 80, 80))
		s.secs[0].vsize, s.secs[1].vsize, s.secs[2].vsize = 0, 0, 0
	case 24: // no virtual sizes, data follows
		add(".text", scnCode, 16, 16)
		rsrc = add(".rsrc", scnData, oldLen, oldLen)
		add(".data", scnData, 80, 80)
		s.secs[0].vsize, s.secs[1].vsize, s.secs[2].vsize = 0, 0, 0
	}
	if rsrc >= 0 {
		setDir(dirRsrc, rsrc)
	}
	s.hdrSlack = 40
	s.layout()
	return s, rsrc
}

const nShapes = 25

// hasRsrc tells whether a shape has a resource section.
func hasRsrc(k int) bool { return k != 0 && k != 1 && k != 8 && k != 20 && k != 21 }

func mustWrite(rs *winres.ResourceSet, src []byte, label string) []byte {
	var out bytes.Buffer
	err := rs.WriteToEXE(&out, bytes.NewReader(src))
	sym.Assert(err == nil, label)
	return out.Bytes()
}
