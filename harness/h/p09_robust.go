package h

import (
	"bytes"
	"io"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// anyFile is any file of n bytes, except that a few sizes and positions take one of several values: the PE header is at
// one of a few places (overlapping the DOS header, near the end, or outside the file), so is the section data.
// Everything else is arbitrary.
func anyFile(n int, full bool) []byte {
	src := sym.Bytes("file", n)
	if n < 0x40 {
		return src
	}
	var at int
	if full {
		at = []int{0x40, 0x3a, n - 30, 1 << 31}[sym.Choice("stub", 4)]
	} else {
		at = 0x40
	}
	p32(src, 0x3c, at)
	if at < 0x40 {
		at = 0x40
	}
	if at+24 > n {
		return src
	}
	opts := []int{144, 160, 152, 0, 1, 2, 0xffff}
	if !full {
		opts = opts[:2]
	}
	opt := opts[sym.Choice("opt", len(opts))]
	p16(src, at+20, opt)
	if !full {
		// all directories but those of resources, signature and relocations are empty
		for _, base := range []int{96, 112} {
			for d := 0; d < 8; d++ {
				if o := at + 24 + base + 8*d; d != dirRsrc && d != dirSec && d != dirReloc && o+8 <= n && (base == 96) == (opt == 144) {
					p32(src, o, 0)
					p32(src, o+4, 0)
				}
			}
		}
	}
	nsecs := []int{0, 1, 2, 0xffff}
	if !full {
		nsecs = nsecs[:3]
	}
	nsec := nsecs[sym.Choice("sections", len(nsecs))]
	p16(src, at+6, nsec)
	for i := 0; i < nsec && i < 2; i++ {
		t := at + 24 + opt + 40*i
		if t+40 > n {
			break
		}
		switch sym.Choice(num("raw", i), 3) {
		case 0:
			p32(src, t+16, 16)
			p32(src, t+20, n-16)
		case 1:
			p32(src, t+16, 0)
			p32(src, t+20, 0)
		case 2:
			sym.Assume(u32(src, t+16)+u32(src, t+20) > n)
		}
	}
	return src
}

// P09_LoadAny: any bytes as an executable.
func P09_LoadAny() {
	src := anyFile(sym.Choice("len", 321), true)
	sym.MaxAlloc(1 << 23)
	rs, err := winres.LoadFromEXE(bytes.NewReader(src))
	sym.Assert(rs != nil || err != nil, "a result or an error")
	sym.ObserveErr("err", err)
	if err == nil {
		sym.Cover("loaded")
	} else {
		sym.Cover("refused")
	}
}

// sink is a destination that keeps nothing.
type sink struct{ n, pos int64 }

func (s *sink) Write(b []byte) (int, error) {
	s.pos += int64(len(b))
	return len(b), nil
}

func (s *sink) Seek(o int64, whence int) (int64, error) {
	sym.Assert(whence == io.SeekCurrent, "the destination is only moved forward")
	s.pos += o
	return s.pos, nil
}

// P09_PatchAny: patching and querying any bytes.
func P09_PatchAny() {
	src := anyFile([]int{320, 272}[sym.Choice("len", 2)], sym.Thorough())
	sym.MaxAlloc(1 << 23)
	if len(src) >= 0x40 && u32(src, 0x3c) < len(src) {
		if o := max(u32(src, 0x3c), 0x40) + 24; o+96 <= len(src) {
			aligns := [][2]int{{16, 64}, {16, 0}, {0, 16}, {3, 0xffffffff}, {0xffffffff, 3}}
			al := aligns[sym.Choice("align", len(aligns))]
			fa := al[0]
			p32(src, o+36, fa)
			p32(src, o+32, al[1])
			if fa > 16 {
				p32(src, o+64, 0) // the padding to sum would be too long
			}
		}
	}
	_, err := winres.IsSignedEXE(bytes.NewReader(src))
	sym.ObserveErr("query", err)
	err = oneResource(3, make([]byte, 3)).WriteToEXE(&sink{}, bytes.NewReader(src), winres.WithAuthenticode(winres.IgnoreSignature))
	sym.ObserveErr("err", err)
	if err == nil {
		sym.Cover("patched")
	} else {
		sym.Cover("refused")
	}
}

// P09_Directories: any number of data directories, and any value of NumberOfRvaAndSizes.
func P09_Directories() {
	s, _ := buildShape([]int{0, 2, 3}[sym.Choice("shape", 3)], sym.Choice("plus", 2) == 1, 100)
	s.ndirs = []int{0, 1, 2, 3, 4, 5, 6, 7, 15, 16}[sym.Choice("ndirs", 10)]
	s.optPad = []int{0, 8, 16}[sym.Choice("pad", 3)]
	s.layout()
	src := s.build()
	declared := s.ndirs
	if sym.Choice("declared", 2) == 1 {
		declared = int(sym.U32("count"))
	}
	p32(src, s.dirsAt()-4, declared)
	sym.MaxAlloc(1 << 22)
	_, err := winres.IsSignedEXE(bytes.NewReader(src))
	sym.ObserveErr("query", err)
	_, err = winres.LoadFromEXE(bytes.NewReader(src))
	sym.ObserveErr("load", err)
	err = oneResource(3, make([]byte, 3)).WriteToEXE(&sink{}, bytes.NewReader(src), winres.WithAuthenticode(winres.RemoveSignature))
	sym.ObserveErr("patch", err)
	if err == nil {
		sym.Cover("patched")
	} else {
		sym.Cover("refused")
	}
}

// rsrcFile is a minimal executable whose resource section holds the given bytes.
func rsrcFile(dir []byte) *peSpec {
	s := &peSpec{stub: 0x40, fileAlign: 16, sectAlign: 64, ndirs: 6}
	s.secs = []secSpec{{name: ".rsrc", va: 0x400, vsize: max(1, len(dir)), chars: scnData, data: dir}}
	s.dirs[dirRsrc] = [2]int{0x400, len(dir)}
	s.layout()
	return s
}

// P09_Directory: a directory of three tables, of which one is damaged in any way.
// Its counts are arbitrary, and so are the fields of its first entry, except that offsets inside the section are a few.
func P09_Directory() {
	const size = 96
	at := []int{0, 24, 48}
	dir := make([]byte, size)
	for i, o := range at {
		p16(dir, o+14, 1)
		p32(dir, o+16, 1)
		p32(dir, o+20, o+24)
		if i < 2 {
			dir[o+23] = 0x80
		}
	}
	p32(dir, 72, 0x400+88)
	p32(dir, 76, 8)
	odd := sym.Choice("table", 3)
	o := at[odd]
	names, ids := sym.U16("names"), sym.U16("ids")
	p16(dir, o+12, int(names))
	p16(dir, o+14, int(ids))
	switch sym.Choice("ident", 4) {
	case 0:
		p32(dir, o+16, int(sym.U32("id")&0x7fffffff))
	case 1:
		p32(dir, o+16, 1<<31|88)
		p16(dir, 88, int(sym.U16("nameLen")))
	case 2:
		p32(dir, o+16, 1<<31|int(sym.U32("nameAt")))
		sym.Assume(u32(dir, o+16)&0x7fffffff >= size-2)
	case 3:
		p32(dir, o+16, 1<<31)
	}
	// offsets: where it should be, the table itself, the root, the end, or anywhere outside
	next := []int{o + 24, o, 0, size - 16, size - 15}
	if c := sym.Choice("offset", len(next)+1); c < len(next) {
		p32(dir, o+20, next[c])
	} else {
		p32(dir, o+20, int(sym.U32("outside")))
		sym.Assume(u32(dir, o+20)&0x7fffffff > size-16)
	}
	dir[o+23] = dir[o+23]&0x7f | byte(sym.Choice("sub", 2))<<7
	src := rsrcFile(dir).build()
	sym.MaxAlloc(1 << 22)
	rs, err := winres.LoadFromEXE(bytes.NewReader(src))
	sym.Assert((rs == nil) == (err != nil), "a result or an error")
	sym.Assert(sym.Implies(err == nil, o+16+8*(int(names)+int(ids)) <= size), "entries outside of the section are reported")
	sym.ObserveErr("err", err)
	if err == nil {
		sym.Cover("loaded")
	} else {
		sym.Cover("refused")
	}
}

// P09_DataEntry: an arbitrary data entry, in a section that may itself be declared longer or shorter than it is.
func P09_DataEntry() {
	const size = 96
	dir := make([]byte, size)
	for i, o := range []int{0, 24, 48} {
		p16(dir, o+14, 1)
		p32(dir, o+16, 1)
		p32(dir, o+20, o+24)
		if i < 2 {
			dir[o+23] = 0x80
		}
	}
	copy(dir[72:], sym.Bytes("entry", 24))
	s := rsrcFile(dir)
	s.dirs[dirRsrc][1] = int(sym.U32("dirSize"))
	s.secs[0].vsize = int(sym.U32("vsize"))
	src := s.build()
	sym.MaxAlloc(1 << 22)
	rs, err := winres.LoadFromEXE(bytes.NewReader(src))
	sym.Assert(err != nil || rs.Count() == 1, "one resource or an error")
	if err == nil {
		at, n := u32(dir, 72)-0x400, u32(dir, 76)
		sym.Assert(sym.And(at >= 0, at+n <= size), "data outside of the section is refused")
		sym.Cover("loaded")
	} else {
		sym.Cover("refused")
	}
	sym.ObserveErr("err", err)
}
