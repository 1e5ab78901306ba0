package h

import (
	"bytes"

	"winresverif/sym"
)

// patched is one call of WriteToEXE on a generated executable, seen through independent readers.
type patched struct {
	spec     *peSpec
	src, out []byte
	a, b     *peView
	rsrc     int // index of the section that held the resources before, or -1
	now      int // index of the section that holds them now
}

// patch runs WriteToEXE for an arbitrary shape, old size and new size.
func patch(plus bool, overlay int, touch func(s *peSpec, rsrc int)) *patched {
	k := sym.Choice("shape", nShapes)
	oldLens := []int{16, 100, 300}
	newLens := []int{3, 64, 210}
	old := 0
	if hasRsrc(k) {
		old = oldLens[sym.Choice("oldLen", len(oldLens))]
	}
	n := newLens[sym.Choice("newLen", len(newLens))]
	s, rsrc := buildShape(k, plus, old)
	s.overlay = make([]byte, overlay)
	for i := range s.overlay {
		s.overlay[i] = 0xD0 + byte(i)
	}
	if touch != nil {
		touch(s, rsrc)
	}
	src := s.build()
	return newPatched(s, rsrc, src, mustWrite(oneResource(n, make([]byte, n)), src, "a well-formed executable is accepted"))
}

func newPatched(s *peSpec, rsrc int, src, out []byte) *patched {
	p := &patched{spec: s, src: src, out: out, rsrc: rsrc, now: -1}
	p.a, p.b = viewPE(p.src), viewPE(p.out)
	va, _ := p.b.dir(dirRsrc)
	for i := range p.b.secs {
		if p.b.secs[i].va == va {
			p.now = i
		}
	}
	sym.Assert(p.now >= 0, "the resource directory entry points to a section")
	return p
}

// dataEnd is the end of section data in the output.
func (p *patched) dataEnd() int {
	end := 0
	for i := range p.b.secs {
		y := &p.b.secs[i]
		if !y.bss() && y.ptr+y.raw > end {
			end = y.ptr + y.raw
		}
	}
	return end
}

// P05_Preserved: everything but the resources is preserved, for every layout and with arbitrary section contents,
// header fields and appended data.
func P05_Preserved() {
	plus := sym.Choice("plus", 2) == 1
	ov := []int{0, 1, 21}[sym.Choice("overlay", 3)]
	p := patch(plus, ov, func(s *peSpec, rsrc int) {
		for i := range s.secs {
			if i != rsrc && len(s.secs[i].data) > 0 {
				s.secs[i].data[0] = sym.U8("first")
				s.secs[i].data[len(s.secs[i].data)-1] = sym.U8("last")
			}
		}
		if ov > 0 {
			s.overlay[0], s.overlay[ov-1] = sym.U8("ov.first"), sym.U8("ov.last")
		}
		s.fill = func(b []byte) {
			b[5] = sym.U8("stub")
			p32(b, s.stub+8, int(sym.U32("timestamp")))
			p16(b, s.stub+22, int(sym.U16("characteristics")))
			p32(b, s.optAt()+16, int(sym.U32("entrypoint")))
			p32(b, s.optAt()+28, int(sym.U32("imagebase")))
			p16(b, s.optAt()+70, int(sym.U16("dllcharacteristics")))
			p32(b, s.dirsAt()-8, int(sym.U32("loaderflags")))
		}
	})
	checkPreserved(p)
	sym.ObserveLen("out", p.out)
	sym.Cover("checked")
}

func checkPreserved(p *patched) {
	s, src, out := p.spec, p.src, p.out
	sym.Assert(sym.EqBytes(out[:s.stub+6], src[:s.stub+6]), "DOS stub, signature and machine are kept")
	sym.Assert(sym.EqBytes(out[s.stub+8:s.stub+24], src[s.stub+8:s.stub+24]), "file header is kept, except for the section count")
	o := s.optAt()
	sym.Assert(sym.EqBytes(out[o:o+8], src[o:o+8]), "optional header is kept before the initialised data size")
	sym.Assert(sym.EqBytes(out[o+12:o+56], src[o+12:o+56]), "optional header is kept between initialised data size and image size")
	sym.Assert(sym.EqBytes(out[o+60:o+64], src[o+60:o+64]), "size of headers is kept")
	sym.Assert(sym.EqBytes(out[o+68:s.dirsAt()], src[o+68:s.dirsAt()]), "optional header is kept after the checksum")
	sym.Assert(len(p.b.secs) == len(p.a.secs) || len(p.b.secs) == len(p.a.secs)+1, "at most one section is added")
	sym.Assert(p.rsrc < 0 || p.now == p.rsrc || len(p.b.secs) == len(p.a.secs)+1, "the resources stay in their section unless one is added")
	sym.Assert(p.now == p.rsrc || p.now == len(p.b.secs)-1, "an added section comes last")
	dataEnd := p.dataEnd()
	for i := range p.a.secs {
		x, y := &p.a.secs[i], &p.b.secs[i]
		if i == p.now {
			continue
		}
		sym.Assert(i == p.rsrc || x.name == y.name, "section names are kept")
		sym.Assert(x.chars == y.chars && x.vsize == y.vsize && x.raw == y.raw, "section sizes and characteristics are kept")
		if x.bss() {
			continue
		}
		sym.Assert(y.ptr+y.raw <= len(out), "section data inside the file")
		sym.Assert(sym.EqBytes(out[y.ptr:y.ptr+y.raw], src[x.ptr:x.ptr+x.raw]), "section contents are kept")
		sym.Assert((y.ptr-x.ptr)%s.fileAlign == 0, "sections move by whole file alignment units")
	}
	for i := range p.a.secs {
		x, y := &p.a.secs[i], &p.b.secs[i]
		sym.Assert((y.va-x.va)%s.sectAlign == 0, "sections move by whole section alignment units")
		stay := p.rsrc < 0 || p.now != p.rsrc
		if stay || x.va <= p.a.secs[p.rsrc].va {
			sym.Assert(x.va == y.va, "sections before the resources do not move in memory")
		}
		if stay || x.ptr <= p.a.secs[p.rsrc].ptr && x.raw > 0 {
			sym.Assert(x.ptr == y.ptr, "sections before the resources do not move in the file")
		}
		if i != p.rsrc && x.chars != scnReloc {
			sym.Assert(x.va == y.va, "only relocations may move in memory")
		}
	}
	sym.Assert(len(out) == dataEnd+len(s.overlay), "appended data follows the sections and nothing else is added")
	sym.Assert(sym.EqBytes(out[dataEnd:], s.overlay), "appended data is kept")
}

// P06_Headers: the headers of the output are consistent, with symbolic virtual sizes and directory entries.
func P06_Headers() {
	plus := sym.Choice("plus", 2) == 1
	p := patch(plus, 0, func(s *peSpec, rsrc int) {
		// any virtual size that keeps the sections apart
		for i := range s.secs {
			room := 200
			for _, o := range s.secs {
				if o.va > s.secs[i].va && o.va-s.secs[i].va < room {
					room = o.va - s.secs[i].va
				}
			}
			if s.secs[i].vsize > 0 {
				s.secs[i].vsize = sym.Int(num("vsize", i), 1, room)
			}
		}
		if rsrc >= 0 {
			s.dirs[dirRsrc][1] = s.secs[rsrc].vsize
		}
		// every directory entry but the special ones points anywhere inside the image, or is empty
		for _, d := range []int{1, 3} {
			if sym.Choice("dir.used", 2) == 1 {
				t := sym.Choice("dir.sec", len(s.secs))
				if t != rsrc {
					off := sym.Int("dir.off", 0, 199)
					sym.Assume(off < max(s.secs[t].vsize, 1))
					s.dirs[d] = [2]int{s.secs[t].va + off, 4}
				}
			}
		}
	})
	checkHeaders(p)
	sym.ObserveBytes("headers", p.out[:p.spec.hdrEnd()])
	sym.Cover("checked")
}

func checkHeaders(p *patched) {
	s, b := p.spec, p.b
	fa, sa := s.fileAlign, s.sectAlign
	sym.Assert(b.table == p.a.table && b.ndirs == p.a.ndirs, "header sizes are kept")
	hdrEnd := b.table + 40*len(b.secs)
	image, apart := 0, true
	for i := range b.secs {
		x := &b.secs[i]
		sym.Assert(x.va%sa == 0, "sections are aligned in memory")
		end := x.va + (x.mem()+sa-1)&^(sa-1)
		if !x.bss() {
			sym.Assert(x.ptr%fa == 0, "sections are aligned in the file")
			kept := i != p.now && i < len(p.a.secs) && p.a.secs[i].raw%fa != 0
			sym.Assert(x.raw%fa == 0 || kept, "sizes in the file are aligned")
			sym.Assert(x.ptr >= hdrEnd, "sections do not overwrite the headers")
			sym.Assert(x.ptr+x.raw <= len(p.out), "sections lie inside the file")
		}
		if end > image {
			image = end
		}
		for j := 0; j < i; j++ {
			y := &b.secs[j]
			yend := y.va + (y.mem()+sa-1)&^(sa-1)
			apart = sym.And(apart, sym.Or(end <= y.va, yend <= x.va))
			if !x.bss() && !y.bss() {
				sym.Assert(x.ptr+x.raw <= y.ptr || y.ptr+y.raw <= x.ptr, "sections do not overlap in the file")
			}
		}
	}
	sym.Assert(apart, "sections do not overlap in memory")
	sym.Assert(b.sizeOfImage() == image, "the image size is the end of the last section")
	va, size := b.dir(dirRsrc)
	r := &b.secs[p.now]
	grown := r.raw
	if p.now == p.rsrc {
		grown -= p.a.secs[p.rsrc].raw
	}
	sym.Assert(u32(b.b, b.opt+8) == (u32(p.a.b, p.a.opt+8)+grown)&0xffffffff, "the size of initialised data follows the resource section")
	sym.Assert(va == r.va, "the resource directory is at the start of its section")
	sym.Assert(size <= r.mem() && size <= r.raw, "the resource directory fits in its section")
	lv := readRsrc(p.out[r.ptr:r.ptr+size], r.va)
	sym.Assert(len(lv.leaves) == 1, "the resource directory lists the resources")
	if p.now >= len(p.a.secs) {
		sym.Assert(r.name == ".rsrc\x00\x00\x00" && r.chars == scnData, "an added section is a readable resource section")
	}
	for d := 0; d < b.ndirs; d++ {
		if d == dirRsrc || d == dirSec {
			continue
		}
		x, xs := p.a.dir(d)
		y, ys := b.dir(d)
		sym.Assert(xs == ys, "directory sizes are kept")
		moved, follows := false, true
		for i := range p.a.secs {
			c := &p.a.secs[i]
			in := sym.And(x >= c.va, x < c.va+c.mem())
			follows = sym.And(follows, sym.Implies(in, y == x+b.secs[i].va-c.va))
			moved = sym.Or(moved, in)
		}
		sym.Assert(follows, "directories follow their section")
		sym.Assert(sym.Or(moved, y == x), "other directories are kept")
	}
}

// P06_NoRoom: an executable without room for another section header is refused, and nothing is written.
func P06_NoRoom() {
	k := sym.Choice("shape", nShapes)
	slack := sym.Choice("slack", 4)
	old := 16
	s, rsrc := buildShape(k, false, old)
	// the first section data is right after the headers, then grow the gap by small steps
	s.hdrSlack = 0
	s.fileAlign = 4
	s.layout()
	delta := []int{0, 36, 40, 44}[slack]
	for i := range s.secs {
		if len(s.secs[i].data) > 0 {
			s.secs[i].ptr += delta
		}
	}
	src := s.build()
	gap := 1 << 30
	for _, c := range s.secs {
		if c.raw > 0 && c.ptr-s.hdrEnd() < gap {
			gap = c.ptr - s.hdrEnd()
		}
	}
	var out bytes.Buffer
	err := oneResource(200, make([]byte, 200)).WriteToEXE(&out, bytes.NewReader(src))
	if err != nil {
		sym.Assert(out.Len() == 0, "nothing is written on refusal")
		sym.Assert(gap < 40, "refused only when there is no room for a section header")
		sym.Cover("refused")
		return
	}
	p := newPatched(s, rsrc, src, out.Bytes())
	checkHeaders(p)
	checkPreserved(p)
	sym.Cover("patched")
}

// geometry is an executable of three sections that are anywhere in memory, in any order, with any virtual sizes.
// Any of them may hold the resources, and any other may hold the relocations.
func geometry() (*peSpec, int) {
	s := &peSpec{plus: sym.Choice("plus", 2) == 1, stub: 0x40, fileAlign: 16, sectAlign: 64, ndirs: 6, initData: 0x100}
	rsrc := sym.Choice("rsrc", 4) - 1
	reloc := sym.Choice("reloc", 4) - 1
	sym.Assume(reloc < 0 || reloc != rsrc)
	without := sym.Choice("without", 4) - 1 // section without a virtual size
	bss := sym.Choice("bss", 2) == 1        // the second section has no data in the file
	for i := 0; i < 3; i++ {
		c := secSpec{name: []string{".a", ".b", ".c"}[i], chars: scnData}
		c.va = 64 * sym.Int(num("va", i), 16, 40)
		c.vsize = sym.Int(num("vsize", i), 1, 200)
		n := []int{16, 72, 136}[i]
		if i == rsrc {
			n = 100
		}
		c.data = make([]byte, n)
		for j := range c.data {
			c.data[j] = byte(i*64 + j)
		}
		if bss && i == 1 && i != rsrc && i != reloc {
			c.data, c.chars = nil, scnBSS
		} else if i == without {
			c.vsize = 0
		}
		if i == reloc {
			c.chars = scnReloc
		}
		s.secs = append(s.secs, c)
	}
	for i := range s.secs {
		for j := 0; j < i; j++ {
			x, y := &s.secs[i], &s.secs[j]
			sym.Assume(sym.Or(x.va+max(x.vsize, 0) <= y.va, y.va+y.vsize <= x.va))
			sym.Assume(x.va != y.va)
			if x.vsize == 0 {
				sym.Assume(sym.Or(x.va+len(x.data) <= y.va, y.va <= x.va))
			}
			if y.vsize == 0 {
				sym.Assume(sym.Or(y.va+len(y.data) <= x.va, x.va <= y.va))
			}
		}
	}
	orders := [][]int{{2, 0, 1}, {0, 1, 2}, {1, 2, 0}}
	if !sym.Thorough() {
		orders = orders[:1] // every order in memory is tried, relatively to this one
	}
	s.fileOrder = orders[sym.Choice("file", len(orders))]
	if rsrc >= 0 {
		s.dirs[dirRsrc] = [2]int{s.secs[rsrc].va, 60}
	}
	if reloc >= 0 {
		s.dirs[dirReloc] = [2]int{s.secs[reloc].va, 12}
	}
	s.hdrSlack = 40
	s.layout()
	s.overlay = []byte{1, 2, 3}
	return s, rsrc
}

func patchGeometry() *patched {
	s, rsrc := geometry()
	n := []int{4, 200}[sym.Choice("newLen", 2)]
	if t := sym.Choice("dir.sec", 4); t < 3 && t != rsrc {
		off := sym.Int("dir.off", 0, 199)
		sym.Assume(off < max(s.secs[t].vsize, 1))
		s.dirs[1] = [2]int{s.secs[t].va + off, 4}
	}
	src := s.build()
	return newPatched(s, rsrc, src, mustWrite(oneResource(n, make([]byte, n)), src, "a well-formed executable is accepted"))
}

// P05_Geometry: nothing but the resources changes, wherever the sections are in memory.
func P05_Geometry() {
	p := patchGeometry()
	checkPreserved(p)
	sym.Cover("checked")
}

// P06_Geometry: the headers of the output are consistent, wherever the sections are in memory.
func P06_Geometry() {
	p := patchGeometry()
	checkHeaders(p)
	sym.Cover("checked")
}

// P05_OptionalHeader: bytes after the directories, in the optional header, are not lost: such an executable is
// refused, or it is patched properly.
func P05_OptionalHeader() { optionalHeader(checkPreserved) }

// P06_OptionalHeader: an executable with bytes after the directories is refused, or it is consistent once patched.
func P06_OptionalHeader() { optionalHeader(checkHeaders) }

func optionalHeader(check func(p *patched)) {
	k := sym.Choice("shape", nShapes)
	s, rsrc := buildShape(k, sym.Choice("plus", 2) == 1, 100)
	s.optPad = []int{1, 2, 4, 8, 16, 40}[sym.Choice("pad", 6)]
	s.hdrSlack = []int{0, 40}[sym.Choice("slack", 2)]
	s.layout()
	pad := sym.Bytes("pad.byte", s.optPad)
	s.fill = func(b []byte) { copy(b[s.tableAt()-s.optPad:], pad) }
	src := s.build()
	var out bytes.Buffer
	if oneResource(20, make([]byte, 20)).WriteToEXE(&out, bytes.NewReader(src)) != nil {
		sym.Assert(out.Len() == 0, "nothing is written on refusal")
		sym.Cover("refused")
		return
	}
	p := newPatched(s, rsrc, src, out.Bytes())
	check(p)
	t := s.tableAt()
	sym.Assert(p.b.table == t, "the section table stays where it was")
	sym.Assert(sym.EqBytes(p.out[t-s.optPad:t], src[t-s.optPad:t]), "the end of the optional header is kept")
	sym.Cover("patched")
}

// P05_EmptySections: sections without data in the file have no place in it, whatever their position is said to be.
func P05_EmptySections() { emptySections(checkPreserved) }

// P06_EmptySections: sections without data in the file have no place in it, whatever their position is said to be.
func P06_EmptySections() { emptySections(checkHeaders) }

func emptySections(check func(p *patched)) {
	k := []int{1, 7, 8, 9, 10, 12}[sym.Choice("shape", 6)]
	s, rsrc := buildShape(k, sym.Choice("plus", 2) == 1, 100)
	s.overlay = []byte{1, 2, 3}
	s.fill = func(b []byte) {
		for i := range s.secs {
			if s.secs[i].raw == 0 {
				p32(b, s.tableAt()+40*i+20, int(sym.U32(num("ptr", i))))
			}
		}
	}
	src := s.build()
	n := []int{3, 210}[sym.Choice("newLen", 2)]
	p := newPatched(s, rsrc, src, mustWrite(oneResource(n, make([]byte, n)), src, "a well-formed executable is accepted"))
	check(p)
	sym.Cover("checked")
}
