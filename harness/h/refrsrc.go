package h

import (
	"sort"
	"unicode/utf16"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// An independent reader of the resource directory, written from the PE/COFF specification.
// It asserts structural validity as it goes.

type leaf struct {
	item
	entryAt int // offset of the data entry
	dataAt  int // offset of the data
}

type span struct{ from, to int }

type rsrcReader struct {
	b      []byte
	base   int
	leaves []leaf
	spans  []span // directory tables, data entries and data: must not overlap
}

func (r *rsrcReader) claim(from, n int) {
	sym.Assert(sym.And(from >= 0, from+n <= len(r.b)), "resource structure lies inside the section")
	r.spans = append(r.spans, span{from, from + n})
}

func (r *rsrcReader) name(off int) winres.Name {
	sym.Assert(off+2 <= len(r.b), "name lies inside the section")
	sym.Assert(off%2 == 0, "name is 2-byte aligned")
	n := u16(r.b, off)
	sym.Assert(off+2+2*n <= len(r.b), "name lies inside the section")
	u := make([]uint16, n)
	for i := range u {
		u[i] = uint16(u16(r.b, off+2+2*i))
	}
	return winres.Name(string(utf16.Decode(u)))
}

type dirEnt struct {
	id  winres.Identifier
	off int
	sub bool
}

func (r *rsrcReader) table(off int) []dirEnt {
	sym.Assert(off%4 == 0, "directory table is aligned")
	r.claim(off, 16)
	nn, ni := u16(r.b, off+12), u16(r.b, off+14)
	r.claim(off+16, 8*(nn+ni))
	var out []dirEnt
	for i := 0; i < nn+ni; i++ {
		p := off + 16 + 8*i
		id, to := u32(r.b, p), u32(r.b, p+4)
		e := dirEnt{off: to & 0x7fffffff, sub: to>>31 != 0}
		if i < nn {
			sym.Assert(id>>31 != 0, "named entries come first")
			e.id = r.name(id & 0x7fffffff)
		} else {
			sym.Assert(id>>16 == 0, "ID entries follow the named ones")
			e.id = winres.ID(id)
		}
		if i > 0 {
			sym.Assert(identLess(out[i-1].id, e.id), "entries are strictly ascending, names before IDs")
		}
		out = append(out, e)
	}
	return out
}

// readRsrc reads a whole section; base is subtracted from every data RVA.
func readRsrc(b []byte, base int) *rsrcReader {
	r := &rsrcReader{b: b, base: base}
	for _, t := range r.table(0) {
		sym.Assert(t.sub, "type entries point to a table")
		for _, n := range r.table(t.off) {
			sym.Assert(n.sub, "resource entries point to a table")
			for _, l := range r.table(n.off) {
				sym.Assert(!l.sub, "language entries point to data")
				id, isID := l.id.(winres.ID)
				sym.Assert(isID, "languages are numbers")
				sym.Assert(l.off%4 == 0, "data entry is aligned")
				r.claim(l.off, 16)
				at, size := u32(b, l.off)-base, u32(b, l.off+4)
				sym.Assert(at%4 == 0, "data is aligned")
				r.claim(at, size)
				sym.Assert(u32(b, l.off+12) == 0, "reserved field is zero")
				r.leaves = append(r.leaves, leaf{item{t.id, n.id, uint16(id), b[at : at+size]}, l.off, at})
			}
		}
	}
	if len(r.spans) > 100 { // neighbours will do
		var full []span
		for _, x := range r.spans {
			if x.from < x.to {
				full = append(full, x)
			}
		}
		sort.Slice(full, func(i, j int) bool { return full[i].from < full[j].from })
		for i := 1; i < len(full); i++ {
			sym.Assert(full[i-1].to <= full[i].from, "resource structures do not overlap")
		}
		return r
	}
	for i, x := range r.spans {
		for _, y := range r.spans[:i] {
			sym.Assert(x.to <= y.from || y.to <= x.from || x.from == x.to || y.from == y.to, "resource structures do not overlap")
		}
	}
	return r
}

// checkLeaves asserts that the leaves are exactly the expected items (in any order of want).
func checkLeaves(got []leaf, want []item) {
	sym.Assert(len(got) == len(want), "as many resources in the section as in the set")
	for _, w := range want {
		found := false
		for _, g := range got {
			found = sym.Or(found, sym.And(g.sameKey(w), sym.EqBytes(g.data, w.data)))
		}
		sym.Assert(found, "every resource is found with its data")
	}
}
