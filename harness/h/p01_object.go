package h

import (
	"bytes"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

var archs = []winres.Arch{winres.ArchI386, winres.ArchAMD64, winres.ArchARM, winres.ArchARM64}
var machines = []int{0x14c, 0x8664, 0x1c4, 0xaa64}
var relocTypes = []int{7, 3, 2, 2}

// checkObject verifies a COFF object against the specification and returns the resources in it.
func checkObject(o []byte, arch int) []leaf {
	sym.Assert(len(o) >= 60, "headers fit")
	sym.Assert(u16(o, 0) == machines[arch], "machine")
	sym.Assert(u16(o, 2) == 1, "one section")
	sym.Assert(u32(o, 12) == 1, "one symbol")
	sym.Assert(u16(o, 16) == 0, "no optional header")
	sym.Assert(string(o[20:28]) == ".rsrc\x00\x00\x00", "section name")
	size, raw := u32(o, 36), u32(o, 40)
	rel, nrel := u32(o, 44), u16(o, 52)
	symtab := u32(o, 8)
	sym.Assert(u16(o, 54) == 0 && u32(o, 48) == 0, "no line numbers")
	sym.Assert(u32(o, 56) == 0x40000040, "readable initialised data")
	sym.Assert(raw >= 60, "section data follows the headers")
	sym.Assert(raw+size <= len(o), "section data inside the file")
	sym.Assert(rel >= raw+size && rel+10*nrel <= symtab, "relocations after the data and before the symbols")
	sym.Assert(symtab+18+4 == len(o), "symbol and string table end the file")
	sym.Assert(string(o[symtab:symtab+8]) == ".rsrc\x00\x00\x00", "symbol name")
	sym.Assert(u32(o, symtab+8) == 0 && u16(o, symtab+12) == 1, "symbol is the section")
	sym.Assert(o[symtab+16] == 3 && o[symtab+17] == 0, "static symbol without auxiliary record")
	sym.Assert(u32(o, symtab+18) == 4, "empty string table")
	r := readRsrc(o[raw:raw+size], 0)
	sym.Assert(nrel == len(r.leaves), "one relocation per data entry")
	seen := map[int]bool{}
	for i := 0; i < nrel; i++ {
		p := rel + 10*i
		sym.Assert(u32(o, p+4) == 0, "relocation against the section symbol")
		sym.Assert(u16(o, p+8) == relocTypes[arch], "relocation is image relative")
		seen[u32(o, p)] = true
	}
	for _, l := range r.leaves {
		sym.Assert(seen[l.entryAt], "every data address is relocated")
	}
	sym.Assert(len(seen) == nrel, "no relocation twice")
	return r.leaves
}

// P01_Object: any set of up to n resources under arbitrary identifiers, languages and data.
func P01_Object() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	arch := sym.Choice("arch", 4)
	rs := &winres.ResourceSet{}
	lens := []int{0, 1, 8}
	var want []item
	for i := 0; i < n; i++ {
		it := item{typ: smallIdent(num("type", i)), res: smallIdent(num("res", i)), lang: sym.U16(num("lang", i))}
		it.data = sym.Bytes(num("data", i), lens[(i+arch)%len(lens)])
		sym.Assert(rs.Set(it.typ, it.res, it.lang, append([]byte{}, it.data...)) == nil, "valid identifiers are accepted")
		if i > 0 {
			sym.Assume(!it.sameKey(want[0]) && (i < 2 || !it.sameKey(want[1])))
		}
		want = append(want, it)
	}
	var buf bytes.Buffer
	sym.Assert(rs.WriteObject(&buf, archs[arch]) == nil, "writing to memory succeeds")
	o := buf.Bytes()
	checkLeaves(checkObject(o, arch), want)
	sym.ObserveBytes("object", o)
	sym.Cover("written")
}

// P01_AnyIdent: one resource under every kind of identifier, names being of one or several UTF-16 units.
func P01_AnyIdent() {
	arch := sym.Choice("arch", 4)
	it := item{typ: anyIdent("type"), res: anyIdent("res"), lang: sym.U16("lang")}
	it.data = sym.Bytes("data", sym.Choice("len", 10))
	rs := &winres.ResourceSet{}
	sym.Assert(rs.Set(it.typ, it.res, it.lang, append([]byte{}, it.data...)) == nil, "valid identifiers are accepted")
	var buf bytes.Buffer
	sym.Assert(rs.WriteObject(&buf, archs[arch]) == nil, "writing to memory succeeds")
	checkLeaves(checkObject(buf.Bytes(), arch), []item{it})
	sym.ObserveBytes("object", buf.Bytes())
	sym.Cover("written")
}

// P01_Tree: resources that share types and names, so that tables have several entries of each kind.
func P01_Tree() {
	rs := &winres.ResourceSet{}
	arch := sym.Choice("arch", 4)
	name, id := winres.Name(asciiName("name", 1)), anyID("id")
	var want []item
	add := func(t, r winres.Identifier, l uint16, n int) {
		it := item{typ: t, res: r, lang: l, data: sym.Bytes(num("data", len(want)), n)}
		sym.Assert(rs.Set(t, r, l, append([]byte{}, it.data...)) == nil, "valid identifiers are accepted")
		want = append(want, it)
	}
	lang := sym.U16("lang")
	sym.Assume(lang != 7)
	add(id, name, lang, 3)
	add(id, name, 7, 0)
	add(id, id, lang, 8)
	add(name, id, 7, 1)
	add(name, name, lang, 5)
	if sym.Thorough() {
		add(name, winres.Name("zz"), lang, 13)
		add(name, winres.Name("zz"), 7, 16)
	}
	var buf bytes.Buffer
	sym.Assert(rs.WriteObject(&buf, archs[arch]) == nil, "writing to memory succeeds")
	checkLeaves(checkObject(buf.Bytes(), arch), want)
	sym.ObserveBytes("object", buf.Bytes())
	sym.Cover("written")
}

// P01_Empty: the empty set, also after everything was removed.
func P01_Empty() {
	arch := sym.Choice("arch", 4)
	rs := &winres.ResourceSet{}
	if sym.Choice("removed", 2) == 1 {
		t, r, l := smallIdent("type"), smallIdent("res"), sym.U16("lang")
		rs.Set(t, r, l, []byte{1})
		rs.Set(t, r, l, nil)
	}
	var buf bytes.Buffer
	sym.Assert(rs.WriteObject(&buf, archs[arch]) == nil, "writing to memory succeeds")
	checkLeaves(checkObject(buf.Bytes(), arch), nil)
	sym.Cover("written")
}

// P01_Arch: any other architecture name is refused, and nothing is written.
func P01_Arch() {
	a := winres.Arch(sym.Str("arch", sym.Choice("len", 7)))
	rs := oneResource(3, []byte{1})
	var buf bytes.Buffer
	err := rs.WriteObject(&buf, a)
	known := false
	for _, k := range archs {
		known = sym.Or(known, sym.EqStr(string(k), string(a)))
	}
	sym.Assert(sym.Iff(err == nil, known), "exactly the supported architectures are accepted")
	if err != nil {
		sym.Assert(buf.Len() == 0, "nothing is written for an unknown architecture")
		sym.Cover("refused")
	} else {
		sym.Cover("accepted")
	}
	sym.ObserveErr("err", err)
}
