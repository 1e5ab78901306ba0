package h

import (
	"bytes"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// wanted tells whether a resource belongs to what loading one type gives.
func wanted(typ, filter winres.Identifier) bool {
	if sameIdent(typ, filter) {
		return true
	}
	if sameIdent(filter, winres.RT_GROUP_ICON) {
		return sameIdent(typ, winres.RT_ICON)
	}
	if sameIdent(filter, winres.RT_GROUP_CURSOR) {
		return sameIdent(typ, winres.RT_CURSOR)
	}
	return false
}

// single loads one type and compares with everything that was written.
func single(exe []byte, filter winres.Identifier, all []item) {
	rs, err := winres.LoadFromEXESingleType(bytes.NewReader(exe), filter)
	if sameIdent(filter, winres.ID(0)) {
		sym.Assert(err != nil && rs == nil, "a zero type is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "loaded")
	var want []item
	for _, it := range all {
		if wanted(it.typ, filter) {
			want = append(want, it)
		}
	}
	sameItems(rs, want)
	sym.Cover("loaded")
}

// P10_Types: resources of every kind of type, any filter.
func P10_Types() {
	rs := &winres.ResourceSet{}
	var all []item
	add := func(typ winres.Identifier, res winres.Identifier, lang uint16) {
		d := []byte{byte(len(all)), sym.U8(num("d", len(all)))}
		sym.Assert(rs.Set(typ, res, lang, d) == nil, "set")
		all = append(all, item{typ, res, lang, d})
	}
	add(winres.RT_ICON, winres.ID(1), 0)
	add(winres.RT_ICON, winres.ID(7), 0x409)
	add(winres.RT_CURSOR, winres.ID(1), 0)
	add(winres.RT_GROUP_ICON, winres.Name("APP"), 0)
	add(winres.RT_GROUP_CURSOR, winres.ID(2), 0)
	if sym.Choice("other", 2) == 0 {
		t := anyID("type")
		sym.Assume(sym.And(t != winres.RT_ICON, t != winres.RT_CURSOR))
		sym.Assume(sym.And(t != winres.RT_GROUP_ICON, t != winres.RT_GROUP_CURSOR))
		add(t, winres.ID(1), 0)
		add(t, winres.ID(1), 5)
	} else {
		t := winres.Name(asciiName("typeName", 1))
		add(t, winres.Name("X"), 0)
	}
	s, _ := buildShape([]int{2, 0}[sym.Choice("shape", 2)], true, 16)
	exe := mustWrite(rs, s.build(), "write")
	var filter winres.Identifier
	switch sym.Choice("filter", 3) {
	case 0:
		filter = winres.ID(sym.U16("filterID"))
	case 1:
		filter = winres.Name(asciiName("filterName", 1))
	case 2:
		filter = all[len(all)-1].typ
	}
	single(exe, filter, all)
}

// P10_Some: which of the resources of a small set are there, by type.
func P10_Some() {
	types := []winres.Identifier{winres.RT_ICON, winres.RT_GROUP_ICON, winres.RT_CURSOR, winres.RT_GROUP_CURSOR, winres.RT_VERSION, winres.Name("ICON")}
	rs := &winres.ResourceSet{}
	var all []item
	mask := sym.Choice("mask", 64)
	for i, t := range types {
		if mask>>uint(i)&1 != 0 {
			d := []byte{byte(i), sym.U8(num("d", i))}
			rs.Set(t, winres.ID(i+1), 0, d)
			all = append(all, item{t, winres.ID(i + 1), 0, d})
		}
	}
	s, _ := buildShape(0, false, 16)
	exe := mustWrite(rs, s.build(), "write")
	single(exe, types[sym.Choice("filter", 6)], all)
}

// P10_None: no resource directory.
func P10_None() {
	s, _ := buildShape(0, true, 16)
	rs, err := winres.LoadFromEXESingleType(bytes.NewReader(s.build()), smallIdent("filter"))
	sym.Assert(err == winres.ErrNoResources, "the documented error")
	sym.Assert(rs != nil && rs.Count() == 0, "an empty set")
	sym.Cover("none")
}
