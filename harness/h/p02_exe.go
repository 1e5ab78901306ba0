package h

import (
	"bytes"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// P02_Layouts: every layout, existing resource size and new data size; arbitrary identifiers, language and bytes.
func P02_Layouts() {
	k := sym.Choice("shape", nShapes)
	plus := sym.Choice("plus", 2) == 1
	oldLens := []int{16, 100, 300}
	newLens := []int{0, 3, 64, 210}
	old := 0
	if hasRsrc(k) {
		old = oldLens[sym.Choice("oldLen", len(oldLens))]
	}
	n := newLens[sym.Choice("newLen", len(newLens))]
	s, _ := buildShape(k, plus, old)
	it := item{typ: smallIdent("type"), res: smallIdent("res"), lang: sym.U16("lang")}
	it.data = make([]byte, n)
	for i := range it.data {
		it.data[i] = byte(i + 1)
	}
	if n > 0 {
		copy(it.data, sym.Bytes("data", 1))
		it.data[n-1] = sym.U8("last")
	}
	rs := &winres.ResourceSet{}
	sym.Assert(rs.Set(it.typ, it.res, it.lang, append([]byte{}, it.data...)) == nil, "valid identifiers are accepted")
	out := mustWrite(rs, s.build(), "a well-formed executable is accepted")
	back, err := winres.LoadFromEXE(bytes.NewReader(out))
	sym.Assert(err == nil, "the patched executable loads")
	got := walkItems(back)
	sym.Assert(len(got) == 1 && back.Count() == 1, "exactly one resource")
	sym.Assert(sym.And(got[0].sameKey(it), sym.EqBytes(got[0].data, it.data)), "same identifiers, language and bytes")
	sym.ObserveLen("out", out)
	sym.Cover("back")
}

// load must succeed.
func load(exe []byte) *winres.ResourceSet {
	rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
	sym.Assert(err == nil, "the patched executable loads")
	return rs
}

// sameItems asserts that a set holds exactly these resources.
func sameItems(rs *winres.ResourceSet, want []item) {
	got := walkItems(rs)
	sym.Assert(len(got) == len(want) && rs.Count() == len(want), "exactly as many resources")
	for _, w := range want {
		found := false
		for _, g := range got {
			found = sym.Or(found, sym.And(g.sameKey(w), sym.EqBytes(g.data, w.data)))
		}
		sym.Assert(found, "same identifiers, language and bytes")
	}
}

// P02_NoResources: an executable without resources, then given an empty set.
func P02_NoResources() {
	ks := []int{0, 1, 8}
	s, _ := buildShape(ks[sym.Choice("shape", 3)], sym.Choice("plus", 2) == 1, 0)
	for i := range s.secs {
		if len(s.secs[i].data) > 0 {
			s.secs[i].data[0] = sym.U8("first")
		}
	}
	src := s.build()
	rs, err := winres.LoadFromEXE(bytes.NewReader(src))
	sym.Assert(err == winres.ErrNoResources, "no resources: the documented error")
	sym.Assert(rs != nil && rs.Count() == 0 && len(walkItems(rs)) == 0, "no resources: an empty set")
	one, err := winres.LoadFromEXESingleType(bytes.NewReader(src), winres.RT_ICON)
	sym.Assert(err == winres.ErrNoResources && one != nil && one.Count() == 0, "no resources of one type: the same")
	back := load(mustWrite(rs, src, "a well-formed executable is accepted"))
	sameItems(back, nil)
	sym.Cover("empty")
}

// tree is a set of resources that share types and names.
func tree(big int) (*winres.ResourceSet, []item) {
	rs := &winres.ResourceSet{}
	name, id := winres.Name(asciiName("name", 1)), anyID("id")
	var want []item
	add := func(t, r winres.Identifier, l uint16, n int) {
		it := item{typ: t, res: r, lang: l, data: make([]byte, n)}
		for i := range it.data {
			it.data[i] = byte(i + 1)
		}
		if n > 0 {
			it.data[n-1] = sym.U8(num("last", len(want)))
		}
		sym.Assert(rs.Set(t, r, l, append([]byte{}, it.data...)) == nil, "valid identifiers are accepted")
		want = append(want, it)
	}
	lang := sym.U16("lang")
	sym.Assume(lang != 0x409)
	add(id, name, lang, 3)
	add(id, name, 0x409, 0)
	add(id, id, lang, 8)
	add(name, id, 0x409, 1)
	add(name, winres.Name(wideNames[sym.Choice("wide", len(wideNames))]), lang, big)
	return rs, want
}

// P02_Tree: several resources sharing types and names, then a second round: load, change, write again, load.
func P02_Tree() {
	k := sym.Choice("shape", nShapes)
	old := 0
	if hasRsrc(k) {
		old = 100
	}
	s, _ := buildShape(k, sym.Choice("plus", 2) == 1, old)
	rs, want := tree([]int{5, 400}[sym.Choice("big", 2)])
	out := mustWrite(rs, s.build(), "a well-formed executable is accepted")
	back := load(out)
	sameItems(back, want)
	// drop one, replace one
	last := len(want) - 1
	sym.Assert(back.Set(want[0].typ, want[0].res, want[0].lang, nil) == nil, "deletion is accepted")
	sym.Assert(back.Set(want[last].typ, want[last].res, want[last].lang, []byte{7}) == nil, "replacement is accepted")
	want[last].data = []byte{7}
	out = mustWrite(back, out, "an executable written by WriteToEXE is accepted")
	sameItems(load(out), want[1:])
	sym.ObserveLen("out", out)
	sym.Cover("back")
}

// P02_Alignments: usual alignments, sizes around their multiples.
func P02_Alignments() {
	al := [][2]int{{0x200, 0x1000}, {0x200, 0x200}, {0x1000, 0x1000}, {1, 1}, {4, 0x40}}[sym.Choice("align", 5)]
	k := []int{0, 2, 3, 4, 5}[sym.Choice("shape", 5)]
	n := al[0]*sym.Choice("units", 3) + []int{-88, -87, 0, 1}[sym.Choice("around", 4)]
	if n < 0 {
		n = 0
	}
	old := 0
	if hasRsrc(k) {
		old = []int{16, al[0], al[1] + 1}[sym.Choice("oldLen", 3)]
		old = max(old, 16)
	}
	s, _ := buildAligned(k, sym.Choice("plus", 2) == 1, old, al[0], al[1])
	it := item{typ: anyID("type"), res: anyID("res"), lang: sym.U16("lang"), data: make([]byte, n)}
	if n > 0 {
		it.data[0], it.data[n-1] = sym.U8("first"), sym.U8("last")
	}
	rs := &winres.ResourceSet{}
	sym.Assert(rs.Set(it.typ, it.res, it.lang, append([]byte{}, it.data...)) == nil, "valid identifiers are accepted")
	sameItems(load(mustWrite(rs, s.build(), "a well-formed executable is accepted")), []item{it})
	sym.Cover("back")
}
