package h

import (
	"bytes"
	"encoding/json"
	"image"
	"image/color"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

// reading performs one of the operations that must not show afterwards.
func reading(rs *winres.ResourceSet, tag string, its []item, exe []byte) {
	it := its[sym.Choice(tag+".item", len(its)-1)]
	switch sym.Choice(tag, 8) {
	case 0:
		var w bytes.Buffer
		sym.Assert(rs.WriteObject(&w, winres.ArchAMD64) == nil, "writing to memory succeeds")
	case 1:
		mustWrite(rs, exe, "written")
	case 2:
		n := 0
		rs.Walk(func(winres.Identifier, winres.Identifier, uint16, []byte) bool { n++; return n < 2 })
	case 3:
		rs.WalkType(it.typ, func(winres.Identifier, uint16, []byte) bool { return true })
	case 4:
		rs.Count()
		rs.Get(it.typ, it.res, sym.U16(tag+".lang"))
	case 5:
		rs.GetIcon(it.res)
		rs.GetCursor(it.res)
	case 6:
		// a missing resource, under any identifier
		rs.Get(winres.Name("none"), it.res, it.lang)
		rs.Get(it.typ, anyID(tag+".res"), it.lang)
		rs.GetIconTranslation(it.res, sym.U16(tag+".lang"))
		rs.Set(it.typ, winres.Name("none"), it.lang, nil)
		rs.Set(it.typ, it.res, 77, nil)
	case 7:
		rs.WriteToEXE(&bytes.Buffer{}, bytes.NewReader(exe[:len(exe)/2]))
		rs.WriteObject(&bytes.Buffer{}, "none")
	}
}

// P27_Reads: two sets made alike, one of them read in many ways in the middle and at the end.
func P27_Reads() {
	s, _ := buildShape(2, false, 40)
	exe := s.build()
	typ := winres.Identifier(winres.Name("A"))
	if sym.Choice("icons", 2) == 1 {
		typ = winres.RT_GROUP_ICON
	}
	name := winres.Name(asciiName("name", 1))
	id := anyID("id")
	lang := sym.U16("lang")
	sym.Assume(lang > 10)
	sym.Assume(lang != 77)
	b := sym.U8("data")
	its := []item{
		{typ, name, lang, []byte{b}},
		{typ, id, 5, []byte{b, 2}},
		{winres.RT_RCDATA, id, lang, []byte{3}},
	}
	more := []item{
		{typ, name, 9, []byte{4, b}},
		{winres.RT_RCDATA, name, lang, nil},
		{typ, id, 5, nil},
	}[sym.Choice("more", 3)]
	n := 1
	if sym.Thorough() {
		n = 2
	}
	quiet, busy := &winres.ResourceSet{}, &winres.ResourceSet{}
	t := table{}
	for _, it := range its {
		quiet.Set(it.typ, it.res, it.lang, it.data)
		busy.Set(it.typ, it.res, it.lang, it.data)
		t.set(it)
	}
	for i := 0; i < n; i++ {
		reading(busy, num("first", i), its, exe)
	}
	for _, rs := range []*winres.ResourceSet{quiet, busy} {
		sym.Assert(rs.Set(more.typ, more.res, more.lang, more.data) == nil, "accepted")
	}
	if more.data != nil {
		t.set(more)
	} else {
		t.delete(more)
	}
	reading(busy, "then", its, exe)
	t.agree(busy)
	t.agree(quiet)
	sym.Assert(sym.EqBytes(mustWrite(busy, exe, "written"), mustWrite(quiet, exe, "written")), "the same executable")
	sym.Cover("same")
}

// P27_Twice: any set, written several times in several forms, in any order.
func P27_Twice() {
	rs, _ := tree(0)
	s, _ := buildShape(sym.Choice("shape", nShapes), sym.Choice("plus", 2) == 1, 100)
	exe := s.build()
	object := func() []byte {
		var w bytes.Buffer
		sym.Assert(rs.WriteObject(&w, winres.ArchARM64) == nil, "writing to memory succeeds")
		return w.Bytes()
	}
	var o, x []byte
	first := sym.Choice("first", 2)
	for i := 0; i < 4; i++ {
		if i%2 == first {
			o2 := object()
			sym.Assert(o == nil || sym.EqBytes(o, o2), "the same object again")
			o = o2
		} else {
			x2 := mustWrite(rs, exe, "written")
			sym.Assert(x == nil || sym.EqBytes(x, x2), "the same executable again")
			x = x2
		}
	}
	sym.Assert(sym.EqBytes(exe, s.build()), "the source is not written to")
	sym.Cover("same")
}

// P27_Loaded: a loaded set doesn't depend on where it came from, and patching the result again changes nothing.
func P27_Loaded() {
	rs, _ := tree(0)
	s, _ := buildShape(sym.Choice("shape", nShapes), sym.Choice("plus", 2) == 1, 100)
	exe := mustWrite(rs, s.build(), "written")
	src := append([]byte{}, exe...)
	got := load(src)
	want := copyItems(got)
	for i := range src {
		src[i] = 0xEE
	}
	sameItems(got, want)
	again := mustWrite(got, exe, "written again")
	sameItems(got, want)
	sameItems(load(again), want)
	sym.Assert(sym.EqBytes(mustWrite(got, exe, "written again"), again), "the same executable again")
	sym.Cover("same")
}

// P27_Icon: an icon saved, stored in two sets, extracted and saved again, in any order.
func P27_Icon() {
	n := 1 + sym.Choice("n", 3)
	imgs := anyIco("img", n)
	b := icoFile(1, imgs, sym.Choice("layout", 3))
	for i := range imgs {
		imgs[i].data = append([]byte{}, imgs[i].data...)
	}
	ico, err := winres.LoadICO(bytes.NewReader(b))
	sym.Assert(err == nil, "a valid ICO file is accepted")
	for i := range b {
		b[i] = 0xEE
	}
	rs, other := &winres.ResourceSet{}, &winres.ResourceSet{}
	id := anyID("id")
	var first []byte
	saved := func(ico *winres.Icon) {
		var w bytes.Buffer
		sym.Assert(ico.SaveICO(&w) == nil, "saving to memory succeeds")
		sym.Assert(first == nil || sym.EqBytes(w.Bytes(), first), "the same file again")
		first = w.Bytes()
	}
	if sym.Choice("saved", 2) == 1 {
		saved(ico)
	}
	sym.Assert(rs.SetIcon(id, ico) == nil, "accepted")
	sym.Assert(other.SetIcon(id, ico) == nil, "accepted")
	saved(ico)
	sym.Assert(rs.SetIconTranslation(id, 9, ico) == nil, "accepted")
	// deleting images from one set leaves the other, and the icons extracted before, alone
	got, err := rs.GetIcon(id)
	sym.Assert(err == nil, "extracted")
	for i := 0; i < 2*n; i++ {
		rs.Set(winres.RT_ICON, winres.ID(i+1), 0, nil)
	}
	saved(got)
	got, err = other.GetIcon(id)
	sym.Assert(err == nil, "extracted")
	saved(got)
	saved(ico)
	sameIcon(parseICO(1, first), imgs)
	sym.Cover("same")
}

// P27_Cursor: the same with a cursor.
func P27_Cursor() {
	n := 1 + sym.Choice("n", 3)
	imgs := anyCur("img", n)
	b := icoFile(2, imgs, sym.Choice("layout", 2))
	for i := range imgs {
		imgs[i].data = append([]byte{}, imgs[i].data...)
	}
	cur, err := winres.LoadCUR(bytes.NewReader(b))
	sym.Assert(err == nil, "a valid CUR file is accepted")
	for i := range b {
		b[i] = 0xEE
	}
	rs, other := &winres.ResourceSet{}, &winres.ResourceSet{}
	id := anyID("id")
	var first []byte
	saved := func(cur *winres.Cursor) {
		var w bytes.Buffer
		sym.Assert(cur.SaveCUR(&w) == nil, "saving to memory succeeds")
		sym.Assert(first == nil || sym.EqBytes(w.Bytes(), first), "the same file again")
		first = w.Bytes()
	}
	if sym.Choice("saved", 2) == 1 {
		saved(cur)
	}
	sym.Assert(rs.SetCursor(id, cur) == nil, "accepted")
	sym.Assert(other.SetCursor(id, cur) == nil, "accepted")
	saved(cur)
	sym.Assert(rs.SetCursorTranslation(id, 9, cur) == nil, "accepted")
	got, err := rs.GetCursor(id)
	sym.Assert(err == nil, "extracted")
	for i := 0; i < 2*n; i++ {
		rs.Set(winres.RT_CURSOR, winres.ID(i+1), 0, nil)
	}
	saved(got)
	got, err = other.GetCursor(id)
	sym.Assert(err == nil, "extracted")
	saved(got)
	saved(cur)
	sameCursor(parseICO(2, first), imgs, false)
	sym.Cover("same")
}

// spoil changes everything in a table.
func spoil(lt version.LangTable, key string) {
	for l, st := range lt {
		if st != nil {
			(*st)["new"] = "new"
			delete(*st, key)
		}
		if l == 0x409 {
			delete(lt, l)
		}
	}
	lt[77] = &version.StringTable{"new": "y"}
}

// P27_Version: whatever is done with copies and parts of version information doesn't change it.
func P27_Version() {
	es := manyLangs(2)
	vi := &version.Info{}
	fixedFew(vi)
	vi.FileVersion, vi.ProductVersion = [4]uint16{1, 2, 3, 65535}, [4]uint16{5, 2}
	setAll(vi, es)
	before := vi.Bytes()
	n := 1
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		switch sym.Choice(num("op", i), 6) {
		case 0:
			spoil(vi.Table(), es[0].key)
			vi.Table().GetMainTranslation()["new"] = "new"
		case 1:
			for _, part := range vi.SplitTranslations() {
				part.FileVersion[0]++
				part.Set(version.LangNeutral, es[0].key, "spoilt")
				part.SetProductVersion("8.8.8.8")
				spoil(part.Table(), es[0].key)
				for _, e := range es {
					part.Set(e.lang, e.key, "spoilt")
				}
			}
		case 2:
			b := vi.Bytes()
			for j := range b {
				b[j] = 0xEE
			}
		case 4:
			b := vi.Bytes()
			got, err := version.FromBytes(b)
			sym.Assert(err == nil, "read")
			for k := range b {
				b[k] = 0xEE
			}
			sameTable(got.Table(), es)
			got.SetFileVersion("8.8.8.8")
			for _, e := range es {
				got.Set(e.lang, e.key, "spoilt")
			}
		case 5:
			rs := &winres.ResourceSet{}
			rs.SetVersionInfo(*vi)
			rs.SetVersionInfo(*vi)
		case 3:
			l := es[0].lang
			m := version.MergeTranslations(map[uint16]*version.Info{l: vi, l + 1: vi})
			for _, e := range es {
				m.Set(e.lang, e.key, "spoilt")
				m.Set(l+1, e.key, "spoilt")
			}
			m.SetFileVersion("8.8.8.8")
		}
	}
	sym.Assert(sym.EqBytes(vi.Bytes(), before), "the same bytes again")
	sameTable(vi.Table(), es)
	sym.Cover("same")
}

// P27_JSON: what was read from JSON, XML or bytes doesn't depend on the document any more.
func P27_JSON() {
	vi := &version.Info{FileVersion: [4]uint16{1, 2, 3, 65535}, Type: version.DLL}
	vi.Flags.Debug, vi.Flags.Patched = sym.Bool("debug"), sym.Bool("patched")
	es := entries{{lang: []uint16{0, 0x409, 0xFFFF}[sym.Choice("lang", 3)], key: asciiName("key", 1), value: valueStr("value", 1)}}
	setAll(vi, es)
	j, err := json.Marshal(vi)
	sym.Assert(err == nil, "marshalled")
	j2, err := json.Marshal(vi)
	sym.Assert(err == nil && sym.EqBytes(j, j2), "the same document again")
	got := &version.Info{}
	sym.Assert(json.Unmarshal(j, got) == nil, "read")
	for k := range j {
		j[k] = ' '
	}
	sameTable(got.Table(), es)
	sameFixed(got, vi)
	sameTable(vi.Table(), es)
	sym.Cover("same")
}

// P27_Manifest: a manifest stored twice, read and stored again.
func P27_Manifest() {
	m := winres.AppManifest{Description: asciiName("description", 1), UIAccess: sym.Bool("ui"), LongPathAware: sym.Bool("long")}
	sym.Assume(sym.And(m.Description[0] > ' ', m.Description[0] < 0x7F))
	m.Identity.Name = "n"
	m.Identity.Version = [4]uint16{1, 2, 3, 4}
	keep := m
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	a := append([]byte{}, rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDDefault)...)
	rs.SetManifest(m)
	b := rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDDefault)
	sym.Assert(sym.EqBytes(a, b), "the same XML again")
	sym.Assert(rs.Count() == 1, "one manifest")
	got, err := winres.AppManifestFromXML(a)
	sym.Assert(err == nil, "read")
	sym.Assert(sym.EqBytes(a, b), "reading leaves the document alone")
	for i := range a {
		a[i] = ' '
	}
	sameManifest(got, keep)
	sameManifest(m, keep)
	sym.Cover("same")
}

// P27_Built: icons and cursors made of images are stored and saved again and again, whatever becomes of the images.
func P27_Built() {
	img := anyImage("img", 1+sym.Choice("width", 2), 1+sym.Choice("height", 2))
	opaque := image.NewNRGBA(image.Rect(0, 0, 3, 3))
	for i := 0; i < 9; i++ {
		opaque.SetNRGBA(i%3, i/3, color.NRGBA{byte(i), sym.U8("green"), 9, 255})
	}
	imgs := []image.Image{img, opaque}
	if sym.Choice("order", 2) == 1 {
		imgs[0], imgs[1] = opaque, img
	}
	ico, cur := both(imgs)
	cursor := sym.Choice("cursor", 2) == 1
	use := func(lang uint16, save bool) ([]item, []byte) {
		rs := &winres.ResourceSet{}
		var w bytes.Buffer
		if cursor {
			sym.Assert(rs.SetCursorTranslation(winres.ID(1), lang, cur) == nil, "stored")
			if save {
				sym.Assert(cur.SaveCUR(&w) == nil, "saved")
			}
		} else {
			sym.Assert(rs.SetIconTranslation(winres.ID(1), lang, ico) == nil, "stored")
			if save {
				sym.Assert(ico.SaveICO(&w) == nil, "saved")
			}
		}
		return copyItems(rs), w.Bytes()
	}
	want, file := use(5, sym.Choice("save", 2) == 1)
	for i := range opaque.Pix {
		opaque.Pix[i] = 0x77
	}
	again, file2 := use(5, true)
	sym.Assert(len(again) == len(want), "the same resources")
	for i := range want {
		sym.Assert(want[i].sameKey(again[i]) && sym.EqBytes(want[i].data, again[i].data), "the same resources")
	}
	_, file3 := use(5, true)
	sym.Assert(len(file) == 0 || sym.EqBytes(file, file2), "the same file")
	sym.Assert(sym.EqBytes(file2, file3), "the same file")
	sym.Cover("same")
}
