package h

import (
	"bytes"
	"strings"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

// Sizes beyond those that bytes and 16-bit words can count, the contents being mostly fixed.

// bigItems is a set of one of several kinds, large in one way.
func bigItems() []item {
	id, lang := anyID("id"), sym.U16("lang")
	last := sym.U8("last")
	var want []item
	switch sym.Choice("big", 7) {
	case 0: // one large resource
		n := []int{255, 256, 257, 4096, 65535, 65536, 65537, 70001}[sym.Choice("size", 8)]
		d := bytes.Repeat([]byte{0x5A}, n)
		d[n-1] = last
		want = append(want, item{id, winres.ID(1), lang, d})
	case 1: // two large ones
		for i := 0; i < 2; i++ {
			d := bytes.Repeat([]byte{byte(i + 1)}, 40000+i)
			d[len(d)-1] = last
			want = append(want, item{id, winres.ID(1 + i), lang, d})
		}
	case 2: // long names
		n := []int{31, 127, 128, 255, 256, 257, 1000}[sym.Choice("len", 7)]
		name := strings.Repeat("N", n-1) + asciiName("end", 1)
		want = append(want, item{winres.Name(name), winres.Name(name), lang, []byte{last}})
		want = append(want, item{winres.Name(name), winres.Name(name + "x"), lang, []byte{last, 1}})
		want = append(want, item{winres.Name(strings.Repeat("N", n-1)), id, lang, []byte{last, 1, 2}})
	case 3: // many types
		for i := 0; i < 260; i++ {
			want = append(want, item{winres.ID(260 - i), winres.ID(1), lang, []byte{last, byte(i)}})
		}
	case 4: // many resources of a type
		for i := 0; i < 260; i++ {
			want = append(want, item{id, winres.ID(1 + i*7%260), lang, []byte{last, byte(i)}})
		}
	case 5: // many languages of a resource
		for i := 0; i < 260; i++ {
			want = append(want, item{id, winres.ID(1), uint16(0xFF00 + i*11%260), []byte{last, byte(i)}})
		}
	case 6: // many names
		for i := 0; i < 260; i++ {
			want = append(want, item{id, winres.Name(num("n", i*7%260)), lang, []byte{last, byte(i)}})
		}
	}
	return want
}

// largeItems is a set whose directory, names or data need more than 16 or 20 bits of offset.
func largeItems() []item {
	last := sym.U8("last")
	var want []item
	switch sym.Choice("large", 3) {
	case 0: // more than 1 MB of data
		d := bytes.Repeat([]byte{0x5A}, 0x100001)
		d[len(d)-1] = last
		want = append(want, item{winres.ID(10), winres.ID(1), 1, d}, item{winres.ID(10), winres.ID(2), 1, []byte{last, 2}})
	case 1: // more than 64 KB of directories and data entries, then names
		for i := 0; i < 2100; i++ {
			want = append(want, item{winres.ID(10), winres.ID(1 + i*13%2100), 1, []byte{last, byte(i), byte(i >> 8)}})
		}
		want = append(want, item{winres.Name("END"), winres.Name("LAST"), 1, []byte{last, 1}})
	case 2: // more than 64 KB of names
		for i := 0; i < 70; i++ {
			want = append(want, item{winres.ID(10), winres.Name(num("NAME", 100+i) + strings.Repeat("-", 500)), 1, []byte{last, byte(i)}})
		}
	}
	return want
}

func setOf(want []item) *winres.ResourceSet {
	rs := &winres.ResourceSet{}
	for _, w := range want {
		sym.Assert(rs.Set(w.typ, w.res, w.lang, append([]byte{}, w.data...)) == nil, "valid identifiers are accepted")
	}
	return rs
}

// sameBig is sameItems for many items with concrete distinct keys, in canonical order.
func sameBig(rs *winres.ResourceSet, want []item) {
	got := walkItems(rs)
	sym.Assert(len(got) == len(want) && rs.Count() == len(want), "exactly as many resources")
	for i := range got {
		if i > 0 {
			sym.Assert(itemLess(got[i-1], got[i]), "resources are in order")
		}
	}
	for _, w := range want {
		sym.Assert(sym.EqBytes(rs.Get(w.typ, w.res, w.lang), w.data), "same identifiers, language and bytes")
	}
}

// P01_Big: large data, long names, large tables.
func P01_Big() {
	want := bigItems()
	var buf bytes.Buffer
	a := sym.Choice("arch", 2) * 3
	sym.Assert(setOf(want).WriteObject(&buf, archs[a]) == nil, "writing to memory succeeds")
	leaves := checkObject(buf.Bytes(), a)
	sym.Assert(len(leaves) == len(want), "every resource is listed once")
	all := &winres.ResourceSet{}
	for _, l := range leaves {
		sym.Assert(all.Set(l.typ, l.res, l.lang, l.data) == nil, "identifiers are valid")
	}
	sameBig(all, want)
	sym.Cover("written")
}

// P02_Big: large data, long names, large tables.
func P02_Big() {
	k := []int{0, 2, 3, 4}[sym.Choice("shape", 4)]
	s, _ := buildShape(k, k == 3, 100)
	s.overlay = []byte{1, 2, 3}
	want := bigItems()
	sameBig(load(mustWrite(setOf(want), s.build(), "a well-formed executable is accepted")), want)
	sym.Cover("back")
}

// P01_Large: more than 64 KB of directories or names, more than 1 MB of data.
func P01_Large() {
	want := largeItems()
	var buf bytes.Buffer
	sym.Assert(setOf(want).WriteObject(&buf, winres.ArchAMD64) == nil, "writing to memory succeeds")
	leaves := checkObject(buf.Bytes(), 1)
	sym.Assert(len(leaves) == len(want), "every resource is listed once")
	all := &winres.ResourceSet{}
	for _, l := range leaves {
		sym.Assert(all.Set(l.typ, l.res, l.lang, l.data) == nil, "identifiers are valid")
	}
	sameBig(all, want)
	sym.Cover("written")
}

// P02_Large: more than 64 KB of directories or names, more than 1 MB of data.
func P02_Large() {
	s, _ := buildShape(3, true, 100)
	want := largeItems()
	sameBig(load(mustWrite(setOf(want), s.build(), "a well-formed executable is accepted")), want)
	sym.Cover("back")
}

// P04_Names: names of several lengths are in ascending order, and the order they were added in does not matter.
func P04_Names() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	a, b := asciiName("a", 1+sym.Choice("a.len", n)), asciiName("b", 1+sym.Choice("b.len", n))
	sym.Assume(!sym.EqStr(a, b))
	set := func(x, y string) *winres.ResourceSet {
		rs := &winres.ResourceSet{}
		if sym.Choice("level", 2) == 0 {
			rs.Set(winres.Name(x), winres.ID(1), 1, []byte(x))
			rs.Set(winres.Name(y), winres.ID(1), 1, []byte(y))
		} else {
			rs.Set(winres.ID(1), winres.Name(x), 1, []byte(x))
			rs.Set(winres.ID(1), winres.Name(y), 1, []byte(y))
		}
		return rs
	}
	rs := set(a, b)
	got := walkItems(rs)
	sym.Assert(len(got) == 2, "both are listed")
	first := sym.Ite(a < b, 1, 0) == 1
	sym.Assert(sym.Iff(first, sym.EqBytes(got[0].data, []byte(a))), "names are in ascending order")
	sym.Assert(sym.Iff(first, sym.EqBytes(got[1].data, []byte(b))), "names are in ascending order")
	sym.Cover("ordered")
}

// P05_Big: patching a larger executable, with larger resources.
func P05_Big() { bigPatch(checkPreserved) }

// P06_Big: patching a larger executable, with larger resources.
func P06_Big() { bigPatch(checkHeaders) }

func bigPatch(check func(p *patched)) {
	k := sym.Choice("shape", nShapes)
	old := []int{5000, 70000}[sym.Choice("old", 2)]
	if !hasRsrc(k) {
		old = 0
	}
	s, rsrc := buildAligned(k, sym.Choice("plus", 2) == 1, old, 512, 4096)
	s.overlay = bytes.Repeat([]byte{0xD0, 7}, 40000)
	s.overlay[79999] = sym.U8("last")
	src := s.build()
	n := []int{3000, 9000, 70000}[sym.Choice("new", 3)]
	d := bytes.Repeat([]byte{0xAB}, n)
	d[n-1] = sym.U8("data")
	check(newPatched(s, rsrc, src, mustWrite(oneResource(n, d), src, "a well-formed executable is accepted")))
	sym.Cover("checked")
}

// P05_Stub: DOS stubs of several sizes, some of more than 64 KB.
func P05_Stub() {
	k := []int{0, 2, 3}[sym.Choice("shape", 3)]
	s, rsrc := buildShape(k, sym.Choice("plus", 2) == 1, 100)
	s.stub = []int{0x40, 0x44, 0x100, 0x1F8, 0x10080}[sym.Choice("stub", 5)]
	s.layout()
	src := s.build()
	if s.stub > 0x40 {
		src[s.stub-1] = sym.U8("last")
	}
	src[0x3B] = sym.U8("stub")
	checkPreserved(newPatched(s, rsrc, src, mustWrite(oneResource(900, sym.Bytes("data", 2)), src, "a well-formed executable is accepted")))
	sym.Cover("checked")
}

// P07_Long: the checksum of a file of a few hundred KB, whose sum overflows 32 bits unless it is folded.
func P07_Long() {
	s, _ := buildShape([]int{0, 3}[sym.Choice("shape", 2)], false, 16)
	n := []int{0, 135000}[sym.Choice("before", 2)]
	s.secs[0].data = bytes.Repeat([]byte{0xFF}, 16+n)
	s.layout()
	s.overlay = bytes.Repeat([]byte{0xFF}, 135004-n+sym.Choice("odd", 2))
	copy(s.overlay[len(s.overlay)-2:], sym.Bytes("tail", 2))
	s.checksum = 1
	data := bytes.Repeat([]byte{0xFF}, []int{3, 135001}[sym.Choice("data", 2)])
	o := mustWrite(oneResource(len(data), data), s.build(), "a well-formed executable is accepted")
	v := viewPE(o)
	sym.Assert(v.checksum() == refChecksum(o, v.opt+64), "the checksum is that of the bytes written")
	sym.Cover("summed")
}

// bigStrings is a structure that is large in one way.
func bigStrings() entries { return longStrings(sym.U16("lang"), asciiName("last", 1)) }

func longStrings(lang uint16, last string) entries {
	var es entries
	switch sym.Choice("big", 5) {
	case 0: // a long value
		n := []int{100, 127, 128, 255, 256, 257, 1000, 16383, 16384, 32000}[sym.Choice("len", 10)]
		es = append(es, entry{lang, "k", strings.Repeat("v", n-1) + last}, entry{lang, "l", last})
	case 1: // a long key
		n := []int{100, 127, 128, 255, 256, 257, 1000, 16383, 16384, 32000}[sym.Choice("len", 10)]
		es = append(es, entry{lang, strings.Repeat("k", n), last}, entry{lang, "l", last})
	case 2: // many strings
		for i := 0; i < 260; i++ {
			es = append(es, entry{lang, num("key", i*7%260), num("value", i) + last})
		}
	case 3: // many languages
		for i := 0; i < 100; i++ {
			es = append(es, entry{uint16(i * 1031 & 0xFFFF), "key", num("value", i) + last})
		}
	case 4: // several long values
		for i := 0; i < 8; i++ {
			es = append(es, entry{uint16(i % 3), num("key", i), strings.Repeat("v", 3000+i) + last})
		}
	}
	return es
}

// bigInfo is the same as a structure, with the check that every string is in a table.
func bigInfo(es entries) (*version.Info, func(lt version.LangTable)) {
	vi := &version.Info{}
	fixedFew(vi)
	setAll(vi, es)
	return vi, func(lt version.LangTable) {
		n := 0
		for _, st := range lt {
			n += len(*st)
		}
		sym.Assert(n == len(es), "as many strings")
		for _, e := range es {
			st := lt[e.lang]
			sym.Assert(st != nil, "same languages")
			v, ok := (*st)[e.key]
			sym.Assert(ok, "same keys")
			sym.Assert(sym.EqStr(v, e.value), "same values")
		}
	}
}

// P15_Long: long values and keys, many strings and languages.
func P15_Long() {
	vi, same := bigInfo(bigStrings())
	back := reread(vi)
	sameFixed(vi, back)
	same(back.Table())
	sym.Cover("back")
}

// P17_Long: long values and keys, many strings and languages.
func P17_Long() {
	es := bigStrings()
	vi, _ := bigInfo(es)
	checkVersion(vi, es)
	sym.Cover("read")
}

// P18_Long: long values and keys, many strings and languages.
func P18_Long() {
	es := longStrings(0x409, "\u20ac")
	es[0].value += asciiName("last", 1)
	vi, same := bigInfo(es)
	for i := range vi.FileVersion { // numbers are the matter of P18_Versions
		vi.FileVersion[i], vi.ProductVersion[i] = uint16(i), uint16(5*i)
	}
	back := viaJSON(vi)
	sameFixed(vi, back)
	same(back.Table())
	sym.Cover("back")
}

// P19_Long: long values and keys, many strings and languages.
func P19_Long() {
	es := bigStrings()
	vi, same := bigInfo(es)
	parts := vi.SplitTranslations()
	merged := version.MergeTranslations(parts)
	sameFixed(vi, merged)
	if len(parts) == 1 {
		same(merged.Table())
	}
	for l, p := range parts {
		sym.Assert(len(p.Table()) == 1 && p.Table()[l] != nil, "one language per part")
		for _, e := range es {
			v, ok := (*p.Table()[l])[e.key]
			sym.Assert(ok, "parts are complete")
			if e.lang == l {
				sym.Assert(sym.EqStr(v, e.value), "the strings of a part are those of its language")
			}
		}
	}
	rs := &winres.ResourceSet{}
	rs.SetVersionInfo(*vi)
	sym.Assert(rs.Count() == len(parts), "one resource per language")
	sym.Cover("merged")
}

// manyIco is a long list of images in no order, some of them alike; two of them are arbitrary.
func manyIco(typ int) []icoImg {
	large := sym.Choice("many", 4)
	n := []int{13, 50, 260, 5}[large]
	if large == 1 && sym.Thorough() {
		n = 200
	}
	imgs := make([]icoImg, n)
	for i := range imgs {
		d := make([]byte, 20+i%3)
		if large == 3 && i%3 == 0 {
			d = make([]byte, 0x90000) // offsets of more than 20 bits
		}
		d[0], d[18], d[19] = 40, byte(i), byte(i>>8)
		bits := []int{8, 32, 1, 4, 24}[i*7%5]
		imgs[i] = icoImg{w: 1 + i*101%256, h: 1 + i*59%256, cc: i % 5, planes: 1, bits: bits, hotX: i * 3, hotY: i, data: d}
		if typ == 2 {
			p16(d, 12, 1)
			p16(d, 14, bits)
			imgs[i].cc = 0
		}
	}
	if large > 1 {
		return imgs
	}
	for _, i := range []int{0, n / 2} {
		imgs[i].w = oneTo256(sym.U8(num("w", i)))
	}
	return imgs
}

// sameMany is sameIcon for concrete images except for widths: bytes 18 and 19 tell which image it is.
func sameMany(got, want []icoImg) {
	sym.Assert(len(got) == len(want), "as many images")
	seen := map[int]bool{}
	for i, g := range got {
		sym.Assert(len(g.data) >= 20, "the bytes of the image")
		j := u16(g.data, 18)
		sym.Assert(j < len(want) && !seen[j], "each image once")
		seen[j] = true
		w := want[j]
		sym.Assert(sym.And(g.w == w.w, g.h == w.h), "same dimensions")
		sym.Assert(g.cc == w.cc && sym.EqBytes(g.data, w.data), "same bytes")
		if i > 0 {
			p := got[i-1]
			x := want[u16(p.data, 18)]
			sym.Assert(x.bits > w.bits || x.bits == w.bits && p.w >= g.w, "deeper then larger images first")
		}
	}
}

// P12_Many: a file of many images.
func P12_Many() {
	imgs := manyIco(1)
	ico := mustICO(imgs, sym.Choice("layout", 2))
	got := save(ico)
	sameMany(got, imgs)
	for _, g := range got {
		sym.Assert(g.bits == imgs[u16(g.data, 18)].bits && g.planes == 1, "same depth")
	}
	sym.Cover("same")
}

// P11_Many: an icon of many images, next to others.
func P11_Many() {
	imgs := manyIco(1)
	rs := &winres.ResourceSet{}
	rs.SetIcon(winres.ID(1), mustICO(imgs[:2], 0))
	before := copyItems(rs)
	sym.Assert(rs.SetIcon(winres.Name("A"), mustICO(imgs, 0)) == nil, "set")
	kept(before, rs, nil)
	sameMany(groupImages(rs, 1, winres.Name("A"), 0), imgs)
	back, err := rs.GetIcon(winres.Name("A"))
	sym.Assert(err == nil, "the icon can be extracted")
	sameMany(save(back), imgs)
	sym.Cover("set")
}

// P13_Many: a cursor of many images, saved and stored next to others.
func P13_Many() {
	imgs := manyIco(2)
	cur := mustCUR(imgs, sym.Choice("layout", 2))
	hot := func(got []icoImg) {
		for i := range got {
			w := imgs[u16(got[i].data, 18)]
			sym.Assert(got[i].hotX == w.hotX && got[i].hotY == w.hotY, "same hot spot")
		}
		sameMany(got, imgs)
	}
	hot(saveCUR(cur))
	rs := &winres.ResourceSet{}
	rs.SetCursor(winres.ID(1), mustCUR(imgs[:2], 0))
	before := copyItems(rs)
	sym.Assert(rs.SetCursor(winres.Name("A"), cur) == nil, "set")
	kept(before, rs, nil)
	hot(groupImages(rs, 2, winres.Name("A"), 0))
	back, err := rs.GetCursor(winres.Name("A"))
	sym.Assert(err == nil, "the cursor can be extracted")
	hot(saveCUR(back))
	sym.Cover("set")
}

// P22_Long: long texts.
func P22_Long() {
	n := []int{255, 256, 1000, 5000}[sym.Choice("len", 4)]
	m := winres.AppManifest{Description: strings.Repeat("d", n) + asciiText("last"), Compatibility: winres.Win7AndAbove}
	m.Identity.Name = strings.Repeat("<n ", n/3) + "n"
	m.Identity.Version[2] = 0xFFFF
	sameManifest(viaXML(m), m)
	sym.Cover("same")
}

// asciiText is an arbitrary printable character.
func asciiText(tag string) string {
	s := sym.Str(tag, 1)
	sym.Assume(sym.And(s[0] >= ' ', s[0] < 0x7F))
	return s
}

// P23_Long: long texts.
func P23_Long() {
	n := []int{255, 256, 1000, 5000}[sym.Choice("len", 4)]
	m := winres.AppManifest{Description: strings.Repeat("d", n) + asciiText("last")}
	m.Identity.Name = strings.Repeat("<n ", n/3) + "n"
	sameManifest(manViaJSON(m), m)
	sym.Cover("same")
}
