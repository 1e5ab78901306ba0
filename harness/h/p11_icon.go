package h

import (
	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// groupImages reads a group and finds its images, asserting that it is consistent.
func groupImages(rs *winres.ResourceSet, typ int, res winres.Identifier, lang uint16) []icoImg {
	group, image := winres.RT_GROUP_ICON, winres.RT_ICON
	if typ == 2 {
		group, image = winres.RT_GROUP_CURSOR, winres.RT_CURSOR
	}
	b := rs.Get(group, res, lang)
	sym.Assert(b != nil, "the group is stored")
	imgs := parseGroup(typ, b)
	for i := range imgs {
		d := rs.Get(image, winres.ID(imgs[i].id), 0)
		sym.Assert(d != nil, "every image listed is stored")
		sym.Assert(len(d) == imgs[i].listed, "the size listed is that of the image")
		for j := 0; j < i; j++ {
			sym.Assert(imgs[j].id != imgs[i].id, "every image has its own identifier")
		}
		if typ == 2 {
			sym.Assert(len(d) >= 4, "a hot spot")
			imgs[i].hotX, imgs[i].hotY = u16(d, 0), u16(d, 2)
			d = d[4:]
		}
		imgs[i].data = d
	}
	return imgs
}

// kept asserts that everything before is still there, except for one resource.
func kept(before []item, rs *winres.ResourceSet, but *item) {
	for _, it := range before {
		if but != nil && it.sameKey(*but) {
			continue
		}
		d := rs.Get(it.typ, it.res, it.lang)
		sym.Assert(d != nil && sym.EqBytes(d, it.data), "what was stored before is unchanged")
	}
}

// copyItems is the contents of a set, copied.
func copyItems(rs *winres.ResourceSet) []item {
	its := walkItems(rs)
	for i := range its {
		its[i].data = append([]byte{}, its[i].data...)
	}
	return its
}

// P11_Set: an icon set on top of images and icons stored in any way.
func P11_Set() {
	rs := &winres.ResourceSet{}
	a := anyIco("a", 2)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		switch sym.Choice(num("op", i), 6) {
		case 0:
			rs.Set(winres.RT_ICON, anyID(num("id", i)), sym.U16(num("lang", i)), []byte{1})
		case 1:
			rs.Set(winres.RT_ICON, winres.Name("N"), 0, []byte{2})
		case 2:
			rs.SetIcon(smallIdent(num("res", i)), mustICO(a, 0))
		case 3:
			rs.SetIconTranslation(winres.ID(1), 0x409, mustICO(a[:1], 0))
		case 4:
			rs.Set(winres.RT_ICON, winres.ID(1), 0, nil)
		case 5:
			rs.Set(winres.RT_CURSOR, anyID(num("id", i)), 0, []byte{3})
		}
	}
	before := copyItems(rs)
	res, lang := smallIdent("res"), uint16(0x409)
	b := anyIco("b", 2)
	ico := mustICO(b, 0)
	err := rs.SetIconTranslation(res, lang, ico)
	if err != nil {
		top := false
		for _, it := range before {
			if id, ok := it.res.(winres.ID); ok && sameIdent(it.typ, winres.RT_ICON) {
				top = sym.Or(top, id >= 0xFFFE)
			}
		}
		sym.Assert(top, "refused only when there are no identifiers left")
		kept(before, rs, nil)
		sym.Cover("refused")
		return
	}
	but := item{winres.RT_GROUP_ICON, res, lang, nil}
	kept(before, rs, &but)
	got := groupImages(rs, 1, res, lang)
	sameIcon(got, b)
	for _, g := range got {
		for _, it := range before {
			sym.Assert(sym.Or(!sameIdent(it.typ, winres.RT_ICON), !sameIdent(it.res, winres.ID(g.id))), "identifiers of new images are not in use")
		}
	}
	sameIcon(save(ico), b)
	back, err := rs.GetIconTranslation(res, lang)
	sym.Assert(err == nil, "the icon can be extracted")
	sameIcon(save(back), b)
	sym.Cover("set")
}

// anyID is in refrsrc; smallIdent too.

// P11_Get: the language an icon is taken from, and what is missing.
func P11_Get() {
	rs := &winres.ResourceSet{}
	a, b := anyIco("a", 1), anyIco("b", 2)
	l1, l2 := sym.U16("l1"), sym.U16("l2")
	sym.Assume(l1 != l2)
	res := winres.Name("I")
	rs.SetIconTranslation(res, l1, mustICO(a, 0))
	rs.SetIconTranslation(res, l2, mustICO(b, 0))
	ico, err := rs.GetIconTranslation(res, l1)
	sym.Assert(err == nil, "found")
	sameIcon(save(ico), a)
	ico, err = rs.GetIconTranslation(res, l2)
	sym.Assert(err == nil, "found")
	sameIcon(save(ico), b)
	ico, err = rs.GetIcon(res)
	sym.Assert(err == nil, "found")
	if l1 < l2 {
		sameIcon(save(ico), a)
	} else {
		sameIcon(save(ico), b)
	}
	l3 := sym.U16("l3")
	sym.Assume(sym.And(l3 != l1, l3 != l2))
	ico, err = rs.GetIconTranslation(res, l3)
	sym.Assert(err != nil && ico == nil, "another language is reported as missing")
	ico, err = rs.GetIcon(winres.Name("J"))
	sym.Assert(err != nil && ico == nil, "another name is reported as missing")
	ico, err = rs.GetIcon(anyID("id"))
	sym.Assert(err != nil && ico == nil, "an ID is not a name")

	// take one image away
	away := sym.Choice("away", 3)
	imgs := append(groupImages(rs, 1, res, l1), groupImages(rs, 1, res, l2)...)
	rs.Set(winres.RT_ICON, winres.ID(imgs[away].id), 0, nil)
	_, err1 := rs.GetIconTranslation(res, l1)
	_, err2 := rs.GetIconTranslation(res, l2)
	sym.Assert((err1 != nil) == (away == 0), "a missing image is reported")
	sym.Assert((err2 != nil) == (away != 0), "a missing image is reported")
	sym.Cover("got")
}

// P11_ImageLang: the image of an icon may be stored under any language; the first one is taken.
func P11_ImageLang() {
	rs := &winres.ResourceSet{}
	a := anyIco("a", 1)
	rs.SetIcon(winres.ID(1), mustICO(a, 0))
	id := winres.ID(groupImages(rs, 1, winres.ID(1), 0)[0].id)
	rs.Set(winres.RT_ICON, id, 0, nil)
	l1, l2 := sym.U16("l1"), sym.U16("l2")
	sym.Assume(l1 != l2)
	d1, d2 := sym.Bytes("d1", 3), sym.Bytes("d2", 3)
	rs.Set(winres.RT_ICON, id, l1, d1)
	rs.Set(winres.RT_ICON, id, l2, d2)
	ico, err := rs.GetIcon(winres.ID(1))
	sym.Assert(err == nil, "found")
	a[0].data = d1
	if l2 < l1 {
		a[0].data = d2
	}
	sameIcon(save(ico), a)
	sym.Cover("got")
}

// P11_Refused: an invalid identifier leaves the set as it was.
func P11_Refused() {
	rs := &winres.ResourceSet{}
	rs.SetIcon(winres.ID(1), mustICO(anyIco("a", 2), 0))
	before := copyItems(rs)
	var res winres.Identifier
	switch sym.Choice("res", 3) {
	case 0:
		res = winres.ID(0)
	case 1:
		res = winres.Name("")
	case 2:
		res = winres.Name("a\x00b")
	}
	err := rs.SetIcon(res, mustICO(anyIco("b", 2), 0))
	sym.Assert(err != nil, "an invalid identifier is refused")
	sym.Assert(rs.Count() == len(before), "nothing was added")
	kept(before, rs, nil)
	sym.Cover("refused")
}

// P11_Loaded: icons added to what was loaded from an executable.
func P11_Loaded() {
	src := &winres.ResourceSet{}
	a := anyIco("a", 2)
	src.SetIcon(winres.Name("APP"), mustICO(a, 0))
	src.Set(winres.RT_ICON, winres.ID(5+sym.Choice("gap", 2)), 0x409, sym.Bytes("x", 2))
	s, _ := buildShape(2, true, 16)
	rs := load(mustWrite(src, s.build(), "write"))
	before := copyItems(rs)
	b := anyIco("b", 2)
	res := smallIdent("res")
	sym.Assert(rs.SetIcon(res, mustICO(b, 0)) == nil, "set")
	but := item{winres.RT_GROUP_ICON, res, 0, nil}
	kept(before, rs, &but)
	sameIcon(groupImages(rs, 1, res, 0), b)
	if !sameIdent(res, winres.Name("APP")) {
		ico, err := rs.GetIcon(winres.Name("APP"))
		sym.Assert(err == nil, "the icon of the executable is still there")
		sameIcon(save(ico), a)
	}
	sym.Cover("added")
}

// P11_Listed: images are those stored, whatever size the group lists.
func P11_Listed() {
	rs := &winres.ResourceSet{}
	a := anyIco("a", 2)
	rs.SetIcon(winres.ID(1), mustICO(a, 0))
	g := append([]byte{}, rs.Get(winres.RT_GROUP_ICON, winres.ID(1), 0)...)
	p32(g, 6+14*sym.Choice("at", 2)+8, int(sym.U32("listed")))
	rs.Set(winres.RT_GROUP_ICON, winres.ID(1), 0, g)
	ico, err := rs.GetIcon(winres.ID(1))
	if err != nil {
		sym.Cover("refused")
		return
	}
	sameIcon(save(ico), a)
	sym.Assert(rs.SetIcon(winres.ID(2), ico) == nil, "set")
	sameIcon(groupImages(rs, 1, winres.ID(2), 0), a)
	sym.Cover("saved")
}
