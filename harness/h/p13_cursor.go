package h

import (
	"bytes"
	"hash/crc32"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// anyCur is an arbitrary list of cursor images, of 16 bytes (a DIB header cut short) or a little more.
func anyCur(tag string, n int) []icoImg {
	imgs := make([]icoImg, n)
	for i := range imgs {
		t := num(tag, i)
		d := make([]byte, 16+[]int{0, 3, 1}[i%3])
		copy(d[4:], sym.Bytes(t+".data", len(d)-4))
		d[0] = []byte{40, 108, 124}[(i+sym.Choice(t+".hdr", 2))%3]
		imgs[i] = icoImg{w: oneTo256(sym.U8(t + ".w")), h: oneTo256(sym.U8(t + ".h")), hotX: int(sym.U16(t + ".x")), hotY: int(sym.U16(t + ".y")), data: d,
			planes: u16(d, 12), bits: u16(d, 14)}
	}
	return imgs
}

func mustCUR(imgs []icoImg, layout int) *winres.Cursor {
	cur, err := winres.LoadCUR(bytes.NewReader(icoFile(2, imgs, layout)))
	sym.Assert(err == nil && cur != nil, "a valid CUR file is accepted")
	return cur
}

func saveCUR(cur *winres.Cursor) []icoImg {
	var w bytes.Buffer
	sym.Assert(cur.SaveCUR(&w) == nil, "saving to memory succeeds")
	return parseICO(2, w.Bytes())
}

// sameCursor asserts that got is exactly the images of want, in the order Windows expects.
func sameCursor(got, want []icoImg, group bool) {
	sym.Assert(len(got) == len(want), "as many images")
	used := make([]bool, len(want))
	last := -1
	for i, g := range got {
		found := false
		for j, w := range want {
			if used[j] || len(g.data) != len(w.data) {
				continue
			}
			same := sym.And(sym.And(g.w == w.w, g.h == w.h), sym.And(g.hotX == w.hotX, g.hotY == w.hotY))
			if sym.And(same, sym.EqBytes(g.data, w.data)) {
				used[j] = true
				found = true
				if i > 0 {
					p := want[last]
					sym.Assert(sym.Or(p.bits > w.bits, sym.And(p.bits == w.bits, p.w >= w.w)), "deeper then larger images first")
				}
				if group {
					sym.Assert(g.planes == w.planes, "the planes of the image")
					sym.Assert(g.bits == w.bits, "the depth of the image")
				}
				last = j
				break
			}
		}
		sym.Assert(found, "same dimensions, hot spots and bytes")
	}
}

// P13_CUR: load and save, any images.
func P13_CUR() {
	n := sym.Choice("n", 4)
	imgs := anyCur("img", n)
	cur := mustCUR(imgs, sym.Choice("layout", 2))
	sameCursor(saveCUR(cur), imgs, false)
	sameCursor(saveCUR(cur), imgs, false)
	sym.Cover("same")
}

// pngImage is a PNG image as far as its header tells, with arbitrary bytes after it.
func pngImage(tag string, w, h, depth, color int) []byte {
	d := append([]byte{}, "\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR"...)
	d = append(d, 0, 0, byte(w>>8), byte(w), 0, 0, byte(h>>8), byte(h), byte(depth), byte(color), 0, 0, 0)
	c := crc32.ChecksumIEEE(d[12:])
	d = append(d, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	d = append(d, 0, 0, 0, 2, 'I', 'D', 'A', 'T')
	return append(d, sym.Bytes(tag, 3)...)
}

// P13_PNG: PNG images count as 32 bits, whatever they are, and are kept as they are.
func P13_PNG() {
	kinds := [][2]int{{8, 6}, {8, 2}, {8, 0}, {16, 6}, {8, 4}}
	k := kinds[sym.Choice("kind", len(kinds))]
	imgs := anyCur("img", 2)
	size := []int{1, 32, 256, 300}[sym.Choice("size", 4)]
	imgs[sym.Choice("which", 2)] = icoImg{w: oneTo256(sym.U8("w")), h: oneTo256(sym.U8("h")), hotX: int(sym.U16("x")), hotY: int(sym.U16("y")),
		data: pngImage("png", size, size/2+1, k[0], k[1]), planes: 1, bits: 32}
	cur := mustCUR(imgs, 0)
	sameCursor(saveCUR(cur), imgs, false)
	rs := &winres.ResourceSet{}
	sym.Assert(rs.SetCursor(winres.ID(1), cur) == nil, "set")
	sameCursor(groupImages(rs, 2, winres.ID(1), 0), imgs, true)
	back, err := rs.GetCursor(winres.ID(1))
	sym.Assert(err == nil, "the cursor can be extracted")
	sameCursor(saveCUR(back), imgs, false)
	sym.Cover("same")
}

// P13_Shared: a CUR file whose images share bytes.
func P13_Shared() {
	imgs := anyCur("img", 1+sym.Choice("n", 3))
	f := icoFile(2, imgs, 2)
	for i := range imgs {
		imgs[i].planes, imgs[i].bits = u16(imgs[i].data, 12), u16(imgs[i].data, 14)
	}
	cur, err := winres.LoadCUR(bytes.NewReader(f))
	sym.Assert(err == nil, "accepted")
	sameCursor(saveCUR(cur), imgs, false)
	sym.Cover("same")
}

// P13_Set: a cursor set on top of others, and extracted.
func P13_Set() {
	rs := &winres.ResourceSet{}
	a := anyCur("a", 1)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		switch sym.Choice(num("op", i), 6) {
		case 0:
			rs.Set(winres.RT_CURSOR, anyID(num("id", i)), sym.U16(num("lang", i)), []byte{1})
		case 1:
			rs.Set(winres.RT_CURSOR, winres.Name("N"), 0, []byte{2})
		case 2:
			rs.SetCursor(smallIdent(num("res", i)), mustCUR(a, 0))
		case 3:
			rs.SetCursorTranslation(winres.ID(1), 0x409, mustCUR(a, 0))
		case 4:
			rs.Set(winres.RT_CURSOR, winres.ID(1), 0, nil)
		case 5:
			rs.Set(winres.RT_ICON, anyID(num("id", i)), 0, []byte{3})
		}
	}
	before := copyItems(rs)
	res, lang := smallIdent("res"), uint16(0x409)
	b := anyCur("b", 2)
	cur := mustCUR(b, 0)
	err := rs.SetCursorTranslation(res, lang, cur)
	if err != nil {
		top := false
		for _, it := range before {
			if id, ok := it.res.(winres.ID); ok && sameIdent(it.typ, winres.RT_CURSOR) {
				top = sym.Or(top, id >= 0xFFFE)
			}
		}
		sym.Assert(top, "refused only when there are no identifiers left")
		kept(before, rs, nil)
		sym.Cover("refused")
		return
	}
	but := item{winres.RT_GROUP_CURSOR, res, lang, nil}
	kept(before, rs, &but)
	got := groupImages(rs, 2, res, lang)
	sameCursor(got, b, true)
	for _, g := range got {
		for _, it := range before {
			sym.Assert(sym.Or(!sameIdent(it.typ, winres.RT_CURSOR), !sameIdent(it.res, winres.ID(g.id))), "identifiers of new images are not in use")
		}
	}
	back, err := rs.GetCursorTranslation(res, lang)
	sym.Assert(err == nil, "the cursor can be extracted")
	sameCursor(saveCUR(back), b, false)
	sameCursor(saveCUR(cur), b, false)

	// and stored again elsewhere
	other := &winres.ResourceSet{}
	sym.Assert(other.SetCursor(winres.ID(1), back) == nil, "stored again")
	sameCursor(groupImages(other, 2, winres.ID(1), 0), b, true)
	sym.Cover("set")
}

// P13_Get: the language a cursor is taken from, and what is missing.
func P13_Get() {
	rs := &winres.ResourceSet{}
	a, b := anyCur("a", 1), anyCur("b", 2)
	l1, l2 := sym.U16("l1"), sym.U16("l2")
	sym.Assume(l1 != l2)
	res := winres.Name("I")
	rs.SetCursorTranslation(res, l1, mustCUR(a, 0))
	rs.SetCursorTranslation(res, l2, mustCUR(b, 0))
	cur, err := rs.GetCursorTranslation(res, l2)
	sym.Assert(err == nil, "found")
	sameCursor(saveCUR(cur), b, false)
	cur, err = rs.GetCursor(res)
	sym.Assert(err == nil, "found")
	if l1 < l2 {
		sameCursor(saveCUR(cur), a, false)
	} else {
		sameCursor(saveCUR(cur), b, false)
	}
	l3 := sym.U16("l3")
	sym.Assume(sym.And(l3 != l1, l3 != l2))
	cur, err = rs.GetCursorTranslation(res, l3)
	sym.Assert(err != nil && cur == nil, "another language is reported as missing")
	cur, err = rs.GetCursor(winres.ID(1))
	sym.Assert(err != nil && cur == nil, "another identifier is reported as missing")
	id := winres.ID(sym.Choice("away", 3) + 1)
	rs.Set(winres.RT_CURSOR, id, 0, nil)
	_, err1 := rs.GetCursorTranslation(res, l1)
	_, err2 := rs.GetCursorTranslation(res, l2)
	sym.Assert((err1 != nil) == (id == 1), "a missing image is reported")
	sym.Assert((err2 != nil) == (id != 1), "a missing image is reported")
	sym.Cover("got")
}

// P13_Refused: an invalid identifier leaves the set as it was.
func P13_Refused() {
	rs := &winres.ResourceSet{}
	rs.SetCursor(winres.ID(1), mustCUR(anyCur("a", 1), 0))
	before := copyItems(rs)
	err := rs.SetCursor([]winres.Identifier{winres.ID(0), winres.Name(""), winres.Name("a\x00b")}[sym.Choice("res", 3)], mustCUR(anyCur("b", 1), 0))
	sym.Assert(err != nil, "an invalid identifier is refused")
	sym.Assert(rs.Count() == len(before), "nothing was added")
	kept(before, rs, nil)
	sym.Cover("refused")
}

// P13_Listed: images are those stored, whatever size the group lists.
func P13_Listed() {
	rs := &winres.ResourceSet{}
	a := anyCur("a", 2)
	rs.SetCursor(winres.ID(1), mustCUR(a, 0))
	g := append([]byte{}, rs.Get(winres.RT_GROUP_CURSOR, winres.ID(1), 0)...)
	p32(g, 6+14*sym.Choice("at", 2)+8, int(sym.U32("listed")))
	rs.Set(winres.RT_GROUP_CURSOR, winres.ID(1), 0, g)
	cur, err := rs.GetCursor(winres.ID(1))
	if err != nil {
		sym.Cover("refused")
		return
	}
	sameCursor(saveCUR(cur), a, false)
	sym.Assert(rs.SetCursor(winres.ID(2), cur) == nil, "set")
	sameCursor(groupImages(rs, 2, winres.ID(2), 0), a, true)
	sym.Cover("saved")
}
