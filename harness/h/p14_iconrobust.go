package h

import (
	"bytes"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// The documented limit is 10 MB per image, plus room for buffers growing.
const imageLimit = 0xA00000 + 1<<20

// useIcon does everything one can do with an icon.
func useIcon(ico *winres.Icon, err error) {
	sym.ObserveErr("err", err)
	if err != nil {
		sym.Assert(ico == nil, "an icon or an error")
		sym.Cover("refused")
		return
	}
	save(ico)
	rs := &winres.ResourceSet{}
	sym.Assert(rs.SetIcon(winres.ID(1), ico) == nil, "what was read can be stored")
	groupImages(rs, 1, winres.ID(1), 0)
	sym.Cover("read")
}

func useCursor(cur *winres.Cursor, err error) {
	sym.ObserveErr("err", err)
	if err != nil {
		sym.Assert(cur == nil, "a cursor or an error")
		sym.Cover("refused")
		return
	}
	saveCUR(cur)
	rs := &winres.ResourceSet{}
	sym.Assert(rs.SetCursor(winres.ID(1), cur) == nil, "what was read can be stored")
	groupImages(rs, 2, winres.ID(1), 0)
	sym.Cover("read")
}

// P14_ICO: any bytes.
func P14_ICO() {
	n := 26
	if sym.Thorough() {
		n = 40
	}
	b := sym.Bytes("file", sym.Choice("len", n+1))
	sym.MaxAlloc(imageLimit)
	ico, err := winres.LoadICO(bytes.NewReader(b))
	useIcon(ico, err)
}

// P14_CUR: any bytes.
func P14_CUR() {
	n := 26
	if sym.Thorough() {
		n = 40
	}
	b := sym.Bytes("file", sym.Choice("len", n+1))
	if len(b) >= 22 {
		someOffset(b, 18)
	}
	sym.MaxAlloc(imageLimit)
	cur, err := winres.LoadCUR(bytes.NewReader(b))
	useCursor(cur, err)
}

// someOffset writes an arbitrary position outside of b, or one of several inside.
func someOffset(b []byte, at int) {
	k := sym.Choice("offset", 6)
	if k == 0 {
		off := sym.U32("outside")
		sym.Assume(off >= uint32(len(b)))
		p32(b, at, int(off))
		return
	}
	p32(b, at, []int{0, 3, 6, 22, len(b) - 1}[k-1])
}

// P14_Entry: a file of two images, the entry of one of them being arbitrary.
func P14_Entry() {
	imgs := anyCur("img", 2)
	typ := 1 + sym.Choice("cursor", 2)
	b := icoFile(typ, imgs, 0)
	at := 6 + 16*sym.Choice("which", 2)
	copy(b[at:], sym.Bytes("entry", 12))
	if typ == 2 || sym.Choice("anywhere", 2) == 0 {
		someOffset(b, at+12)
	} else {
		copy(b[at+12:], sym.Bytes("offset", 4))
	}
	sym.MaxAlloc(imageLimit)
	if typ == 1 {
		ico, err := winres.LoadICO(bytes.NewReader(b))
		useIcon(ico, err)
	} else {
		cur, err := winres.LoadCUR(bytes.NewReader(b))
		useCursor(cur, err)
	}
}

// P14_Image: the image of a cursor file is arbitrary.
func P14_Image() {
	n := 18
	if sym.Thorough() {
		n = 30
	}
	b := icoFile(2, []icoImg{{w: 1, h: 1, data: sym.Bytes("data", sym.Choice("len", n+1))}}, 0)
	sym.MaxAlloc(imageLimit)
	cur, err := winres.LoadCUR(bytes.NewReader(b))
	useCursor(cur, err)
}

// P14_Group: an arbitrary group, and images of any length.
func P14_Group() {
	typ := 1 + sym.Choice("cursor", 2)
	rs := &winres.ResourceSet{}
	n := 20
	if sym.Thorough() {
		n = 34
	}
	g := sym.Bytes("group", sym.Choice("len", n+1))
	img := sym.Bytes("img", sym.Choice("imgLen", 7))
	sym.MaxAlloc(1 << 20)
	if typ == 1 {
		rs.Set(winres.RT_GROUP_ICON, winres.ID(1), 0, g)
		rs.Set(winres.RT_ICON, winres.ID(3), 7, img)
		ico, err := rs.GetIcon(winres.ID(1))
		useIcon(ico, err)
	} else {
		rs.Set(winres.RT_GROUP_CURSOR, winres.ID(1), 0, g)
		rs.Set(winres.RT_CURSOR, winres.ID(3), 7, img)
		cur, err := rs.GetCursor(winres.ID(1))
		useCursor(cur, err)
	}
}

// pngHead is the beginning of a PNG image of 3x5 pixels.
var pngHead = []byte("\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x03\x00\x00\x00\x05\x08\x06\x00\x00\x00")

// P14_PNG: an image that starts like a PNG or BMP file.
func P14_PNG() {
	var d []byte
	if sym.Choice("bmp", 2) == 0 {
		d = append(append([]byte{}, pngHead...), 0x26, 0x60, 0x4F, 0xDE, 0, 0, 0, 0, 'I', 'D', 'A', 'T')
		d = d[:[]int{len(d), 8, 12, 20, 29, 33}[sym.Choice("cut", 6)]]
		if n := sym.Choice("at", len(d)+1); n < len(d) {
			d[n] = sym.U8("byte")
		}
	} else {
		d = append([]byte("BM"), sym.Bytes("bmp", 28)...)
		d = d[:len(d)-sym.Choice("cut", 3)*8]
	}
	b := icoFile(2, []icoImg{{w: 1, h: 1, data: d}}, 0)
	sym.MaxAlloc(imageLimit)
	cur, err := winres.LoadCUR(bytes.NewReader(b))
	useCursor(cur, err)
}
