package h

import (
	"bytes"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// icoImg is one image of an icon or cursor, as files and resources describe it.
type icoImg struct {
	w, h    int // 1 to 256
	cc      int
	planes  int // in cursor files, the hot spot
	bits    int
	data    []byte
	id      int
	hotX    int
	hotY    int
	listed  int // size listed
	present bool
}

func mod256(n int) int { return n & 0xFF }

// icoFile makes an ICO (typ 1) or CUR (typ 2) file. Layouts: 0 in order, 1 backwards with gaps, 2 sharing bytes.
func icoFile(typ int, imgs []icoImg, layout int) []byte {
	b := make([]byte, 6+16*len(imgs))
	p16(b, 2, typ)
	p16(b, 4, len(imgs))
	put := func(i, at int) {
		e := 6 + 16*i
		b[e], b[e+1] = byte(imgs[i].w), byte(imgs[i].h)
		if typ == 1 {
			b[e+2] = byte(imgs[i].cc)
			p16(b, e+4, imgs[i].planes)
			p16(b, e+6, imgs[i].bits)
		} else {
			p16(b, e+4, imgs[i].hotX)
			p16(b, e+6, imgs[i].hotY)
		}
		p32(b, e+8, len(imgs[i].data))
		p32(b, e+12, at)
	}
	switch layout {
	case 0:
		for i := range imgs {
			put(i, len(b))
			b = append(b, imgs[i].data...)
		}
	case 1:
		for i := len(imgs) - 1; i >= 0; i-- {
			b = append(b, 0xEE)
			put(i, len(b))
			b = append(b, imgs[i].data...)
		}
	case 2:
		// every image is a prefix of the longest one
		long := 0
		for i := range imgs {
			if len(imgs[i].data) > len(imgs[long].data) {
				long = i
			}
		}
		for i := range imgs {
			imgs[i].data = imgs[long].data[:len(imgs[i].data)]
			put(i, len(b))
		}
		if len(imgs) > 0 {
			b = append(b, imgs[long].data...)
		}
	}
	return b
}

func oneTo256(b byte) int { return int(b-1) + 1 }

// parseICO reads an ICO or CUR file strictly.
func parseICO(typ int, b []byte) []icoImg {
	sym.Assert(len(b) >= 6, "a header")
	sym.Assert(u16(b, 0) == 0 && u16(b, 2) == typ, "the right type")
	n := u16(b, 4)
	sym.Assert(6+16*n <= len(b), "all directory entries")
	var out []icoImg
	end := 6 + 16*n
	for i := 0; i < n; i++ {
		e := 6 + 16*i
		size, at := u32(b, e+8), u32(b, e+12)
		sym.Assert(at == end, "images one after the other, none overlapping")
		sym.Assert(at+size <= len(b), "images inside the file")
		sym.Assert(typ == 1 || u16(b, e+2) == 0, "reserved")
		img := icoImg{w: oneTo256(b[e]), h: oneTo256(b[e+1]), cc: int(b[e+2]), planes: u16(b, e+4), bits: u16(b, e+6), data: b[at : at+size], listed: size}
		img.hotX, img.hotY = img.planes, img.bits
		out = append(out, img)
		end = at + size
	}
	sym.Assert(end == len(b), "nothing after the images")
	return out
}

// parseGroup reads a group resource strictly.
func parseGroup(typ int, b []byte) []icoImg {
	sym.Assert(len(b) >= 6, "a header")
	sym.Assert(u16(b, 0) == 0 && u16(b, 2) == typ, "the right type")
	n := u16(b, 4)
	sym.Assert(6+14*n == len(b), "all directory entries and nothing else")
	var out []icoImg
	for i := 0; i < n; i++ {
		e := 6 + 14*i
		img := icoImg{planes: u16(b, e+4), bits: u16(b, e+6), listed: u32(b, e+8), id: u16(b, e+12)}
		if typ == 1 {
			img.w, img.h, img.cc = oneTo256(b[e]), oneTo256(b[e+1]), int(b[e+2])
		} else {
			img.w, img.h = u16(b, e), u16(b, e+2)
		}
		out = append(out, img)
	}
	return out
}

// sameIcon asserts that got is exactly the images of want, in the order Windows expects.
func sameIcon(got, want []icoImg) {
	sym.Assert(len(got) == len(want), "as many images")
	used := make([]bool, len(want))
	for i, g := range got {
		found := false
		for j, w := range want {
			if used[j] || len(g.data) != len(w.data) {
				continue
			}
			same := sym.And(g.w == w.w, g.h == w.h)
			same = sym.And(same, sym.And(g.cc == w.cc, sym.And(g.planes == w.planes, g.bits == w.bits)))
			if sym.And(same, sym.EqBytes(g.data, w.data)) {
				used[j] = true
				found = true
				break
			}
		}
		sym.Assert(found, "same dimensions, depth and bytes")
		if i > 0 {
			p := got[i-1]
			sym.Assert(sym.Or(p.bits > g.bits, sym.And(p.bits == g.bits, p.w >= g.w)), "deeper then larger images first")
		}
	}
}

// anyIco is an arbitrary list of images. The length of each is its index modulo 3, plus a choice.
func anyIco(tag string, n int) []icoImg {
	imgs := make([]icoImg, n)
	for i := range imgs {
		t := num(tag, i)
		imgs[i] = icoImg{w: oneTo256(sym.U8(t + ".w")), h: oneTo256(sym.U8(t + ".h")), cc: int(sym.U8(t + ".cc")),
			planes: int(sym.U16(t + ".planes")), bits: int(sym.U16(t + ".bits")), data: sym.Bytes(t+".data", []int{3, 0, 4}[i%3])}
	}
	return imgs
}

func mustICO(imgs []icoImg, layout int) *winres.Icon {
	ico, err := winres.LoadICO(bytes.NewReader(icoFile(1, imgs, layout)))
	sym.Assert(err == nil && ico != nil, "a valid ICO file is accepted")
	return ico
}

func save(ico *winres.Icon) []icoImg {
	var w bytes.Buffer
	sym.Assert(ico.SaveICO(&w) == nil, "saving to memory succeeds")
	return parseICO(1, w.Bytes())
}

// P12_ICO: load and save, any images.
func P12_ICO() {
	n := sym.Choice("n", 4)
	imgs := anyIco("img", n)
	ico := mustICO(imgs, sym.Choice("layout", 3))
	got := save(ico)
	sameIcon(got, imgs)
	sameIcon(save(ico), imgs)
	sym.Cover("same")
}
