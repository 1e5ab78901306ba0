package h

import (
	"unicode/utf16"

	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

func again(vi *version.Info, err error) {
	sym.ObserveErr("err", err)
	if err != nil {
		sym.Assert(vi == nil, "a result or an error")
		sym.Cover("refused")
		return
	}
	sym.Assert(vi != nil, "a result or an error")
	b := vi.Bytes()
	back, err := version.FromBytes(b)
	sym.Assert(err == nil, "what was read can be written and read again")
	sameFixedNoStamp(vi, back)
	lt := vi.Table()
	var es entries
	for l, st := range lt {
		for k, v := range *st {
			sym.Assert(k != "" && !hasNUL(k) && !hasNUL(v), "keys and values are such as can be set")
			es = append(es, entry{l, k, v})
		}
	}
	sameTable(back.Table(), es)
	for range vi.SplitTranslations() {
	}
	sym.Cover("read")
}

func hasNUL(s string) bool {
	nul := false
	for i := 0; i < len(s); i++ {
		nul = sym.Or(nul, s[i] == 0)
	}
	return nul
}

func sameFixedNoStamp(a, b *version.Info) {
	for i := 0; i < 4; i++ {
		sym.Assert(a.FileVersion[i] == b.FileVersion[i], "same file version")
		sym.Assert(a.ProductVersion[i] == b.ProductVersion[i], "same product version")
	}
	sym.Assert(a.Type == b.Type, "same type")
}

// P16_Raw: any bytes, of any length.
func P16_Raw() {
	n := 12
	if sym.Thorough() {
		n = 16
	}
	b := sym.Bytes("data", sym.Choice("len", n))
	sym.MaxAlloc(1 << 20)
	vi, err := version.FromBytes(b)
	again(vi, err)
}

// vput appends a node header and key.
func vput(b []byte, length, valueLength, typ int, key string) []byte {
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	b = append(b, byte(length), byte(length>>8), byte(valueLength), byte(valueLength>>8), byte(typ), byte(typ>>8))
	for _, c := range utf16.Encode([]rune(key)) {
		b = append(b, byte(c), byte(c>>8))
	}
	return append(b, 0, 0)
}

// verTree is a structure with one string, followed by extra bytes in the table. It returns the positions of its nodes.
func verTree(extra int) ([]byte, []int) {
	var at []int
	b := vput(nil, 0, 52, 0, "VS_VERSION_INFO")
	at = append(at, 0)
	b = append(b, 0, 0)
	fixed := make([]byte, 52)
	p32(fixed, 0, 0xFEEF04BD)
	p32(fixed, 36, 1)
	b = append(b, fixed...)
	at = append(at, len(b))
	b = vput(b, 0, 0, 1, "StringFileInfo")
	at = append(at, len(b))
	b = vput(b, 0, 0, 1, "040904b0")
	at = append(at, al4(len(b)))
	b = vput(b, 0, 3, 1, "abc")
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	b = append(b, 'x', 0, 'y', 0, 0, 0)
	p16(b, at[3], len(b)-at[3])
	b = append(b, make([]byte, extra)...)
	for _, o := range at[:3] {
		p16(b, o, len(b)-o)
	}
	return b, at
}

// P16_Node: one node of a structure has an arbitrary length and value length, and the structure is cut anywhere.
func P16_Node() {
	b, at := verTree(0)
	o := at[sym.Choice("node", len(at))]
	p16(b, o, int(sym.U16("length")))
	p16(b, o+2, int(sym.U16("valueLength")))
	p16(b, o+4, int(sym.U16("type")))
	cut := []int{0, 1, 2, 3, 4, 6, 8}[sym.Choice("cut", 7)]
	b = b[:len(b)-cut]
	if cut > 0 && sym.Choice("cutRoot", 2) == 1 {
		p16(b, 0, len(b))
	}
	sym.MaxAlloc(1 << 20)
	vi, err := version.FromBytes(b)
	again(vi, err)
}

// P16_Tail: arbitrary bytes where the strings of a language are.
func P16_Tail() {
	n := 16
	if sym.Thorough() {
		n = 19
	}
	extra := sym.Choice("len", n)
	b, at := verTree(extra + 2)
	end := len(b) - extra - 2
	end = al4(end)
	b = b[:end]
	b = append(b, sym.Bytes("tail", extra)...)
	for _, o := range at[:3] {
		p16(b, o, len(b)-o)
	}
	sym.MaxAlloc(1 << 20)
	vi, err := version.FromBytes(b)
	again(vi, err)
}

// P16_Lang: an arbitrary name for the string table.
func P16_Lang() {
	b, at := verTree(0)
	copy(b[at[2]+6:], sym.Bytes("lang", 4))
	b[at[2]+6+8] = sym.U8("page")
	sym.MaxAlloc(1 << 20)
	vi, err := version.FromBytes(b)
	again(vi, err)
}

// P16_Fixed: an arbitrary fixed part, of an arbitrary declared size.
func P16_Fixed() {
	b, at := verTree(0)
	copy(b[40:84], sym.Bytes("fixed", 44))
	switch sym.Choice("with", 5) {
	case 1:
		copy(b[84:92], []byte{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF})
	case 2:
		copy(b[84:92], []byte{0, 0, 0, 0x80, 0, 0, 0, 0})
	case 3:
		p16(b, at[0]+2, 51)
	case 4:
		p16(b, at[0]+2, 53)
	}
	sym.MaxAlloc(1 << 20)
	vi, err := version.FromBytes(b)
	again(vi, err)
}

// P16_Stamp: an arbitrary timestamp.
func P16_Stamp() {
	b, _ := verTree(0)
	copy(b[84:92], sym.Bytes("stamp", 8))
	vi, err := version.FromBytes(b)
	if err != nil {
		sym.Assert(false, "readable")
		return
	}
	c := vi.Bytes()
	sym.Assert(len(c) > len(b), "what was read can be written")
	sym.Cover("read")
}

// P16_Content: arbitrary key and value.
func P16_Content() {
	b, at := verTree(0)
	if sym.Choice("what", 2) == 0 {
		copy(b[at[3]+6:], sym.Bytes("key", 6))
	} else {
		copy(b[len(b)-6:], sym.Bytes("value", 6))
	}
	sym.MaxAlloc(1 << 20)
	vi, err := version.FromBytes(b)
	again(vi, err)
}
