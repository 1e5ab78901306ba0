package h

import (
	"unicode/utf16"

	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

// An independent reader of VS_VERSIONINFO, written from the Windows documentation.

type vnode struct {
	length, valueLength, typ int
	key                      string
	value                    int // offset of the value, or of the first child
	end                      int
}

func al4(n int) int { return (n + 3) &^ 3 }

func wideZ(b []byte, off, end int) (string, int) {
	var u []uint16
	for {
		sym.Assert(off+2 <= end, "strings are terminated inside their node")
		c := uint16(u16(b, off))
		off += 2
		if c == 0 {
			return string(utf16.Decode(u)), off
		}
		u = append(u, c)
	}
}

// vread reads the header of the node at off, inside a parent that ends at end.
func vread(b []byte, off, end int) vnode {
	sym.Assert(off%4 == 0, "nodes are 32-bit aligned")
	sym.Assert(off+6 <= end, "nodes are inside their parent")
	n := vnode{length: u16(b, off), valueLength: u16(b, off+2), typ: u16(b, off+4)}
	n.end = off + n.length
	sym.Assert(n.length >= 6 && n.end <= end, "nodes are inside their parent")
	n.key, n.value = wideZ(b, off+6, n.end)
	n.value = al4(n.value)
	return n
}

type vtree struct {
	fixed []byte
	es    entries
	langs []uint16 // the string tables
	trans []uint16 // the list of translations
}

func hex4(s string) (uint16, bool) {
	v := 0
	ok := true
	for i := 0; i < 4; i++ {
		c := int(s[i])
		dec := sym.And(c >= '0', c <= '9')
		let := sym.And(c >= 'a', c <= 'f')
		cap := sym.And(c >= 'A', c <= 'F')
		ok = sym.And(ok, sym.Or(dec, sym.Or(let, cap)))
		v = v<<4 | (sym.Ite(dec, c-'0', sym.Ite(let, c-'a'+10, c-'A'+10)) & 15)
	}
	return uint16(v), ok
}

func readVersion(b []byte) vtree {
	var t vtree
	root := vread(b, 0, len(b))
	sym.Assert(root.length == len(b), "the root is the whole resource")
	sym.Assert(root.key == "VS_VERSION_INFO" && root.typ == 0 && root.valueLength == 52, "the root holds the fixed part")
	t.fixed = b[root.value : root.value+52]
	seen := map[string]bool{}
	for off := root.value + 52; off < root.end; {
		n := vread(b, al4(off), root.end)
		sym.Assert(n.valueLength == 0 && !seen[n.key], "two branches without value")
		seen[n.key] = true
		switch n.key {
		case "StringFileInfo":
			t.strings(b, n)
		case "VarFileInfo":
			t.vars(b, n)
		default:
			sym.Fail("unexpected branch")
		}
		off = n.end
	}
	sym.Assert(seen["StringFileInfo"] && seen["VarFileInfo"], "both branches are there")
	return t
}

func (t *vtree) strings(b []byte, n vnode) {
	for off := n.value; off < n.end; {
		s := vread(b, al4(off), n.end)
		sym.Assert(s.valueLength == 0 && len(s.key) == 8, "string tables are named after their language and code page")
		lang, ok := hex4(s.key)
		page, ok2 := hex4(s.key[4:])
		sym.Assert(sym.And(sym.And(ok, ok2), page == 1200), "string tables are named after their language and the Unicode code page")
		for _, l := range t.langs {
			sym.Assert(l != lang, "one string table per language")
		}
		t.langs = append(t.langs, lang)
		for o := s.value; o < s.end; {
			v := vread(b, al4(o), s.end)
			sym.Assert(v.typ == 1, "strings are text")
			val, end := wideZ(b, v.value, v.end)
			sym.Assert(end == v.end, "the length of a string is that of its content")
			sym.Assert(v.valueLength == (end-v.value)/2, "the value length of a string counts its characters and its terminator")
			sym.Assert(t.es.find(lang, v.key) < 0, "one string per key")
			t.es = append(t.es, entry{lang, v.key, val})
			o = v.end
		}
		off = s.end
	}
}

func (t *vtree) vars(b []byte, n vnode) {
	v := vread(b, n.value, n.end)
	sym.Assert(v.key == "Translation" && v.typ == 0 && v.end == n.end, "one list of translations")
	sym.Assert(v.valueLength == v.end-v.value && v.valueLength%4 == 0, "the value length of the translations is their size")
	for o := v.value; o < v.end; o += 4 {
		sym.Assert(u16(b, o+2) == 1200, "translations use the Unicode code page")
		t.trans = append(t.trans, uint16(u16(b, o)))
	}
}

func checkVersion(vi *version.Info, es entries) {
	b := vi.Bytes()
	t := readVersion(b)
	f := t.fixed
	sym.Assert(u32(f, 0) == 0xFEEF04BD && u32(f, 4) == 0x10000, "signature and structure version")
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			sym.Assert(u16(f, 8+4*i+2*(1-j)) == int(vi.FileVersion[2*i+j]), "file version, most significant first")
			sym.Assert(u16(f, 16+4*i+2*(1-j)) == int(vi.ProductVersion[2*i+j]), "product version, most significant first")
		}
	}
	flag := func(c bool, v int) int { return sym.Ite(c, v, 0) }
	fl := flag(vi.Flags.Debug, 1) | flag(vi.Flags.Prerelease, 2) | flag(vi.Flags.Patched, 4) | flag(vi.Flags.PrivateBuild, 8) | flag(vi.Flags.SpecialBuild, 0x20)
	sym.Assert(u32(f, 24)&0x3f == 0x3f && u32(f, 28) == fl, "flags and their mask")
	sym.Assert(u32(f, 32) == 0x40004, "operating system")
	typ := 0
	switch vi.Type {
	case version.App:
		typ = 1
	case version.DLL:
		typ = 2
	}
	sym.Assert(u32(f, 36) == typ && u32(f, 40) == 0, "file type")
	sym.Assert(len(t.es) == len(es), "as many strings as were set")
	for _, e := range es {
		i := t.es.find(e.lang, e.key)
		sym.Assert(i >= 0 && sym.EqStr(t.es[i].value, e.value), "every string is there")
	}
	sym.Assert(len(t.langs) == es.langs() && len(t.trans) == len(t.langs), "one translation per language")
	for _, l := range t.langs {
		found := false
		for _, x := range t.trans {
			found = sym.Or(found, x == l)
		}
		sym.Assert(found, "every string table is listed as a translation")
	}
	sym.ObserveBytes("bytes", b)
}

// P17_Fixed: any fixed part, no string or one.
func P17_Fixed() {
	vi := &version.Info{}
	anyFixed(vi)
	var es entries
	if sym.Choice("strings", 2) == 1 {
		es.set(entry{sym.U16("lang"), "ProductName", valueStr("value", 2)})
	}
	setAll(vi, es)
	checkVersion(vi, es)
	sym.Cover("read")
}

// P17_Strings: keys and values of every length up to 4 and 5, in one language or two.
func P17_Strings() {
	vi := &version.Info{}
	fixedFew(vi)
	var es entries
	es.set(entry{sym.U16("lang0"), asciiName("key0", 1+sym.Choice("keyLen0", 4)), valueStr("value0", sym.Choice("valueLen0", 6))})
	es.set(entry{sym.U16("lang1"), asciiName("key1", 1+sym.Choice("keyLen1", 2)), valueStr("value1", sym.Choice("valueLen1", 2))})
	setAll(vi, es)
	checkVersion(vi, es)
	sym.Cover("read")
}

// P17_Many: several strings in two or three languages, with characters of 1 to 4 bytes.
func P17_Many() {
	vi := &version.Info{}
	fixedFew(vi)
	var es entries
	langs := []uint16{0x409, 0, sym.U16("lang")}
	n := 4
	if sym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		e := entry{langs[sym.Choice(num("lang", i), 3)], asciiName(num("key", i), 1), valueStr(num("value", i), i)}
		if i == 1 {
			e.value += wideNames[sym.Choice("wide", len(wideNames))]
		}
		if i == 2 {
			e.key = wideNames[2] + e.key
		}
		sym.Assert(vi.Set(e.lang, e.key, e.value) == nil, "strings without NUL are accepted")
		es.set(e)
	}
	checkVersion(vi, es)
	sym.Cover("read")
}

// P17_Standard: all standard keys at once.
func P17_Standard() {
	vi := &version.Info{}
	es := standard(24)
	fixedFew(vi)
	setAll(vi, es)
	checkVersion(vi, es)
	sym.Cover("checked")
}
