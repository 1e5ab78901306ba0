package h

import (
	"time"

	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

// anyFixed fills the fixed part with arbitrary values.
func anyFixed(vi *version.Info) {
	for i := 0; i < 4; i++ {
		vi.FileVersion[i] = sym.U16(num("file", i))
		vi.ProductVersion[i] = sym.U16(num("product", i))
	}
	vi.Flags.Debug = sym.Bool("debug")
	vi.Flags.Prerelease = sym.Bool("prerelease")
	vi.Flags.Patched = sym.Bool("patched")
	vi.Flags.PrivateBuild = sym.Bool("private")
	vi.Flags.SpecialBuild = sym.Bool("special")
	switch sym.Choice("type", 3) {
	case 1:
		vi.Type = version.DLL
	case 2:
		vi.Type = version.Unknown
	}
	stamps := []time.Time{{}, time.Date(1979, 7, 3, 0, 5, 0, 12300, time.UTC), time.Date(2021, 12, 31, 23, 59, 59, 999999900, time.FixedZone("X", 3600))}
	vi.Timestamp = stamps[sym.Choice("stamp", len(stamps))]
}

// fixedFew is a fixed part that does not multiply paths.
func fixedFew(vi *version.Info) {
	for i := 0; i < 4; i++ {
		vi.FileVersion[i] = sym.U16(num("file", i))
		vi.ProductVersion[i] = sym.U16(num("product", i))
	}
	vi.Flags.Patched = true
	vi.Type = version.DLL
}

// sameFixed asserts equality of the fixed parts.
func sameFixed(a, b *version.Info) {
	for i := 0; i < 4; i++ {
		sym.Assert(a.FileVersion[i] == b.FileVersion[i], "same file version")
		sym.Assert(a.ProductVersion[i] == b.ProductVersion[i], "same product version")
	}
	sym.Assert(sym.Iff(a.Flags.Debug, b.Flags.Debug), "same flags")
	sym.Assert(sym.Iff(a.Flags.Prerelease, b.Flags.Prerelease), "same flags")
	sym.Assert(sym.Iff(a.Flags.Patched, b.Flags.Patched), "same flags")
	sym.Assert(sym.Iff(a.Flags.PrivateBuild, b.Flags.PrivateBuild), "same flags")
	sym.Assert(sym.Iff(a.Flags.SpecialBuild, b.Flags.SpecialBuild), "same flags")
	sym.Assert(a.Type == b.Type, "same type")
	sym.Assert(a.Timestamp.Equal(b.Timestamp), "same timestamp")
}

// entry is one string of a version structure.
type entry struct {
	lang       uint16
	key, value string
}

// entries is the plain model of the strings of a version structure.
type entries []entry

func (es entries) find(lang uint16, key string) int {
	for i := range es {
		if sym.And(es[i].lang == lang, sym.EqStr(es[i].key, key)) {
			return i
		}
	}
	return -1
}

func (es *entries) set(e entry) {
	if i := es.find(e.lang, e.key); i >= 0 {
		(*es)[i].value = e.value
		return
	}
	*es = append(*es, e)
}

// langs is the number of distinct languages.
func (es entries) langs() int {
	n := 0
	for i := range es {
		seen := false
		for j := 0; j < i; j++ {
			if es[j].lang == es[i].lang {
				seen = true
			}
		}
		if !seen {
			n++
		}
	}
	return n
}

// sameTable asserts that a table has exactly these strings.
func sameTable(lt version.LangTable, es entries) {
	sym.Assert(len(lt) == es.langs(), "same languages")
	n := 0
	for _, e := range es {
		st := lt[e.lang]
		sym.Assert(st != nil, "same languages")
		v, ok := (*st)[e.key]
		sym.Assert(ok, "same keys")
		sym.Assert(sym.EqStr(v, e.value), "same values")
	}
	for _, st := range lt {
		sym.Assert(st != nil, "no missing table")
		n += len(*st)
	}
	sym.Assert(n == len(es), "no other string")
}

// valueStr is an arbitrary value of n ASCII letters (NUL excluded).
func valueStr(tag string, n int) string {
	return asciiName(tag, n)
}

func setAll(vi *version.Info, es entries) {
	for _, e := range es {
		sym.Assert(vi.Set(e.lang, e.key, e.value) == nil, "strings without NUL are accepted")
	}
}

// reread serialises and reads back.
func reread(vi *version.Info) *version.Info {
	b := vi.Bytes()
	back, err := version.FromBytes(b)
	sym.Assert(err == nil && back != nil, "what was written can be read")
	return back
}

// P15_Fixed: arbitrary fixed part.
func P15_Fixed() {
	vi := &version.Info{}
	anyFixed(vi)
	back := reread(vi)
	sameFixed(vi, back)
	sameTable(back.Table(), nil)
	sym.ObserveBytes("bytes", vi.Bytes())
	sym.Cover("back")
}

// P15_Lang: a string under an arbitrary language, next to another one under the same or another language.
func P15_Lang() {
	vi := &version.Info{}
	fixedFew(vi)
	var es entries
	es.set(entry{0x409, "a", valueStr("value0", 1)})
	es.set(entry{sym.U16("lang"), "b", valueStr("value1", 1)})
	setAll(vi, es)
	back := reread(vi)
	sameFixed(vi, back)
	sameTable(back.Table(), es)
	sym.Cover("back")
}

// P15_Strings: keys and values of every length up to 4, in one language or two.
func P15_Strings() {
	vi := &version.Info{}
	fixedFew(vi)
	var es entries
	langs := []uint16{0, 0x409, 0xffff}
	es.set(entry{langs[sym.Choice("lang0", 3)], asciiName("key0", 1+sym.Choice("keyLen0", 3)), valueStr("value0", sym.Choice("valueLen0", 5))})
	es.set(entry{langs[sym.Choice("lang1", 2)], asciiName("key1", 1+sym.Choice("keyLen1", 2)), valueStr("value1", sym.Choice("valueLen1", 2))})
	setAll(vi, es)
	back := reread(vi)
	sameFixed(vi, back)
	sameTable(back.Table(), es)
	sym.Cover("back")
}

// P15_Wide: keys and values with characters of 2 to 4 bytes.
func P15_Wide() {
	vi := &version.Info{}
	fixedFew(vi)
	var es entries
	w := func(tag string) string {
		s := wideNames[sym.Choice(tag, len(wideNames))]
		switch sym.Choice(tag+".with", 3) {
		case 1:
			return s + asciiName(tag+".after", 1)
		case 2:
			return asciiName(tag+".before", 1) + s
		}
		return s
	}
	es.set(entry{0x409, w("key"), w("value")})
	es.set(entry{0, "k", w("other")})
	setAll(vi, es)
	back := reread(vi)
	sameTable(back.Table(), es)
	sym.Cover("back")
}

// P15_Many: several strings per language, set in any order and some of them twice.
func P15_Many() {
	vi := &version.Info{}
	fixedFew(vi)
	var es entries
	n := 4
	if sym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		e := entry{[]uint16{0, 0x409, 0xffff}[sym.Choice(num("lang", i), 2+i%2)], asciiName(num("key", i), 1), valueStr(num("value", i), i)}
		sym.Assert(vi.Set(e.lang, e.key, e.value) == nil, "strings without NUL are accepted")
		es.set(e)
	}
	sameTable(vi.Table(), es)
	back := reread(vi)
	sameTable(back.Table(), es)
	sym.Cover("back")
}

// P15_Refused: which strings are accepted; refused ones change nothing.
func P15_Refused() {
	vi := &version.Info{}
	vi.Set(1, "a", "b")
	lang := uint16(sym.Choice("lang", 3))
	key, value := sym.Str("key", sym.Choice("keyLen", 3)), sym.Str("value", sym.Choice("valueLen", 3))
	ok := len(key) > 0
	for i := 0; i < len(key); i++ {
		ok = sym.And(ok, key[i] != 0)
		sym.Assume(key[i] < 0x80)
	}
	for i := 0; i < len(value); i++ {
		ok = sym.And(ok, value[i] != 0)
		sym.Assume(value[i] < 0x80)
	}
	err := vi.Set(lang, key, value)
	sym.Assert(sym.Iff(err == nil, ok), "exactly the strings without NUL are accepted, with a key")
	es := entries{{1, "a", "b"}}
	if err == nil {
		es.set(entry{lang, key, value})
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
	sameTable(reread(vi).Table(), es)
}

// standard is a table of the twelve standard keys, each in one of two languages or both, with short values, some of which
// are arbitrary.
func standard(arbitrary int) entries {
	langs := [][2]uint16{{0, 0x40C}, {0x409, 0x411}, {0x411, 0x40C}, {0x40C, 0x409}}[sym.Choice("langs", 4)]
	turn := sym.Choice("turn", 3)
	var es entries
	for i, k := range []string{version.Comments, version.CompanyName, version.FileDescription, version.FileVersion, version.InternalName, version.LegalCopyright,
		version.LegalTrademarks, version.OriginalFilename, version.PrivateBuild, version.ProductName, version.ProductVersion, version.SpecialBuild} {
		for j, l := range langs {
			if (i+i/3+turn)%3 != j {
				v := "value"[:(i+j)%3]
				if len(es) < arbitrary {
					v = asciiName(num("value", 2*i+j), (i+j)%3)
				}
				es = append(es, entry{l, k, v})
			}
		}
	}
	return es
}

// P15_Standard: all standard keys at once.
func P15_Standard() {
	vi := &version.Info{}
	es := standard(24)
	fixedFew(vi)
	setAll(vi, es)
	back := reread(vi)
	sameFixed(back, vi)
	sameTable(back.Table(), es)
	sym.Cover("back")
}
