package h

import (
	"encoding/json"
	"time"

	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

// viaJSON marshals and unmarshals.
func viaJSON(vi *version.Info) *version.Info {
	b, err := json.Marshal(vi)
	sym.Assert(err == nil, "version information can be marshalled")
	back := &version.Info{}
	err = json.Unmarshal(b, back)
	sym.Assert(err == nil, "what was marshalled can be unmarshalled")
	return back
}

// P18_Versions: arbitrary version numbers.
func P18_Versions() {
	vi := &version.Info{}
	n := 1
	if sym.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		k := sym.Choice(num("at", i), 8)
		v := sym.U16(num("v", i))
		if k < 4 {
			vi.FileVersion[k] = v
		} else {
			vi.ProductVersion[k-4] = v
		}
	}
	if sym.Choice("others", 2) == 1 {
		vi.FileVersion[0] |= 0x8000
		vi.ProductVersion[1] |= 10
	}
	back := viaJSON(vi)
	sameFixed(vi, back)
	sameTable(back.Table(), nil)
	sym.Cover("back")
}

// P18_Flags: every combination of flags, every type and several timestamps.
func P18_Flags() {
	vi := &version.Info{}
	f := sym.Choice("flags", 32)
	vi.Flags.Debug = f&1 != 0
	vi.Flags.Prerelease = f&2 != 0
	vi.Flags.Patched = f&4 != 0
	vi.Flags.PrivateBuild = f&8 != 0
	vi.Flags.SpecialBuild = f&16 != 0
	switch sym.Choice("type", 3) {
	case 1:
		vi.Type = version.DLL
	case 2:
		vi.Type = version.Unknown
	}
	if f == 0 || f == 31 {
		stamps := []time.Time{
			{},
			time.Date(1979, 7, 3, 0, 5, 0, 12300, time.UTC),
			time.Date(1601, 1, 1, 0, 0, 0, 100, time.UTC),
			time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
			time.Date(2021, 2, 28, 23, 59, 59, 999999900, time.FixedZone("X", 3600)),
			time.Date(2020, 2, 29, 12, 0, 0, 1, time.FixedZone("Y", -11*3600-1800)),
		}
		vi.Timestamp = stamps[sym.Choice("stamp", len(stamps))]
	}
	back := viaJSON(vi)
	sameFixed(vi, back)
	sym.Cover("back")
}

// P18_Lang: strings under an arbitrary language.
func P18_Lang() {
	vi := &version.Info{}
	var es entries
	es.set(entry{0x40C, "a", "x"})
	es.set(entry{sym.U16("lang"), "b", "y"})
	setAll(vi, es)
	sameTable(viaJSON(vi).Table(), es)
	sym.Cover("back")
}

// P18_Strings: arbitrary keys and values.
func P18_Strings() {
	vi := &version.Info{}
	var es entries
	n := 2
	if sym.Thorough() {
		n = 3
	}
	switch sym.Choice("where", 3) {
	case 0:
		es.set(entry{0, asciiName("key", 1+sym.Choice("keyLen", n)), "v"})
		es.set(entry{0, "k", asciiName("other", 1)})
	case 1:
		es.set(entry{0, "k", asciiName("value", sym.Choice("valueLen", n+1))})
	case 2:
		es.set(entry{0, wideNames[sym.Choice("key", len(wideNames))], asciiName("before", 1) + wideNames[sym.Choice("value", len(wideNames))]})
		es.set(entry{7, "k", ""})
	}
	setAll(vi, es)
	sameTable(viaJSON(vi).Table(), es)
	sym.Cover("back")
}

// usable asserts that nothing fails with what was unmarshalled, and that it is a valid structure.
func usable(vi *version.Info, err error) {
	sym.ObserveErr("err", err)
	if err != nil {
		sym.Cover("refused")
		return
	}
	var es entries
	for l, st := range vi.Table() {
		sym.Assert(st != nil, "no missing table")
		for k, v := range *st {
			es = append(es, entry{l, k, v})
		}
	}
	back, err := version.FromBytes(vi.Bytes())
	sym.Assert(err == nil, "what was unmarshalled can be stored and read")
	lt := back.Table()
	for _, e := range es {
		st := lt[e.lang]
		sym.Assert(st != nil, "languages are stored")
		v, ok := (*st)[e.key]
		sym.Assert(ok, "keys are stored")
		sym.Assert(sym.EqStr(v, e.value), "values are stored")
	}
	m := version.MergeTranslations(vi.SplitTranslations())
	sym.Assert(m != nil, "merged")
	vi.Table().GetMainTranslation()
	_, err = json.Marshal(vi)
	sym.Assert(err == nil, "can be marshalled")
	vi.SetFileVersion("1.2")
	vi.SetProductVersion("3.4")
	sym.Assert(vi.FileVersion == [4]uint16{1, 2}, "version set")
	sym.Cover("used")
}

const verDoc = `{"fixed":{"file_version":"1.2.3.4","flags":"Debug,Patched","type":"DLL","timestamp":"2020-01-01T00:00:00Z"},"info":{"0409":{"k":"v"},"0":{}}}`

// P18_Bytes: a few arbitrary bytes anywhere in a document.
func P18_Bytes() {
	doc := []byte(verDoc)
	n := 1
	if sym.Thorough() {
		n = 2
	}
	at := sym.Choice("at", len(doc)-n+1)
	copy(doc[at:], sym.Bytes("any", n))
	vi := &version.Info{}
	err := json.Unmarshal(doc, vi)
	usable(vi, err)
}

// P18_Cut: a document cut anywhere.
func P18_Cut() {
	doc := verDoc[:sym.Choice("len", len(verDoc))]
	vi := &version.Info{}
	err := json.Unmarshal([]byte(doc), vi)
	sym.Assert(err != nil, "an incomplete document is refused")
	err = vi.UnmarshalJSON([]byte(doc))
	sym.Assert(err != nil, "an incomplete document is refused")
	sym.Cover("refused")
}

// P18_Shapes: a value of another kind in any place.
func P18_Shapes() {
	kinds := []string{`null`, `0`, `"x"`, `""`, `{}`, `[]`, `true`, `{"a":null}`, `{"a":1}`, `{"":"x"}`, `{"a":"\u0000"}`, `{"a\u0000":"b"}`, `{"ffff":{"a":"b"}}`,
		`{"10000":{"a":"b"}}`, `{"xyz":{"a":"b"}}`, `{"":{"a":"b"}}`, `{"0409":null}`, `{"409":{"a":"1"},"0409":{"a":"2"}}`, `{"0":{"":""}}`}
	v := kinds[sym.Choice("kind", len(kinds))]
	doc := ""
	switch sym.Choice("where", 8) {
	case 0:
		doc = v
	case 1:
		doc = `{"fixed":` + v + `}`
	case 2:
		doc = `{"info":` + v + `}`
	case 3:
		doc = `{"info":{"0409":` + v + `,"0":{"k":"v"}}}`
	case 4:
		doc = `{"info":{"0409":{"k":` + v + `}}}`
	case 5:
		doc = `{"fixed":{"file_version":` + v + `},"info":{}}`
	case 6:
		doc = `{"fixed":{"timestamp":` + v + `},"info":{}}`
	case 7:
		doc = `{"fixed":{"flags":` + v + `,"type":` + v + `},"info":{}}`
	}
	vi := &version.Info{}
	vi.Set(0, "old", "old")
	err := vi.UnmarshalJSON([]byte(doc))
	usable(vi, err)
}

// P18_Language: strings are under exactly the language written, or the document is refused.
func P18_Language() {
	h := sym.Str("lang", 1+sym.Choice("len", 5))
	ok := true
	var id uint64
	for i := 0; i < len(h); i++ {
		c := h[i]
		sym.Assume(sym.And(c >= 0x20, c < 0x7F))
		sym.Assume(sym.And(c != '"', c != '\\'))
		d := uint64(16)
		switch {
		case sym.And(c >= '0', c <= '9'):
			d = uint64(c - '0')
		case sym.And(c >= 'a', c <= 'f'):
			d = uint64(c-'a') + 10
		case sym.And(c >= 'A', c <= 'F'):
			d = uint64(c-'A') + 10
		default:
			ok = false
		}
		id = id<<4 | d
	}
	if ok {
		ok = id <= 0xFFFF
	}
	vi := &version.Info{}
	err := json.Unmarshal([]byte(`{"info":{"`+h+`":{"k":"v"}}}`), vi)
	sym.Assert(sym.Iff(err == nil, ok), "exactly 16-bit hexadecimal language codes are accepted")
	if err == nil {
		sameTable(vi.Table(), entries{{uint16(id), "k", "v"}})
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

// P18_Used: unmarshalling into a structure that is already filled gives the same as into a new one.
func P18_Used() {
	f := sym.Choice("flags", 4)
	old := func() *version.Info {
		vi := &version.Info{}
		vi.FileVersion = [4]uint16{1, 2, 3, 4}
		vi.ProductVersion = [4]uint16{5, 6, 7, 8}
		vi.Flags.Debug, vi.Flags.Prerelease, vi.Flags.Patched, vi.Flags.PrivateBuild, vi.Flags.SpecialBuild = f&1 != 0, f&2 != 0, f&1 != 0, f&2 != 0, f&1 != 0
		vi.Type = version.DLL
		vi.Timestamp = time.Date(2021, 2, 28, 23, 59, 59, 999999900, time.UTC)
		vi.Set(sym.U16("oldLang"), "old", "x")
		return vi
	}
	vi := &version.Info{}
	var es entries
	switch sym.Choice("new", 4) {
	case 1:
		es.set(entry{0x409, "k", asciiName("value", 1)})
	case 2:
		vi.Flags.Debug = true
		vi.FileVersion[3] = 7
	case 3:
		vi.Type = version.Unknown
		vi.ProductVersion[0] = 65535
		es.set(entry{0, "old", asciiName("value", 1)})
	}
	setAll(vi, es)
	b, err := json.Marshal(vi)
	sym.Assert(err == nil, "version information can be marshalled")
	back := old()
	sym.Assert(json.Unmarshal(b, back) == nil, "what was marshalled can be unmarshalled")
	sameFixed(vi, back)
	sameTable(back.Table(), es)
	sym.Cover("back")
}

// P18_SameLang: one language written in two ways cannot be told apart, and is refused.
func P18_SameLang() {
	pairs := [][2]string{{"409", "0409"}, {"40C", "40c"}, {"0", "0000"}, {"FFFF", "0ffff"}, {"a", "A"}}
	p := pairs[sym.Choice("pair", len(pairs))]
	if sym.Choice("order", 2) == 1 {
		p[0], p[1] = p[1], p[0]
	}
	vi := &version.Info{}
	sym.MapOrders(1)
	err := json.Unmarshal([]byte(`{"info":{"`+p[0]+`":{"k":"v"},"1":{"k":"w"},"`+p[1]+`":{"`+[]string{"k", "l"}[sym.Choice("key", 2)]+`":"x"}}}`), vi)
	sym.MapOrders(0)
	sym.Assert(err != nil, "a language given twice is refused")
	sym.Cover("refused")
}

// P18_FlagList: flags and types are recognised in any order and letter case.
func P18_FlagList() {
	names := []string{"Debug", "prerelease", "PATCHED", "privatebuild", "SpecialBuild"}
	sep := []string{",", ", ", " | ", " "}[sym.Choice("sep", 4)]
	var on [5]bool
	list := ""
	first := sym.Choice("first", 5)
	step := 1 + sym.Choice("step", 4)
	n := sym.Choice("n", 6)
	for i := 0; i < n; i++ {
		k := (first + i*step) % 5
		on[k] = true
		if i > 0 {
			list += sep
		}
		list += names[k]
	}
	t := sym.Choice("type", 4)
	vi := &version.Info{}
	err := json.Unmarshal([]byte(`{"fixed":{"flags":"`+list+`","type":"`+[]string{"", "dll", "APP", "Font"}[t]+`"}}`), vi)
	sym.Assert(err == nil, "accepted")
	f := vi.Flags
	sym.Assert([5]bool{f.Debug, f.Prerelease, f.Patched, f.PrivateBuild, f.SpecialBuild} == on, "the flags listed")
	switch t {
	case 1:
		sym.Assert(vi.Type == version.DLL, "the type")
	case 3:
		sym.Assert(vi.Type == version.Unknown, "the type")
	default:
		sym.Assert(vi.Type == version.App, "the type")
	}
	sym.Cover("read")
}
