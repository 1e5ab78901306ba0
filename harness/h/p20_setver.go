package h

import (
	"encoding/json"

	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

// numbers is what a version string means: from its first digit, up to four numbers separated by dots.
// ok is false when one of them does not fit in 16 bits.
func numbers(s string) (out [4]uint16, ok bool) {
	i := 0
	for i < len(s) && !sym.And(s[i] >= '0', s[i] <= '9') {
		i++
	}
	ok = true
	part, v := 0, uint64(0)
	for ; i < len(s); i++ {
		if sym.And(s[i] >= '0', s[i] <= '9') {
			v = v*10 + uint64(s[i]-'0')
			if v > 0xFFFF {
				ok = false
			}
			out[part] = uint16(v)
			continue
		}
		if s[i] != '.' || part == 3 {
			break
		}
		part++
		v = 0
	}
	return
}

// setVersion checks the effect of setting a version on an arbitrary structure.
func setVersion(s string) {
	vi := &version.Info{}
	var es entries
	kind := sym.Choice("strings", 9)
	switch kind { // structures without strings
	case 4:
		sym.Assert(json.Unmarshal([]byte(`{"fixed":{},"info":{}}`), vi) == nil, "an empty document is accepted")
	case 5:
		vi.Set(0x409, "", "refused")
	case 6:
		other, err := version.FromBytes((&version.Info{}).Bytes())
		sym.Assert(err == nil, "an empty structure is readable")
		vi = other
	case 7:
		vi = version.MergeTranslations(nil)
	case 8:
		sym.Assert(json.Unmarshal([]byte(`{"info":{"0409":{},"040C":{}}}`), vi) == nil, "empty tables are accepted")
	}
	fixedFew(vi)
	old := *vi
	switch kind {
	case 1:
		es = entries{{0, "FileVersion", "old"}, {0, "ProductVersion", "old"}, {0, "k", "v"}}
	case 2:
		es = entries{{0x409, "k", "v"}, {0x40C, "FileVersion", "old"}, {0xFFFF, "ProductVersion", "old"}}
	case 3:
		es = entries{{sym.U16("lang"), "ProductVersion", "p"}, {1, "FileVersion", "f"}}
		if es[0].lang == es[1].lang {
			return
		}
	}
	setAll(vi, es)
	key := "FileVersion"
	product := sym.Choice("product", 2) == 1
	if product {
		key = "ProductVersion"
		vi.SetProductVersion(s)
	} else {
		vi.SetFileVersion(s)
	}
	n, ok := numbers(s)
	if ok {
		if product {
			old.ProductVersion = n
		} else {
			old.FileVersion = n
		}
		sameFixed(vi, &old)
	}
	langs := es.langList()
	if len(langs) == 0 {
		langs = []uint16{0}
	}
	if kind == 8 { // these languages have no strings but they exist
		langs = []uint16{0x409, 0x40C}
	}
	for _, l := range langs {
		es.set(entry{l, key, s})
	}
	sameTable(vi.Table(), es)
	sym.Cover("set")
}

// P20_Any: any short string.
func P20_Any() {
	n := 6
	if sym.Thorough() {
		n = 9
	}
	setVersion(noNUL("s", sym.Choice("len", n)))
}

// noNUL is an arbitrary ASCII string.
func noNUL(tag string, n int) string {
	s := sym.Str(tag, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] != 0, s[i] < 0x80))
	}
	return s
}

// P20_Numbers: four numbers of any number of digits, with something before and after.
func P20_Numbers() {
	s := []string{"", "v", "Version ", "é"}[sym.Choice("before", 4)]
	n := 1 + sym.Choice("n", 6)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "."
		}
		d := sym.Choice(num("digits", i), 2)
		if i%3 == 1 {
			d += 4
		}
		for j := 0; j < d; j++ {
			c := sym.Str(num("digit", 10*i+j), 1)
			sym.Assume(sym.And(c[0] >= '0', c[0] <= '9'))
			s += c
		}
	}
	s += []string{"", "-3", "+4", " 5.6", "é7", "."}[sym.Choice("after", 6)]
	setVersion(s)
}

// P20_Bytes: any bytes, valid UTF-8 or not.
func P20_Bytes() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	s := sym.Str("s", sym.Choice("len", n))
	for i := range []byte(s) {
		sym.Assume(s[i] != 0)
	}
	setVersion(s)
}

// P20_Standard: the other standard keys are left alone.
func P20_Standard() {
	vi := &version.Info{}
	es := standard(24)
	fixedFew(vi)
	setAll(vi, es)
	old := *vi
	c := sym.U8("digit")
	sym.Assume(sym.And(c >= '0', c <= '9'))
	s := "v1.2" + string([]byte{c}) + "-x"
	n := [4]uint16{1, 20 + uint16(c-'0')}
	key := "FileVersion"
	if sym.Choice("product", 2) == 1 {
		key = "ProductVersion"
		old.ProductVersion = n
		vi.SetProductVersion(s)
	} else {
		old.FileVersion = n
		vi.SetFileVersion(s)
	}
	sameFixed(vi, &old)
	for _, l := range es.langList() {
		es.set(entry{l, key, s})
	}
	sameTable(vi.Table(), es)
	sym.Cover("set")
}
