package h

import (
	"encoding/json"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

func manViaJSON(m winres.AppManifest) winres.AppManifest {
	b, err := json.Marshal(m)
	sym.Assert(err == nil, "a manifest can be marshalled")
	var back winres.AppManifest
	sym.Assert(json.Unmarshal(b, &back) == nil, "what was marshalled can be unmarshalled")
	return back
}

// P23_Flags: every combination of the switches.
func P23_Flags() {
	m := winres.AppManifest{}
	for i, p := range flagsOf(&m) {
		*p = sym.Bool(num("flag", i))
	}
	sameManifest(manViaJSON(m), m)
	sym.Cover("same")
}

// P23_Options: any values of the other options: those that exist round-trip, and any other is refused.
func P23_Options() {
	os, dpi, level := int8(sym.U8("os")), int8(sym.U8("dpi")), int8(sym.U8("level"))
	m := winres.AppManifest{Compatibility: winres.SupportedOS(os), DPIAwareness: winres.DPIAwareness(dpi), ExecutionLevel: winres.ExecutionLevel(level)}
	ok := sym.And(sym.And(os >= -1, os <= 3), sym.And(sym.And(dpi >= 0, dpi <= 3), sym.And(level >= 0, level <= 2)))
	if !ok {
		_, err := json.Marshal(m)
		sym.Assert(err != nil, "options that do not exist are refused")
		sym.Cover("refused")
		return
	}
	sameManifest(manViaJSON(m), m)
	sym.Cover("same")
}

// P23_Version: any version number.
func P23_Version() {
	m := winres.AppManifest{}
	m.Identity.Name = "n"
	m.Identity.Version = [4]uint16{0, 10, 999, 65535}
	at := sym.Choice("at", 4)
	m.Identity.Version[at] = sym.U16("version")
	m.Identity.Version[(at+1)%4] = uint16([]int{0, 65535}[sym.Choice("next", 2)])
	sameManifest(manViaJSON(m), m)
	sym.Cover("same")
}

// P23_Text: any ASCII text, and wider characters.
func P23_Text() {
	m := winres.AppManifest{Description: "d"}
	m.Identity.Name = "n"
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var s string
	if sym.Choice("wide", 2) == 0 {
		s = sym.Str("s", sym.Choice("len", n+1))
		for i := range []byte(s) {
			sym.Assume(s[i] < 0x80)
		}
	} else {
		s = wideNames[sym.Choice("name", len(wideNames))] + asciiName("after", 1)
	}
	if sym.Choice("what", 2) == 0 {
		m.Identity.Name = s
	} else {
		m.Description = s
	}
	sameManifest(manViaJSON(m), m)
	sym.Cover("same")
}

// word is one of the texts of an option.
type word struct {
	text  string
	value int
}

var optionWords = [][]word{
	{{"vista", -1}, {"win7", 0}, {"win8", 1}, {"win8.1", 2}, {"win10", 3}},
	{{"system", 0}, {"true", 0}, {"", 0}, {"unaware", 1}, {"false", 1}, {"per monitor", 2}, {"permonitor", 2}, {"true/pm", 2}, {"per monitor v2", 3}, {"permonitorv2", 3}},
	{{"", 0}, {"as invoker", 0}, {"asinvoker", 0}, {"highest", 1}, {"highest available", 1}, {"highestavailable", 1}, {"administrator", 2}, {"require administrator", 2}, {"requireadministrator", 2}},
}

// plain is a text in lower case without spaces around it.
func plain(s string) string {
	space := func(c byte) bool { return sym.Or(c == ' ', sym.And(c >= 9, c <= 13)) }
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	b := []byte(s)
	for i, c := range b {
		if sym.And(c >= 'A', c <= 'Z') {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// option reads a text as an option.
func option(which int, s string) {
	p := plain(s)
	want, ok := 0, false
	for _, w := range optionWords[which] {
		if len(p) == len(w.text) {
			if sym.EqStr(p, w.text) {
				want, ok = w.value, true
			}
		}
	}
	const before = 77
	got := before
	var err error
	switch which {
	case 0:
		v := winres.SupportedOS(before)
		err = v.UnmarshalText([]byte(s))
		got = int(v)
	case 1:
		v := winres.DPIAwareness(before)
		err = v.UnmarshalText([]byte(s))
		got = int(v)
	case 2:
		v := winres.ExecutionLevel(before)
		err = v.UnmarshalText([]byte(s))
		got = int(v)
	}
	sym.Assert((err == nil) == ok, "exactly the texts of the options are accepted")
	if ok {
		sym.Assert(got == want, "the option named")
		sym.Cover("accepted")
	} else {
		sym.Assert(got == before, "nothing else is read")
		sym.Cover("refused")
	}
}

func asciiAny(tag string, n int) string {
	s := sym.Str(tag, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// P23_Word: every text of every option with one character changed, added or removed.
func P23_Word() {
	which := sym.Choice("option", 3)
	ws := optionWords[which]
	w := ws[sym.Choice("word", len(ws))].text
	at := sym.Choice("at", len(w)+1)
	switch sym.Choice("edit", 3) {
	case 0:
		w = w[:at] + asciiAny("c", 1) + w[at:]
	case 1:
		if at == len(w) {
			w = "\t" + w + " \n"
		} else {
			w = w[:at] + asciiAny("c", 1) + w[at+1:]
		}
	case 2:
		if at < len(w) {
			w = w[:at] + w[at+1:]
		}
	}
	option(which, w)
}

// P23_Short: any short text.
func P23_Short() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	option(sym.Choice("option", 3), asciiAny("s", sym.Choice("len", n+1)))
}

// P23_Number: any short text as a version number.
func P23_Number() {
	n := 4
	if sym.Thorough() {
		n = 6
	}
	s := asciiAny("s", sym.Choice("len", n+1))
	for i := range []byte(s) {
		sym.Assume(sym.And(s[i] >= 0x20, sym.And(s[i] != '"', s[i] != '\\')))
	}
	manVersion(s)
}

// P23_Numbers: one to five numbers of several lengths.
func P23_Numbers() {
	s, n, long := "", 1+sym.Choice("n", 5), 0
	afters := 2
	if sym.Thorough() {
		s = []string{"", " ", "."}[sym.Choice("before", 3)]
		long = sym.Choice("long", n)
		afters = 4
	} else {
		long = []int{0, n - 1}[sym.Choice("long", min(n, 2))]
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "."
		}
		if i == long {
			for j := 0; j < []int{0, 1, 5, 6}[sym.Choice("digits", 4)]; j++ {
				c := sym.Str(num("digit", j), 1)
				sym.Assume(sym.And(c[0] >= '0', c[0] <= '9'))
				s += c
			}
		} else {
			s += "7"
		}
	}
	s += []string{"", ".", " ", "x"}[sym.Choice("after", afters)]
	manVersion(s)
}

// manVersion reads a text as a version number.
func manVersion(s string) {
	p := plain(s)
	var want [4]uint16
	ok := true
	if p != "" {
		part, v, digits := 0, 0, 0
		for i := 0; i < len(p); i++ {
			if sym.And(p[i] >= '0', p[i] <= '9') {
				v = v*10 + int(p[i]-'0')
				digits++
				ok = sym.And(ok, v <= 65535)
				if part < 4 {
					want[part] = uint16(v)
				}
				continue
			}
			if p[i] != '.' || digits == 0 {
				ok = false
				break
			}
			part, v, digits = part+1, 0, 0
		}
		ok = sym.And(ok, sym.And(digits > 0, part < 4))
	}
	var m winres.AppManifest
	err := json.Unmarshal([]byte(`{"identity":{"name":"n","version":"`+s+`"}}`), &m)
	sym.Assert(sym.Iff(err == nil, ok), "exactly the valid version numbers are accepted")
	if err == nil {
		for i := range want {
			sym.Assert(m.Identity.Version[i] == want[i], "the version written")
		}
		sym.Assert(m.Identity.Name == "n", "the name written")
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

// P23_Shapes: documents of another shape are refused.
func P23_Shapes() {
	m := winres.AppManifest{Description: "d", UIAccess: true}
	m.Identity.Name = "n"
	m.Identity.Version = [4]uint16{1, 2, 3, 4}
	b, _ := json.Marshal(m)
	var back winres.AppManifest
	if sym.Choice("cut", 2) == 0 {
		sym.Assert(json.Unmarshal(b[:sym.Choice("at", len(b))], &back) != nil, "incomplete documents are refused")
		sym.Cover("cut")
		return
	}
	doc := []string{`[]`, `1`, `"a"`, `true`, `{"identity":[]}`, `{"identity":1}`, `{"identity":{"name":1}}`, `{"identity":{"version":1}}`, `{"description":[]}`, `{"description":1}`,
		`{"minimum-os":1}`, `{"minimum-os":["win7"]}`, `{"minimum-os":""}`, `{"minimum-os":"win9"}`, `{"execution-level":1}`, `{"execution-level":{}}`, `{"execution-level":"admin"}`, `{"dpi-awareness":true}`,
		`{"dpi-awareness":"x"}`, `{"ui-access":"true"}`, `{"ui-access":1}`, `{"auto-elevate":[]}`, `{"segment-heap":"false"}`, `{"use-common-controls-v6":0}`, `{"long-path-aware":{}}`, `{} x`, ``}
	sym.Assert(json.Unmarshal([]byte(doc[sym.Choice("doc", len(doc))]), &back) != nil, "documents of another shape are refused")
	sym.Cover("refused")
}
