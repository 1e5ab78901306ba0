package h

import (
	"encoding/xml"
	"io"

	"bytes"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// xmlChars is arbitrary ASCII text that stands for itself in XML.
func xmlChars(tag string, n int) string {
	s := sym.Str(tag, n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(sym.Or(sym.And(c >= 0x20, c < 0x7F), sym.Or(c == 9, c == 10)))
		sym.Assume(sym.And(c != '<', sym.And(c != '&', sym.And(c != '>', c != '"'))))
	}
	return s
}

// edited is a word with one character changed, added or removed, or spaces around it, or its case changed.
func edited(w string) string {
	at := sym.Choice("at", len(w)+1)
	switch sym.Choice("edit", 3) {
	case 0:
		return w[:at] + xmlChars("c", 1) + w[at:]
	case 1:
		if at == len(w) {
			b := []byte("\t" + w + " \n")
			for i, c := range b {
				if c >= 'a' && c <= 'z' {
					b[i] = c - 0x20
				}
			}
			return string(b)
		}
		return w[:at] + xmlChars("c", 1) + w[at+1:]
	}
	if at < len(w) {
		return w[:at] + w[at+1:]
	}
	return w
}

// settings wraps elements where options are.
func settings(s string) string {
	return `<assembly><application xmlns="urn:schemas-microsoft-com:asm.v3"><windowsSettings>` + s + `</windowsSettings></application></assembly>`
}

func readXML(doc string) winres.AppManifest {
	m, err := winres.AppManifestFromXML([]byte(doc))
	sym.Assert(err == nil, "well-formed documents are read")
	return m
}

// nothing is what an empty document says.
func nothing() winres.AppManifest {
	return winres.AppManifest{DPIAwareness: winres.DPIUnaware}
}

// P24_Switches: any short text, or a changed word, in the elements of switches.
func P24_Switches() {
	want := nothing()
	all := []struct {
		name string
		p    *bool
		word string
	}{
		{"autoElevate", &want.AutoElevate, "true"}, {"disableTheming", &want.DisableTheming, "true"}, {"disableWindowFiltering", &want.DisableWindowFiltering, "true"},
		{"highResolutionScrollingAware", &want.HighResolutionScrollingAware, "true"}, {"printerDriverIsolation", &want.PrinterDriverIsolation, "true"},
		{"ultraHighResolutionScrollingAware", &want.UltraHighResolutionScrollingAware, "true"}, {"longPathAware", &want.LongPathAware, "true"},
		{"gdiScaling", &want.GDIScaling, "true"}, {"heapType", &want.SegmentHeap, "SegmentHeap"},
	}
	sw := all[sym.Choice("switch", len(all))]
	s := ""
	if sym.Choice("short", 2) == 0 {
		s = xmlChars("s", sym.Choice("len", 3))
	} else {
		s = edited(sw.word)
	}
	*sw.p = sym.EqStr(plain(s), plain(sw.word))
	sameManifest(readXML(settings("<"+sw.name+">"+s+"</"+sw.name+">")), want)
	sym.Cover("same")
}

// P24_DPI: texts of the two DPI elements.
func P24_DPI() {
	words := []string{"permonitorv2", "PerMonitor", "system", "Unaware", "x", ""}
	values := []winres.DPIAwareness{winres.DPIPerMonitorV2, winres.DPIPerMonitor, winres.DPIAware, winres.DPIUnaware}
	old := []string{"", "True", "true/PM", "false", "y"}[sym.Choice("old", 5)]
	list := ""
	want := winres.DPIAwareness(-1)
	most := 2
	if sym.Thorough() {
		most = 3
	}
	n := sym.Choice("n", most)
	for i := 0; i <= n; i++ {
		w := words[sym.Choice(num("word", i), len(words))]
		if i == n {
			w = edited(w)
		}
		if i > 0 {
			list += ","
		}
		list += w
	}
	for _, s := range splitComma(list) {
		p := plain(s)
		for j := range values {
			if want < 0 {
				if sym.EqStr(p, plain(words[j])) {
					want = values[j]
				}
			}
		}
	}
	if want < 0 {
		want = []winres.DPIAwareness{winres.DPIUnaware, winres.DPIAware, winres.DPIPerMonitor, winres.DPIUnaware, winres.DPIUnaware}[map[string]int{"": 0, "True": 1, "true/PM": 2, "false": 3, "y": 4}[old]]
	}
	m := nothing()
	m.DPIAwareness = want
	sameManifest(readXML(settings("<dpiAware>"+old+"</dpiAware><dpiAwareness>"+list+"</dpiAwareness>")), m)
	sym.Cover("same")
}

// P24_DPIList: a known value after several unknown ones.
func P24_DPIList() {
	list := ""
	n := sym.Choice("n", 6)
	turn := sym.Choice("turn", 4)
	for i := 0; i < n; i++ {
		w := []string{"x", "", " ", "permonitorv3"}[(i+turn)%4]
		if i == n-1 {
			w = xmlChars("other", 1)
			sym.Assume(w[0] != ',')
		}
		list += w + ","
	}
	k := sym.Choice("known", 4)
	list += []string{"PerMonitorV2", " permonitor", "system ", "unaware"}[k]
	if sym.Choice("more", 2) == 1 {
		list += ",system,permonitor"
	}
	m := nothing()
	m.DPIAwareness = []winres.DPIAwareness{winres.DPIPerMonitorV2, winres.DPIPerMonitor, winres.DPIAware, winres.DPIUnaware}[k]
	sameManifest(readXML(settings("<dpiAware>true/pm</dpiAware><dpiAwareness>"+list+"</dpiAwareness>")), m)
	sym.Cover("same")
}

func splitComma(s string) []string {
	var out []string
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == ',' {
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return append(out, s[start:])
}

// P24_OldDPI: any change to the older DPI element alone.
func P24_OldDPI() {
	s := edited([]string{"true", "true/pm", "false", ""}[sym.Choice("word", 4)])
	m := nothing()
	if sym.EqStr(plain(s), "true") {
		m.DPIAwareness = winres.DPIAware
	} else if sym.EqStr(plain(s), "true/pm") {
		m.DPIAwareness = winres.DPIPerMonitor
	}
	sameManifest(readXML(settings("<dpiAware>"+s+"</dpiAware>")), m)
	sym.Cover("same")
}

// P24_Level: texts of the execution level and the access to UI.
func P24_Level() {
	level, ui := []string{"asInvoker", "highestAvailable", "requireAdministrator"}[sym.Choice("level", 3)], "true"
	if sym.Choice("which", 2) == 0 {
		level = edited(level)
	} else {
		ui = edited(ui)
	}
	m := nothing()
	p := plain(level)
	if sym.EqStr(p, "highestavailable") {
		m.ExecutionLevel = winres.HighestAvailable
	} else if sym.EqStr(p, "requireadministrator") {
		m.ExecutionLevel = winres.RequireAdministrator
	}
	m.UIAccess = sym.EqStr(plain(ui), "true")
	sameManifest(readXML(`<assembly><trustInfo><security><requestedPrivileges><requestedExecutionLevel level="`+level+`" uiAccess="`+ui+`"/></requestedPrivileges></security></trustInfo></assembly>`), m)
	sym.Cover("same")
}

var osIDs = []string{"{e2011457-1546-43c5-a5fe-008deee3d3f0}", "{35138b9a-5d96-4fbd-8e2d-a2440225f93a}", "{4a2f28e3-53b9-4441-ba9c-d69d4a4a6e38}", "{1f676c76-80e1-4239-95bb-83d0f6d0da78}", "{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9a}"}

// P24_OS: supported versions in any order, one of them changed. An unknown one is newer than those known.
func P24_OS() {
	n := sym.Choice("n", 4)
	s := ""
	min := -1
	for i := 0; i < n; i++ {
		k := sym.Choice(num("os", i), 5)
		id := osIDs[k]
		if i == n-1 && (n == 1 || sym.Thorough()) {
			id = edited(id)
		}
		s += `<supportedOS Id="` + id + `"/>`
		v := 4
		p := plain(id)
		for j := range osIDs {
			if sym.EqStr(p, osIDs[j]) {
				v = j
			}
		}
		if min < 0 || v < min {
			min = v
		}
	}
	m := nothing()
	if min >= 0 {
		m.Compatibility = allOS[min]
	}
	sameManifest(readXML(`<assembly><compatibility xmlns="urn:schemas-microsoft-com:compatibility.v1"><application>`+s+`</application></compatibility></assembly>`), m)
	sym.Cover("same")
}

// P24_Controls: the dependency on common controls.
func P24_Controls() {
	v := []string{"Microsoft.Windows.Common-Controls", "6.0.0.0", "6595b64144ccf1df"}
	which := sym.Choice("which", 3)
	v[which] = edited(v[which])
	m := nothing()
	p := plain(v[1])
	six := false
	if len(p) >= 2 {
		six = sym.And(p[0] == '6', p[1] == '.')
	}
	m.UseCommonControlsV6 = sym.And(six, sym.And(sym.EqStr(plain(v[0]), "microsoft.windows.common-controls"), sym.EqStr(plain(v[2]), "6595b64144ccf1df")))
	dep := func(name, version, token string) string {
		return `<dependentAssembly><assemblyIdentity type="win32" name="` + name + `" version="` + version + `" publicKeyToken="` + token + `"/></dependentAssembly>`
	}
	s := dep(v[0], v[1], v[2])
	switch sym.Choice("with", 3) {
	case 1:
		s += dep("a", "6.0.0.0", "6595b64144ccf1df")
	case 2:
		s = `<dependentAssembly/>` + dep(v[0], "5.0.0.0", v[2]) + s
	}
	sameManifest(readXML(`<assembly><dependency>`+s+`</dependency></assembly>`), m)
	sym.Cover("same")
}

// P24_Version: any short text, or numbers of several lengths, as the version of the assembly: parts that are not numbers of 16 bits are zero.
func P24_Version() {
	s := ""
	if sym.Choice("short", 2) == 0 {
		n := 4
		if sym.Thorough() {
			n = 5
		}
		s = xmlChars("s", sym.Choice("len", n))
	} else {
		n := 1 + sym.Choice("n", 5)
		at := sym.Choice("at", n)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += "."
			}
			if i == at {
				long := 0
				if sym.Thorough() {
					long = sym.Choice("long", 2)
				}
				for j := 0; j < 5+long; j++ {
					c := sym.Str(num("digit", j), 1)
					sym.Assume(sym.And(c[0] >= '0', c[0] <= '9'))
					s += c
				}
				s += []string{"", "x"}[sym.Choice("after", 2)]
			} else {
				s += []string{"7", "65535", "-1", "165536", ""}[i]
			}
		}
	}
	m := nothing()
	m.Identity.Name = " n "
	part, v, digits, ok := 0, 0, 0, true
	put := func() {
		if part < 4 && ok && digits > 0 {
			m.Identity.Version[part] = uint16(v)
		}
		part, v, digits, ok = part+1, 0, 0, true
	}
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '.':
			put()
		case sym.And(s[i] >= '0', s[i] <= '9'):
			digits++
			v = v*10 + int(s[i]-'0')
			if v > 65535 {
				ok = false
			}
		default:
			ok = false
		}
	}
	put()
	sameManifest(readXML(`<assembly><assemblyIdentity name=" n " version="`+s+`"/></assembly>`), m)
	sym.Cover("same")
}

// P24_Bytes: any document: it is read, or it is not well-formed.
func P24_Bytes() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	var doc []byte
	switch sym.Choice("kind", 4) {
	case 0:
		doc = sym.Bytes("doc", sym.Choice("len", n+1))
	case 1:
		doc = []byte("<a>" + string(sym.Bytes("in", n-1)) + "</a>")
	case 2:
		n = 1
		if sym.Thorough() {
			n = 2
		}
		doc = []byte(`<a b="` + string(sym.Bytes("value", n)) + `"/>`)
	case 3:
		doc = []byte(settings("<dpiAware>true</dpiAware>"))
		at := sym.Choice("at", len(doc))
		if sym.Choice("cut", 2) == 0 {
			doc = doc[:at]
		} else {
			doc[at] = sym.U8("byte")
		}
	}
	m, err := winres.AppManifestFromXML(doc)
	sym.Assert((err == nil) == wellFormed(doc), "documents are refused exactly when they are not well-formed")
	if err != nil {
		sameManifest(m, winres.AppManifest{})
		sym.Cover("refused")
	} else {
		sym.Cover("read")
	}
}

// wellFormed tells whether there is an element, complete and well-formed.
func wellFormed(doc []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(doc))
	depth := 0
	for {
		t, err := d.Token()
		if err == io.EOF || err != nil {
			return false
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				return true
			}
		}
	}
}
