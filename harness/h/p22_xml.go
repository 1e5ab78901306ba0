package h

import (
	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// sameManifest asserts equality.
func sameManifest(a, b winres.AppManifest) {
	sym.Assert(sym.EqStr(a.Identity.Name, b.Identity.Name), "same name")
	for i := 0; i < 4; i++ {
		sym.Assert(a.Identity.Version[i] == b.Identity.Version[i], "same version")
	}
	sym.Assert(sym.EqStr(a.Description, b.Description), "same description")
	sym.Assert(a.Compatibility == b.Compatibility, "same minimum OS")
	sym.Assert(a.ExecutionLevel == b.ExecutionLevel, "same execution level")
	sym.Assert(sym.Iff(a.UIAccess, b.UIAccess), "same UI access")
	sym.Assert(a.AutoElevate == b.AutoElevate, "same auto elevation")
	sym.Assert(a.DPIAwareness == b.DPIAwareness, "same DPI awareness")
	sym.Assert(a.DisableTheming == b.DisableTheming, "same theming")
	sym.Assert(a.DisableWindowFiltering == b.DisableWindowFiltering, "same window filtering")
	sym.Assert(a.HighResolutionScrollingAware == b.HighResolutionScrollingAware, "same scrolling")
	sym.Assert(a.UltraHighResolutionScrollingAware == b.UltraHighResolutionScrollingAware, "same ultra high resolution scrolling")
	sym.Assert(a.LongPathAware == b.LongPathAware, "same long paths")
	sym.Assert(a.PrinterDriverIsolation == b.PrinterDriverIsolation, "same printer isolation")
	sym.Assert(a.GDIScaling == b.GDIScaling, "same GDI scaling")
	sym.Assert(a.SegmentHeap == b.SegmentHeap, "same heap")
	sym.Assert(a.UseCommonControlsV6 == b.UseCommonControlsV6, "same common controls")
}

func flagsOf(m *winres.AppManifest) []*bool {
	return []*bool{&m.UIAccess, &m.AutoElevate, &m.DisableTheming, &m.DisableWindowFiltering, &m.HighResolutionScrollingAware, &m.UltraHighResolutionScrollingAware,
		&m.LongPathAware, &m.PrinterDriverIsolation, &m.GDIScaling, &m.SegmentHeap, &m.UseCommonControlsV6}
}

// rawXML asserts that no XML reader may change line breaks and tabs: they would become spaces in attributes, and
// carriage returns would become line feeds in text.
func rawXML(b []byte) {
	tag, quoted := false, false
	for _, c := range b {
		switch {
		case !tag:
			sym.Assert(c != '\r', "no bare carriage return")
			tag = c == '<'
		case quoted:
			sym.Assert(sym.And(c >= 0x20, c != '<'), "no bare control character in attributes")
			quoted = c != '"'
		default:
			quoted = c == '"'
			tag = c != '>'
		}
	}
	sym.Assert(!tag && !quoted, "tags are closed")
}

func viaXML(m winres.AppManifest) winres.AppManifest {
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	b := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
	sym.Assert(b != nil && rs.Count() == 1, "the manifest is stored")
	rawXML(b)
	back, err := winres.AppManifestFromXML(b)
	sym.Assert(err == nil, "what was written can be read")
	return back
}

var (
	allOS    = []winres.SupportedOS{winres.WinVistaAndAbove, winres.Win7AndAbove, winres.Win8AndAbove, winres.Win81AndAbove, winres.Win10AndAbove}
	allDPI   = []winres.DPIAwareness{winres.DPIAware, winres.DPIUnaware, winres.DPIPerMonitor, winres.DPIPerMonitorV2}
	allLevel = []winres.ExecutionLevel{winres.AsInvoker, winres.HighestAvailable, winres.RequireAdministrator}
)

// P22_Flags: every combination of the switches.
func P22_Flags() {
	m := winres.AppManifest{}
	for i, p := range flagsOf(&m) {
		*p = sym.Bool(num("flag", i))
	}
	sameManifest(viaXML(m), m)
	sym.Cover("same")
}

// P22_Options: every combination of the other options, with a few of the switches.
func P22_Options() {
	m := winres.AppManifest{Compatibility: allOS[sym.Choice("os", 5)], DPIAwareness: allDPI[sym.Choice("dpi", 4)], ExecutionLevel: allLevel[sym.Choice("level", 3)]}
	if sym.Choice("named", 2) == 1 {
		m.Identity.Name = "n"
		m.Identity.Version = [4]uint16{1, 2, 3, 65535}
	}
	if sym.Choice("described", 2) == 1 {
		m.Description = "d"
	}
	flags := flagsOf(&m)
	few := len(flags) + 2
	if !sym.Thorough() {
		few = 2
	}
	on := len(flags) + 1 - sym.Choice("flag", few)
	for i := range flags {
		*flags[i] = on == i || on == len(flags)
	}
	sameManifest(viaXML(m), m)
	sym.Cover("same")
}

// P22_Version: any version number.
func P22_Version() {
	m := winres.AppManifest{}
	m.Identity.Name = "n"
	m.Identity.Version = [4]uint16{0, 10, 999, 65535}
	at := sym.Choice("at", 4)
	m.Identity.Version[at] = sym.U16("version")
	m.Identity.Version[(at+1)%4] = uint16([]int{0, 65535}[sym.Choice("next", 2)])
	sameManifest(viaXML(m), m)
	sym.Cover("same")
}

// xmlText is what a text becomes: characters that XML cannot represent are replaced.
func xmlText(s string) string {
	var out []rune
	for _, r := range s {
		ok := sym.Or(r == 9, sym.Or(r == 10, r == 13))
		ok = sym.Or(ok, sym.Or(sym.And(r >= 0x20, r <= 0xD7FF), sym.And(r >= 0xE000, r <= 0xFFFD)))
		ok = sym.Or(ok, r >= 0x10000)
		if !ok {
			r = 0xFFFD
		}
		out = append(out, r)
	}
	return string(out)
}

// text gives an arbitrary text to a manifest and expects it back.
func text(s string) {
	m := winres.AppManifest{Description: "d"}
	m.Identity.Name = "n"
	if sym.Choice("what", 2) == 0 {
		m.Identity.Name = s
	} else {
		m.Description = s
	}
	back := viaXML(m)
	m.Identity.Name = xmlText(m.Identity.Name)
	m.Description = xmlText(m.Description)
	if s == "" && m.Identity.Name == "" {
		m.Identity.Version = [4]uint16{}
	}
	sameManifest(back, m)
	sym.Cover("same")
}

// P22_Text: arbitrary ASCII text, special and control characters included.
func P22_Text() {
	n := 2
	if sym.Thorough() {
		n = 4
	}
	s := sym.Str("s", sym.Choice("len", n+1))
	for i := range []byte(s) {
		sym.Assume(s[i] < 0x80)
	}
	text(s)
}

// P22_Wide: arbitrary bytes of any value, making characters of 2 to 4 bytes or invalid UTF-8.
func P22_Wide() {
	switch sym.Choice("kind", 5) {
	case 0:
		text(sym.Str("s", 1))
	case 1:
		text(sym.Str("s", 2))
	case 2:
		if sym.Thorough() {
			text("a" + sym.Str("s", 3))
		} else {
			text("\xEF" + sym.Str("s", 2))
		}
	case 3:
		text("\xF4\x8F" + sym.Str("s", 2) + "z")
	case 4:
		text([]string{"\r\n", "a\r\nb", "]]>", "<!--", "-->", " a ", "\ta\n", "&lt;", "&#1;", "\uFEFF", "\uFFFE", "\uFFFF", "\U0001F600", "<?xml", "é'\"", "{{.}}", "\x85\u2028"}[sym.Choice("s", 17)])
	}
}
