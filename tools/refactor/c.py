import sys; sys.path.insert(0,'/tmp/rf')
from lib import *
f='version/binary.go'
func(f,'func nodeBytes(','''
func nodeBytes(text bool, key string, value []byte, valueLength int) []byte {
	var typ uint16
	if text {
		typ = 1
	}
	out := make([]byte, sizeOfNodeHeader, 64)
	for _, u := range utf16.Encode([]rune(key)) {
		out = binary.LittleEndian.AppendUint16(out, u)
	}
	out = append(out, 0, 0)
	for len(out)%4 != 0 {
		out = append(out, 0)
	}
	out = append(out, value...)
	binary.LittleEndian.PutUint16(out, uint16(len(out)))
	binary.LittleEndian.PutUint16(out[2:], uint16(valueLength))
	binary.LittleEndian.PutUint16(out[4:], typ)
	return out
}
''')
func(f,'func stringBytes(','''
func stringBytes(key string, value string) []byte {
	units := append(utf16.Encode([]rune(value)), 0)
	raw := make([]byte, 0, 2*len(units))
	for _, u := range units {
		raw = append(raw, byte(u), byte(u>>8))
	}
	return nodeBytes(true, key, raw, len(units))
}
''')
func(f,'func varFileInfoBytes(','''
func varFileInfoBytes(lt *LangTable) []byte {
	var raw []byte
	for _, langID := range lt.sortedKeys() {
		raw = binary.LittleEndian.AppendUint16(raw, langID)
		raw = binary.LittleEndian.AppendUint16(raw, codePageUTF16LE)
	}
	return nodeBytes(true, varFileInfo, nodeBytes(false, translation, raw, len(raw)), 0)
}
''')
func(f,'func varBytes(','')
func(f,'func (lt *LangTable) sortedKeys()','''
func (lt *LangTable) sortedKeys() []uint16 {
	var keys []uint16
	for k := range *lt {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	return keys
}
''')
rep(f,('fmt.Sprintf("%08x", uint32(langID)<<16|codePageUTF16LE)','fmt.Sprintf("%04x%04x", langID, codePageUTF16LE)'))
func(f,'func (vi *Info) readNode(','''
func (vi *Info) readNode(parent interface{}, data []byte) (int, error) {
	n, pos, err := readNodeHeader(data)
	if err != nil {
		return 0, err
	}
	length, valueLength := int(n.Length), int(n.ValueLength)
	if length < sizeOfNodeHeader || length > len(data) {
		return 0, errors.New(errInvalidLength)
	}
	data = data[:length]

	key, err := readString(data, &pos)
	if err != nil {
		return 0, err
	}
	if valueLength > 0 && align(pos)+valueLength > length {
		return 0, io.ErrUnexpectedEOF
	}

	switch p := parent.(type) {
	case nil:
		if key == vsVersionInfo {
			err = vi.readRoot(data, pos, valueLength)
		}
	case string:
		if p == vsVersionInfo && key == stringFileInfo {
			err = vi.readChildren(key, data, &pos)
		} else if p == stringFileInfo {
			err = vi.readTable(key, data, pos)
		}
	case uint16:
		var value string
		pos = align(pos)
		value, err = readStringWithLength(data, &pos, valueLength)
		if err == nil {
			vi.Set(p, key, value)
		}
	}
	if err != nil {
		return 0, err
	}
	return length, nil
}

func (vi *Info) readRoot(data []byte, pos, valueLength int) error {
	if valueLength >= sizeOfFixedFileInfo {
		if err := vi.readFixedStruct(data[align(pos):]); err != nil {
			return err
		}
	}
	pos += valueLength
	return vi.readChildren(vsVersionInfo, data, &pos)
}

func (vi *Info) readTable(key string, data []byte, pos int) error {
	var langID, codePage uint16
	if _, err := fmt.Sscanf(key, "%04x%04x", &langID, &codePage); err != nil {
		return errors.New(errInvalidLangID)
	}
	if codePage != codePageUTF16LE {
		return errors.New(errUnhandledCodePage)
	}
	return vi.readChildren(langID, data, &pos)
}
''')
func(f,'func readString(','''
func readString(data []byte, pos *int) (string, error) {
	var units []uint16
	for i := *pos; i+1 < len(data); i += 2 {
		u := binary.LittleEndian.Uint16(data[i:])
		if u != 0 {
			units = append(units, u)
			continue
		}
		if len(units) == 0 {
			break
		}
		*pos = i + 2
		return string(utf16.Decode(units)), nil
	}
	*pos = len(data)
	return "", io.ErrUnexpectedEOF
}
''')
func(f,'func (vi *Info) fixedFileInfo()','''
func (vi *Info) fixedFileInfo() _VS_FIXEDFILEINFO {
	pair := func(v []uint16) uint32 { return uint32(v[0])<<16 + uint32(v[1]) }
	ffi := _VS_FIXEDFILEINFO{
		Signature:        fixedFileInfoSignature,
		StrucVersion:     fixedFileInfoVersion,
		FileVersionMS:    pair(vi.FileVersion[:2]),
		FileVersionLS:    pair(vi.FileVersion[2:]),
		ProductVersionMS: pair(vi.ProductVersion[:2]),
		ProductVersionLS: pair(vi.ProductVersion[2:]),
		FileFlagsMask:    _VS_FF_MASK,
		FileOS:           _VOS_NT_WINDOWS32,
		FileType:         _VFT_UNKNOWN,
	}
	for _, f := range []struct {
		set  bool
		flag uint32
	}{
		{vi.Flags.Debug, _VS_FF_DEBUG},
		{vi.Flags.Prerelease, _VS_FF_PRERELEASE},
		{vi.Flags.Patched, _VS_FF_PATCHED},
		{vi.Flags.PrivateBuild, _VS_FF_PRIVATEBUILD},
		{vi.Flags.SpecialBuild, _VS_FF_SPECIALBUILD},
	} {
		if f.set {
			ffi.FileFlags |= f.flag
		}
	}
	if vi.Type == App {
		ffi.FileType = _VFT_APP
	} else if vi.Type == DLL {
		ffi.FileType = _VFT_DLL
	}
	ffi.FileDateMS, ffi.FileDateLS = timeToTimestamp(vi.Timestamp)
	return ffi
}
''')
f='version/timestamp.go'
rep(f,('''	ts := t.Unix()*tsUnitPerSecond + int64(t.Nanosecond()/tsUnitToNano) + unixEpoch
	return uint32(uint64(ts) >> 32), uint32(ts)''','''	ts := uint64(unixEpoch) + uint64(t.Unix()*tsUnitPerSecond)
	ts += uint64(t.Nanosecond()) / tsUnitToNano
	return uint32(ts >> 32), uint32(ts & 0xFFFFFFFF)'''),
('''	ts := int64((uint64(ms)<<32 | uint64(ls)) - unixEpoch)
	return time.Unix(ts/tsUnitPerSecond, ts%tsUnitPerSecond*tsUnitToNano)''','''	ts := int64(uint64(ms)<<32+uint64(ls)) - unixEpoch
	sec, rem := ts/tsUnitPerSecond, ts%tsUnitPerSecond
	if rem < 0 {
		sec--
		rem += tsUnitPerSecond
	}
	return time.Unix(sec, rem*tsUnitToNano)'''))
f='version/version.go'
func(f,'func versionStringToArray(','''
func versionStringToArray(v string) [4]uint16 {
	var ver [4]uint16
	start := strings.IndexAny(v, "0123456789")
	if start < 0 {
		return ver
	}
	part := 0
	for _, c := range []byte(v[start:]) {
		switch {
		case c >= '0' && c <= '9':
			ver[part] *= 10
			ver[part] += uint16(c) - '0'
			continue
		case c == '.' && part != 3:
			part++
			continue
		}
		break
	}
	return ver
}
''')
rep(f,('''			part++
			continue
		}
		break
	}
	return ver''','''			part++
			continue
		}
		return ver
	}
	return ver'''))
func(f,'func (vi *Info) splitLangs()','''
func (vi *Info) splitLangs() map[uint16]*Info {
	order := append([]uint16{LangNeutral, LangDefault}, vi.lt.sortedKeys()...)
	defaults := StringTable{}
	for i := len(order) - 1; i >= 0; i-- {
		st, ok := vi.lt[order[i]]
		if !ok || st == nil && i < 2 {
			continue
		}
		for k, v := range *st {
			defaults[k] = v
		}
	}
	m := make(map[uint16]*Info, len(vi.lt))
	for langID, st := range vi.lt {
		trans := Info{}
		trans.FileVersion, trans.ProductVersion = vi.FileVersion, vi.ProductVersion
		trans.Flags, trans.Type, trans.Timestamp = vi.Flags, vi.Type, vi.Timestamp
		for _, table := range []StringTable{defaults, *st} {
			for k, v := range table {
				trans.Set(langID, k, v)
			}
		}
		m[langID] = &trans
	}
	return m
}
''')
func(f,'func findMainTranslation(','''
func findMainTranslation(translations map[uint16]*Info) *Info {
	for _, lang := range []uint16{LangNeutral, LangDefault} {
		if t := translations[lang]; t != nil {
			return t
		}
	}
	var (
		best *Info
		low  = 0x10000
	)
	for k, v := range translations {
		if v != nil && int(k) < low {
			best, low = v, int(k)
		}
	}
	return best
}
''')
func(f,'func (vi *Info) singleLang()','''
func (vi *Info) singleLang() *StringTable {
	var found []*StringTable
	for _, st := range vi.lt {
		if st != nil && len(*st) > 0 {
			found = append(found, st)
		}
	}
	if len(found) != 1 {
		return nil
	}
	return found[0]
}
''')
rep(f,('''	vi.ProductVersion = versionStringToArray(productVersion)
	if len(vi.lt) == 0 {
		vi.Set(LangNeutral, ProductVersion, productVersion)
		return
	}
	for langID := range vi.lt {
		vi.Set(langID, ProductVersion, productVersion)
	}
''','''	vi.ProductVersion = versionStringToArray(productVersion)
	vi.setEverywhere(ProductVersion, productVersion)
'''),('''	vi.FileVersion = versionStringToArray(fileVersion)
	if len(vi.lt) == 0 {
		vi.Set(LangNeutral, FileVersion, fileVersion)
		return
	}
	for langID := range vi.lt {
		vi.Set(langID, FileVersion, fileVersion)
	}
}
''','''	vi.FileVersion = versionStringToArray(fileVersion)
	vi.setEverywhere(FileVersion, fileVersion)
}

func (vi *Info) setEverywhere(key, value string) {
	langs := vi.lt.sortedKeys()
	if len(langs) == 0 {
		langs = []uint16{LangNeutral}
	}
	for _, langID := range langs {
		vi.Set(langID, key, value)
	}
}
'''))
f='version/json.go'
rep(f,('''	if vi.Flags.Debug {
		jf.Flags += "Debug,"
	}
	if vi.Flags.Prerelease {
		jf.Flags += "Prerelease,"
	}
	if vi.Flags.Patched {
		jf.Flags += "Patched,"
	}
	if vi.Flags.PrivateBuild {
		jf.Flags += "PrivateBuild,"
	}
	if vi.Flags.SpecialBuild {
		jf.Flags += "SpecialBuild,"
	}
	jf.Flags = strings.TrimRight(jf.Flags, ",")
''','''	var flags []string
	add := func(set bool, name string) {
		if set {
			flags = append(flags, name)
		}
	}
	add(vi.Flags.Debug, "Debug")
	add(vi.Flags.Prerelease, "Prerelease")
	add(vi.Flags.Patched, "Patched")
	add(vi.Flags.PrivateBuild, "PrivateBuild")
	add(vi.Flags.SpecialBuild, "SpecialBuild")
	jf.Flags = strings.Join(flags, ",")
'''),('''	if vi.FileVersion != [4]uint16{} {
		jf.FileVersion = fmt.Sprintf("%d.%d.%d.%d", vi.FileVersion[0], vi.FileVersion[1], vi.FileVersion[2], vi.FileVersion[3])
	}
	if vi.ProductVersion != [4]uint16{} {
		jf.ProductVersion = fmt.Sprintf("%d.%d.%d.%d", vi.ProductVersion[0], vi.ProductVersion[1], vi.ProductVersion[2], vi.ProductVersion[3])
	}''','''	jf.FileVersion = versionText(vi.FileVersion)
	jf.ProductVersion = versionText(vi.ProductVersion)'''),
('func (vi *Info) UnmarshalJSON','''func versionText(v [4]uint16) string {
	var zero [4]uint16
	if v == zero {
		return ""
	}
	s := strconv.Itoa(int(v[0]))
	for _, n := range v[1:] {
		s += "." + strconv.Itoa(int(n))
	}
	return s
}

func (vi *Info) UnmarshalJSON'''))
f='manifest.go'
rep(f,('''vars.AssemblyVersion = fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3])''','''vars.AssemblyVersion = joinVersion(v)'''),
('''	if ai.Name != "" {
		j.Version = fmt.Sprintf("%d.%d.%d.%d", ai.Version[0], ai.Version[1], ai.Version[2], ai.Version[3])
	}
''','''	j.Version = joinVersion(ai.Version)
'''),
('''func makeManifest(''','''func joinVersion(v [4]uint16) string {
	var b []byte
	for i := range v {
		if i > 0 {
			b = append(b, '.')
		}
		b = strconv.AppendUint(b, uint64(v[i]), 10)
	}
	return string(b)
}

func makeManifest('''),
('''	m.Compatibility = Win10AndAbove + 1
	for _, os := range x.Compatibility.Application.SupportedOS {
		c := osIDToEnum(os.Id)
		if c < m.Compatibility {
			m.Compatibility = c
		}
	}
	if m.Compatibility > Win10AndAbove {
		m.Compatibility = Win7AndAbove
	}
''','''	list := x.Compatibility.Application.SupportedOS
	if len(list) > 0 {
		m.Compatibility = Win10AndAbove
	}
	for i := range list {
		if c := osIDToEnum(list[i].Id); c < m.Compatibility {
			m.Compatibility = c
		}
	}
'''),
('''	v := strings.Split(x.Identity.Version, ".")
	if len(v) > 4 {
		v = v[:4]
	}
	for i := range v {
		n, err := strconv.ParseUint(v[i], 10, 16)
		if err == nil {
			m.Identity.Version[i] = uint16(n)
		}
	}
''','''	for i, part := range strings.Split(x.Identity.Version, ".") {
		if i == len(m.Identity.Version) {
			break
		}
		if n, err := strconv.ParseUint(part, 10, 16); err == nil {
			m.Identity.Version[i] = uint16(n)
		}
	}
'''),
('''	for i := range v {
		n, err := strconv.ParseUint(v[i], 10, 16)
		if err != nil {
			return errors.New(errInvalidVersion)
		}
		ai.Version[i] = uint16(n)
	}
	return nil''','''	for i, part := range v {
		n, err := strconv.Atoi("0" + part)
		if err != nil || part == "" || n > 0xFFFF || part[0] == '-' || part[0] == '+' {
			return errors.New(errInvalidVersion)
		}
		ai.Version[i] = uint16(n)
	}
	return nil'''),
)
func(f,'func readDPIAwareness(','''
func readDPIAwareness(dpiAware string, dpiAwareness string) DPIAwareness {
	known := map[string]DPIAwareness{
		"permonitorv2": DPIPerMonitorV2,
		"permonitor":   DPIPerMonitor,
		"system":       DPIAware,
		"unaware":      DPIUnaware,
	}
	rest := dpiAwareness
	for more := true; more; {
		var s string
		s, rest, more = strings.Cut(rest, ",")
		if a, ok := known[manifestString(s)]; ok {
			return a
		}
	}
	if s := manifestString(dpiAware); s == "true" {
		return DPIAware
	} else if s == "true/pm" {
		return DPIPerMonitor
	}
	return DPIUnaware
}
''')
s=open(f).read()
i=s.index('	buf := &bytes.Buffer{}\n	tmpl :=')
j=s.index('var xmlEscapers')
j=s.rindex('// xmlEscapers',0,j)
s=s[:i]+'''	return writeManifest(&vars.AppManifest, vars.AssemblyName, vars.AssemblyVersion, vars.SupportedOS, vars.DPIAware, vars.DPIAwareness, vars.ExecutionLevel)
}

func writeManifest(m *AppManifest, name, version string, osList []string, dpiAware, dpiAwareness, level string) []byte {
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
<assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0">`)
	if name != "" {
		e, _ := escapeXML(name)
		fmt.Fprintf(&b, `

  <assemblyIdentity type="win32" name="%s" version="%s" processorArchitecture="*"/>`, e, version)
	}
	if m.Description != "" {
		e, _ := escapeXML(m.Description)
		b.WriteString("\\n  <description>" + strings.ReplaceAll(e, "&#xA;", "\\n") + "</description>")
	}
	b.WriteString(`

  <compatibility xmlns="urn:schemas-microsoft-com:compatibility.v1">
    <application>`)
	for _, id := range osList {
		b.WriteString("\\n      <supportedOS Id=\\"" + id + "\\"/>")
	}
	b.WriteString(`
    </application>
  </compatibility>

  <application xmlns="urn:schemas-microsoft-com:asm.v3">
    <windowsSettings>
      <dpiAware xmlns="http://schemas.microsoft.com/SMI/2005/WindowsSettings">` + dpiAware + `</dpiAware>
      <dpiAwareness xmlns="http://schemas.microsoft.com/SMI/2016/WindowsSettings">` + dpiAwareness + `</dpiAwareness>`)
	setting := func(on bool, tag, year, value string) {
		if on {
			fmt.Fprintf(&b, "\\n      <%s xmlns=\\"http://schemas.microsoft.com/SMI/%s/WindowsSettings\\">%s</%s>", tag, year, value, tag)
		}
	}
	setting(m.AutoElevate, "autoElevate", "2005", "true")
	setting(m.DisableTheming, "disableTheming", "2005", "true")
	setting(m.DisableWindowFiltering, "disableWindowFiltering", "2011", "true")
	setting(m.HighResolutionScrollingAware, "highResolutionScrollingAware", "2013", "true")
	setting(m.PrinterDriverIsolation, "printerDriverIsolation", "2011", "true")
	setting(m.UltraHighResolutionScrollingAware, "ultraHighResolutionScrollingAware", "2013", "true")
	setting(m.LongPathAware, "longPathAware", "2016", "true")
	setting(m.GDIScaling, "gdiScaling", "2017", "true")
	setting(m.SegmentHeap, "heapType", "2020", "SegmentHeap")
	fmt.Fprintf(&b, `
    </windowsSettings>
  </application>

  <trustInfo xmlns="urn:schemas-microsoft-com:asm.v3">
    <security>
      <requestedPrivileges>
        <requestedExecutionLevel level="%s" uiAccess="%t"/>
      </requestedPrivileges>
    </security>
  </trustInfo>`, level, m.UIAccess)
	if m.UseCommonControlsV6 {
		b.WriteString(`

  <dependency>
    <dependentAssembly>
      <assemblyIdentity type="win32" name="Microsoft.Windows.Common-Controls" version="6.0.0.0" processorArchitecture="*" publicKeyToken="6595b64144ccf1df" language="*"/>
    </dependentAssembly>
  </dependency>`)
	}
	b.WriteString("\\n\\n</assembly>\\n")
	return []byte(b.String())
}

'''+s[s.index('func escapeXML'):]
open(f,'w').write(s)
imports(f,drop=['text/template'])
