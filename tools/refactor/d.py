import sys; sys.path.insert(0,'/tmp/rf')
from lib import *
f='rsrc.go'
rep(f,('''	sort.Slice(s.orderedKeys, func(i, j int) bool {
		return s.orderedKeys[i].lessThan(s.orderedKeys[j])
	})''','''	sortKeys(s.orderedKeys)'''),
('''	sort.Slice(te.orderedKeys, func(i, j int) bool {
		return te.orderedKeys[i].lessThan(te.orderedKeys[j])
	})''','''	sortKeys(te.orderedKeys)'''),
('''	sort.Slice(re.orderedKeys, func(i, j int) bool {
		return re.orderedKeys[i].lessThan(re.orderedKeys[j])
	})''','''	slices.Sort(re.orderedKeys)'''),
('''type typeEntry struct''','''func sortKeys[T Identifier](keys []T) {
	slices.SortStableFunc(keys, func(a, b T) int {
		switch {
		case a.lessThan(b):
			return -1
		case b.lessThan(a):
			return 1
		}
		return 0
	})
}

type typeEntry struct'''),
('''	names := make([]string, 0, len(nameSet))
	for n := range nameSet {
		names = append(names, string(n))
	}
	sort.Strings(names)
''','''	names := slices.Sorted(maps.Keys(nameSet))
'''),
('''		u := utf16.Encode([]rune(n))
		s.namesData''','''		u := utf16.Encode([]rune(string(n)))
		s.namesData'''),
)
imports(f,add=['slices','maps'])
f='coff.go'
rep(f,('''func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {''','''func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
	bw := bufio.NewWriterSize(w, 64)
	if err := writeObjectTo(bw, r, arch); err != nil {
		return err
	}
	return bw.Flush()
}

func writeObjectTo(w io.Writer, r *ResourceSet, arch Arch) error {'''))
imports(f,add=['bufio'])
f='icon.go'
rep(f,('''	sort.SliceStable(icon.images, func(i, j int) bool {
		img1, img2 := &icon.images[i].info, &icon.images[j].info
		return img1.BitCount > img2.BitCount ||
			img1.BitCount == img2.BitCount && int(img1.Width-1)+1 > int(img2.Width-1)+1
	})''','''	slices.SortStableFunc(icon.images, func(a, b iconImage) int {
		if c := cmp.Compare(b.info.BitCount, a.info.BitCount); c != 0 {
			return c
		}
		return cmp.Compare(b.info.Width-1, a.info.Width-1)
	})'''),
('''	buf := &bytes.Buffer{}
	if err := pngEncode(buf, img); err != nil {
		return err
	}
''','''	buf := bufPool.Get().(*bytes.Buffer)
	defer bufPool.Put(buf)
	buf.Reset()
	if err := pngEncode(buf, img); err != nil {
		return err
	}
	data := append([]byte(nil), buf.Bytes()...)
'''),('image: buf.Bytes(),','image: data,'),('''func (icon *Icon) order''','''var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func (icon *Icon) order'''))
imports(f,add=['slices','cmp','sync'],drop=['sort'])
f='cursor.go'
rep(f,('''	sort.SliceStable(cursor.images, func(i, j int) bool {
		img1, img2 := &cursor.images[i].info, &cursor.images[j].info
		return img1.BitCount > img2.BitCount || img1.BitCount == img2.BitCount && img1.Width > img2.Width
	})''','''	sortDesc(cursor.images, func(c cursorImage) uint32 { return uint32(c.info.BitCount)<<16 | uint32(c.info.Width) })'''),
('func readDIBBitCount','''func sortDesc[T any](list []T, key func(T) uint32) {
	idx := make([]int, len(list))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool {
		a, b := key(list[idx[i]]), key(list[idx[j]])
		return a > b || a == b && idx[i] < idx[j]
	})
	out := make([]T, len(list))
	for i, j := range idx {
		out[i] = list[j]
	}
	copy(list, out)
}

func readDIBBitCount'''))
f='exe.go'
rep(f,('''func (pew *peWriter) writeEXE(w io.Writer) error {
	var err error
''','''func (pew *peWriter) writeEXE(w io.Writer) (err error) {
	defer func() {
		if r := recover(); r != nil {
			panic(r)
		}
	}()
'''),
('''	_, err = io.CopyN(w, pew.src.r, end-int64(pew.src.dataOffset))
	if err != nil {
		return err
	}''','''	if n := end - int64(pew.src.dataOffset); n > 0 {
		n2, err := io.CopyBuffer(w, io.LimitReader(pew.src.r, n), make([]byte, 100))
		if err != nil {
			return err
		}
		if n2 < n {
			return io.EOF
		}
	}'''))
f='manifest.go'
rep(f,('''	tmpl := template.Must(template.New("manifest").Funcs(xmlEscapers).Parse(manifestTemplate))
''','''	tmpl := compiled(manifestTemplate)
'''),('''func makeManifest(''','''var templates sync.Map

func compiled(text string) *template.Template {
	if t, ok := templates.Load(text); ok {
		return t.(*template.Template)
	}
	t := template.Must(template.New("manifest").Funcs(xmlEscapers).Parse(text))
	templates.Store(text, t)
	return t
}

func makeManifest('''),
('''	return strings.ToLower(strings.TrimSpace(s))
}''','''	s = strings.TrimFunc(s, unicode.IsSpace)
	return strings.Map(unicode.ToLower, s)
}'''))
imports(f,add=['sync','unicode'])
f='version/binary.go'
rep(f,('''	sort.Strings(keys)
	return keys''','''	slices.Sort(keys)
	return keys'''),('''	keys := make([]int, 0, len(*lt))
	for k := range *lt {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	keysU16 := make([]uint16, len(*lt))
	for i, v := range keys {
		keysU16[i] = uint16(v)
	}
	return keysU16''','''	return slices.Sorted(maps.Keys(*lt))'''))
imports(f,add=['slices','maps'],drop=['sort'])
