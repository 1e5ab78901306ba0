import sys; sys.path.insert(0,'/tmp/rf')
from lib import *
f='rsrc.go'
rep(f,('''	return binary.Write(w, binary.LittleEndian, resourceDirectoryTable{
		NumberOfNameEntries: uint16(numNameEntries),
		NumberOfIDEntries:   uint16(numIDEntries),
	})''','''	b := make([]byte, 12, sizeOfDirTable)
	b = binary.LittleEndian.AppendUint16(b, uint16(numNameEntries))
	b = binary.LittleEndian.AppendUint16(b, uint16(numIDEntries))
	_, err := w.Write(b)
	return err'''),
('''	e := resourceDirectoryIDEntry{
		ID:     uint32(id),
		Offset: uint32(offset),
	}
	if isSubDir {
		e.Offset |= subdirectoryOffset
	}
	if isName {
		e.ID |= nameOffset
	}
	return binary.Write(w, binary.LittleEndian, &e)''','''	first, second := uint32(id), uint32(offset)
	if isName {
		first += nameOffset
	}
	if isSubDir {
		second += subdirectoryOffset
	}
	b := make([]byte, sizeOfDirEntry)
	binary.LittleEndian.PutUint32(b, first)
	binary.LittleEndian.PutUint32(b[4:], second)
	_, err := w.Write(b)
	return err'''),
('''	return binary.Write(w, binary.LittleEndian, resourceDataEntry{
		DataRVA:  uint32(offset),
		Size:     uint32(dataSize),
		Codepage: uint32(0), // String tables being encoded in utf-16, this field is useless. Visual studio sets it to zero.
	})''','''	var b [sizeOfDataEntry]byte
	binary.LittleEndian.PutUint64(b[:], uint64(uint32(dataSize))<<32|uint64(uint32(offset)))
	_, err := w.Write(b[:])
	return err'''),
('''	size, err := w.Write(de.data)
	if err != nil {
		return err
	}
	// Everything must be aligned, so we may skip a few byte when necessary after each resource data
	b := [dataAlignment]byte{}
	_, err = w.Write(b[:de.paddedDataSize()-size])
	return err''','''	if _, err := w.Write(de.data); err != nil {
		return err
	}
	_, err := w.Write(make([]byte, de.paddedDataSize()-len(de.data)))
	return err'''),
('''	return (offset + dataAlignment - 1) &^ (dataAlignment - 1)''','''	if r := offset % dataAlignment; r != 0 {
		offset += dataAlignment - r
	}
	return offset'''),
('''	for _, n := range names {
		s.nameOffset[Name(n)] = offset
		u := utf16.Encode([]rune(n))
		s.namesData = append(s.namesData, uint16(len(u)))
		s.namesData = append(s.namesData, u...)
		offset += (len(u) + 1) * 2
	}
''','''	base := offset
	for _, n := range names {
		s.nameOffset[Name(n)] = base + 2*len(s.namesData)
		start := len(s.namesData)
		s.namesData = append(s.namesData, 0)
		for _, r := range n {
			s.namesData = utf16.AppendRune(s.namesData, r)
		}
		s.namesData[start] = uint16(len(s.namesData) - start - 1)
	}
'''),
)
func(f,'func (te *typeEntry) order() {','''
func (te *typeEntry) order() {
	for _, re := range te.resources {
		re.order()
	}
	if te.orderedKeys != nil {
		return
	}
	var keys []Identifier
	for ident := range te.resources {
		keys = append(keys, ident)
	}
	te.orderedKeys, te.namesCount = sortIdentifiers(keys)
}

// sortIdentifiers sorts names, then IDs, and returns the number of names.
func sortIdentifiers(keys []Identifier) ([]Identifier, int) {
	var (
		names []string
		ids   []int
		out   = make([]Identifier, 0, len(keys))
	)
	for _, k := range keys {
		switch k := k.(type) {
		case Name:
			names = append(names, string(k))
		case ID:
			ids = append(ids, int(k))
		}
	}
	sort.Strings(names)
	sort.Ints(ids)
	for _, n := range names {
		out = append(out, Name(n))
	}
	for _, id := range ids {
		out = append(out, ID(id))
	}
	return out, len(names)
}
''')
func(f,'func (rs *ResourceSet) order(s *state) {','''
func (rs *ResourceSet) order(s *state) {
	var keys []Identifier
	for ident, te := range rs.types {
		te.order()
		keys = append(keys, ident)
	}
	s.orderedKeys, s.namesCount = sortIdentifiers(keys)
}
''')
func(f,'func (re *resourceEntry) order() {','''
func (re *resourceEntry) order() {
	if re.orderedKeys != nil {
		return
	}
	keys := make([]ID, 0, len(re.data))
	for id := range re.data {
		i := sort.Search(len(keys), func(i int) bool { return keys[i] >= id })
		keys = append(keys, 0)
		copy(keys[i+1:], keys[i:])
		keys[i] = id
	}
	re.orderedKeys = keys
}
''')
func(f,'func (de dirEntry) readData(','''
func (de dirEntry) readData(section *bytes.Reader, baseAddress uint32) ([]byte, error) {
	entry := make([]byte, sizeOfDataEntry)
	section.Seek(de.offset, io.SeekStart)
	if err := readFull(section, entry); err != nil {
		return nil, err
	}
	rva, size := binary.LittleEndian.Uint32(entry), int64(binary.LittleEndian.Uint32(entry[4:]))
	if rva < baseAddress {
		return nil, errors.New(errDataEntryOutOfBounds)
	}
	start := int64(rva - baseAddress)
	if start+size > section.Size() {
		return nil, errors.New(errDataEntryOutOfBounds)
	}
	data := make([]byte, size)
	section.ReadAt(data, start)
	return data, nil
}
''')
func(f,'func readName(','''
func readName(section *bytes.Reader, offset uint32) (Name, error) {
	var n [2]byte
	section.Seek(int64(offset), io.SeekStart)
	if err := readFull(section, n[:]); err != nil {
		return "", err
	}
	raw := make([]byte, 2*int(binary.LittleEndian.Uint16(n[:])))
	if err := readFull(section, raw); err != nil {
		return "", err
	}
	var units []uint16
	for ; len(raw) > 0; raw = raw[2:] {
		units = append(units, binary.LittleEndian.Uint16(raw))
	}
	return Name(string(utf16.Decode(units))), nil
}
''')
func(f,'func (de dirEntry) walk(','''
func (de dirEntry) walk(section *bytes.Reader, fn func(dirEntry) error) error {
	entries, err := de.readDirTable(section)
	for i := 0; err == nil && i < len(entries); i++ {
		err = fn(entries[i])
	}
	return err
}
''')
f='winres.go'
func(f,'func (rs *ResourceSet) set(','''
func (rs *ResourceSet) set(typeID Identifier, resID Identifier, langID uint16, data []byte) {
	if rs.types == nil {
		rs.types = map[Identifier]*typeEntry{}
	}
	if data == nil {
		rs.delete(typeID, resID, langID)
		return
	}
	rs.entry(typeID, resID, ID(langID)).data = data
	id, ok := resID.(ID)
	if !ok {
		return
	}
	switch typeID {
	case RT_ICON:
		raise(&rs.lastIconID, uint16(id))
	case RT_CURSOR:
		raise(&rs.lastCursorID, uint16(id))
	}
}

func raise(last *uint16, id uint16) {
	if *last < id {
		*last = id
	}
}

func (rs *ResourceSet) entry(typeID Identifier, resID Identifier, langID ID) *dataEntry {
	te, ok := rs.types[typeID]
	if !ok {
		te = &typeEntry{resources: map[Identifier]*resourceEntry{}}
		rs.types[typeID] = te
	}
	re, ok := te.resources[resID]
	if !ok {
		re = &resourceEntry{data: map[ID]*dataEntry{}}
		te.resources[resID] = re
		te.orderedKeys = nil
	}
	de, ok := re.data[langID]
	if !ok {
		de = new(dataEntry)
		re.data[langID] = de
		re.orderedKeys = nil
	}
	return de
}
''')
func(f,'func (rs *ResourceSet) delete(','''
func (rs *ResourceSet) delete(typeID Identifier, resID Identifier, langID uint16) {
	if te := rs.types[typeID]; te != nil {
		if re := te.resources[resID]; re != nil {
			delete(re.data, ID(langID))
			re.orderedKeys = nil
			if len(re.data) == 0 {
				delete(te.resources, resID)
				te.orderedKeys = nil
				if len(te.resources) == 0 {
					delete(rs.types, typeID)
				}
			}
		}
	}
}
''')
func(f,'func (rs *ResourceSet) Walk(','''
func (rs *ResourceSet) Walk(f func(typeID, resID Identifier, langID uint16, data []byte) bool) {
	s := &state{}
	rs.order(s)
	for _, tk := range s.orderedKeys {
		if !rs.walkType(tk, f) {
			return
		}
	}
}

func (rs *ResourceSet) walkType(typeID Identifier, f func(typeID, resID Identifier, langID uint16, data []byte) bool) bool {
	te, ok := rs.types[typeID]
	if !ok {
		return true
	}
	te.order()
	for _, rk := range te.orderedKeys {
		for _, dk := range te.resources[rk].orderedKeys {
			if !f(typeID, rk, uint16(dk), te.resources[rk].data[dk].data) {
				return false
			}
		}
	}
	return true
}
''')
func(f,'func (rs *ResourceSet) WalkType(','''
func (rs *ResourceSet) WalkType(typeID Identifier, f func(resID Identifier, langID uint16, data []byte) bool) {
	rs.walkType(typeID, func(_, resID Identifier, langID uint16, data []byte) bool {
		return f(resID, langID, data)
	})
}
''')
func(f,'func (rs *ResourceSet) Get(','''
func (rs *ResourceSet) Get(typeID, resID Identifier, langID uint16) []byte {
	if te, ok := rs.types[typeID]; ok {
		if re, ok := te.resources[resID]; ok {
			if de, ok := re.data[ID(langID)]; ok {
				return de.data
			}
		}
	}
	return nil
}
''')
func(f,'func (rs *ResourceSet) firstLang(','''
func (rs *ResourceSet) firstLang(typeID, resID Identifier) uint16 {
	te := rs.types[typeID]
	if te == nil || te.resources[resID] == nil {
		return 0
	}
	first := -1
	for lang := range te.resources[resID].data {
		if first < 0 || int(lang) < first {
			first = int(lang)
		}
	}
	if first < 0 {
		return 0
	}
	return uint16(first)
}
''')
f='id.go'
func(f,'func (id ID) lessThan(','''
func (id ID) lessThan(ident Identifier) bool {
	switch right := ident.(type) {
	case ID:
		return right > id
	default:
		return false
	}
}
''')
rep(f,('strings.ContainsRune(string(ident), 0)','strings.IndexByte(string(ident), 0) >= 0'))
f='coff.go'
rep(f,('''		err := binary.Write(w, binary.LittleEndian, &pe.Reloc{
			VirtualAddress:   uint32(a),
			SymbolTableIndex: uint32(symbolIndex),
			Type:             t,
		})
		if err != nil {
			return err
		}''','''		b := make([]byte, 0, sizeOfReloc)
		b = binary.LittleEndian.AppendUint32(b, uint32(a))
		b = binary.LittleEndian.AppendUint32(b, uint32(symbolIndex))
		b = binary.LittleEndian.AppendUint16(b, t)
		if _, err := w.Write(b); err != nil {
			return err
		}'''))
f='icon.go'
func(f,'func (icon *Icon) order() {','''
func (icon *Icon) order() {
	sort.Stable(byQuality(icon.images))
}

type byQuality []iconImage

func (q byQuality) Len() int      { return len(q) }
func (q byQuality) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q byQuality) Less(i, j int) bool {
	if q[i].info.BitCount != q[j].info.BitCount {
		return q[i].info.BitCount > q[j].info.BitCount
	}
	return q[i].info.Width-1 > q[j].info.Width-1
}
''')
func(f,'func (icon *Icon) SaveICO(','''
func (icon *Icon) SaveICO(ico io.Writer) error {
	icon.order()
	dir := make([]iconFileDirEntry, 0, len(icon.images))
	offset := sizeOfIconDirHeader + cap(dir)*sizeOfIconFileDirEntry
	for _, img := range icon.images {
		dir = append(dir, iconFileDirEntry{iconInfo: img.info, ImageOffset: uint32(offset)})
		offset += len(img.image)
	}
	if err := binary.Write(ico, binary.LittleEndian, iconDirHeader{Type: 1, Count: uint16(len(dir))}); err != nil {
		return err
	}
	if err := binary.Write(ico, binary.LittleEndian, dir); err != nil {
		return err
	}
	for _, img := range icon.images {
		if _, err := ico.Write(img.image); err != nil {
			return err
		}
	}
	return nil
}
''')
func(f,'func LoadICO(','''
func LoadICO(ico io.ReadSeeker) (*Icon, error) {
	var hdr [sizeOfIconDirHeader]byte
	if err := readFull(ico, hdr[:]); err != nil {
		return nil, err
	}
	if hdr[0] != 0 || hdr[1] != 0 || hdr[2] != 1 || hdr[3] != 0 {
		return nil, errors.New(errNotICO)
	}
	count := int(binary.LittleEndian.Uint16(hdr[4:]))
	entries := make([]iconFileDirEntry, count)
	if err := binaryRead(ico, entries); err != nil {
		return nil, err
	}
	icon := &Icon{}
	for i := range entries {
		img, err := readIconImage(ico, &entries[i])
		if err != nil {
			return nil, err
		}
		icon.images = append(icon.images, iconImage{entries[i].iconInfo, img})
	}
	return icon, nil
}

func readIconImage(ico io.ReadSeeker, e *iconFileDirEntry) ([]byte, error) {
	if e.BytesInRes > 0xA00000 {
		return nil, errors.New(errImageLengthTooBig)
	}
	if _, err := ico.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {
		return nil, err
	}
	img := make([]byte, e.BytesInRes)
	return img, readFull(ico, img)
}
''')
rep(f,('''		img := rs.Get(RT_ICON, ID(entry.Id), rs.firstLang(RT_ICON, ID(entry.Id)))
		if img == nil {''','''		imgID := ID(entry.Id)
		lang := rs.firstLang(RT_ICON, imgID)
		img := rs.Get(RT_ICON, imgID, lang)
		if img == nil {'''))
func(f,'func imageInSquareNRGBA(','''
func imageInSquareNRGBA(img image.Image, center bool) image.Image {
	b := img.Bounds()
	w, h := b.Dx(), b.Dy()
	if _, ok := img.(*image.NRGBA); ok && w == h {
		return img
	}
	side := h
	if w > h {
		side = w
	}
	left, top := 0, 0
	if center {
		left, top = (side-w)/2, (side-h)/2
	}
	out := image.NewNRGBA(image.Rect(0, 0, side, side))
	for x := 0; x < w; x++ {
		for y := 0; y < h; y++ {
			out.Set(left+x, top+y, img.At(b.Min.X+x, b.Min.Y+y))
		}
	}
	return out
}
''')
f='cursor.go'
func(f,'func (cursor *Cursor) order() {','''
func (cursor *Cursor) order() {
	imgs := cursor.images
	better := func(a, b cursorInfo) bool {
		if a.BitCount == b.BitCount {
			return a.Width > b.Width
		}
		return a.BitCount > b.BitCount
	}
	for i := 1; i < len(imgs); i++ {
		for j := i; j > 0 && better(imgs[j].info, imgs[j-1].info); j-- {
			imgs[j], imgs[j-1] = imgs[j-1], imgs[j]
		}
	}
}
''')
imports(f,drop=['sort'])
func(f,'func (ci *cursorImage) resData() []byte {','''
func (ci *cursorImage) resData() []byte {
	out := make([]byte, 4+len(ci.image))
	binary.LittleEndian.PutUint16(out, ci.hotSpot.X)
	binary.LittleEndian.PutUint16(out[2:], ci.hotSpot.Y)
	copy(out[4:], ci.image)
	return out
}
''')
rep(f,('''	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])

	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
		return 0, 0, errors.New(errUnknownImageFormat)
	}
''','''	switch binary.LittleEndian.Uint32(data) {
	case 40, 108, 124:
	default:
		return 0, 0, errors.New(errUnknownImageFormat)
	}
'''),('''				Width:      uint16(e.Width-1) + 1,
				Height:     uint16(e.Height-1) + 1,''','''				Width:      dim(e.Width),
				Height:     dim(e.Height),'''),
('func readDIBBitCount','''func dim(b uint8) uint16 {
	if b == 0 {
		return 256
	}
	return uint16(b)
}

func readDIBBitCount'''),
)
func(f,'func addAlphaToDIB(','''
func addAlphaToDIB(dib []byte, width, height int) []byte {
	out := make([]byte, 40+width*height*4)
	copy(out, dib[:40])
	out[14] = 32
	binary.LittleEndian.PutUint32(out[20:], uint32(width*height*4))
	pad := -width * 3 & 3
	in, p := dib[40:], out[40:]
	for y := 0; y < height; y++ {
		for x := 0; x < width; x++ {
			copy(p, in[:3])
			p[3] = 0xFF
			in, p = in[3:], p[4:]
		}
		if y+1 < height {
			in = in[pad:]
		}
	}
	return out
}
''')
imports('icon.go',drop=['fmt'])
