import sys; sys.path.insert(0,'/tmp/rf')
from lib import *
# exe.go
func('exe.go','func (pew *peWriter) fillSectionsInfo() error','''
func (pew *peWriter) fillSectionsInfo() error {
	var (
		sections = pew.h.sections
		rsrcAddr = pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress
		relAddr  = pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BASERELOC].VirtualAddress
	)
	pew.src.rsrcEnd = pew.src.fileSize
	for i := range sections {
		s := &sections[i]
		if s.VirtualAddress == rsrcAddr {
			if pew.rsrcHdr != nil {
				return errors.New(errRSRCTwice)
			}
			pew.rsrcHdr = s
		}
		if s.VirtualAddress == relAddr {
			if pew.relocHdr != nil {
				return errors.New(errRelocTwice)
			}
			pew.relocHdr = s
		}
	}
	if s := pew.rsrcHdr; s != nil {
		pew.src.rsrcEnd = int64(pew.roundRaw(s.PointerToRawData + s.SizeOfRawData))
	}

	first, last, top := ^uint32(0), uint32(0), uint32(0)
	for i := range sections {
		s := &sections[i]
		if e := s.VirtualAddress + virtualSize(s); e > top {
			top = e
		}
		if !pew.hasData(s) {
			continue
		}
		from, to := s.PointerToRawData, s.PointerToRawData+s.SizeOfRawData
		if int64(from)+int64(s.SizeOfRawData) > pew.src.fileSize {
			return io.ErrUnexpectedEOF
		}
		if from < first {
			first = from
		}
		if to > last {
			last = to
		}
	}
	pew.src.dataOffset, pew.src.dataEnd = first, last
	pew.src.virtEnd = pew.roundVirt(top)
	if last == 0 {
		return errors.New(errNoRoomForRSRC)
	}
	if e := int64(last); pew.src.rsrcEnd > e {
		pew.src.rsrcEnd = e
	}
	return nil
}

func (pew *peWriter) hasData(s *pe.SectionHeader32) bool {
	switch {
	case s.SizeOfRawData == 0:
		return false
	case s == pew.rsrcHdr:
		return true
	}
	return s.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA == 0
}
''')
func('exe.go','func (pew *peWriter) writeEXE(','''
func (pew *peWriter) writeEXE(w io.Writer) error {
	var (
		rsrcPos = int64(pew.rsrcHdr.PointerToRawData)
		end     = int64(pew.src.dataEnd)
		start   = int64(pew.src.dataOffset)
		hdr     bytes.Buffer
	)
	if rsrcPos < end {
		end = rsrcPos
	}
	for _, v := range []interface{}{&pew.h.file, pew.h.opt, pew.h.dirs, pew.h.sections} {
		if err := binary.Write(&hdr, binary.LittleEndian, v); err != nil {
			return err
		}
	}

	if err := pew.copyRange(w, 0, pew.h.stubLength+4); err != nil {
		return err
	}
	if _, err := hdr.WriteTo(w); err != nil {
		return err
	}
	if err := writeBlank(w, start-pew.h.length); err != nil {
		return err
	}
	if err := pew.copyRange(w, start, end); err != nil {
		return err
	}
	if err := writeBlank(w, rsrcPos-end); err != nil {
		return err
	}
	if _, err := w.Write(pew.rsrcData); err != nil {
		return err
	}
	if err := writeBlank(w, int64(pew.rsrcHdr.SizeOfRawData)-int64(len(pew.rsrcData))); err != nil {
		return err
	}
	return pew.copyRange(w, pew.src.rsrcEnd, pew.src.fileSize-pew.src.sigSize)
}

func (pew *peWriter) copyRange(w io.Writer, from, to int64) error {
	if _, err := pew.src.r.Seek(from, io.SeekStart); err != nil {
		return err
	}
	_, err := io.CopyN(w, pew.src.r, to-from)
	return err
}
''')
func('exe.go','func readPEOffset(','''
func readPEOffset(r io.Reader) (int64, error) {
	var stub [0x40]byte
	if err := readFull(r, stub[:]); err != nil {
		return 0, err
	}
	if stub[0] != 'M' || stub[1] != 'Z' {
		return 0, errors.New(errNotPEImage)
	}
	return int64(binary.LittleEndian.Uint32(stub[0x3C:])), nil
}
''')
func('exe.go','func (pew *peWriter) applyReloc(','''
func (pew *peWriter) applyReloc(reloc []int) {
	base := pew.rsrcHdr.VirtualAddress
	for i := len(reloc) - 1; i >= 0; i-- {
		p := pew.rsrcData[reloc[i] : reloc[i]+4]
		binary.LittleEndian.PutUint32(p, binary.LittleEndian.Uint32(p)+base)
	}
}
''')
func('exe.go','func (pew *peWriter) roundRaw(','''
func (pew *peWriter) roundRaw(p uint32) uint32 { return roundUp(p, pew.h.opt.getFileAlignment()) }

func roundUp(p, a uint32) uint32 {
	x := p + a - 1
	if a&(a-1) == 0 {
		return x &^ (a - 1)
	}
	return x / a * a
}
''')
func('exe.go','func (pew *peWriter) roundVirt(','''
func (pew *peWriter) roundVirt(p uint32) uint32 { return roundUp(p, pew.h.opt.getSectionAlignment()) }
''')
func('exe.go','func (pew *peWriter) requiresNewSection() bool','''
func (pew *peWriter) requiresNewSection() bool {
	s := pew.rsrcHdr
	switch {
	case s == nil:
		return false
	case s.SizeOfRawData == 0:
		return true
	}
	next := pew.roundVirt(s.VirtualAddress + virtualSize(s))
	isLast := next >= pew.src.virtEnd
	if r := pew.relocHdr; !isLast && r != nil && r.VirtualAddress == next {
		isLast = pew.roundVirt(r.VirtualAddress+virtualSize(r)) >= pew.src.virtEnd
	}
	if isLast {
		return false
	}
	if uint32(len(pew.rsrcData)) > s.SizeOfRawData || pew.roundVirt(s.SizeOfRawData) != pew.roundVirt(virtualSize(s)) {
		return true
	}
	missing := int(s.SizeOfRawData) - len(pew.rsrcData)
	pew.rsrcData = append(pew.rsrcData[:len(pew.rsrcData):len(pew.rsrcData)], make([]byte, missing)...)
	return false
}
''')
func('exe.go','func writeBlank(','''
func writeBlank(w io.Writer, length int64) error {
	if length < 1 {
		return nil
	}
	if s, ok := w.(io.Seeker); ok {
		if _, err := s.Seek(length-1, io.SeekCurrent); err == nil {
			_, err = w.Write([]byte{0})
			return err
		}
	}
	zero := make([]byte, 0x1000)
	for ; length >= int64(len(zero)); length -= int64(len(zero)) {
		if _, err := w.Write(zero); err != nil {
			return err
		}
	}
	if length == 0 {
		return nil
	}
	_, err := w.Write(zero[:length])
	return err
}
''')
func('exe.go','func extractRSRCSection(','''
func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
	if _, err := r.Seek(0, io.SeekStart); err != nil {
		return nil, 0, err
	}
	fileSize, err := getSeekerSize(r)
	if err != nil {
		return nil, 0, err
	}
	h, err := readPEHeaders(r)
	if err != nil {
		return nil, 0, err
	}
	dir := h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE]
	if dir == (pe.DataDirectory{}) {
		return nil, 0, ErrNoResources
	}
	for _, sec := range h.sections {
		if sec.VirtualAddress != dir.VirtualAddress {
			continue
		}
		pos, size := int64(sec.PointerToRawData), int64(sec.SizeOfRawData)
		if pos+size > fileSize {
			return nil, 0, errors.New(errSectionTooFar)
		}
		if _, err = r.Seek(pos, io.SeekStart); err != nil {
			return nil, 0, err
		}
		data, err := io.ReadAll(io.LimitReader(r, size))
		if err != nil {
			return nil, 0, err
		}
		if int64(len(data)) < size {
			return nil, 0, io.ErrUnexpectedEOF
		}
		return data, sec.VirtualAddress, nil
	}
	return nil, 0, errors.New(errRSRCNotFound)
}
''')
func('pesum.go','func (c *peCheckSum) Write(','''
func (c *peCheckSum) Write(p []byte) (int, error) {
	for _, b := range p {
		if c.size%2 == 0 {
			c.rem = uint32(b)
		} else {
			c.add(uint32(b)<<8 + c.rem)
		}
		c.size++
	}
	return len(p), nil
}

func (c *peCheckSum) add(w uint32) {
	c.sum += w
	c.sum = c.sum&0xFFFF + c.sum>>16
}
''')
func('pesum.go','func (c *peCheckSum) Sum() uint32','''
func (c *peCheckSum) Sum() uint32 {
	s := *c
	if s.size%2 == 1 {
		s.add(s.rem)
	}
	return s.sum + s.size
}
''')
func('pesum.go','func add16c(','')
imports('exe.go')
