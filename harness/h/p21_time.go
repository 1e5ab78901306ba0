package h

import (
	"time"

	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

// Seconds between 1601-01-01 and 1970-01-01, and ticks of 100 ns.
const (
	secs1601  = 11644473600
	ticks1601 = secs1601 * 10000000
)

func zone(t time.Time) time.Time {
	switch sym.Choice("zone", 4) {
	case 1:
		return t.UTC()
	case 2:
		return t.In(time.FixedZone("E", 14*3600))
	case 3:
		return t.In(time.FixedZone("W", -12*3600-1800))
	}
	return t
}

func le32at(b []byte, o int) uint32 {
	return uint32(b[o]) | uint32(b[o+1])<<8 | uint32(b[o+2])<<16 | uint32(b[o+3])<<24
}

// P21_Write: any instant the format can represent is stored as the number of 100 ns intervals since 1601.
func P21_Write() {
	sec := int64(sym.U64("sec"))
	nano := int64(sym.U32("nano"))
	sym.Assume(nano < 1000000000)
	sym.Assume(sec >= -secs1601)
	sym.Assume(sec < (1<<63-1-ticks1601)/10000000)
	sym.Assume(sym.Or(sec > -secs1601, nano >= 100))
	vi := &version.Info{Timestamp: zone(time.Unix(sec, nano))}
	b := vi.Bytes()
	got := uint64(le32at(b, 40+44))<<32 | uint64(le32at(b, 40+48))
	sym.ObserveInt("stamp", int(got))
	sym.Assert(got == uint64(sec)*10000000+uint64(uint32(nano)/100)+ticks1601, "stored as a FILETIME")
	sym.Cover("written")
}

// P21_Read: any stored FILETIME is read as the right instant.
func P21_Read() {
	b := (&version.Info{}).Bytes()
	hi, lo := sym.U32("hi"), sym.U32("lo")
	sym.Assume(hi < 1<<31)
	sym.Assume(sym.Or(hi != 0, lo != 0))
	p32(b, 40+44, int(hi))
	p32(b, 40+48, int(lo))
	vi, err := version.FromBytes(b)
	if err != nil {
		sym.Assert(false, "readable")
		return
	}
	t := vi.Timestamp
	ns := t.Nanosecond()
	sym.Assert(!t.IsZero(), "not the zero time")
	sym.Assert(sym.And(ns >= 0, ns < 1000000000), "nanoseconds in range")
	sym.Assert(uint64(t.Unix()+secs1601)*10000000+uint64(ns/100) == uint64(hi)<<32|uint64(lo), "the instant stored")
	sym.Assert(ns%100 == 0, "a whole number of ticks")
	sym.Cover("read")
}

// P21_Trip: any instant, in any time zone, is read back within 100 ns.
func P21_Trip() {
	sec := int64(sym.U32("sec"))
	nano := int64(sym.U32("nano"))
	sym.Assume(nano < 1000000000)
	base := []int64{-secs1601, -62e8, -1 << 31, 0, 1 << 32, 9e9, 250e9}[sym.Choice("era", 7)]
	if base == -secs1601 {
		sym.Assume(sec > 0)
	}
	t := zone(time.Unix(base+sec, nano))
	back, err := version.FromBytes((&version.Info{Timestamp: t}).Bytes())
	if err != nil {
		sym.Assert(false, "readable")
		return
	}
	u := back.Timestamp
	a, b := t.Nanosecond(), u.Nanosecond()
	ds := u.Unix() - t.Unix()
	same := sym.And(ds == 0, sym.And(a < b+100, b < a+100))
	next := sym.And(ds == 1, b+1000000000 < a+100)
	prev := sym.And(ds == -1, a+1000000000 < b+100)
	sym.Assert(sym.Or(same, sym.Or(next, prev)), "within 100 ns")
	sym.Cover("same")
}

// P21_Zero: the zero time stays zero, and no time is read as zero otherwise.
func P21_Zero() {
	back, err := version.FromBytes((&version.Info{Timestamp: zone(time.Time{})}).Bytes())
	if err != nil {
		sym.Assert(false, "readable")
		return
	}
	sym.Assert(back.Timestamp.IsZero(), "zero")
	sym.Cover("zero")
}
