package h

import (
	"strconv"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// Name lengths and kinds used by the generators.

// asciiName is a name of n arbitrary bytes in 1..127.
func asciiName(tag string, n int) string {
	s := sym.Str(tag, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] != 0, s[i] < 0x80))
	}
	return s
}

// wide names cover 2, 3 and 4 byte UTF-8 sequences (the last one is a surrogate pair in UTF-16).
var wideNames = []string{"\u00e9", "\u20acA", "\U0001F600", "Z\U0010FFFF"}

// anyIdent is an arbitrary ID or one of several shapes of name.
func anyIdent(tag string) winres.Identifier {
	switch sym.Choice(tag+".kind", 4) {
	case 0:
		return winres.Name(asciiName(tag, 1))
	case 1:
		return winres.Name(asciiName(tag, 2))
	case 2:
		return winres.Name(wideNames[sym.Choice(tag+".wide", len(wideNames))])
	}
	return anyID(tag)
}

func anyID(tag string) winres.Identifier {
	id := sym.U16(tag)
	sym.Assume(id != 0)
	return winres.ID(id)
}

// smallIdent is an arbitrary ID or an arbitrary one-letter name.
func smallIdent(tag string) winres.Identifier {
	if sym.Choice(tag+".kind", 2) == 0 {
		return winres.Name(asciiName(tag, 1))
	}
	return anyID(tag)
}

// sameIdent compares without branching on symbolic contents.
func sameIdent(a, b winres.Identifier) bool {
	switch a := a.(type) {
	case winres.ID:
		b, ok := b.(winres.ID)
		return ok && a == b
	case winres.Name:
		b, ok := b.(winres.Name)
		return ok && sym.EqStr(string(a), string(b))
	}
	return false
}

// identLess is the documented order: names first, case sensitive ascending, then IDs ascending.
func identLess(a, b winres.Identifier) bool {
	switch a := a.(type) {
	case winres.Name:
		if b, ok := b.(winres.Name); ok {
			return string(a) < string(b)
		}
		return true
	case winres.ID:
		if b, ok := b.(winres.ID); ok {
			return a < b
		}
	}
	return false
}

type item struct {
	typ, res winres.Identifier
	lang     uint16
	data     []byte
}

func (a item) sameKey(b item) bool {
	return sym.And(sameIdent(a.typ, b.typ), sym.And(sameIdent(a.res, b.res), a.lang == b.lang))
}

// itemLess is the order of the resource directory.
func itemLess(a, b item) bool {
	st := sameIdent(a.typ, b.typ)
	sr := sameIdent(a.res, b.res)
	return sym.Or(identLess(a.typ, b.typ),
		sym.And(st, sym.Or(identLess(a.res, b.res), sym.And(sr, a.lang < b.lang))))
}

func num(s string, i int) string { return s + strconv.Itoa(i) }

// walkItems lists the set through Walk.
func walkItems(rs *winres.ResourceSet) []item {
	var out []item
	rs.Walk(func(t, r winres.Identifier, l uint16, d []byte) bool {
		out = append(out, item{t, r, l, d})
		return true
	})
	return out
}

func u16(b []byte, o int) int { return int(b[o]) | int(b[o+1])<<8 }
func u32(b []byte, o int) int {
	return int(b[o]) | int(b[o+1])<<8 | int(b[o+2])<<16 | int(b[o+3])<<24
}
func p16(b []byte, o int, v int) { b[o], b[o+1] = byte(v), byte(v>>8) }
func p32(b []byte, o int, v int) {
	b[o], b[o+1], b[o+2], b[o+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
}
