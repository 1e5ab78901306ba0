package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed bit-vector/boolean expressions. w==0 means Bool.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpUF
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpSlt
	OpIte
	OpLin // sum coef[i]*args[i] + c
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpConcat // args MSB first
	OpExtract
	OpSExt
)

type Term struct {
	op     Op
	w      uint8
	defd   bool
	id     int
	c      uint64 // const value, Lin constant, Extract lo
	args   []*Term
	coef   []uint64
	name   string
	lo, hi uint64 // unsigned range

	vars  []int32 // sorted variable ids (memo)
	varsK bool

	evalStamp int
	evalVal   uint64
}

type termKey struct {
	op   Op
	w    uint8
	c    uint64
	a, b *Term
	d    *Term
	ext  string
}

type Terms struct {
	tab    map[termKey]*Term
	n      int
	tru    *Term
	fls    *Term
	byteC  [256]*Term
	varIDs map[string]int32
	stamp  int
	low    map[*Term][]*Term // sums whose low bits are this term
}

func NewTerms() *Terms {
	tt := &Terms{tab: map[termKey]*Term{}, varIDs: map[string]int32{}}
	tt.fls = tt.mk(&Term{op: OpConst, w: 0, c: 0})
	tt.tru = tt.mk(&Term{op: OpConst, w: 0, c: 1})
	for i := range tt.byteC {
		tt.byteC[i] = tt.mk(&Term{op: OpConst, w: 8, c: uint64(i), lo: uint64(i), hi: uint64(i)})
	}
	return tt
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (tt *Terms) mk(t *Term) *Term {
	k := termKey{op: t.op, w: t.w, c: t.c}
	if len(t.args) > 0 {
		k.a = t.args[0]
	}
	if len(t.args) > 1 {
		k.b = t.args[1]
	}
	if len(t.args) == 3 {
		k.d = t.args[2]
	}
	if len(t.args) > 3 || t.coef != nil || t.name != "" {
		var sb strings.Builder
		sb.WriteString(t.name)
		if len(t.args) > 3 {
			for _, a := range t.args[2:] {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
		if t.coef != nil {
			for _, c := range t.coef {
				fmt.Fprintf(&sb, ";%d", c)
			}
		}
		k.ext = sb.String()
	}
	if o, ok := tt.tab[k]; ok {
		return o
	}
	t.id = tt.n
	tt.n++
	if t.w > 0 {
		tt.setRange(t)
	}
	tt.tab[k] = t
	return t
}

func (tt *Terms) setRange(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.c, t.c
	case OpIte:
		a, b := t.args[1], t.args[2]
		t.lo, t.hi = min(a.lo, b.lo), max(a.hi, b.hi)
	case OpConcat:
		var lo, hi uint64
		for _, a := range t.args {
			lo = lo<<a.w | a.lo
			hi = hi<<a.w | a.hi
		}
		t.lo, t.hi = lo, hi
	case OpExtract:
		a := t.args[0]
		if t.c == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		} else if t.c > 0 && a.hi>>t.c <= m {
			t.lo, t.hi = a.lo>>t.c, a.hi>>t.c
		}
	case OpURem:
		if b := t.args[1]; b.hi > 0 && b.lo > 0 {
			t.hi = min(b.hi-1, t.args[0].hi)
		}
	case OpUDiv:
		if b := t.args[1]; b.lo > 0 {
			t.lo, t.hi = t.args[0].lo/b.hi, t.args[0].hi/b.lo
		}
	case OpBAnd:
		t.hi = min(t.args[0].hi, t.args[1].hi)
	case OpBOr, OpBXor:
		h := t.args[0].hi | t.args[1].hi
		if h != 0 {
			n := bits.Len64(h)
			t.hi = mask(uint8(n))
		} else {
			t.hi = 0
		}
	case OpLShr:
		t.hi = t.args[0].hi
	case OpLin:
		var lo, hi uint64
		for i, a := range t.args {
			c := t.coef[i]
			if c > m>>1 {
				return
			}
			h1, l1 := bits.Mul64(c, a.hi)
			if h1 != 0 || l1 > m {
				return
			}
			s, cy := bits.Add64(hi, l1, 0)
			if cy != 0 || s > m {
				return
			}
			hi = s
			lo += c * a.lo
		}
		s, cy := bits.Add64(hi, t.c, 0)
		if cy == 0 && s <= m {
			t.lo, t.hi = lo+t.c, s
			return
		}
		neg := (-t.c) & m
		if lo >= neg {
			t.lo, t.hi = lo-neg, hi-neg
		}
	}
}

func (tt *Terms) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tt.tru
		}
		return tt.fls
	}
	v &= mask(w)
	if w == 8 {
		return tt.byteC[v]
	}
	return tt.mk(&Term{op: OpConst, w: w, c: v})
}

func (tt *Terms) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}

func (tt *Terms) Var(w uint8, name string) *Term {
	name = fmt.Sprintf("%s!%d", name, w)
	t := tt.mk(&Term{op: OpVar, w: w, name: name})
	return t
}

func (tt *Terms) UF(name string, w uint8, arg *Term) *Term {
	return tt.mk(&Term{op: OpUF, w: w, name: name, args: []*Term{arg}})
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (tt *Terms) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tt.Bool(a.c == 0)
	case OpNot:
		return a.args[0]
	}
	return tt.mk(&Term{op: OpNot, args: []*Term{a}})
}

func (tt *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(&Term{op: OpAnd, args: []*Term{a, b}})
}

func (tt *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(&Term{op: OpOr, args: []*Term{a, b}})
}

// leadingZeros returns the number of bits at the top known to be zero.
func (t *Term) topZeros() uint8 {
	return t.w - uint8(bits.Len64(t.hi))
}

func (tt *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return tt.Not(a)
		}
		if a.op == OpNot && b.op == OpNot {
			return tt.Eq(a.args[0], b.args[0])
		}
		if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
			return tt.fls
		}
	} else {
		if a.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			return tt.fls
		}
		if a.hi < b.lo || b.hi < a.lo {
			return tt.fls
		}
		if b.isConst() {
			switch a.op {
			case OpConcat:
				// split
				r := tt.tru
				sh := a.w
				for _, x := range a.args {
					sh -= x.w
					r = tt.And(r, tt.Eq(x, tt.Const(x.w, b.c>>sh)))
					if r == tt.fls {
						return r
					}
				}
				return r
			case OpIte:
				x, y := a.args[1], a.args[2]
				if x.isConst() || y.isConst() {
					return tt.IteB(a.args[0], tt.Eq(x, b), tt.Eq(y, b))
				}
			case OpLin:
				if len(a.args) == 1 && a.coef[0] == 1 {
					return tt.Eq(a.args[0], tt.Const(a.w, b.c-a.c))
				}
				if len(a.args) == 1 && a.coef[0] == mask(a.w) {
					return tt.Eq(a.args[0], tt.Const(a.w, a.c-b.c))
				}
			case OpBNot:
				return tt.Eq(a.args[0], tt.Const(a.w, ^b.c))
			case OpBXor:
				if a.args[1].isConst() {
					return tt.Eq(a.args[0], tt.Const(a.w, a.args[1].c^b.c))
				}
			}
		} else {
			if a.op == OpConcat && b.op == OpConcat && sameShape(a, b) {
				r := tt.tru
				for i := range a.args {
					r = tt.And(r, tt.Eq(a.args[i], b.args[i]))
				}
				return r
			}
			z := min(a.topZeros(), b.topZeros())
			if z > 0 && z < a.w {
				return tt.Eq(tt.Extract(a, 0, a.w-z), tt.Extract(b, 0, a.w-z))
			}
			if a.op == OpLin || b.op == OpLin {
				d := tt.Sub(a, b)
				if d.isConst() {
					return tt.Bool(d.c == 0)
				}
				if d.hi < mask(d.w) && d.lo > 0 {
					return tt.fls
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(&Term{op: OpEq, args: []*Term{a, b}})
}

func sameShape(a, b *Term) bool {
	if len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i].w != b.args[i].w {
			return false
		}
	}
	return true
}

func (tt *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return tt.fls
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Ult width mismatch %d %d", a.w, b.w))
	}
	if a.hi < b.lo {
		return tt.tru
	}
	if a.lo >= b.hi {
		return tt.fls
	}
	z := min(a.topZeros(), b.topZeros())
	if z > 0 && z < a.w {
		return tt.Ult(tt.Extract(a, 0, a.w-z), tt.Extract(b, 0, a.w-z))
	}
	if b.isConst() && b.c == a.lo+1 && a.lo < mask(a.w) {
		return tt.Eq(a, tt.Const(a.w, a.lo))
	}
	if a.isConst() && a.c == b.lo {
		return tt.Not(tt.Eq(b, a))
	}
	if b.isConst() && a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return tt.IteB(a.args[0], tt.Ult(a.args[1], b), tt.Ult(a.args[2], b))
	}
	if a.isConst() && b.op == OpIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return tt.IteB(b.args[0], tt.Ult(a, b.args[1]), tt.Ult(a, b.args[2]))
	}
	return tt.mk(&Term{op: OpUlt, args: []*Term{a, b}})
}

func (tt *Terms) Ule(a, b *Term) *Term { return tt.Not(tt.Ult(b, a)) }

func (tt *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return tt.fls
	}
	if a.w != b.w {
		panic("Slt width mismatch")
	}
	h := mask(a.w) >> 1
	if a.hi <= h && b.hi <= h {
		return tt.Ult(a, b)
	}
	if a.lo > h && b.lo > h {
		return tt.Ult(a, b)
	}
	if a.lo > h && b.hi <= h {
		return tt.tru
	}
	if a.hi <= h && b.lo > h {
		return tt.fls
	}
	if b.isConst() && b.c == 0 {
		return tt.Eq(tt.Extract(a, a.w-1, 1), tt.Const(1, 1))
	}
	return tt.mk(&Term{op: OpSlt, args: []*Term{a, b}})
}

func (tt *Terms) Sle(a, b *Term) *Term { return tt.Not(tt.Slt(b, a)) }

func (tt *Terms) IteB(c, a, b *Term) *Term {
	// boolean ite
	if c.isConst() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.isConst() {
		if a.c != 0 {
			return tt.Or(c, b)
		}
		return tt.And(tt.Not(c), b)
	}
	if b.isConst() {
		if b.c != 0 {
			return tt.Or(tt.Not(c), a)
		}
		return tt.And(c, a)
	}
	if c.op == OpNot {
		c, a, b = c.args[0], b, a
	}
	return tt.mk(&Term{op: OpIte, args: []*Term{c, a, b}})
}

func (tt *Terms) Ite(c, a, b *Term) *Term {
	if a.w == 0 {
		return tt.IteB(c, a, b)
	}
	if a.w != b.w {
		panic("Ite width mismatch")
	}
	if c.isConst() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		c, a, b = c.args[0], b, a
	}
	if a.op == OpIte && a.args[0] == c {
		return tt.Ite(c, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == c {
		return tt.Ite(c, a, b.args[2])
	}
	if a.op == OpIte && a.args[2] == b {
		return tt.Ite(tt.And(c, a.args[0]), a.args[1], b)
	}
	if b.op == OpIte && b.args[1] == a {
		return tt.Ite(tt.Or(c, b.args[0]), a, b.args[2])
	}
	return tt.mk(&Term{op: OpIte, w: a.w, args: []*Term{c, a, b}})
}

type linAcc struct {
	w  uint8
	c  uint64
	ts map[*Term]uint64
}

func (l *linAcc) add(t *Term, k uint64) {
	switch t.op {
	case OpConst:
		l.c += k * t.c
	case OpLin:
		l.c += k * t.c
		for i, a := range t.args {
			l.ts[a] += k * t.coef[i]
		}
	default:
		l.ts[t] += k
	}
}

func (tt *Terms) lin(l *linAcc) *Term {
	m := mask(l.w)
	l.c &= m
	ts := make([]*Term, 0, len(l.ts))
	for t, k := range l.ts {
		if k&m != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return tt.Const(l.w, l.c)
	}
	if len(ts) == 1 && l.c == 0 && l.ts[ts[0]]&m == 1 {
		return ts[0]
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	co := make([]uint64, len(ts))
	for i, t := range ts {
		co[i] = l.ts[t] & m
	}
	return tt.mk(&Term{op: OpLin, w: l.w, c: l.c, args: ts, coef: co})
}

func (tt *Terms) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, a.c+b.c)
	}
	if a.w != b.w {
		panic("Add width mismatch")
	}
	l := &linAcc{w: a.w, ts: map[*Term]uint64{}}
	l.add(a, 1)
	l.add(b, 1)
	return tt.lin(l)
}

func (tt *Terms) Sub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, a.c-b.c)
	}
	if a == b {
		return tt.Const(a.w, 0)
	}
	// a - (a mod 2^k)
	if b.op == OpConcat && len(b.args) == 2 && b.args[0].isConst() && b.args[0].c == 0 {
		k := b.args[1].w
		if tt.Extract(a, 0, k) == b.args[1] {
			return tt.Concat(tt.Extract(a, k, a.w-k), tt.Const(k, 0))
		}
	}
	l := &linAcc{w: a.w, ts: map[*Term]uint64{}}
	l.add(a, 1)
	l.add(b, ^uint64(0))
	return tt.lin(l)
}

func (tt *Terms) Neg(a *Term) *Term { return tt.Sub(tt.Const(a.w, 0), a) }

func (tt *Terms) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return tt.Const(a.w, a.c*b.c)
	}
	if b.isConst() {
		l := &linAcc{w: a.w, ts: map[*Term]uint64{}}
		l.add(a, b.c)
		return tt.lin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

func sext(v uint64, w uint8) int64 {
	s := 64 - w
	return int64(v<<s) >> s
}

// division semantics: caller guarantees b != 0 on the path
func (tt *Terms) UDiv(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return tt.Const(a.w, a.c/b.c)
		}
		if b.c == 1 {
			return a
		}
		if b.c&(b.c-1) == 0 {
			return tt.LShr(a, tt.Const(a.w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.hi < b.c {
			return tt.Const(a.w, 0)
		}
		// narrow
		z := min(a.topZeros(), b.topZeros())
		if z > 0 && z < a.w {
			return tt.ZExt(tt.UDiv(tt.Extract(a, 0, a.w-z), tt.Const(a.w-z, b.c)), a.w)
		}
	}
	return tt.mk(&Term{op: OpUDiv, w: a.w, args: []*Term{a, b}})
}

func (tt *Terms) URem(a, b *Term) *Term {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return tt.Const(a.w, a.c%b.c)
		}
		if b.c&(b.c-1) == 0 {
			k := uint8(bits.TrailingZeros64(b.c))
			if k == 0 {
				return tt.Const(a.w, 0)
			}
			return tt.ZExt(tt.Extract(a, 0, k), a.w)
		}
		if a.hi < b.c {
			return a
		}
		z := min(a.topZeros(), b.topZeros())
		if z > 0 && z < a.w {
			return tt.ZExt(tt.URem(tt.Extract(a, 0, a.w-z), tt.Const(a.w-z, b.c)), a.w)
		}
	}
	return tt.mk(&Term{op: OpURem, w: a.w, args: []*Term{a, b}})
}

func (tt *Terms) SDiv(a, b *Term) *Term {
	h := mask(a.w) >> 1
	if a.hi <= h && b.hi <= h {
		return tt.UDiv(a, b)
	}
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := sext(a.c, a.w), sext(b.c, b.w)
		if y == -1 {
			return tt.Const(a.w, uint64(-x))
		}
		return tt.Const(a.w, uint64(x/y))
	}
	return tt.mk(&Term{op: OpSDiv, w: a.w, args: []*Term{a, b}})
}

func (tt *Terms) SRem(a, b *Term) *Term {
	h := mask(a.w) >> 1
	if a.hi <= h && b.hi <= h {
		return tt.URem(a, b)
	}
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := sext(a.c, a.w), sext(b.c, b.w)
		if y == -1 {
			return tt.Const(a.w, 0)
		}
		return tt.Const(a.w, uint64(x%y))
	}
	return tt.mk(&Term{op: OpSRem, w: a.w, args: []*Term{a, b}})
}

// pieces, LSB first
func (tt *Terms) pieces(t *Term) []*Term {
	if t.op == OpConcat {
		r := make([]*Term, len(t.args))
		for i, a := range t.args {
			r[len(r)-1-i] = a
		}
		return r
	}
	return []*Term{t}
}

func (tt *Terms) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return tt.Const(a.w, a.c&b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == mask(b.w) {
			return a
		}
		// runs
		runs := 0
		x := b.c
		for x != 0 {
			x >>= uint(bits.TrailingZeros64(x))
			x >>= uint(bits.TrailingZeros64(^x))
			runs++
			if bits.TrailingZeros64(^x) == 64 {
				break
			}
		}
		if runs <= 3 {
			var parts []*Term // LSB first
			pos := uint8(0)
			for pos < b.w {
				v := b.c >> pos
				if v&1 == 0 {
					n := uint8(bits.TrailingZeros64(v))
					if v == 0 || pos+n > b.w {
						n = b.w - pos
					}
					parts = append(parts, tt.Const(n, 0))
					pos += n
				} else {
					n := uint8(bits.TrailingZeros64(^v))
					if pos+n > b.w {
						n = b.w - pos
					}
					parts = append(parts, tt.Extract(a, pos, n))
					pos += n
				}
			}
			return tt.concatLSB(parts)
		}
	}
	if r := tt.pieceMerge(a, b, true); r != nil {
		return r
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(&Term{op: OpBAnd, w: a.w, args: []*Term{a, b}})
}

// pieceMerge merges two concats when on each aligned segment at least one side is const 0 (or all ones/const both).
func (tt *Terms) pieceMerge(a, b *Term, isAnd bool) *Term {
	if a.op != OpConcat && b.op != OpConcat {
		return nil
	}
	pa, pb := tt.pieces(a), tt.pieces(b)
	var out []*Term
	i, j := 0, 0
	var oa, ob uint8
	for i < len(pa) && j < len(pb) {
		n := min(pa[i].w-oa, pb[j].w-ob)
		x := tt.Extract(pa[i], oa, n)
		y := tt.Extract(pb[j], ob, n)
		var z *Term
		if x.isConst() {
			x, y = y, x
		}
		switch {
		case x.isConst() && y.isConst():
			if isAnd {
				z = tt.Const(n, x.c&y.c)
			} else {
				z = tt.Const(n, x.c|y.c)
			}
		case y.isConst() && y.c == 0:
			if isAnd {
				z = y
			} else {
				z = x
			}
		case y.isConst() && y.c == mask(n):
			if isAnd {
				z = x
			} else {
				z = y
			}
		case x == y:
			z = x
		default:
			return nil
		}
		out = append(out, z)
		oa += n
		ob += n
		if oa == pa[i].w {
			i++
			oa = 0
		}
		if ob == pb[j].w {
			j++
			ob = 0
		}
	}
	return tt.concatLSB(out)
}

func (tt *Terms) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return tt.Const(a.w, a.c|b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			return b
		}
	}
	if b.isConst() && a.op != OpConcat {
		// split around const ones
		if bits.OnesCount64(b.c) <= 2 {
			m := tt.BAnd(a, tt.Const(a.w, ^b.c))
			if m.op == OpConcat {
				if r := tt.pieceMerge(m, b, false); r != nil {
					return r
				}
			}
		}
	}
	if r := tt.pieceMerge(a, b, false); r != nil {
		return r
	}
	// disjoint by ranges: or == concat
	if z := a.topZeros(); z < a.w && b.op == OpConcat {
		// a fits in the low part, b's low part zero
		lowz := trailingZeroBits(b)
		if lowz >= a.w-z && a.w-z > 0 {
			k := a.w - z
			return tt.Concat(tt.Extract(b, k, b.w-k), tt.Extract(a, 0, k))
		}
	}
	if z := b.topZeros(); z < b.w && a.op == OpConcat {
		lowz := trailingZeroBits(a)
		if lowz >= b.w-z && b.w-z > 0 {
			k := b.w - z
			return tt.Concat(tt.Extract(a, k, a.w-k), tt.Extract(b, 0, k))
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(&Term{op: OpBOr, w: a.w, args: []*Term{a, b}})
}

func trailingZeroBits(t *Term) uint8 {
	switch t.op {
	case OpConst:
		if t.c == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.c))
	case OpConcat:
		var n uint8
		for i := len(t.args) - 1; i >= 0; i-- {
			z := trailingZeroBits(t.args[i])
			n += z
			if z < t.args[i].w {
				break
			}
		}
		return n
	}
	return 0
}

func (tt *Terms) BXor(a, b *Term) *Term {
	if a == b {
		return tt.Const(a.w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return tt.Const(a.w, a.c^b.c)
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	if b.isConst() && b.c == mask(b.w) {
		return tt.BNot(a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(&Term{op: OpBXor, w: a.w, args: []*Term{a, b}})
}

func (tt *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, ^a.c)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return tt.mk(&Term{op: OpBNot, w: a.w, args: []*Term{a}})
}

func (tt *Terms) Shl(a, b *Term) *Term {
	if b.isConst() {
		k := b.c
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			return tt.Const(a.w, 0)
		}
		if a.isConst() {
			return tt.Const(a.w, a.c<<k)
		}
		if a.op == OpConcat || a.op == OpExtract || a.op == OpVar || a.op == OpUF || a.op == OpIte {
			return tt.Concat(tt.Extract(a, 0, a.w-uint8(k)), tt.Const(uint8(k), 0))
		}
		return tt.Mul(a, tt.Const(a.w, 1<<k))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return tt.mk(&Term{op: OpShl, w: a.w, args: []*Term{a, b}})
}

func (tt *Terms) LShr(a, b *Term) *Term {
	if b.isConst() {
		k := b.c
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			return tt.Const(a.w, 0)
		}
		return tt.ZExt(tt.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return tt.mk(&Term{op: OpLShr, w: a.w, args: []*Term{a, b}})
}

func (tt *Terms) AShr(a, b *Term) *Term {
	if a.hi <= mask(a.w)>>1 {
		return tt.LShr(a, b)
	}
	if b.isConst() {
		k := b.c
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		return tt.SExt(tt.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	return tt.mk(&Term{op: OpAShr, w: a.w, args: []*Term{a, b}})
}

func (tt *Terms) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrower")
	}
	return tt.Concat(tt.Const(w-a.w, 0), a)
}

func (tt *Terms) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, uint64(sext(a.c, a.w)))
	}
	if a.hi <= mask(a.w)>>1 {
		return tt.ZExt(a, w)
	}
	return tt.mk(&Term{op: OpSExt, w: w, args: []*Term{a}})
}

func (tt *Terms) Concat(parts ...*Term) *Term { // MSB first
	r := make([]*Term, len(parts))
	for i, p := range parts {
		r[len(parts)-1-i] = p
	}
	return tt.concatLSB(r)
}

// concatLSB builds a concat from LSB-first parts, merging adjacent extracts and constants.
func (tt *Terms) concatLSB(parts []*Term) *Term {
	var flat []*Term // LSB first
	var w uint8
	for _, p := range parts {
		w += p.w
		flat = append(flat, tt.pieces(p)...)
	}
	var out []*Term
	for _, p := range flat {
		if len(out) > 0 {
			q := out[len(out)-1]
			if q.isConst() && p.isConst() {
				out[len(out)-1] = tt.Const(q.w+p.w, p.c<<q.w|q.c)
				continue
			}
			qb, ql := q, uint64(0)
			if q.op == OpExtract {
				qb, ql = q.args[0], q.c
			}
			pb, pl := p, uint64(0)
			if p.op == OpExtract {
				pb, pl = p.args[0], p.c
			}
			if qb == pb && pl == ql+uint64(q.w) && !qb.isConst() {
				out[len(out)-1] = tt.rawExtract(qb, uint8(ql), q.w+p.w)
				continue
			}
			if p.op == OpExtract && pl == uint64(q.w) && tt.isLow(q, pb) {
				// both parts come from the same sum
				if m := tt.Extract(pb, 0, q.w+p.w); m.op != OpConcat {
					out[len(out)-1] = m
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	args := make([]*Term, len(out))
	for i, p := range out {
		args[len(out)-1-i] = p
	}
	return tt.mk(&Term{op: OpConcat, w: w, args: args})
}

// isLow reports that q is the low part of sum a.
func (tt *Terms) isLow(q, a *Term) bool {
	for _, o := range tt.low[q] {
		if o == a {
			return true
		}
	}
	return false
}

func (tt *Terms) rawExtract(a *Term, lo, n uint8) *Term {
	if lo == 0 && n == a.w {
		return a
	}
	return tt.mk(&Term{op: OpExtract, w: n, c: uint64(lo), args: []*Term{a}})
}

// Extract n bits from lo.
func (tt *Terms) Extract(a *Term, lo, n uint8) *Term {
	if lo == 0 && n == a.w {
		return a
	}
	if lo+n > a.w {
		panic("extract out of range")
	}
	if n == 0 {
		panic("extract 0")
	}
	switch a.op {
	case OpConst:
		return tt.Const(n, a.c>>lo)
	case OpExtract:
		return tt.Extract(a.args[0], lo+uint8(a.c), n)
	case OpConcat:
		var out []*Term
		pos := uint8(0)
		for _, p := range tt.pieces(a) {
			s, e := max(pos, lo), min(pos+p.w, lo+n)
			if s < e {
				out = append(out, tt.Extract(p, s-pos, e-s))
			}
			pos += p.w
		}
		return tt.concatLSB(out)
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return tt.Ite(a.args[0], tt.Extract(a.args[1], lo, n), tt.Extract(a.args[2], lo, n))
		}
	case OpSExt:
		if lo+n <= a.args[0].w {
			return tt.Extract(a.args[0], lo, n)
		}
	case OpLin:
		if lo == 0 {
			// truncate linear form when it keeps things simple
			l := &linAcc{w: n, ts: map[*Term]uint64{}, c: a.c}
			for i, x := range a.args {
				l.add(tt.Extract(x, 0, n), a.coef[i])
			}
			r := tt.lin(l)
			if tt.low == nil {
				tt.low = map[*Term][]*Term{}
			}
			for _, o := range tt.low[r] {
				if o == a {
					return r
				}
			}
			tt.low[r] = append(tt.low[r], a)
			return r
		}
	case OpBAnd, OpBOr, OpBXor:
		x, y := tt.Extract(a.args[0], lo, n), tt.Extract(a.args[1], lo, n)
		switch a.op {
		case OpBAnd:
			return tt.BAnd(x, y)
		case OpBOr:
			return tt.BOr(x, y)
		default:
			return tt.BXor(x, y)
		}
	case OpBNot:
		return tt.BNot(tt.Extract(a.args[0], lo, n))
	}
	if lo == 0 && a.hi == 0 {
		return tt.Const(n, 0)
	}
	if bits.Len64(a.hi) <= int(lo) {
		return tt.Const(n, 0)
	}
	// cut known-zero top bits
	if l := uint8(bits.Len64(a.hi)); l < lo+n {
		return tt.Concat(tt.Const(lo+n-l, 0), tt.rawExtract(a, lo, l-lo))
	}
	return tt.rawExtract(a, lo, n)
}

// ---- variables

func (tt *Terms) varID(name string) int32 {
	id, ok := tt.varIDs[name]
	if !ok {
		id = int32(len(tt.varIDs))
		tt.varIDs[name] = id
	}
	return id
}

func (tt *Terms) Vars(t *Term) []int32 {
	if t.varsK {
		return t.vars
	}
	t.varsK = true
	switch t.op {
	case OpConst:
		return nil
	case OpVar:
		t.vars = []int32{tt.varID(t.name)}
		return t.vars
	case OpUF:
		t.vars = mergeSorted([]int32{tt.varID(t.name)}, tt.Vars(t.args[0]))
		return t.vars
	}
	var r []int32
	for _, a := range t.args {
		r = mergeSorted(r, tt.Vars(a))
	}
	t.vars = r
	return r
}

func mergeSorted(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast path
	if isSubset(b, a) {
		return a
	}
	if isSubset(a, b) {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func isSubset(s, of []int32) bool {
	if len(s) > len(of) {
		return false
	}
	j := 0
	for _, x := range s {
		for j < len(of) && of[j] < x {
			j++
		}
		if j >= len(of) || of[j] != x {
			return false
		}
	}
	return true
}

// ---- models and evaluation

type ufKey struct {
	name string
	idx  uint64
}

type Model struct {
	stamp int
	vars  map[string]uint64
	uf    map[ufKey]uint64
}

func (tt *Terms) NewModel() *Model {
	tt.stamp++
	return &Model{stamp: tt.stamp, vars: map[string]uint64{}, uf: map[ufKey]uint64{}}
}

func (tt *Terms) CloneModel(m *Model) *Model {
	n := tt.NewModel()
	for k, v := range m.vars {
		n.vars[k] = v
	}
	for k, v := range m.uf {
		n.uf[k] = v
	}
	return n
}

func (tt *Terms) Eval(t *Term, md *Model) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if t.evalStamp == md.stamp {
		return t.evalVal
	}
	v := tt.eval1(t, md)
	t.evalStamp = md.stamp
	t.evalVal = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *Terms) eval1(t *Term, md *Model) uint64 {
	m := mask(t.w)
	switch t.op {
	case OpVar:
		return md.vars[t.name]
	case OpUF:
		return md.uf[ufKey{t.name, tt.Eval(t.args[0], md)}]
	case OpNot:
		return 1 - tt.Eval(t.args[0], md)
	case OpAnd:
		if tt.Eval(t.args[0], md) == 0 {
			return 0
		}
		return tt.Eval(t.args[1], md)
	case OpOr:
		if tt.Eval(t.args[0], md) != 0 {
			return 1
		}
		return tt.Eval(t.args[1], md)
	case OpIte:
		if tt.Eval(t.args[0], md) != 0 {
			return tt.Eval(t.args[1], md)
		}
		return tt.Eval(t.args[2], md)
	case OpLin:
		s := t.c
		for i, a := range t.args {
			s += t.coef[i] * tt.Eval(a, md)
		}
		return s & m
	case OpConcat:
		var v uint64
		for _, a := range t.args {
			v = v<<a.w | tt.Eval(a, md)
		}
		return v
	case OpExtract:
		return tt.Eval(t.args[0], md) >> t.c & m
	case OpSExt:
		return uint64(sext(tt.Eval(t.args[0], md), t.args[0].w)) & m
	case OpBNot:
		return ^tt.Eval(t.args[0], md) & m
	}
	a, b := tt.Eval(t.args[0], md), tt.Eval(t.args[1], md)
	aw := t.args[0].w
	switch t.op {
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OpMul:
		return a * b & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext(a, aw), sext(b, aw)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext(a, aw), sext(b, aw)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(aw) {
			return 0
		}
		return a << b & m
	case OpLShr:
		if b >= uint64(aw) {
			return 0
		}
		return a >> b
	case OpAShr:
		if b >= uint64(aw) {
			b = uint64(aw) - 1
		}
		return uint64(sext(a, aw)>>b) & m
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

// ---- SMT printing

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(w uint8, c uint64) string {
	if w == 0 {
		if c != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", c, w)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return constSMT(t.w, t.c)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt", OpIte: "ite",
	OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpConcat: "concat",
}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OpUF:
		fmt.Fprintf(&sb, "(|%s| %s)", t.name, t.args[0].ref())
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.c+uint64(t.w)-1, t.c, t.args[0].ref())
	case OpSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case OpLin:
		var parts []string
		for i, a := range t.args {
			switch t.coef[i] {
			case 1:
				parts = append(parts, a.ref())
			case mask(t.w):
				parts = append(parts, "(bvneg "+a.ref()+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", constSMT(t.w, t.coef[i]), a.ref()))
			}
		}
		if t.c != 0 {
			parts = append(parts, constSMT(t.w, t.c))
		}
		r := parts[0]
		for _, p := range parts[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	case OpConcat:
		r := t.args[0].ref()
		for _, a := range t.args[1:] {
			r = "(concat " + r + " " + a.ref() + ")"
		}
		return r
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" " + a.ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}
