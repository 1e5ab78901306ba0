package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) gopanic(msg string) { panic(goPanic{m.runtimeError(msg)}) }

func (m *Machine) exec(x *Ins) {
	switch in := x.in.(type) {
	case *ssa.Alloc:
		o := m.newObj(x.t.cells)
		if x.t.kind == KArray && x.t.elem.kind == KInt {
			o.elemW = x.t.elem.w
		}
		m.setReg(x.dst, Value{p: o})
	case *ssa.BinOp:
		m.setReg(x.dst, m.binop(in.Op, m.get(&x.a), m.get(&x.b), x.t, x.t2))
	case *ssa.UnOp:
		m.setReg(x.dst, m.unop(in, x))
	case *ssa.Call:
		m.execCall(x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		m.setReg(x.dst, m.get(&x.a))
	case *ssa.Convert, *ssa.MultiConvert:
		m.setReg(x.dst, m.convert(m.get(&x.a), x.t, x.t2))
	case *ssa.Extract:
		m.setReg(x.dst, m.get(&x.a).p.(Tuple)[x.n])
	case *ssa.Field:
		a, _ := m.get(&x.a).p.(Agg)
		if x.t.isAgg() {
			if a == nil {
				m.setReg(x.dst, x.t.zero())
			} else {
				m.setReg(x.dst, Value{p: a[x.n : x.n+x.t.cells : x.n+x.t.cells]})
			}
		} else {
			var v Value
			if a != nil {
				v = a[x.n]
			}
			m.setReg(x.dst, v)
		}
	case *ssa.FieldAddr:
		m.setReg(x.dst, m.fieldPtr(m.get(&x.a), x.n))
	case *ssa.If:
		c := m.get(&x.a)
		var b bool
		if c.t == nil {
			b = c.c != 0
		} else {
			b = m.decide(c.t)
		}
		k := 1
		if b {
			k = 0
		}
		m.jump(x, k)
	case *ssa.Jump:
		m.jump(x, 0)
	case *ssa.Index:
		m.setReg(x.dst, m.index(m.get(&x.a), m.idx64(m.get(&x.b), x.t2), x.t))
	case *ssa.IndexAddr:
		m.setReg(x.dst, m.indexAddr(m.get(&x.a), m.idx64(m.get(&x.b), x.t2), x.t))
	case *ssa.Lookup:
		m.lookup(x)
	case *ssa.MakeClosure:
		fr := make([]Value, len(x.args))
		for i := range x.args {
			fr[i] = m.get(&x.args[i])
		}
		cl := m.get(&x.a).p.(*Closure)
		m.setReg(x.dst, Value{p: &Closure{fn: cl.fn, free: fr}})
	case *ssa.MakeInterface:
		m.setReg(x.dst, Value{p: &Iface{x.t, m.get(&x.a)}})
	case *ssa.MakeMap:
		m.setReg(x.dst, Value{p: m.newMap(x.t)})
	case *ssa.MakeSlice:
		m.setReg(x.dst, m.makeSlice(x.t, m.idx64(m.get(&x.a), x.t2), m.idx64(m.get(&x.b), x.t2)))
	case *ssa.MapUpdate:
		mp, _ := m.get(&x.a).p.(*MapObj)
		if mp == nil {
			m.gopanic("assignment to entry in nil map")
		}
		m.mapSet(mp, m.get(&x.b), m.get(&x.c))
		m.setReg(-1, Value{})
	case *ssa.Range:
		m.setReg(x.dst, m.rangeStart(m.get(&x.a), x.t))
	case *ssa.Next:
		m.setReg(x.dst, m.rangeNext(m.get(&x.a), x))
	case *ssa.Panic:
		v := m.get(&x.a)
		panic(goPanic{v})
	case *ssa.Return:
		res := make([]Value, len(x.args))
		for i := range x.args {
			res[i] = m.get(&x.args[i])
		}
		m.doReturn(res)
	case *ssa.RunDefers:
		f := m.wtop()
		for {
			n := len(f.defers)
			if n == 0 {
				break
			}
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			if m.runDeferred(d, retDefer) {
				return
			}
			f = m.wtop()
		}
		m.setReg(-1, Value{})
	case *ssa.Defer:
		d := deferred{bt: x.call.atypes}
		for i := range x.args {
			d.args = append(d.args, m.get(&x.args[i]))
		}
		switch {
		case x.call.bltn != nil:
			d.bltn = x.call.bltn
		case x.call.static != nil:
			d.fn = Value{p: &Closure{fn: x.call.static}}
		case x.call.method != "":
			i, _ := m.get(&x.a).p.(*Iface)
			if i == nil {
				m.nilDeref()
			}
			f := m.findMethod(i.t, x.call.mpkg, x.call.method)
			d.fn = Value{p: &Closure{fn: f}}
			d.args = append([]Value{i.v}, d.args...)
		default:
			d.fn = m.get(&x.a)
		}
		f := m.wtop()
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.Slice:
		m.setReg(x.dst, m.slice(in, x))
	case *ssa.SliceToArrayPointer:
		s, _ := m.get(&x.a).p.(*SliceV)
		n := x.t2.elem.n
		if s == nil {
			if n > 0 {
				m.gopanic("cannot convert slice with length 0 to array or pointer to array")
			}
			m.setReg(x.dst, Value{})
			return
		}
		if m.decide(m.scUlt(s.len, csc(n))) {
			m.gopanic("cannot convert slice to array or pointer to array")
		}
		m.setReg(x.dst, m.elemPtr(s, csc(0), x.t2.elem.elem.cells))
	case *ssa.Store:
		m.store(m.get(&x.a), m.get(&x.b), x.t)
		m.setReg(-1, Value{})
	case *ssa.TypeAssert:
		m.typeAssert(x)
	case *ssa.MakeChan:
		o := m.newObj(1)
		o.name = "chan"
		m.setReg(x.dst, Value{p: o})
	case *ssa.Go:
		panic(unsupported{"go statement"})
	case *ssa.Select, *ssa.Send:
		panic(unsupported{"channel operation"})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func (m *Machine) jump(x *Ins, k int) {
	f := m.wtop()
	mv := x.phis[k]
	switch len(mv) {
	case 0:
	case 1:
		f.regs[mv[0].dst] = m.get(&mv[0].src)
	default:
		var buf [8]Value
		tmp := buf[:0]
		for i := range mv {
			tmp = append(tmp, m.get(&mv[i].src))
		}
		for i := range mv {
			f.regs[mv[i].dst] = tmp[i]
		}
	}
	f.pc = x.tgt[k]
}

// idx64 widens an integer value of type t to a 64-bit signed interpretation.
func (m *Machine) idx64(v Value, t *RType) Sc {
	if v.t == nil {
		if t.w == 64 || t.w == 0 {
			return Sc{c: v.c}
		}
		if t.signed {
			return Sc{c: uint64(sext(v.c, t.w))}
		}
		return Sc{c: v.c}
	}
	if t.w == 64 {
		return Sc{t: v.t}
	}
	if t.signed {
		return scTerm(m.tt.SExt(v.t, 64))
	}
	return scTerm(m.tt.ZExt(v.t, 64))
}

// ---------- arithmetic

func (m *Machine) boolTerm(v Value) *Term {
	if v.t != nil {
		return v.t
	}
	return m.tt.Bool(v.c != 0)
}

func (m *Machine) binop(op token.Token, a, b Value, t, t2 *RType) Value {
	switch op {
	case token.EQL:
		return fromTerm(m.eq(a, b, t))
	case token.NEQ:
		return fromTerm(m.tt.Not(m.eq(a, b, t)))
	}
	switch t.kind {
	case KInt:
		return m.intop(op, a, b, t, t2)
	case KFloat:
		if a.t != nil || b.t != nil {
			panic(unsupported{"symbolic float"})
		}
		x, y := a.f(), b.f()
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return bval(x < y)
		case token.LEQ:
			return bval(x <= y)
		case token.GTR:
			return bval(x > y)
		case token.GEQ:
			return bval(x >= y)
		}
		if t.w == 32 {
			r = float64(float32(r))
		}
		return fval(r)
	case KString:
		switch op {
		case token.ADD:
			return m.strCat(a, b)
		case token.LSS:
			return fromTerm(m.strLess(a, b))
		case token.GTR:
			return fromTerm(m.strLess(b, a))
		case token.LEQ:
			return fromTerm(m.tt.Not(m.strLess(b, a)))
		case token.GEQ:
			return fromTerm(m.tt.Not(m.strLess(a, b)))
		}
	case KBool:
		switch op {
		case token.AND:
			return fromTerm(m.tt.And(m.boolTerm(a), m.boolTerm(b)))
		case token.OR:
			return fromTerm(m.tt.Or(m.boolTerm(a), m.boolTerm(b)))
		}
	case KComplex:
		panic(unsupported{"complex arithmetic"})
	}
	panic(unsupported{fmt.Sprintf("binop %s on %s", op, t)})
}

func (m *Machine) strCat(a, b Value) Value {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	sa, ok1 := a.p.(string)
	sb, ok2 := b.p.(string)
	if ok1 && ok2 {
		return strv(sa + sb)
	}
	x, y := m.strTerms(a), m.strTerms(b)
	r := make([]*Term, 0, len(x)+len(y))
	return mkStr(append(append(r, x...), y...))
}

func (m *Machine) strLess(a, b Value) *Term {
	sa, ok1 := a.p.(string)
	sb, ok2 := b.p.(string)
	if (ok1 || a.p == nil) && (ok2 || b.p == nil) {
		return m.tt.Bool(sa < sb)
	}
	return m.bytesLess(m.strTerms(a), m.strTerms(b))
}

func (m *Machine) bytesLess(x, y []*Term) *Term {
	n := min(len(x), len(y))
	r := m.tt.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.tt.Or(m.tt.Ult(x[i], y[i]), m.tt.And(m.tt.Eq(x[i], y[i]), r))
	}
	return r
}

func (m *Machine) bytesEq(x, y []*Term) *Term {
	if len(x) != len(y) {
		return m.tt.fls
	}
	r := m.tt.tru
	for i := range x {
		r = m.tt.And(r, m.tt.Eq(x[i], y[i]))
		if r == m.tt.fls {
			break
		}
	}
	return r
}

func (m *Machine) intop(op token.Token, a, b Value, t, t2 *RType) Value {
	w := t.w
	switch op {
	case token.SHL, token.SHR:
		return m.shift(op, a, b, t, t2)
	}
	if a.t == nil && b.t == nil {
		x, y := a.c, b.c
		switch op {
		case token.ADD:
			return ival(w, x+y)
		case token.SUB:
			return ival(w, x-y)
		case token.MUL:
			return ival(w, x*y)
		case token.QUO, token.REM:
			if y == 0 {
				m.gopanic("integer divide by zero")
			}
			if t.signed {
				sx, sy := sext(x, w), sext(y, w)
				if sy == -1 {
					if op == token.QUO {
						return ival(w, uint64(-sx))
					}
					return Value{}
				}
				if op == token.QUO {
					return ival(w, uint64(sx/sy))
				}
				return ival(w, uint64(sx%sy))
			}
			if op == token.QUO {
				return ival(w, x/y)
			}
			return ival(w, x%y)
		case token.AND:
			return Value{c: x & y}
		case token.OR:
			return Value{c: x | y}
		case token.XOR:
			return Value{c: x ^ y}
		case token.AND_NOT:
			return Value{c: x &^ y}
		}
		var lt, gt bool
		if t.signed {
			sx, sy := sext(x, w), sext(y, w)
			lt, gt = sx < sy, sx > sy
		} else {
			lt, gt = x < y, x > y
		}
		switch op {
		case token.LSS:
			return bval(lt)
		case token.LEQ:
			return bval(!gt)
		case token.GTR:
			return bval(gt)
		case token.GEQ:
			return bval(!lt)
		}
		panic(unsupported{"int op " + op.String()})
	}
	tt := m.tt
	x, y := m.term(a, w), m.term(b, w)
	var r *Term
	switch op {
	case token.ADD:
		r = tt.Add(x, y)
	case token.SUB:
		r = tt.Sub(x, y)
	case token.MUL:
		r = tt.Mul(x, y)
	case token.QUO, token.REM:
		if m.decide(tt.Eq(y, tt.Const(w, 0))) {
			m.gopanic("integer divide by zero")
		}
		switch {
		case t.signed && op == token.QUO:
			r = tt.SDiv(x, y)
		case t.signed:
			r = tt.SRem(x, y)
		case op == token.QUO:
			r = tt.UDiv(x, y)
		default:
			r = tt.URem(x, y)
		}
	case token.AND:
		r = tt.BAnd(x, y)
	case token.OR:
		r = tt.BOr(x, y)
	case token.XOR:
		r = tt.BXor(x, y)
	case token.AND_NOT:
		r = tt.BAnd(x, tt.BNot(y))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt := tt.Ult
		if t.signed {
			lt = tt.Slt
		}
		switch op {
		case token.LSS:
			r = lt(x, y)
		case token.LEQ:
			r = tt.Not(lt(y, x))
		case token.GTR:
			r = lt(y, x)
		case token.GEQ:
			r = tt.Not(lt(x, y))
		}
	default:
		panic(unsupported{"int op " + op.String()})
	}
	return fromTerm(r)
}

func (m *Machine) shift(op token.Token, a, b Value, t, t2 *RType) Value {
	w := t.w
	if b.t == nil {
		n := b.c
		if t2.signed && sext(n, t2.w) < 0 {
			m.gopanic("negative shift amount")
		}
		if a.t == nil {
			if op == token.SHL {
				if n >= 64 {
					return Value{}
				}
				return ival(w, a.c<<n)
			}
			if t.signed {
				if n >= 64 {
					n = 63
				}
				return ival(w, uint64(sext(a.c, w)>>n))
			}
			if n >= 64 {
				return Value{}
			}
			return Value{c: a.c >> n}
		}
		var nt *Term
		if n >= uint64(w) {
			if op == token.SHL || !t.signed {
				return Value{}
			}
			n = uint64(w) - 1
		}
		nt = m.tt.Const(w, n)
		if op == token.SHL {
			return fromTerm(m.tt.Shl(a.t, nt))
		}
		if t.signed {
			return fromTerm(m.tt.AShr(a.t, nt))
		}
		return fromTerm(m.tt.LShr(a.t, nt))
	}
	tt := m.tt
	if t2.signed && m.decide(tt.Slt(b.t, tt.Const(t2.w, 0))) {
		m.gopanic("negative shift amount")
	}
	var cnt *Term
	big := tt.fls
	if t2.w > w {
		big = tt.Not(tt.Ult(b.t, tt.Const(t2.w, uint64(w))))
		cnt = tt.Extract(b.t, 0, w)
	} else {
		cnt = tt.ZExt(b.t, w)
		if t2.w == w || mask(t2.w) >= uint64(w) {
			big = tt.Not(tt.Ult(cnt, tt.Const(w, uint64(w)&mask(w))))
		}
	}
	x := m.term(a, w)
	var r, over *Term
	switch {
	case op == token.SHL:
		r, over = tt.Shl(x, cnt), tt.Const(w, 0)
	case t.signed:
		r, over = tt.AShr(x, cnt), tt.AShr(x, tt.Const(w, uint64(w-1)))
	default:
		r, over = tt.LShr(x, cnt), tt.Const(w, 0)
	}
	return fromTerm(tt.Ite(big, over, r))
}

func (m *Machine) eq(a, b Value, t *RType) *Term {
	tt := m.tt
	switch t.kind {
	case KBool:
		if a.t == nil && b.t == nil {
			return tt.Bool(a.c == b.c)
		}
		return tt.Eq(m.boolTerm(a), m.boolTerm(b))
	case KInt:
		if a.t == nil && b.t == nil {
			return tt.Bool(a.c == b.c)
		}
		return tt.Eq(m.term(a, t.w), m.term(b, t.w))
	case KFloat:
		if a.t != nil || b.t != nil {
			panic(unsupported{"symbolic float"})
		}
		return tt.Bool(a.f() == b.f())
	case KString:
		return m.strEq(a, b)
	case KPtr, KUnsafe, KChan, KMap, KFunc, KSlice, KNil:
		return tt.Bool(m.ptrEq(a, b))
	case KIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return tt.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return tt.fls
		}
		switch x.t.kind {
		case KMap, KSlice, KFunc:
			m.gopanic("comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.v, y.v, x.t)
	case KStruct:
		x, _ := a.p.(Agg)
		y, _ := b.p.(Agg)
		r := tt.tru
		for _, f := range t.fields {
			if f.name == "_" {
				continue
			}
			r = tt.And(r, m.eq(subVal(x, f.off, f.t), subVal(y, f.off, f.t), f.t))
			if r == tt.fls {
				return r
			}
		}
		return r
	case KArray:
		x, _ := a.p.(Agg)
		y, _ := b.p.(Agg)
		r := tt.tru
		for i := 0; i < t.n; i++ {
			r = tt.And(r, m.eq(subVal(x, i*t.elem.cells, t.elem), subVal(y, i*t.elem.cells, t.elem), t.elem))
			if r == tt.fls {
				return r
			}
		}
		return r
	}
	panic(unsupported{"comparison of " + t.String()})
}

func subVal(a Agg, off int, t *RType) Value {
	if a == nil {
		return t.zero()
	}
	if t.isAgg() {
		return Value{p: a[off : off+t.cells : off+t.cells]}
	}
	return a[off]
}

func (m *Machine) strEq(a, b Value) *Term {
	if strLen(a) != strLen(b) {
		return m.tt.fls
	}
	sa, ok1 := a.p.(string)
	sb, ok2 := b.p.(string)
	if ok1 && ok2 {
		return m.tt.Bool(sa == sb)
	}
	return m.bytesEq(m.strTerms(a), m.strTerms(b))
}

func (m *Machine) ptrEq(a, b Value) bool {
	if a.p == nil || b.p == nil {
		return a.p == nil && b.p == nil && a.c == b.c
	}
	switch x := a.p.(type) {
	case *Object:
		y, ok := b.p.(*Object)
		return ok && x == y && a.c == b.c
	case *SymPtr:
		y, ok := b.p.(*SymPtr)
		if ok && x.obj == y.obj && x.idx == y.idx && x.sub == y.sub && x.base == y.base {
			return true
		}
		panic(unsupported{"comparison of symbolic pointers"})
	case *SliceV:
		return false // compared to non-nil: impossible in Go
	}
	return a.p == b.p
}

func (m *Machine) unop(in *ssa.UnOp, x *Ins) Value {
	v := m.get(&x.a)
	switch in.Op {
	case token.MUL:
		return m.load(v, x.t)
	case token.NOT:
		if v.t == nil {
			return Value{c: 1 - v.c}
		}
		return fromTerm(m.tt.Not(v.t))
	case token.SUB:
		switch x.t.kind {
		case KFloat:
			return fval(-v.f())
		case KInt:
			if v.t == nil {
				return ival(x.t.w, -v.c)
			}
			return fromTerm(m.tt.Neg(v.t))
		}
	case token.XOR:
		if v.t == nil {
			return ival(x.t.w, ^v.c)
		}
		return fromTerm(m.tt.BNot(v.t))
	}
	panic(unsupported{"unop " + in.Op.String()})
}

// ---------- conversions

func (m *Machine) convInt(v Value, from, to *RType) Value {
	if v.t == nil {
		if from.signed {
			return ival(to.w, uint64(sext(v.c, from.w)))
		}
		return ival(to.w, v.c)
	}
	switch {
	case to.w == from.w:
		return v
	case to.w < from.w:
		return fromTerm(m.tt.Extract(v.t, 0, to.w))
	case from.signed:
		return fromTerm(m.tt.SExt(v.t, to.w))
	}
	return fromTerm(m.tt.ZExt(v.t, to.w))
}

func (m *Machine) convert(v Value, from, to *RType) Value {
	switch from.kind {
	case KInt:
		switch to.kind {
		case KInt:
			return m.convInt(v, from, to)
		case KFloat:
			if v.t != nil {
				v = Value{c: m.concretizeT(v.t, 1024, "int to float")}
			}
			var f float64
			if from.signed {
				f = float64(sext(v.c, from.w))
			} else {
				f = float64(v.c)
			}
			if to.w == 32 {
				f = float64(float32(f))
			}
			return fval(f)
		case KString:
			r := m.idx64(v, from)
			if r.t == nil {
				if int64(r.c) < 0 || r.c > 0x10FFFF {
					return strv("\uFFFD")
				}
				return strv(string(rune(r.c)))
			}
			return mkStr(m.encodeRune(m.tt.Extract(m.term(m.convInt(v, from, m.types.i32T), 32), 0, 32)))
		case KUnsafe:
			if v.p != nil {
				return v
			}
			if v.t == nil && v.c == 0 {
				return Value{}
			}
			panic(unsupported{"uintptr to pointer"})
		}
	case KFloat:
		f := v.f()
		switch to.kind {
		case KFloat:
			if to.w == 32 {
				f = float64(float32(f))
			}
			return fval(f)
		case KInt:
			if to.signed {
				return ival(to.w, uint64(int64(f)))
			}
			if f >= math.MaxInt64 {
				return ival(to.w, uint64(f))
			}
			return ival(to.w, uint64(int64(f)))
		}
	case KString:
		switch to.kind {
		case KString:
			return v
		case KSlice:
			if to.elem.w == 8 {
				return m.bytesOfString(v)
			}
			return m.runesOf(v)
		}
	case KSlice:
		switch to.kind {
		case KString:
			s, _ := v.p.(*SliceV)
			if s == nil {
				return Value{}
			}
			n := int(m.concretize(s.len, 4096, "string conversion length"))
			if n > 1<<22 {
				panic(unsupported{"very long symbolic string"})
			}
			if from.elem.w == 8 {
				return m.stringOfBytes(s, n)
			}
			var out []*Term
			for i := 0; i < n; i++ {
				r := m.sliceGet(s, csc(i), from.elem)
				if r.t == nil {
					for _, b := range []byte(string(rune(int32(r.c)))) {
						out = append(out, m.tt.byteC[b])
					}
				} else {
					out = append(out, m.encodeRune(r.t)...)
				}
			}
			return mkStr(out)
		case KSlice:
			return v
		}
	case KPtr, KUnsafe:
		if to.kind == KInt {
			if v.p == nil {
				return v
			}
			return Value{p: v.p, c: v.c} // pointer disguised as uintptr
		}
		return v
	case KNil:
		return v
	case KComplex:
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %s to %s", from, to)})
}

func (m *Machine) bytesOfString(v Value) Value {
	n := strLen(v)
	o := m.newObj(n)
	o.elemW = 8
	switch s := v.p.(type) {
	case string:
		for i := 0; i < n; i++ {
			o.cells[i].c = uint64(s[i])
		}
	case *SymStr:
		for i, t := range s.b {
			o.cells[i] = fromTerm(t)
		}
	}
	return Value{p: &SliceV{obj: o, len: csc(n), cap: csc(max(n, int(roundSize(uint64(n)))))}}
}

func (m *Machine) stringOfBytes(s *SliceV, n int) Value {
	if n == 0 {
		return Value{}
	}
	if s.off.t == nil && s.obj.rope == nil {
		st := s.base + int(s.off.c)
		if st+n <= len(s.obj.cells) {
			cells := s.obj.cells[st : st+n]
			conc := true
			for i := range cells {
				if cells[i].t != nil {
					conc = false
					break
				}
			}
			if conc {
				b := make([]byte, n)
				for i := range cells {
					b[i] = byte(cells[i].c)
				}
				return Value{p: string(b)}
			}
		}
	}
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = m.byteAt(s, i)
	}
	return mkStr(ts)
}

func (m *Machine) runesOf(v Value) Value {
	var rs []Value
	if s, ok := v.p.(string); ok {
		for _, r := range s {
			rs = append(rs, ival(32, uint64(r)))
		}
	} else {
		b := m.strTerms(v)
		for i := 0; i < len(b); {
			r, n := m.decodeRune(b[i:])
			rs = append(rs, fromTerm(r))
			i += n
		}
	}
	o := m.newObj(len(rs))
	o.elemW = 32
	copy(o.cells, rs)
	return Value{p: &SliceV{obj: o, len: csc(len(rs)), cap: csc(len(rs))}}
}

// between tests lo <= b <= hi (bytes)
func (m *Machine) byteIn(b *Term, lo, hi uint64) *Term {
	tt := m.tt
	return tt.And(tt.Not(tt.Ult(b, tt.Const(8, lo))), tt.Not(tt.Ult(tt.Const(8, hi), b)))
}

// decodeRune decodes the first rune of a symbolic UTF-8 sequence, forking on its shape.
func (m *Machine) decodeRune(b []*Term) (*Term, int) {
	tt := m.tt
	b0 := b[0]
	bad := tt.Const(32, utf8.RuneError)
	if m.decide(tt.Ult(b0, tt.Const(8, 0x80))) {
		return tt.ZExt(b0, 32), 1
	}
	in := func(i int, lo, hi uint64) bool { return m.decide(m.byteIn(b[i], lo, hi)) }
	low := func(i int) *Term { return tt.Extract(b[i], 0, 6) }
	if !in(0, 0xC2, 0xF4) || len(b) < 2 {
		return bad, 1
	}
	if m.decide(tt.Ult(b0, tt.Const(8, 0xE0))) {
		if !in(1, 0x80, 0xBF) {
			return bad, 1
		}
		return tt.ZExt(tt.Concat(tt.Extract(b0, 0, 5), low(1)), 32), 2
	}
	if m.decide(tt.Ult(b0, tt.Const(8, 0xF0))) {
		if len(b) < 3 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if m.decide(tt.Eq(b0, tt.Const(8, 0xE0))) {
			lo = 0xA0
		} else if m.decide(tt.Eq(b0, tt.Const(8, 0xED))) {
			hi = 0x9F
		}
		if !in(1, lo, hi) || !in(2, 0x80, 0xBF) {
			return bad, 1
		}
		return tt.ZExt(tt.Concat(tt.Concat(tt.Extract(b0, 0, 4), low(1)), low(2)), 32), 3
	}
	if len(b) < 4 {
		return bad, 1
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	if m.decide(tt.Eq(b0, tt.Const(8, 0xF0))) {
		lo = 0x90
	} else if m.decide(tt.Eq(b0, tt.Const(8, 0xF4))) {
		hi = 0x8F
	}
	if !in(1, lo, hi) || !in(2, 0x80, 0xBF) || !in(3, 0x80, 0xBF) {
		return bad, 1
	}
	return tt.ZExt(tt.Concat(tt.Concat(tt.Concat(tt.Extract(b0, 0, 3), low(1)), low(2)), low(3)), 32), 4
}

func (m *Machine) encodeRune(r *Term) []*Term {
	tt := m.tt
	c32 := func(v uint64) *Term { return tt.Const(32, v) }
	hi := func(pre uint64, n uint8, t *Term) *Term { return tt.Concat(tt.Const(n, pre), t) }
	cont := func(lo uint8) *Term { return hi(2, 2, tt.Extract(r, lo, 6)) }
	if m.decide(tt.Ult(r, c32(0x80))) {
		return []*Term{tt.Extract(r, 0, 8)}
	}
	if m.decide(tt.Ult(r, c32(0x800))) {
		return []*Term{hi(6, 3, tt.Extract(r, 6, 5)), cont(0)}
	}
	isBad := tt.Or(tt.Not(tt.Ult(r, c32(0x110000))), tt.And(tt.Not(tt.Ult(r, c32(0xD800))), tt.Ult(r, c32(0xE000))))
	if m.decide(isBad) {
		return []*Term{tt.byteC[0xEF], tt.byteC[0xBF], tt.byteC[0xBD]}
	}
	if m.decide(tt.Ult(r, c32(0x10000))) {
		return []*Term{hi(14, 4, tt.Extract(r, 12, 4)), cont(6), cont(0)}
	}
	return []*Term{hi(30, 5, tt.Extract(r, 18, 3)), cont(12), cont(6), cont(0)}
}

// ---------- indexing and slicing

func (m *Machine) boundsCheck(i, n Sc) {
	if i.t == nil && n.t == nil {
		if i.c >= n.c {
			m.gopanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.c), int64(n.c)))
		}
		return
	}
	if !m.decide(m.scUlt(i, n)) {
		m.gopanic("index out of range")
	}
}

func (m *Machine) index(v Value, i Sc, t *RType) Value {
	switch t.kind {
	case KString:
		n := strLen(v)
		m.boundsCheck(i, csc(n))
		if i.t == nil {
			if s, ok := v.p.(string); ok {
				return Value{c: uint64(s[i.c])}
			}
			return fromTerm(v.p.(*SymStr).b[i.c])
		}
		return m.strSelect(v, i)
	case KArray:
		m.boundsCheck(i, csc(t.n))
		a, _ := v.p.(Agg)
		if i.t == nil {
			return subVal(a, int(i.c)*t.elem.cells, t.elem)
		}
		if t.elem.kind == KInt || t.elem.kind == KBool {
			w := t.elem.w
			return m.selectVals(a, i.t, w)
		}
		k := int(m.concretize(i, 256, "array index"))
		return subVal(a, k*t.elem.cells, t.elem)
	}
	panic(unsupported{"index of " + t.String()})
}

func (m *Machine) strSelect(v Value, i Sc) Value {
	n := strLen(v)
	vals := make([]Value, n)
	switch s := v.p.(type) {
	case string:
		for k := range vals {
			vals[k] = Value{c: uint64(s[k])}
		}
	case *SymStr:
		for k := range vals {
			vals[k] = fromTerm(s.b[k])
		}
	}
	return m.selectVals(vals, i.t, 8)
}

func (m *Machine) indexAddr(v Value, i Sc, t *RType) Value {
	switch t.kind {
	case KSlice:
		s, _ := v.p.(*SliceV)
		if s == nil {
			m.gopanic(fmt.Sprintf("index out of range [%d] with length 0", int64(i.c)))
		}
		m.boundsCheck(i, s.len)
		return m.elemPtr(s, i, t.elem.cells)
	case KPtr:
		at := t.elem
		if v.p == nil {
			m.nilDeref()
		}
		m.boundsCheck(i, csc(at.n))
		switch o := v.p.(type) {
		case *Object:
			if i.t == nil {
				return Value{c: v.c + i.c*uint64(at.elem.cells), p: o}
			}
			if o.rope != nil {
				idx := m.scAdd(i, Sc{c: v.c})
				return Value{p: &SymPtr{obj: o, idx: idx.t, n: -1, stride: 1}}
			}
			return Value{p: &SymPtr{obj: o, base: int(v.c), idx: i.t, stride: at.elem.cells, n: at.n}}
		case *SymPtr:
			k := m.concretize(i, 256, "nested symbolic index")
			return m.fieldPtr(v, int(k)*at.elem.cells)
		}
	}
	panic(unsupported{"indexaddr of " + t.String()})
}

func (m *Machine) optIdx(o *operand, v ssa.Value) (Sc, bool) {
	if v == nil {
		return Sc{}, false
	}
	return m.idx64(m.get(o), m.types.Of(v.Type())), true
}

func (m *Machine) slice(in *ssa.Slice, x *Ins) Value {
	v := m.get(&x.a)
	lo, _ := m.optIdx(&x.b, in.Low)
	hi, hasHi := m.optIdx(&x.c, in.High)
	mx, hasMx := m.optIdx(&x.d, in.Max)
	switch x.t.kind {
	case KString:
		n := csc(strLen(v))
		if !hasHi {
			hi = n
		}
		m.sliceCheck(lo, hi, n, false)
		l := int(m.concretize(lo, 256, "string slice bound"))
		h := int(m.concretize(hi, 256, "string slice bound"))
		if l == h {
			return Value{}
		}
		switch s := v.p.(type) {
		case string:
			return Value{p: s[l:h]}
		case *SymStr:
			return mkStr(s.b[l:h])
		}
		return Value{}
	case KSlice:
		s, _ := v.p.(*SliceV)
		if s == nil {
			z := Sc{}
			if !hasHi {
				hi = z
			}
			if !hasMx {
				mx = z
			}
			m.sliceCheck(lo, hi, mx, false)
			m.sliceCheck(Sc{}, mx, z, true)
			return Value{}
		}
		if !hasHi {
			hi = s.len
		}
		return m.reslice(s, lo, hi, mx, hasMx)
	case KPtr:
		at := x.t.elem
		if v.p == nil {
			m.nilDeref()
		}
		var s *SliceV
		switch o := v.p.(type) {
		case *Object:
			s = &SliceV{obj: o, base: int(v.c), len: csc(at.n), cap: csc(at.n)}
		case *SymPtr:
			if o.n < 0 {
				s = &SliceV{obj: o.obj, off: scTerm(o.idx), len: csc(at.n), cap: csc(at.n)}
			} else {
				k := m.concretize(Sc{t: o.idx}, 256, "slice of symbolic array")
				s = &SliceV{obj: o.obj, base: o.base + int(k)*o.stride + o.sub, len: csc(at.n), cap: csc(at.n)}
			}
		}
		if !hasHi {
			hi = csc(at.n)
		}
		return m.reslice(s, lo, hi, mx, hasMx)
	}
	panic(unsupported{"slice of " + x.t.String()})
}

func (m *Machine) sliceCheck(lo, hi, mx Sc, capErr bool) {
	if lo.t == nil && hi.t == nil && mx.t == nil {
		if hi.c > mx.c {
			m.gopanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", int64(hi.c), int64(mx.c)))
		}
		if lo.c > hi.c {
			m.gopanic(fmt.Sprintf("slice bounds out of range [%d:%d]", int64(lo.c), int64(hi.c)))
		}
		return
	}
	bad := m.tt.Or(m.scUlt(mx, hi), m.scUlt(hi, lo))
	if m.decide(bad) {
		m.gopanic("slice bounds out of range")
	}
}

func (m *Machine) reslice(s *SliceV, lo, hi, mx Sc, hasMx bool) Value {
	if hasMx {
		m.sliceCheck(hi, mx, s.cap, true)
		m.sliceCheck(lo, hi, mx, false)
	} else {
		m.sliceCheck(lo, hi, s.cap, false)
		mx = s.cap
	}
	return Value{p: &SliceV{obj: s.obj, base: s.base, off: m.scAdd(s.off, lo), len: m.scSub(hi, lo), cap: m.scSub(mx, lo)}}
}

const maxAllocBytes = 1 << 47

func (m *Machine) makeSlice(t *RType, n, c Sc) Value {
	esz := uint64(m.types.Size(t.elem))
	if esz == 0 {
		esz = 1
	}
	lim := Sc{c: maxAllocBytes/esz + 1}
	if n.t == nil && c.t == nil {
		if n.c >= lim.c {
			m.gopanic("makeslice: len out of range")
		}
		if c.c >= lim.c || c.c < n.c {
			m.gopanic("makeslice: cap out of range")
		}
	} else {
		if !m.decide(m.scUlt(n, lim)) {
			m.gopanic("makeslice: len out of range")
		}
		if !m.decide(m.tt.And(m.scUlt(c, lim), m.tt.Not(m.scUlt(c, n)))) {
			m.gopanic("makeslice: cap out of range")
		}
	}
	m.noteAlloc(c, esz)
	return m.newSlice(t, n, c)
}

// noteAlloc enforces the harness's allocation limit.
func (m *Machine) noteAlloc(c Sc, esz uint64) {
	if m.allocLimit == 0 || m.initPhase {
		return
	}
	lim := Sc{c: m.allocLimit/esz + 1}
	if c.t == nil {
		if c.c >= lim.c {
			panic(violation{fmt.Sprintf("allocation of %d bytes", c.c*esz)})
		}
		return
	}
	if !m.decide(m.scUlt(c, lim)) {
		panic(violation{"allocation larger than the stated bound"})
	}
}

func (m *Machine) newSlice(t *RType, n, c Sc) Value {
	et := t.elem
	if n.t == nil && c.t == nil && c.c*uint64(max(et.cells, 1)) <= 1<<20 {
		o := m.newObj(int(c.c) * et.cells)
		if et.kind == KInt {
			o.elemW = et.w
		}
		return Value{p: &SliceV{obj: o, len: n, cap: c}}
	}
	o := m.newObj(0)
	if et.kind == KInt {
		o.elemW = et.w
		o.rope = &Rope{kind: ropeZero}
	} else {
		o.symLen = m.T(c, 64)
		o.stride = et.cells
	}
	return Value{p: &SliceV{obj: o, len: n, cap: c}}
}

// ---------- type assertions

func (m *Machine) typeAssert(x *Ins) {
	i, _ := m.get(&x.a).p.(*Iface)
	ok := false
	if i != nil {
		if x.t.kind == KIface {
			ok = m.implements(i.t, x.t)
		} else {
			ok = i.t == x.t
		}
	}
	var r Value
	if ok {
		if x.t.kind == KIface {
			r = Value{p: i}
		} else {
			r = i.v
		}
	} else {
		r = x.t.zero()
	}
	if x.n == 1 {
		m.setReg(x.dst, Value{p: Tuple{r, bval(ok)}})
		return
	}
	if !ok {
		dyn := "nil"
		if i != nil {
			dyn = i.t.String()
		}
		m.gopanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, x.t))
	}
	m.setReg(x.dst, r)
}

// ---------- maps

func (m *Machine) newMap(t *RType) *MapObj {
	m.stamp++
	m.objN++
	return &MapObj{stamp: m.stamp, id: m.objN, kt: t.key, vt: t.elem, st: &mapState{index: map[string]int{}}}
}

// mapKey canonicalises a concrete key; ok is false when it has symbolic parts.
func (m *Machine) mapKey(v Value, t *RType, sb []byte) ([]byte, bool) {
	switch t.kind {
	case KInt, KBool, KFloat:
		if v.t != nil {
			return sb, false
		}
		return fmt.Appendf(sb, "%d,", v.c), true
	case KString:
		if !isConcStr(v) {
			return sb, false
		}
		s := v.cstr()
		sb = fmt.Appendf(sb, "%d:", len(s))
		return append(sb, s...), true
	case KPtr, KUnsafe, KChan:
		switch o := v.p.(type) {
		case nil:
			return append(sb, "nil,"...), true
		case *Object:
			return fmt.Appendf(sb, "p%d.%d,", o.id, v.c), true
		case *RV:
			return fmt.Appendf(sb, "rv%p,", o), true
		}
		return sb, false
	case KIface:
		i, _ := v.p.(*Iface)
		if i == nil {
			return append(sb, "nil,"...), true
		}
		switch i.t.kind {
		case KMap, KSlice, KFunc:
			m.gopanic("hash of unhashable type " + i.t.String())
		}
		sb = fmt.Appendf(sb, "T%d:", i.t.id)
		return m.mapKey(i.v, i.t, sb)
	case KStruct:
		a, _ := v.p.(Agg)
		ok := true
		for _, f := range t.fields {
			sb, ok = m.mapKey(subVal(a, f.off, f.t), f.t, sb)
			if !ok {
				return sb, false
			}
		}
		return sb, true
	case KArray:
		a, _ := v.p.(Agg)
		ok := true
		for i := 0; i < t.n; i++ {
			sb, ok = m.mapKey(subVal(a, i*t.elem.cells, t.elem), t.elem, sb)
			if !ok {
				return sb, false
			}
		}
		return sb, true
	}
	panic(unsupported{"map key type " + t.String()})
}

// mapFind returns the entry index or -1 (forking on symbolic keys).
func (m *Machine) mapFind(mp *MapObj, k Value) (int, string, bool) {
	kb, conc := m.mapKey(k, mp.kt, nil)
	key := string(kb)
	st := mp.st
	if conc {
		if i, ok := st.index[key]; ok {
			return i, key, true
		}
		if st.sym == 0 {
			return -1, key, true
		}
	}
	for i := range st.ents {
		e := &st.ents[i]
		if e.dead {
			continue
		}
		if conc {
			if _, c := m.mapKey(e.k, mp.kt, nil); c {
				continue
			}
		}
		if m.decide(m.eq(e.k, k, mp.kt)) {
			return i, key, conc
		}
	}
	return -1, key, conc
}

func (m *Machine) mapMut(mp *MapObj) *mapState {
	if mp.stamp <= m.cpStamp {
		old, oldStamp := mp.st, mp.stamp
		m.trail = append(m.trail, trailEnt{undo: func() { mp.st = old; mp.stamp = oldStamp }})
		n := &mapState{n: old.n, sym: old.sym, ents: append([]mapEnt(nil), old.ents...), index: make(map[string]int, len(old.index)+1)}
		for k, v := range old.index {
			n.index[k] = v
		}
		mp.st = n
		m.stamp++
		mp.stamp = m.stamp
	}
	return mp.st
}

func (m *Machine) mapSet(mp *MapObj, k, v Value) {
	i, key, conc := m.mapFind(mp, k)
	st := m.mapMut(mp)
	if i >= 0 {
		st.ents[i].v = v
		return
	}
	st.ents = append(st.ents, mapEnt{k: k, v: v})
	if conc {
		st.index[key] = len(st.ents) - 1
	} else {
		st.sym++
	}
	st.n++
}

func (m *Machine) mapDelete(mp *MapObj, k Value) {
	i, _, _ := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	st := m.mapMut(mp)
	kb, conc := m.mapKey(st.ents[i].k, mp.kt, nil)
	if conc {
		delete(st.index, string(kb))
	} else {
		st.sym--
	}
	st.ents[i] = mapEnt{dead: true}
	st.n--
}

func (m *Machine) mapClear(mp *MapObj) {
	st := m.mapMut(mp)
	st.ents = nil
	st.index = map[string]int{}
	st.n, st.sym = 0, 0
}

func (m *Machine) lookup(x *Ins) {
	v := m.get(&x.a)
	if x.t.kind == KString {
		m.setReg(x.dst, m.index(v, m.idx64(m.get(&x.b), x.t2), x.t))
		return
	}
	mp, _ := v.p.(*MapObj)
	var r Value
	ok := false
	if mp != nil {
		i, _, _ := m.mapFind(mp, m.get(&x.b))
		if i >= 0 {
			r, ok = mp.st.ents[i].v, true
		}
	}
	if !ok {
		r = x.t.elem.zero()
	}
	if x.n == 1 {
		m.setReg(x.dst, Value{p: Tuple{r, bval(ok)}})
		return
	}
	m.setReg(x.dst, r)
}

// iterators: an Object with cells [0]=position state
type mapIter struct {
	mp   *MapObj
	done map[int]bool // visited entry indices (immutable; copied)
	base []int        // entry indices still to visit
}

type strIter struct {
	v   Value
	pos int
}

func (m *Machine) rangeStart(v Value, t *RType) Value {
	o := m.newObj(1)
	if t.kind == KString {
		o.cells[0] = Value{p: &strIter{v: v}}
		return Value{p: o}
	}
	mp, _ := v.p.(*MapObj)
	it := &mapIter{mp: mp}
	if mp != nil {
		for i := range mp.st.ents {
			if !mp.st.ents[i].dead {
				it.base = append(it.base, i)
			}
		}
	}
	o.cells[0] = Value{p: it}
	return Value{p: o}
}

// choose makes a free nondeterministic choice in [0,n).
func (m *Machine) choose(n int) int {
	for i := 0; i < n-1; i++ {
		if !m.decideFree() {
			return i
		}
	}
	return n - 1
}

// decideFree forks without a condition; false is explored first.
func (m *Machine) decideFree() bool {
	if m.rpos < len(m.replay) {
		d := m.replay[m.rpos]
		m.rpos++
		if m.rpos == len(m.replay) {
			m.replay, m.rpos = nil, 0
		}
		m.declog = append(m.declog, d)
		return d.taken
	}
	cp := &checkpoint{top: m.iTop, trail: m.iTrail, pcLen: m.iPC, logLen: m.iLog, model: m.model, snap: m.iSnap, prevCp: m.cpStamp}
	cp.replay = append(cp.replay, m.declog[m.iLog:]...)
	cp.replay = append(cp.replay, dec{taken: true, forced: true})
	m.cps = append(m.cps, cp)
	m.stamp++
	m.cpStamp = m.stamp
	m.declog = append(m.declog, dec{taken: false, forced: true})
	return false
}

func (m *Machine) rangeNext(itv Value, x *Ins) Value {
	o := itv.p.(*Object)
	if si, ok := o.cells[0].p.(*strIter); ok {
		n := strLen(si.v)
		if si.pos >= n {
			return Value{p: Tuple{bval(false), Value{}, Value{}}}
		}
		var r Value
		var sz int
		if s, ok := si.v.p.(string); ok {
			rn, k := utf8.DecodeRuneInString(s[si.pos:])
			r, sz = ival(32, uint64(rn)), k
		} else {
			t, k := m.decodeRune(si.v.p.(*SymStr).b[si.pos:])
			r, sz = fromTerm(t), k
		}
		m.setCell(o, 0, Value{p: &strIter{v: si.v, pos: si.pos + sz}})
		return Value{p: Tuple{bval(true), intv(si.pos), r}}
	}
	it := o.cells[0].p.(*mapIter)
	var zk, zv Value
	if x.t != nil && x.t.kind != KInvalid {
		zk = x.t.zero()
	}
	if x.t2 != nil && x.t2.kind != KInvalid {
		zv = x.t2.zero()
	}
	if it.mp == nil {
		return Value{p: Tuple{bval(false), zk, zv}}
	}
	var live []int
	for _, i := range it.base {
		if i < len(it.mp.st.ents) && !it.mp.st.ents[i].dead {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		return Value{p: Tuple{bval(false), zk, zv}}
	}
	k := 0
	if len(live) > 1 && m.mapOrder > 0 && m.top.code.inTgt {
		if m.mapOrder == 1 {
			k = m.choose(len(live))
		} else { // reversed
			k = len(live) - 1
		}
	}
	i := live[k]
	rest := make([]int, 0, len(live)-1)
	for _, j := range live {
		if j != i {
			rest = append(rest, j)
		}
	}
	m.setCell(o, 0, Value{p: &mapIter{mp: it.mp, base: rest}})
	e := it.mp.st.ents[i]
	return Value{p: Tuple{bval(true), e.k, e.v}}
}

// ---------- calls

func (m *Machine) execCall(x *Ins) {
	ci := x.call
	if ci.bltn != nil {
		args := make([]Value, len(x.args))
		for i := range x.args {
			args[i] = m.get(&x.args[i])
		}
		v := m.builtin(ci.bltn, args, ci.atypes, ci.rt)
		m.setReg(x.dst, v)
		return
	}
	if ci.method != "" {
		i, _ := m.get(&x.a).p.(*Iface)
		if i == nil {
			m.nilDeref()
		}
		fn := m.findMethod(i.t, ci.mpkg, ci.method)
		if fn == nil {
			panic(unsupported{"method " + ci.method + " of " + i.t.String()})
		}
		args := make([]Value, 1+len(x.args))
		args[0] = i.v
		for k := range x.args {
			args[k+1] = m.get(&x.args[k])
		}
		m.call(fn, args, nil, x.dst)
		return
	}
	args := make([]Value, len(x.args))
	for i := range x.args {
		args[i] = m.get(&x.args[i])
	}
	if ci.static != nil {
		m.call(ci.static, args, nil, x.dst)
		return
	}
	cl, _ := m.get(&x.a).p.(*Closure)
	if cl == nil {
		m.nilDeref()
	}
	m.callClosure(cl, args, x.dst)
}

func (m *Machine) callClosure(cl *Closure, args []Value, dst int) {
	if cl.nat != nil {
		m.setReg(dst, cl.nat(m, args))
		return
	}
	if cl.bltn != nil {
		panic(unsupported{"builtin as value"})
	}
	m.call(cl.fn, args, cl.free, dst)
}

// pushCall arranges for a Go function to be called from a native; the native's result is hook(results).
func (m *Machine) pushCall(cl *Closure, args []Value, hook func(m *Machine, res []Value) Value) Value {
	if cl.nat != nil {
		v := cl.nat(m, args)
		return hook(m, []Value{v})
	}
	fi := m.info(cl.fn)
	if fi.nat != nil {
		v := fi.nat(m, cl.fn, args)
		if m.hookPending {
			// the inner native itself pushed a frame: compose
			inner := m.top.onReturn
			m.top.onReturn = func(m *Machine, res []Value) Value {
				r := inner(m, res)
				return hook(m, untuple(r, cl.fn.Signature.Results().Len()))
			}
			return Value{}
		}
		return hook(m, untuple(v, cl.fn.Signature.Results().Len()))
	}
	fn := cl.fn
	if fi.repl != nil {
		fn = fi.repl
	}
	m.pushFrame(fn, args, cl.free, retHook, hook)
	m.hookPending = true
	return Value{}
}

func untuple(v Value, n int) []Value {
	switch n {
	case 0:
		return nil
	case 1:
		return []Value{v}
	}
	return []Value(v.p.(Tuple))
}

func (m *Machine) sliceLen(v Value) Sc {
	s, _ := v.p.(*SliceV)
	if s == nil {
		return Sc{}
	}
	return s.len
}

func (m *Machine) builtin(b *ssa.Builtin, args []Value, at []*RType, rt *RType) Value {
	switch b.Name() {
	case "len":
		switch at[0].kind {
		case KString:
			return intv(strLen(args[0]))
		case KSlice:
			return m.sliceLen(args[0]).v()
		case KMap:
			mp, _ := args[0].p.(*MapObj)
			if mp == nil {
				return Value{}
			}
			return intv(mp.st.n)
		case KArray:
			return intv(at[0].n)
		case KPtr:
			return intv(at[0].elem.n)
		case KChan:
			return Value{}
		}
	case "cap":
		switch at[0].kind {
		case KSlice:
			s, _ := args[0].p.(*SliceV)
			if s == nil {
				return Value{}
			}
			return s.cap.v()
		case KArray:
			return intv(at[0].n)
		case KPtr:
			return intv(at[0].elem.n)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return m.appendSlice(args[0], args[1], at[0], at[1])
	case "copy":
		return m.builtinCopy(args[0], args[1], at[0], at[1])
	case "delete":
		mp, _ := args[0].p.(*MapObj)
		if mp != nil {
			m.mapDelete(mp, args[1])
		}
		return Value{}
	case "clear":
		switch at[0].kind {
		case KMap:
			mp, _ := args[0].p.(*MapObj)
			if mp != nil {
				m.mapClear(mp)
			}
			return Value{}
		case KSlice:
			s, _ := args[0].p.(*SliceV)
			if s == nil {
				return Value{}
			}
			n := int(m.concretize(s.len, 256, "clear length"))
			for i := 0; i < n; i++ {
				m.store(m.elemPtr(s, csc(i), at[0].elem.cells), at[0].elem.zero(), at[0].elem)
			}
			return Value{}
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := m.binop(op, a, r, at[0], at[0])
			if c.t == nil {
				if c.c != 0 {
					r = a
				}
			} else if at[0].kind == KInt {
				r = fromTerm(m.tt.Ite(c.t, m.term(a, at[0].w), m.term(r, at[0].w)))
			} else if m.decide(c.t) {
				r = a
			}
		}
		return r
	case "recover":
		f := m.top
		if f.mode == retPanicDefer && f.parent != nil && f.parent.panicking {
			p := m.wparent()
			p.panicking = false
			v := p.panicVal
			p.panicVal = Value{}
			return v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.gopanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(m.concretize(m.idx64(args[1], at[1]), 256, "unsafe.String length"))
		if n == 0 {
			return Value{}
		}
		if sp, ok := args[0].p.(*strPtr); ok {
			return m.substr(sp.v, int(args[0].c), int(args[0].c)+n)
		}
		return m.stringOfBytes(m.sliceFromPtr(args[0], n), n)
	case "StringData":
		if strLen(args[0]) == 0 {
			return Value{}
		}
		return Value{p: &strPtr{args[0]}}
	case "SliceData":
		s, _ := args[0].p.(*SliceV)
		if s == nil {
			return Value{}
		}
		if s.off.t == nil {
			return Value{c: uint64(s.base) + s.off.c*uint64(at[0].elem.cells), p: s.obj}
		}
		return m.elemPtr(s, csc(0), at[0].elem.cells)
	case "Slice": // unsafe.Slice
		n := int(m.concretize(m.idx64(args[1], at[1]), 256, "unsafe.Slice length"))
		if args[0].p == nil {
			return Value{}
		}
		if sp, ok := args[0].p.(*strPtr); ok {
			return m.bytesOfString(m.substr(sp.v, int(args[0].c), int(args[0].c)+n))
		}
		return Value{p: m.sliceFromPtr(args[0], n)}
	case "Add":
		v := args[0]
		if args[1].t == nil && args[1].c == 0 {
			return v
		}
	}
	panic(unsupported{"builtin " + b.Name()})
}

type strPtr struct{ v Value }

func (m *Machine) substr(v Value, l, h int) Value {
	switch s := v.p.(type) {
	case string:
		return strv(s[l:h])
	case *SymStr:
		return mkStr(s.b[l:h])
	}
	return Value{}
}

func (m *Machine) sliceFromPtr(p Value, n int) *SliceV {
	switch o := p.p.(type) {
	case *Object:
		return &SliceV{obj: o, base: int(p.c), len: csc(n), cap: csc(n)}
	case *SymPtr:
		if o.n < 0 {
			return &SliceV{obj: o.obj, off: scTerm(o.idx), len: csc(n), cap: csc(n)}
		}
	}
	panic(unsupported{fmt.Sprintf("slice from pointer %T", p.p)})
}

func (m *Machine) srcSlice(v Value, t *RType) *SliceV {
	if t.kind == KString {
		if strLen(v) == 0 {
			return nil
		}
		b := m.bytesOfString(v).p.(*SliceV)
		return b
	}
	s, _ := v.p.(*SliceV)
	return s
}

func (m *Machine) minSc(a, b Sc) Sc {
	if a.t == nil && b.t == nil {
		return Sc{c: min(a.c, b.c)}
	}
	c := m.scUlt(a, b)
	if !c.isConst() {
		c = m.simplifyCond(c)
	}
	return scTerm(m.tt.Ite(c, m.T(a, 64), m.T(b, 64)))
}

func (m *Machine) builtinCopy(dv, sv Value, dt, st *RType) Value {
	d, _ := dv.p.(*SliceV)
	s := m.srcSlice(sv, st)
	if d == nil || s == nil {
		return Value{}
	}
	n := m.minSc(d.len, s.len)
	if n.t == nil && n.c == 0 {
		return Value{}
	}
	m.copyElems(d, s, n, dt.elem)
	return n.v()
}

func (m *Machine) appendSlice(av, bv Value, at, bt *RType) Value {
	et := at.elem
	a, _ := av.p.(*SliceV)
	b := m.srcSlice(bv, bt)
	if b == nil || b.len.t == nil && b.len.c == 0 {
		return av
	}
	if a == nil {
		a = &SliceV{obj: m.newObj(0)}
	}
	nl := m.scAdd(a.len, b.len)
	var fits bool
	if nl.t == nil && a.cap.t == nil {
		fits = nl.c <= a.cap.c
	} else {
		fits = !m.decide(m.scUlt(a.cap, nl))
	}
	if fits {
		d := &SliceV{obj: a.obj, base: a.base, off: m.scAdd(a.off, a.len), len: b.len, cap: b.len}
		m.copyElems(d, b, b.len, et)
		return Value{p: &SliceV{obj: a.obj, base: a.base, off: a.off, len: nl, cap: a.cap}}
	}
	if nl.t == nil && a.len.t == nil {
		nc := growCap(int(a.cap.c), int(nl.c), uint64(m.types.Size(et)), a.cap.t == nil)
		ns := m.newSlice(at, nl, csc(nc)).p.(*SliceV)
		m.noteAlloc(csc(nc), max(1, uint64(m.types.Size(et))))
		if a.len.c > 0 {
			m.copyElems(&SliceV{obj: ns.obj, len: a.len, cap: a.len}, a, a.len, et)
		}
		m.copyElems(&SliceV{obj: ns.obj, off: a.len, len: b.len, cap: b.len}, b, b.len, et)
		return Value{p: ns}
	}
	// symbolic size: a fresh array with capacity == length
	m.noteAlloc(nl, max(1, uint64(m.types.Size(et))))
	ns := m.newSlice(at, nl, nl).p.(*SliceV)
	m.copyElems(&SliceV{obj: ns.obj, len: a.len, cap: a.len}, a, a.len, et)
	m.copyElems(&SliceV{obj: ns.obj, off: a.len, len: b.len, cap: b.len}, b, b.len, et)
	return Value{p: ns}
}

var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n uint64) uint64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if n <= c {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(oldCap, newLen int, esz uint64, known bool) int {
	nc := newLen
	if known {
		dbl := oldCap + oldCap
		if newLen <= dbl {
			if oldCap < 256 {
				nc = dbl
			} else {
				nc = oldCap
				for nc < newLen {
					nc += (nc + 3*256) >> 2
				}
			}
		}
	}
	if esz == 0 {
		return nc
	}
	return int(roundSize(uint64(nc)*esz) / esz)
}

var _ = types.Typ
