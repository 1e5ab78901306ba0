package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "winresverif/sym"

func (m *Machine) addInput(in Input) {
	m.inputLog = append(m.inputLog[:m.pathSnap.inputs], in)
	m.pathSnap.inputs++
}
func (m *Machine) addObs(o Obs) { m.obsLog = append(m.obsLog[:m.pathSnap.obs], o); m.pathSnap.obs++ }

func (m *Machine) symVar(name, kind string, w uint8) Value {
	t := m.fresh(w, name)
	m.addInput(Input{name: name, kind: kind, t: t, w: w})
	return Value{t: t}
}

// checkAssert decides an assertion for all values on the current path.
func (m *Machine) checkAssert(c *Term, label string) {
	m.asserts++
	if c.isConst() {
		if c.c != 0 {
			return
		}
		m.onViolation(m, label, "", m.model)
		panic(skipPath{"assertion violated"})
	}
	if m.rpos < len(m.replay) {
		return // decided before this prefix was handed over
	}
	if m.tt.Eval(c, m.model) == 0 {
		m.onViolation(m, label, "", m.model)
	} else {
		m.assertQ++
		r, md := m.solver.Check(m.pc, m.tt.Not(c), m.model)
		switch r {
		case Unsat:
			return
		case Unknown:
			panic(unsupported{"solver gave no answer on assertion " + label})
		}
		m.onViolation(m, label, "", md)
	}
	// continue under the assertion
	r, md := m.solver.Check(m.pc, c, m.model)
	if r != Sat {
		panic(skipPath{"assertion violated"})
	}
	m.model = md
	m.addPC(c)
}

func init() {
	s := func(n string, f native) { reg(symPkg+"."+n, f) }
	s("U8", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.symVar(a[0].cstr(), "u8", 8) })
	s("U16", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.symVar(a[0].cstr(), "u16", 16) })
	s("U32", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.symVar(a[0].cstr(), "u32", 32) })
	s("U64", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.symVar(a[0].cstr(), "u64", 64) })
	s("Bool", func(m *Machine, fn *ssa.Function, a []Value) Value {
		v := m.symVar(a[0].cstr(), "bool", 1)
		return fromTerm(m.tt.Eq(v.t, m.tt.Const(1, 1)))
	})
	rangeVar := func(m *Machine, name string, lo, hi uint64) Value {
		// a narrow variable plus an offset keeps ranges visible to the term simplifier
		if lo == hi {
			return Value{c: lo}
		}
		span := hi - lo
		w := uint8(1)
		for w < 64 && mask(w) < span {
			w++
		}
		t := m.fresh(w, name)
		m.addInput(Input{name: name, kind: "int", t: m.tt.Add(m.tt.ZExt(t, 64), m.tt.Const(64, lo)), w: 64})
		m.assume(m.tt.Not(m.tt.Ult(m.tt.Const(w, span), t)))
		return fromTerm(m.tt.Add(m.tt.ZExt(t, 64), m.tt.Const(64, lo)))
	}
	s("Int", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return rangeVar(m, a[0].cstr(), a[1].c, a[2].c)
	})
	s("Choice", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := int(a[1].c)
		k := m.choose(n)
		m.addInput(Input{name: a[0].cstr(), kind: "int", t: m.tt.Const(64, uint64(k)), w: 64})
		return intv(k)
	})
	s("Bytes", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := a[1].sc().i()
		ts := make([]*Term, n)
		name := a[0].cstr()
		for i := range ts {
			ts[i] = m.symVar(name, "u8", 8).t
		}
		return m.newByteSliceT(ts)
	})
	s("Str", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := a[1].sc().i()
		ts := make([]*Term, n)
		name := a[0].cstr()
		for i := range ts {
			ts[i] = m.symVar(name, "u8", 8).t
		}
		return mkStr(ts)
	})
	// Blob(name, min, max): a byte slice of symbolic length over an uninterpreted function
	s("Blob", func(m *Machine, fn *ssa.Function, a []Value) Value {
		name := a[0].cstr()
		lo, hi := a[1].c, a[2].c
		span := hi - lo
		w := uint8(1)
		for mask(w) < span {
			w++
		}
		var n Sc
		if span == 0 {
			n = Sc{c: lo}
		} else {
			t := m.fresh(w, name+".len")
			m.assume(m.tt.Not(m.tt.Ult(m.tt.Const(w, span), t)))
			n = scTerm(m.tt.Add(m.tt.ZExt(t, 64), m.tt.Const(64, lo)))
		}
		m.pathSnap.fresh++
		uf := fmt.Sprintf("%s@%d", name, m.pathSnap.fresh)
		if hi <= 4096 {
			ts := make([]*Term, hi)
			vec := make([]Value, hi)
			for i := range ts {
				ts[i] = m.tt.Var(8, fmt.Sprintf("%s[%d]", uf, i))
				vec[i] = Value{t: ts[i]}
			}
			m.addInput(Input{name: name, kind: "blob", ts: ts, n: n})
			o := m.newObj(0)
			o.elemW = 8
			o.rope = &Rope{kind: ropeVec, vec: vec}
			return Value{p: &SliceV{obj: o, len: n, cap: n}}
		}
		m.addInput(Input{name: name, kind: "blob", uf: uf, n: n})
		o := m.newObj(0)
		o.elemW = 8
		o.rope = &Rope{kind: ropeUF, name: uf}
		return Value{p: &SliceV{obj: o, len: n, cap: n}}
	})
	s("Assume", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.assume(m.boolTerm(a[0]))
		return Value{}
	})
	s("Assert", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.checkAssert(m.boolTerm(a[0]), a[1].cstr())
		return Value{}
	})
	s("Fail", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.checkAssert(m.tt.fls, a[0].cstr())
		return Value{}
	})
	s("Cover", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.coverHit(a[0].cstr())
		return Value{}
	})
	s("Stop", func(m *Machine, fn *ssa.Function, a []Value) Value { panic(pathEnd{"stop"}) })
	s("Thorough", func(m *Machine, fn *ssa.Function, a []Value) Value { return bval(tierThorough) })
	s("Symbolic", func(m *Machine, fn *ssa.Function, a []Value) Value { return bval(true) })
	s("MaxAlloc", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.pathSnap.allocLimit = a[0].c
		return Value{}
	})
	s("MapOrders", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.pathSnap.mapOrder = int(a[0].c)
		return Value{}
	})
	b2 := func(f func(m *Machine, x, y *Term) *Term) native {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			return fromTerm(f(m, m.boolTerm(a[0]), m.boolTerm(a[1])))
		}
	}
	s("And", b2(func(m *Machine, x, y *Term) *Term { return m.tt.And(x, y) }))
	s("Or", b2(func(m *Machine, x, y *Term) *Term { return m.tt.Or(x, y) }))
	s("Implies", b2(func(m *Machine, x, y *Term) *Term { return m.tt.Or(m.tt.Not(x), y) }))
	s("Iff", b2(func(m *Machine, x, y *Term) *Term { return m.tt.Eq(x, y) }))
	s("EqBytes", natBytesEq)
	s("EqStr", func(m *Machine, fn *ssa.Function, a []Value) Value { return fromTerm(m.strEq(a[0], a[1])) })
	ite := func(w uint8) native {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			return fromTerm(m.tt.Ite(m.boolTerm(a[0]), m.term(a[1], w), m.term(a[2], w)))
		}
	}
	s("Ite", ite(64))
	s("Concrete", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Value{c: m.concretize(a[0].sc(), 4096, "Concrete")}
	})
	// SameRange(a, b, i): one arbitrary in-range index; equality of the two slices there
	s("AnyIndex", func(m *Machine, fn *ssa.Function, a []Value) Value {
		name := a[0].cstr()
		t := m.fresh(64, name)
		m.addInput(Input{name: name, kind: "int", t: t, w: 64})
		m.assume(m.tt.Ult(t, m.term(a[1], 64)))
		return Value{t: t}
	})
	obsInt := func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.addObs(Obs{label: a[0].cstr(), ts: []*Term{m.term(a[1], 64)}})
		return Value{}
	}
	s("ObserveInt", obsInt)
	s("ObserveBool", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.addObs(Obs{label: a[0].cstr(), ts: []*Term{m.tt.Ite(m.boolTerm(a[1]), m.tt.Const(64, 1), m.tt.Const(64, 0))}})
		return Value{}
	})
	s("ObserveBytes", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if sl, ok := a[1].p.(*SliceV); ok && sl.len.t != nil {
			m.addObs(Obs{label: a[0].cstr(), ts: []*Term{sl.len.t}})
			return Value{}
		}
		m.addObs(Obs{label: a[0].cstr(), raw: true, ts: m.bytesArg(a[1])})
		return Value{}
	})
	s("ObserveStr", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.addObs(Obs{label: a[0].cstr(), raw: true, ts: m.strTerms(a[1])})
		return Value{}
	})
	_ = strings.Join
}
