package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RV is the engine's representation of a reflect.Value.
type RV struct {
	t    *RType
	v    Value
	ptr  Value
	addr bool
	ro   bool
	// ro only because of an embedded unexported field: its exported fields are writable
	embRO bool
	pre   []Value // receiver for method values
}

func (m *Machine) rvGet(r *RV) Value {
	if r.addr {
		return m.load(r.ptr, r.t)
	}
	return r.v
}

func mkRV(r *RV) Value {
	a := make(Agg, 3)
	if r != nil {
		a[0].p = r
	}
	return Value{p: a}
}

func argRV(v Value) *RV {
	a, _ := v.p.(Agg)
	if a == nil {
		return nil
	}
	r, _ := a[0].p.(*RV)
	return r
}

func (m *Machine) rv(v Value) *RV {
	r := argRV(v)
	if r == nil {
		m.gopanic("reflect: call on zero Value")
	}
	return r
}

func rkind(t *RType) reflect.Kind {
	switch t.kind {
	case KBool:
		return reflect.Bool
	case KInt:
		switch t.u.(*types.Basic).Kind() {
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		}
		return reflect.Uintptr
	case KFloat:
		if t.w == 32 {
			return reflect.Float32
		}
		return reflect.Float64
	case KComplex:
		return reflect.Complex128
	case KString:
		return reflect.String
	case KPtr:
		return reflect.Pointer
	case KUnsafe:
		return reflect.UnsafePointer
	case KSlice:
		return reflect.Slice
	case KIface:
		return reflect.Interface
	case KStruct:
		return reflect.Struct
	case KArray:
		return reflect.Array
	case KFunc:
		return reflect.Func
	case KMap:
		return reflect.Map
	case KChan:
		return reflect.Chan
	}
	return reflect.Invalid
}

// rtypeVal returns the reflect.Type interface value for t.
func (m *Machine) rtypeVal(t *RType) Value {
	if t == nil {
		return Value{}
	}
	if t.robj == nil {
		o := m.newObj(1)
		o.stamp = 0
		o.native = t
		o.name = "rtype"
		t.robj = o
	}
	return Value{p: &Iface{m.types.rtypePtr, Value{p: t.robj}}}
}

func rtOf(v Value) *RType {
	if i, ok := v.p.(*Iface); ok {
		v = i.v
	}
	return v.p.(*Object).native.(*RType)
}

func typeString(t *RType) string {
	return types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
}

func (m *Machine) toIface(v Value, t *RType) Value {
	if t.kind == KIface {
		return v
	}
	return Value{p: &Iface{t, v}}
}

func (m *Machine) methodsOf(t *RType) []*types.Selection {
	ms := m.prog.MethodSets.MethodSet(t.t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Exported() {
			out = append(out, s)
		}
	}
	return out
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (m *Machine) assignable(from, to *RType) bool {
	if from == to {
		return true
	}
	return types.AssignableTo(from.t, to.t)
}

// convAssign converts a value for assignment to type to.
func (m *Machine) convAssign(v Value, from, to *RType) Value {
	if !m.assignable(from, to) {
		m.gopanic("reflect: value of type " + from.String() + " is not assignable to type " + to.String())
	}
	if to.kind == KIface && from.kind != KIface {
		return Value{p: &Iface{from, v}}
	}
	return v
}

func (m *Machine) rvSet(r *RV, v Value) {
	if !r.addr || r.ro {
		m.gopanic("reflect: reflect.Value.Set using unaddressable value")
	}
	m.store(r.ptr, v, r.t)
}

func (m *Machine) rvElemAt(r *RV, i Sc) *RV {
	switch r.t.kind {
	case KSlice:
		s, _ := m.rvGet(r).p.(*SliceV)
		if s == nil {
			m.gopanic("reflect: slice index out of range")
		}
		m.boundsCheck(i, s.len)
		return &RV{t: r.t.elem, ptr: m.elemPtr(s, i, r.t.elem.cells), addr: true, ro: r.ro}
	case KArray:
		m.boundsCheck(i, csc(r.t.n))
		k := int(m.concretize(i, 256, "reflect index"))
		if r.addr {
			return &RV{t: r.t.elem, ptr: m.fieldPtr(r.ptr, k*r.t.elem.cells), addr: true, ro: r.ro}
		}
		a, _ := r.v.p.(Agg)
		return &RV{t: r.t.elem, v: subVal(a, k*r.t.elem.cells, r.t.elem), ro: r.ro}
	case KString:
		return &RV{t: m.types.byteT, v: m.index(m.rvGet(r), i, r.t), ro: r.ro}
	}
	m.gopanic("reflect: call of reflect.Value.Index on " + r.t.String() + " Value")
	return nil
}

func (m *Machine) rvField(r *RV, i int) *RV {
	if r.t.kind != KStruct {
		m.gopanic("reflect: call of reflect.Value.Field on " + r.t.String() + " Value")
	}
	f := r.t.fields[i]
	ro := r.ro && !r.embRO || !f.v.Exported()
	emb := ro && !(r.ro && !r.embRO) && f.v.Embedded()
	if r.addr {
		return &RV{t: f.t, ptr: m.fieldPtr(r.ptr, f.off), addr: true, ro: ro, embRO: emb}
	}
	a, _ := r.v.p.(Agg)
	return &RV{t: f.t, v: subVal(a, f.off, f.t), ro: ro, embRO: emb}
}

func (m *Machine) rvLen(r *RV) Value {
	v := m.rvGet(r)
	switch r.t.kind {
	case KString:
		return intv(strLen(v))
	case KSlice:
		return m.sliceLen(v).v()
	case KArray:
		return intv(r.t.n)
	case KMap:
		if mp, _ := v.p.(*MapObj); mp != nil {
			return intv(mp.st.n)
		}
		return Value{}
	case KPtr:
		return intv(r.t.elem.n)
	}
	m.gopanic("reflect: call of reflect.Value.Len on " + r.t.String() + " Value")
	return Value{}
}

func (m *Machine) rvElem(r *RV) *RV {
	v := m.rvGet(r)
	switch r.t.kind {
	case KIface:
		i, _ := v.p.(*Iface)
		if i == nil {
			return nil
		}
		return &RV{t: i.t, v: i.v, ro: r.ro}
	case KPtr:
		if v.p == nil {
			return nil
		}
		return &RV{t: r.t.elem, ptr: v, addr: true, ro: r.ro}
	}
	m.gopanic("reflect: call of reflect.Value.Elem on " + r.t.String() + " Value")
	return nil
}

func (m *Machine) isZero(v Value, t *RType) *Term {
	switch t.kind {
	case KStruct:
		a, _ := v.p.(Agg)
		r := m.tt.tru
		for _, f := range t.fields {
			r = m.tt.And(r, m.isZero(subVal(a, f.off, f.t), f.t))
		}
		return r
	case KArray:
		a, _ := v.p.(Agg)
		r := m.tt.tru
		for i := 0; i < t.n; i++ {
			r = m.tt.And(r, m.isZero(subVal(a, i*t.elem.cells, t.elem), t.elem))
		}
		return r
	case KSlice, KMap, KFunc, KPtr, KIface, KChan, KUnsafe:
		return m.tt.Bool(v.p == nil && v.c == 0)
	}
	return m.eq(v, t.zero(), t)
}

// deepEq implements reflect.DeepEqual, forking only where lengths or map keys need it.
func (m *Machine) deepEq(a, b Value, t *RType, depth int) *Term {
	tt := m.tt
	if depth > 50 {
		panic(unsupported{"DeepEqual recursion"})
	}
	switch t.kind {
	case KIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return tt.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return tt.fls
		}
		return m.deepEq(x.v, y.v, x.t, depth+1)
	case KPtr:
		if a.p == nil || b.p == nil || m.ptrEq(a, b) {
			return tt.Bool(m.ptrEq(a, b))
		}
		return m.deepEq(m.load(a, t.elem), m.load(b, t.elem), t.elem, depth+1)
	case KStruct:
		x, _ := a.p.(Agg)
		y, _ := b.p.(Agg)
		r := tt.tru
		for _, f := range t.fields {
			r = tt.And(r, m.deepEq(subVal(x, f.off, f.t), subVal(y, f.off, f.t), f.t, depth+1))
			if r == tt.fls {
				return r
			}
		}
		return r
	case KArray:
		x, _ := a.p.(Agg)
		y, _ := b.p.(Agg)
		r := tt.tru
		for i := 0; i < t.n; i++ {
			r = tt.And(r, m.deepEq(subVal(x, i*t.elem.cells, t.elem), subVal(y, i*t.elem.cells, t.elem), t.elem, depth+1))
		}
		return r
	case KSlice:
		x, _ := a.p.(*SliceV)
		y, _ := b.p.(*SliceV)
		if x == nil || y == nil {
			return tt.Bool(x == nil && y == nil)
		}
		if !m.decide(m.scEq(x.len, y.len)) {
			return tt.fls
		}
		n := int(m.concretize(x.len, 256, "DeepEqual length"))
		r := tt.tru
		for i := 0; i < n; i++ {
			r = tt.And(r, m.deepEq(m.sliceGet(x, csc(i), t.elem), m.sliceGet(y, csc(i), t.elem), t.elem, depth+1))
			if r == tt.fls {
				return r
			}
		}
		return r
	case KMap:
		x, _ := a.p.(*MapObj)
		y, _ := b.p.(*MapObj)
		if x == nil || y == nil {
			return tt.Bool(x == nil && y == nil)
		}
		if x.st.n != y.st.n {
			return tt.fls
		}
		r := tt.tru
		for i := range x.st.ents {
			e := x.st.ents[i]
			if e.dead {
				continue
			}
			j, _, _ := m.mapFind(y, e.k)
			if j < 0 {
				return tt.fls
			}
			r = tt.And(r, m.deepEq(e.v, y.st.ents[j].v, t.elem, depth+1))
		}
		return r
	case KFunc:
		return tt.Bool(a.p == nil && b.p == nil)
	}
	return m.eq(a, b, t)
}

type mapIterState struct {
	mp   *MapObj
	t    *RType
	rest []int
	cur  int
}

func (m *Machine) rvCall(r *RV, args []Value) Value {
	cl, _ := m.rvGet(r).p.(*Closure)
	if cl == nil {
		m.gopanic("reflect: call of nil function")
	}
	sig := r.t.u.(*types.Signature)
	var in []Value
	in = append(in, r.pre...)
	np := sig.Params().Len()
	for i := 0; i < np; i++ {
		pt := m.types.Of(sig.Params().At(i).Type())
		if sig.Variadic() && i == np-1 {
			n := len(args) - i
			if n < 0 {
				n = 0
			}
			s := m.newSlice(pt, csc(n), csc(n)).p.(*SliceV)
			for k := 0; k < n; k++ {
				ar := m.rv(args[i+k])
				m.store(m.elemPtr(s, csc(k), pt.elem.cells), m.convAssign(m.rvGet(ar), ar.t, pt.elem), pt.elem)
			}
			if n == 0 {
				in = append(in, Value{})
			} else {
				in = append(in, Value{p: s})
			}
			break
		}
		if i >= len(args) {
			m.gopanic("reflect: Call with too few input arguments")
		}
		ar := m.rv(args[i])
		in = append(in, m.convAssign(m.rvGet(ar), ar.t, pt))
	}
	rt := m.types.Of(types.NewSlice(m.prog.ImportedPackage("reflect").Type("Value").Type()))
	return m.pushCall(cl, in, func(m *Machine, res []Value) Value {
		n := len(res)
		if n == 0 {
			return Value{p: &SliceV{obj: m.newObj(0)}}
		}
		s := m.newSlice(rt, csc(n), csc(n)).p.(*SliceV)
		for i, v := range res {
			t := m.types.Of(sig.Results().At(i).Type())
			m.store(m.elemPtr(s, csc(i), 3), mkRV(&RV{t: t, v: v}), rt.elem)
		}
		return Value{p: s}
	})
}

func (m *Machine) sliceVals(v Value, t *RType) []Value {
	s, _ := v.p.(*SliceV)
	if s == nil {
		return nil
	}
	n := int(m.concretize(s.len, 256, "slice length"))
	out := make([]Value, n)
	for i := range out {
		out[i] = m.sliceGet(s, csc(i), t)
	}
	return out
}

func (m *Machine) rvMethod(r *RV, s *types.Selection) *RV {
	sig := s.Type().(*types.Signature)
	st := m.types.Of(sigNoRecv(sig))
	v := m.rvGet(r)
	if r.t.kind == KIface {
		i, _ := v.p.(*Iface)
		if i == nil {
			m.gopanic("reflect: Method on nil interface value")
		}
		f := m.findMethod(i.t, s.Obj().Pkg(), s.Obj().Name())
		return &RV{t: st, v: Value{p: &Closure{fn: f}}, pre: []Value{i.v}}
	}
	f := m.findMethod(r.t, s.Obj().Pkg(), s.Obj().Name())
	return &RV{t: st, v: Value{p: &Closure{fn: f}}, pre: []Value{v}}
}

func (m *Machine) structFieldVal(t *RType, i int, ft *RType) Value {
	f := t.fields[i]
	a := make(Agg, ft.cells)
	set := func(name string, v Value) {
		fi := m.structField(ft, name)
		a[fi.off] = v
	}
	set("Name", strv(f.name))
	if !f.v.Exported() && f.v.Pkg() != nil {
		set("PkgPath", strv(f.v.Pkg().Path()))
	}
	set("Type", m.rtypeVal(f.t))
	set("Tag", strv(f.tag))
	idx := m.newObj(1)
	idx.elemW = 64
	idx.cells[0] = intv(i)
	set("Index", Value{p: &SliceV{obj: idx, len: csc(1), cap: csc(1)}})
	set("Anonymous", bval(f.v.Embedded()))
	return Value{p: a}
}

// fieldPath finds a field by name, through embedded structures, as reflect does: the shallowest one if it is unique.
func fieldPath(t *RType, name string) ([]int, *RType) {
	type at struct {
		t    *RType
		path []int
	}
	seen := map[*RType]bool{}
	for level := []at{{t, nil}}; len(level) > 0; {
		var next []at
		var found []int
		var in *RType
		n := 0
		for _, l := range level {
			if l.t.kind == KPtr {
				l.t = l.t.elem
			}
			if l.t.kind != KStruct || seen[l.t] {
				continue
			}
			for i := range l.t.fields {
				p := append(append([]int{}, l.path...), i)
				if l.t.fields[i].name == name {
					found, in = p, l.t
					n++
				}
				if l.t.fields[i].v.Embedded() {
					next = append(next, at{l.t.fields[i].t, p})
				}
			}
		}
		for _, l := range level {
			seen[l.t] = true
		}
		if n == 1 {
			return found, in
		}
		if n > 1 {
			return nil, nil
		}
		level = next
	}
	return nil, nil
}

func typeName(t *RType) string {
	switch n := t.t.(type) {
	case *types.Named:
		s := n.Obj().Name()
		if n.TypeArgs().Len() > 0 {
			x := typeString(t)
			if i := strings.Index(x, "["); i >= 0 {
				s += x[i:]
			}
		}
		return s
	case *types.Basic:
		return n.Name()
	}
	return ""
}

func init() {
	regT := func(name string, f func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(m *Machine, fn *ssa.Function, a []Value) Value {
			return f(m, fn, rtOf(a[0]), a[1:])
		})
	}
	regT("Kind", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return intv(int(rkind(t))) })
	regT("String", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return strv(typeString(t)) })
	regT("Name", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return strv(typeName(t)) })
	regT("PkgPath", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strv(n.Obj().Pkg().Path())
		}
		return Value{}
	})
	regT("Elem", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		if t.elem == nil {
			m.gopanic("reflect: Elem of invalid type " + t.String())
		}
		return m.rtypeVal(t.elem)
	})
	regT("Key", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return m.rtypeVal(t.key) })
	regT("Len", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return intv(t.n) })
	regT("Size", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return intv(int(m.types.Size(t))) })
	regT("Bits", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return intv(int(m.types.Size(t)) * 8) })
	regT("Align", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return intv(int(m.types.sizes.Alignof(t.t)))
	})
	regT("NumField", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return intv(len(t.fields)) })
	regT("Field", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return m.structFieldVal(t, int(a[0].c), m.resT(fn, 0))
	})
	regT("NumMethod", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return intv(len(m.methodsOf(t))) })
	methodVal := func(m *Machine, fn *ssa.Function, t *RType, i int) Value {
		s := m.methodsOf(t)[i]
		mt := m.resT(fn, 0)
		ag := make(Agg, mt.cells)
		ag[m.structField(mt, "Name").off] = strv(s.Obj().Name())
		ag[m.structField(mt, "Type").off] = m.rtypeVal(m.types.Of(sigNoRecv(s.Type().(*types.Signature))))
		ag[m.structField(mt, "Index").off] = intv(i)
		return Value{p: ag}
	}
	regT("Method", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return methodVal(m, fn, t, int(a[0].c))
	})
	regT("MethodByName", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		n := a[0].cstr()
		for i, s := range m.methodsOf(t) {
			if s.Obj().Name() == n {
				return Value{p: Tuple{methodVal(m, fn, t, i), bval(true)}}
			}
		}
		return Value{p: Tuple{m.resT(fn, 0).zero(), bval(false)}}
	})
	regT("FieldByName", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		n := a[0].cstr()
		if path, in := fieldPath(t, n); path != nil {
			ft := m.resT(fn, 0)
			v := m.structFieldVal(in, path[len(path)-1], ft)
			idx := m.newObj(len(path))
			idx.elemW = 64
			for i, x := range path {
				idx.cells[i] = intv(x)
			}
			v.p.(Agg)[m.structField(ft, "Index").off] = Value{p: &SliceV{obj: idx, len: csc(len(path)), cap: csc(len(path))}}
			return Value{p: Tuple{v, bval(true)}}
		}
		return Value{p: Tuple{m.resT(fn, 0).zero(), bval(false)}}
	})
	regT("Implements", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return bval(m.implements(t, rtOf(a[0])))
	})
	regT("AssignableTo", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return bval(m.assignable(t, rtOf(a[0])))
	})
	regT("ConvertibleTo", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return bval(types.ConvertibleTo(t.t, rtOf(a[0]).t))
	})
	regT("Comparable", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return bval(types.Comparable(t.t)) })
	regT("NumIn", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return intv(t.u.(*types.Signature).Params().Len())
	})
	regT("NumOut", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return intv(t.u.(*types.Signature).Results().Len())
	})
	regT("In", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return m.rtypeVal(m.types.Of(t.u.(*types.Signature).Params().At(int(a[0].c)).Type()))
	})
	regT("Out", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return m.rtypeVal(m.types.Of(t.u.(*types.Signature).Results().At(int(a[0].c)).Type()))
	})
	regT("IsVariadic", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value {
		return bval(t.u.(*types.Signature).Variadic())
	})
	regT("CanSeq", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return bval(false) })
	regT("CanSeq2", func(m *Machine, fn *ssa.Function, t *RType, a []Value) Value { return bval(false) })

	typeOf := func(m *Machine, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return Value{}
		}
		return m.rtypeVal(i.t)
	}
	reg("reflect.TypeOf", typeOf)
	reg("internal/reflectlite.TypeOf", typeOf)
	typeFor := func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.rtypeVal(m.types.Of(fn.TypeArgs()[0]))
	}
	reg("reflect.TypeFor", typeFor)
	reg("reflect.TypeAssert", func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := m.types.Of(fn.TypeArgs()[0])
		r := m.rv(a[0])
		if r.ro {
			m.gopanic("reflect.TypeAssert: cannot return value obtained from unexported field or method")
		}
		i, _ := m.toIface(m.rvGet(r), r.t).p.(*Iface)
		if i != nil && t.kind == KIface && m.implements(i.t, t) {
			return Value{p: Tuple{Value{p: i}, bval(true)}}
		}
		if i != nil && t.kind != KIface && i.t == t {
			return Value{p: Tuple{i.v, bval(true)}}
		}
		return Value{p: Tuple{t.zero(), bval(false)}}
	})
	ptrTo := func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.rtypeVal(m.types.Of(types.NewPointer(rtOf(a[0]).t)))
	}
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.SliceOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.rtypeVal(m.types.Of(types.NewSlice(rtOf(a[0]).t)))
	})
	reg("reflect.DeepEqual", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return fromTerm(m.deepEq(a[0], a[1], m.types.Of(types.NewInterfaceType(nil, nil)), 0))
	})
	reg("reflect.Indirect", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := argRV(a[0])
		if r == nil || r.t.kind != KPtr {
			return a[0]
		}
		return mkRV(m.rvElem(r))
	})
	reg("reflect.Zero", func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := rtOf(a[0])
		return mkRV(&RV{t: t, v: t.zero()})
	})
	reg("reflect.New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := rtOf(a[0])
		o := m.newObj(t.cells)
		return mkRV(&RV{t: m.types.Of(types.NewPointer(t.t)), v: Value{p: o}})
	})
	reg("reflect.MakeSlice", func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := rtOf(a[0])
		return mkRV(&RV{t: t, v: m.makeSlice(t, a[1].sc(), a[2].sc())})
	})
	mkMap := func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := rtOf(a[0])
		return mkRV(&RV{t: t, v: Value{p: m.newMap(t)}})
	}
	reg("reflect.MakeMap", mkMap)
	reg("reflect.MakeMapWithSize", mkMap)
	reg("reflect.Append", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := m.rv(a[0])
		cur := m.rvGet(r)
		var vt *RType
		if s, ok := a[1].p.(*SliceV); ok {
			vt = m.types.Of(m.parT(fn, 1).elem.t)
			for i := 0; i < s.len.i(); i++ {
				x := m.rv(m.sliceGet(s, csc(i), vt))
				tmp := m.newSlice(r.t, csc(1), csc(1)).p.(*SliceV)
				m.store(m.elemPtr(tmp, csc(0), r.t.elem.cells), m.convAssign(m.rvGet(x), x.t, r.t.elem), r.t.elem)
				cur = m.appendSlice(cur, Value{p: tmp}, r.t, r.t)
			}
		}
		return mkRV(&RV{t: r.t, v: cur})
	})
	reg("reflect.Copy", func(m *Machine, fn *ssa.Function, a []Value) Value {
		d, s := m.rv(a[0]), m.rv(a[1])
		dv, sv := m.rvGet(d), m.rvGet(s)
		if d.t.kind == KArray {
			dv = Value{p: m.sliceFromPtr(d.ptr, d.t.n)}
		}
		if s.t.kind == KArray {
			sv = Value{p: m.sliceFromPtr(s.ptr, s.t.n)}
		}
		et := d.t.elem
		st := m.types.Of(types.NewSlice(et.t))
		s2 := st
		if s.t.kind == KString {
			s2 = s.t
		}
		return m.builtinCopy(dv, sv, st, s2)
	})
	swapper := func(m *Machine, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		s, _ := i.v.p.(*SliceV)
		et := i.t.elem
		return Value{p: &Closure{nat: func(m *Machine, args []Value) Value {
			if s == nil {
				m.gopanic("reflect: slice index out of range")
			}
			m.boundsCheck(args[0].sc(), s.len)
			m.boundsCheck(args[1].sc(), s.len)
			p, q := m.elemPtr(s, args[0].sc(), et.cells), m.elemPtr(s, args[1].sc(), et.cells)
			x, y := m.load(p, et), m.load(q, et)
			m.store(p, y, et)
			m.store(q, x, et)
			return Value{}
		}}}
	}
	reg("reflect.Swapper", swapper)
	reg("internal/reflectlite.Swapper", swapper)

	valueOf := func(m *Machine, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return mkRV(nil)
		}
		return mkRV(&RV{t: i.t, v: i.v})
	}
	reg("reflect.ValueOf", valueOf)
	reg("internal/reflectlite.ValueOf", valueOf)

	regV := func(name string, f func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value) {
		n := func(m *Machine, fn *ssa.Function, a []Value) Value {
			return f(m, fn, m.rv(a[0]), a[1:])
		}
		reg("(reflect.Value)."+name, n)
		reg("(internal/reflectlite.Value)."+name, n)
	}
	kindN := func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := argRV(a[0])
		if r == nil {
			return Value{}
		}
		return intv(int(rkind(r.t)))
	}
	reg("(reflect.Value).Kind", kindN)
	reg("(internal/reflectlite.Value).Kind", kindN)
	validN := func(m *Machine, fn *ssa.Function, a []Value) Value { return bval(argRV(a[0]) != nil) }
	reg("(reflect.Value).IsValid", validN)
	reg("(internal/reflectlite.Value).IsValid", validN)
	reg("(reflect.Value).String", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := argRV(a[0])
		if r == nil {
			return strv("<invalid Value>")
		}
		if r.t.kind == KString {
			return m.rvGet(r)
		}
		return strv("<" + typeString(r.t) + " Value>")
	})
	regV("Type", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return m.rtypeVal(r.t) })
	regV("CanInterface", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return bval(!r.ro) })
	regV("CanSet", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return bval(r.addr && !r.ro) })
	reg("(reflect.Value).CanAddr", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := argRV(a[0])
		return bval(r != nil && r.addr)
	})
	regV("Interface", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		if r.ro {
			m.gopanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.toIface(m.rvGet(r), r.t)
	})
	regV("Addr", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		if !r.addr {
			m.gopanic("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(&RV{t: m.types.Of(types.NewPointer(r.t.t)), v: r.ptr, ro: r.ro})
	})
	regV("Elem", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return mkRV(m.rvElem(r)) })
	regV("IsNil", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return bval(m.rvGet(r).p == nil) })
	regV("IsZero", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		return fromTerm(m.isZero(m.rvGet(r), r.t))
	})
	regV("Bool", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return m.rvGet(r) })
	regV("Float", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return m.rvGet(r) })
	intN := func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		if r.t.kind != KInt {
			m.gopanic("reflect: call of reflect.Value.Int on " + r.t.String() + " Value")
		}
		return m.idx64(m.rvGet(r), r.t).v()
	}
	regV("Int", intN)
	regV("Uint", intN)
	for _, n := range []struct {
		n string
		f func(k reflect.Kind) bool
	}{
		{"CanInt", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }},
		{"CanUint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }},
		{"CanFloat", func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }},
	} {
		f := n.f
		regV(n.n, func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return bval(f(rkind(r.t))) })
	}
	regV("Len", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return m.rvLen(r) })
	regV("Cap", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		if r.t.kind == KArray {
			return intv(r.t.n)
		}
		s, _ := m.rvGet(r).p.(*SliceV)
		if s == nil {
			return Value{}
		}
		return s.cap.v()
	})
	regV("Index", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return mkRV(m.rvElemAt(r, a[0].sc())) })
	regV("NumField", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return intv(len(r.t.fields)) })
	regV("Field", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return mkRV(m.rvField(r, int(a[0].c))) })
	byIndex := func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		for i, x := range m.sliceVals(a[0], m.types.intT) {
			if i > 0 && r.t.kind == KPtr && r.t.elem.kind == KStruct {
				r = m.rvElem(r)
				if r == nil {
					m.gopanic("reflect: indirection through nil pointer to embedded struct")
				}
			}
			r = m.rvField(r, int(x.c))
		}
		return mkRV(r)
	}
	regV("FieldByIndex", byIndex)
	regV("FieldByIndexErr", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		return Value{p: Tuple{byIndex(m, fn, r, a), Value{}}}
	})
	regV("FieldByName", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		n := a[0].cstr()
		if path, _ := fieldPath(r.t, n); path != nil {
			for i, x := range path {
				if i > 0 && r.t.kind == KPtr {
					if r = m.rvElem(r); r == nil {
						m.gopanic("reflect: indirection through nil pointer to embedded struct")
					}
				}
				r = m.rvField(r, x)
			}
			return mkRV(r)
		}
		return mkRV(nil)
	})
	regV("Set", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		x := m.rv(a[0])
		m.rvSet(r, m.convAssign(m.rvGet(x), x.t, r.t))
		return Value{}
	})
	setI := func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		v := a[0]
		if r.t.kind == KInt {
			if v.t != nil {
				v = fromTerm(m.tt.Extract(v.t, 0, r.t.w))
			} else {
				v = ival(r.t.w, v.c)
			}
		}
		m.rvSet(r, v)
		return Value{}
	}
	for _, n := range []string{"SetInt", "SetUint", "SetBool", "SetString", "SetFloat", "SetBytes"} {
		regV(n, setI)
	}
	regV("SetZero", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		m.rvSet(r, r.t.zero())
		return Value{}
	})
	regV("SetLen", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		s, _ := m.rvGet(r).p.(*SliceV)
		if s == nil {
			return Value{}
		}
		n := *s
		n.len = a[0].sc()
		m.rvSet(r, Value{p: &n})
		return Value{}
	})
	regV("SetCap", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		s, _ := m.rvGet(r).p.(*SliceV)
		if s == nil {
			return Value{}
		}
		n := *s
		n.cap = a[0].sc()
		m.rvSet(r, Value{p: &n})
		return Value{}
	})
	regV("Grow", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		s, _ := m.rvGet(r).p.(*SliceV)
		l, c := 0, 0
		if s != nil {
			l, c = s.len.i(), s.cap.i()
		}
		n := a[0].sc().i()
		if l+n > c {
			nc := growCap(c, l+n, uint64(m.types.Size(r.t.elem)), true)
			ns := m.newSlice(r.t, csc(l), csc(nc)).p.(*SliceV)
			if l > 0 {
				m.copyElems(&SliceV{obj: ns.obj, len: csc(l), cap: csc(l)}, s, csc(l), r.t.elem)
			}
			m.rvSet(r, Value{p: ns})
		}
		return Value{}
	})
	regV("Slice", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		switch r.t.kind {
		case KSlice:
			s, _ := m.rvGet(r).p.(*SliceV)
			if s == nil {
				return mkRV(&RV{t: r.t})
			}
			return mkRV(&RV{t: r.t, v: m.reslice(s, a[0].sc(), a[1].sc(), Sc{}, false)})
		case KArray:
			s := m.sliceFromPtr(r.ptr, r.t.n)
			return mkRV(&RV{t: m.types.Of(types.NewSlice(r.t.elem.t)), v: m.reslice(s, a[0].sc(), a[1].sc(), Sc{}, false)})
		case KString:
			l, h := a[0].sc().i(), a[1].sc().i()
			return mkRV(&RV{t: r.t, v: m.substr(m.rvGet(r), l, h)})
		}
		panic(unsupported{"reflect slice of " + r.t.String()})
	})
	regV("Bytes", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		if r.t.kind == KArray {
			return Value{p: m.sliceFromPtr(r.ptr, r.t.n)}
		}
		return m.rvGet(r)
	})
	regV("MapIndex", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		mp, _ := m.rvGet(r).p.(*MapObj)
		if mp == nil {
			return mkRV(nil)
		}
		k := m.rv(a[0])
		if i, _, _ := m.mapFind(mp, m.convAssign(m.rvGet(k), k.t, r.t.key)); i >= 0 {
			return mkRV(&RV{t: r.t.elem, v: mp.st.ents[i].v})
		}
		return mkRV(nil)
	})
	regV("SetMapIndex", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		mp, _ := m.rvGet(r).p.(*MapObj)
		k := m.rv(a[0])
		kv := m.convAssign(m.rvGet(k), k.t, r.t.key)
		e := argRV(a[1])
		if mp == nil {
			m.gopanic("assignment to entry in nil map")
		}
		if e == nil {
			m.mapDelete(mp, kv)
		} else {
			m.mapSet(mp, kv, m.convAssign(m.rvGet(e), e.t, r.t.elem))
		}
		return Value{}
	})
	regV("MapKeys", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		mp, _ := m.rvGet(r).p.(*MapObj)
		st := m.resT(fn, 0)
		n := 0
		if mp != nil {
			n = mp.st.n
		}
		s := m.newSlice(st, csc(n), csc(n)).p.(*SliceV)
		k := 0
		if mp != nil {
			for _, e := range mp.st.ents {
				if !e.dead {
					m.store(m.elemPtr(s, csc(k), 3), mkRV(&RV{t: r.t.key, v: e.k}), st.elem)
					k++
				}
			}
		}
		return Value{p: s}
	})
	regV("MapRange", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		it := m.resT(fn, 0).elem
		o := m.newObj(it.cells)
		mp, _ := m.rvGet(r).p.(*MapObj)
		st := &mapIterState{mp: mp, t: r.t, cur: -1}
		if mp != nil {
			for i := range mp.st.ents {
				if !mp.st.ents[i].dead {
					st.rest = append(st.rest, i)
				}
			}
		}
		o.cells[0] = Value{p: st}
		return Value{p: o}
	})
	itState := func(a []Value) (*Object, *mapIterState) {
		o := a[0].p.(*Object)
		return o, o.cells[a[0].c].p.(*mapIterState)
	}
	reg("(*reflect.MapIter).Next", func(m *Machine, fn *ssa.Function, a []Value) Value {
		o, st := itState(a)
		n := *st
		for len(n.rest) > 0 {
			i := n.rest[0]
			n.rest = n.rest[1:]
			if i < len(n.mp.st.ents) && !n.mp.st.ents[i].dead {
				n.cur = i
				m.setCell(o, int(a[0].c), Value{p: &n})
				return bval(true)
			}
		}
		n.cur = -1
		m.setCell(o, int(a[0].c), Value{p: &n})
		return bval(false)
	})
	reg("(*reflect.MapIter).Key", func(m *Machine, fn *ssa.Function, a []Value) Value {
		_, st := itState(a)
		return mkRV(&RV{t: st.t.key, v: st.mp.st.ents[st.cur].k})
	})
	reg("(*reflect.MapIter).Value", func(m *Machine, fn *ssa.Function, a []Value) Value {
		_, st := itState(a)
		return mkRV(&RV{t: st.t.elem, v: st.mp.st.ents[st.cur].v})
	})
	regV("SetIterKey", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		_, st := itState(a)
		m.rvSet(r, m.convAssign(st.mp.st.ents[st.cur].k, st.t.key, r.t))
		return Value{}
	})
	regV("SetIterValue", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		_, st := itState(a)
		m.rvSet(r, m.convAssign(st.mp.st.ents[st.cur].v, st.t.elem, r.t))
		return Value{}
	})
	regV("NumMethod", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return intv(len(m.methodsOf(r.t))) })
	regV("Method", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		return mkRV(m.rvMethod(r, m.methodsOf(r.t)[a[0].c]))
	})
	regV("MethodByName", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		n := a[0].cstr()
		for _, s := range m.methodsOf(r.t) {
			if s.Obj().Name() == n {
				return mkRV(m.rvMethod(r, s))
			}
		}
		return mkRV(nil)
	})
	regV("Call", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		vt := m.parT(fn, 1).elem
		return m.rvCall(r, m.sliceVals(a[0], vt))
	})
	regV("Convert", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		to := rtOf(a[0])
		v := m.rvGet(r)
		if to.kind == KIface {
			return mkRV(&RV{t: to, v: m.toIface(v, r.t)})
		}
		if types.Identical(r.t.u, to.u) {
			return mkRV(&RV{t: to, v: v})
		}
		return mkRV(&RV{t: to, v: m.convert(v, r.t, to)})
	})
	regV("CanConvert", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		return bval(types.ConvertibleTo(r.t.t, rtOf(a[0]).t))
	})
	regV("Comparable", func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value { return bval(types.Comparable(r.t.t)) })
	overflow := func(signed bool) func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		return func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
			x := m.term(a[0], 64)
			lo := m.tt.Extract(x, 0, r.t.w)
			var back *Term
			if signed {
				back = m.tt.SExt(lo, 64)
			} else {
				back = m.tt.ZExt(lo, 64)
			}
			return fromTerm(m.tt.Not(m.tt.Eq(x, back)))
		}
	}
	regV("OverflowInt", overflow(true))
	regV("OverflowUint", overflow(false))
	ptrN := func(m *Machine, fn *ssa.Function, r *RV, a []Value) Value {
		v := m.rvGet(r)
		if s, ok := v.p.(*SliceV); ok {
			return Value{p: s.obj, c: uint64(s.base) + s.off.c}
		}
		return v
	}
	regV("Pointer", ptrN)
	regV("UnsafePointer", ptrN)
	reg("(reflect.Value).Equal", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := argRV(a[0]), argRV(a[1])
		if x == nil || y == nil {
			return bval(x == nil && y == nil)
		}
		if x.t != y.t {
			return bval(false)
		}
		return fromTerm(m.eq(m.rvGet(x), m.rvGet(y), x.t))
	})
	_ = fmt.Sprint
}
