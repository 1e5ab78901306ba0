package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafe
	KSlice
	KIface
	KStruct
	KArray
	KFunc
	KMap
	KChan
	KTuple
	KNil
)

type fieldInfo struct {
	name string
	off  int
	t    *RType
	v    *types.Var
	tag  string
}

type RType struct {
	t      types.Type
	u      types.Type
	id     int
	kind   Kind
	w      uint8
	signed bool
	cells  int
	elem   *RType
	key    *RType
	n      int
	fields []fieldInfo
	size   int64 // machine size in bytes
	robj   *Object
	zeroA  Agg
	msets  map[string]*ssa.Function
}

type Value struct {
	c uint64
	t *Term
	p any
}

type Agg []Value   // flattened struct/array value
type Tuple []Value // multi-value

type Sc struct {
	c uint64
	t *Term
}

type SymStr struct{ b []*Term } // 8-bit terms, concrete length

type SliceV struct {
	obj           *Object
	base          int // cell offset
	off, len, cap Sc  // elements
}

type SymPtr struct {
	obj    *Object
	base   int
	idx    *Term // 64 bit element index
	stride int
	sub    int
	n      int // number of candidate elements; -1: rope
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(m *Machine, args []Value) Value
	bltn *ssa.Builtin
}

type mapEnt struct {
	k, v Value
	dead bool
}

type mapState struct {
	ents  []mapEnt
	index map[string]int
	n     int
	sym   int // number of entries with symbolic keys
}

type MapObj struct {
	stamp int64
	id    int
	kt    *RType
	vt    *RType
	st    *mapState
}

type Object struct {
	stamp  int64
	id     int
	cells  []Value
	rope   *Rope
	elemW  uint8
	symLen *Term // logical element count for lazily grown arrays
	stride int
	native any
	name   string
}

type Rope struct {
	kind ropeKind
	prev *Rope
	name string  // UF
	vec  []Value // vec base
	idx  Sc
	val  Value
	n    Sc
	src  *Rope
	soff Sc
}

type ropeKind uint8

const (
	ropeZero ropeKind = iota
	ropeUF
	ropeVec
	ropePoint
	ropeCopy
)

// ---------- type table

type TypeTable struct {
	m      typeutil.Map
	byPtr  map[types.Type]*RType
	sizes  types.Sizes
	prog   *ssa.Program
	n      int
	rtypes []*RType
}

func NewTypeTable(prog *ssa.Program) *TypeTable {
	tt := &TypeTable{byPtr: map[types.Type]*RType{}, prog: prog, sizes: types.SizesFor("gc", "amd64")}
	tt.m.SetHasher(typeutil.MakeHasher())
	return tt
}

func (tt *TypeTable) Of(t types.Type) *RType {
	if r, ok := tt.byPtr[t]; ok {
		return r
	}
	t0 := t
	t = types.Unalias(t)
	if x := tt.m.At(t); x != nil {
		r := x.(*RType)
		tt.byPtr[t0] = r
		return r
	}
	r := &RType{t: t, u: t.Underlying(), id: tt.n}
	tt.n++
	tt.m.Set(t, r)
	tt.byPtr[t] = r
	tt.byPtr[t0] = r
	tt.rtypes = append(tt.rtypes, r)
	r.cells = 1
	switch u := r.u.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			r.kind = KUnsafe
		case u.Kind() == types.UntypedNil:
			r.kind = KNil
		case u.Info()&types.IsBoolean != 0:
			r.kind = KBool
		case u.Info()&types.IsInteger != 0:
			r.kind = KInt
			switch u.Kind() {
			case types.Int8:
				r.w, r.signed = 8, true
			case types.Uint8:
				r.w = 8
			case types.Int16:
				r.w, r.signed = 16, true
			case types.Uint16:
				r.w = 16
			case types.Int32, types.UntypedRune:
				r.w, r.signed = 32, true
			case types.Uint32:
				r.w = 32
			case types.Int, types.Int64, types.UntypedInt:
				r.w, r.signed = 64, true
			default:
				r.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			r.kind = KFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			r.kind = KComplex
		case u.Info()&types.IsString != 0:
			r.kind = KString
		}
	case *types.Pointer:
		r.kind = KPtr
		r.elem = tt.Of(u.Elem())
	case *types.Slice:
		r.kind = KSlice
		r.elem = tt.Of(u.Elem())
	case *types.Array:
		r.kind = KArray
		r.elem = tt.Of(u.Elem())
		r.n = int(u.Len())
		r.cells = r.n * r.elem.cells
	case *types.Struct:
		r.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			ft := tt.Of(f.Type())
			r.fields = append(r.fields, fieldInfo{name: f.Name(), off: off, t: ft, v: f, tag: u.Tag(i)})
			off += ft.cells
		}
		r.cells = off
	case *types.Interface:
		r.kind = KIface
	case *types.Signature:
		r.kind = KFunc
	case *types.Map:
		r.kind = KMap
		r.key = tt.Of(u.Key())
		r.elem = tt.Of(u.Elem())
	case *types.Chan:
		r.kind = KChan
		r.elem = tt.Of(u.Elem())
	case *types.Tuple:
		r.kind = KTuple
	case *types.TypeParam:
		r.kind = KInvalid
	}
	return r
}

func (tt *TypeTable) Size(r *RType) int64 {
	if r.size == 0 {
		r.size = tt.sizes.Sizeof(r.t) + 1
	}
	return r.size - 1
}

func (r *RType) isAgg() bool { return r.kind == KStruct || r.kind == KArray }

func (r *RType) String() string { return types.TypeString(r.t, nil) }

func (r *RType) zero() Value {
	if r.isAgg() {
		if r.zeroA == nil && r.cells > 0 {
			r.zeroA = make(Agg, r.cells)
		}
		return Value{p: r.zeroA}
	}
	return Value{}
}

func ival(w uint8, v uint64) Value { return Value{c: v & mask(w)} }
func intv(v int) Value             { return Value{c: uint64(v)} }
func bval(b bool) Value {
	if b {
		return Value{c: 1}
	}
	return Value{}
}
func fval(f float64) Value { return Value{c: math.Float64bits(f)} }
func strv(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func (v Value) f() float64 { return math.Float64frombits(v.c) }
func (v Value) sc() Sc     { return Sc{v.c, v.t} }
func (s Sc) v() Value      { return Value{c: s.c, t: s.t} }
func csc(v int) Sc         { return Sc{c: uint64(v)} }
func (s Sc) conc() bool    { return s.t == nil }
func (s Sc) i() int {
	if s.t != nil {
		panic(unsupported{"symbolic integer where a concrete one is needed"})
	}
	return int(s.c)
}

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.p))
}

func (v Value) cstr() string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			if !t.isConst() {
				panic(unsupported{"symbolic string where a concrete one is needed"})
			}
			b[i] = byte(t.c)
		}
		return string(b)
	}
	panic(fmt.Sprintf("cstr %T", v.p))
}

func isConcStr(v Value) bool {
	switch s := v.p.(type) {
	case nil, string:
		return true
	case *SymStr:
		for _, t := range s.b {
			if !t.isConst() {
				return false
			}
		}
		return true
	}
	return false
}

type unsupported struct{ msg string }

// goPanic: a Go-level runtime panic raised by the current instruction.
type goPanic struct{ val Value }

type pathEnd struct{ why string } // assume false etc.

// skipPath: the path is abandoned without counting as inconclusive.
type skipPath struct{ why string }
