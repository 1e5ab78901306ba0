package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var natives = map[string]native{}

func reg(name string, f native) { natives[name] = f }

// packages whose initialisers are not run (they touch the machine, not the data under study)
var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/reflectlite": true,
	"testing": true, "log": true, "internal/poll": true, "internal/cpu": true, "internal/godebug": true,
	"internal/runtime/maps": true, "internal/abi": true, "internal/bytealg": true, "sync": true, "net/netip": true, "net": true,
	"internal/testlog": true, "internal/syscall/unix": true, "internal/syscall/execenv": true,
	"runtime/debug": true, "unique": true, "internal/sync": true, "internal/chacha8rand": true,
	"math/rand": true, "math/rand/v2": true, "crypto": true, "os/exec": true, "os/signal": true, "html/template": true,
	"debug/dwarf": true, "path/filepath": true, "io/fs": false, "internal/filepathlite": true, "hash/maphash": true,
	"encoding/base64": false, "weak": true, "internal/weak": true, "iter": true,
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (m *Machine) resolve(fn *ssa.Function) *funcInfo {
	fi := &funcInfo{name: fnName(fn)}
	if n, ok := natives[fi.name]; ok {
		fi.nat = n
		return fi
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" {
		p := fn.Pkg.Pkg.Path()
		if skipInit[p] || strings.HasPrefix(p, "internal/runtime/") || strings.HasPrefix(p, "crypto/") || strings.HasPrefix(p, "internal/syscall/") {
			fi.nat = func(m *Machine, fn *ssa.Function, args []Value) Value { return Value{} }
			return fi
		}
	}
	if strings.HasPrefix(fi.name, "sync/atomic.") || strings.HasPrefix(fi.name, "internal/runtime/atomic.") {
		if n := atomicNative(fn); n != nil {
			fi.nat = n
			return fi
		}
	}
	if r := m.replacements[fi.name]; r != nil {
		fi.repl = r
		return fi
	}
	if len(fn.Blocks) == 0 {
		name := fi.name
		fi.nat = func(m *Machine, fn *ssa.Function, args []Value) Value {
			panic(unsupported{"external function " + name})
		}
	}
	return fi
}

func nop(m *Machine, fn *ssa.Function, args []Value) Value { return Value{} }

func (m *Machine) resT(fn *ssa.Function, i int) *RType {
	return m.types.Of(fn.Signature.Results().At(i).Type())
}

func (m *Machine) parT(fn *ssa.Function, i int) *RType {
	if r := fn.Signature.Recv(); r != nil {
		if i == 0 {
			return m.types.Of(r.Type())
		}
		i--
	}
	return m.types.Of(fn.Signature.Params().At(i).Type())
}

func atomicNative(fn *ssa.Function) native {
	n := fn.Name()
	elem := func(m *Machine) *RType { return m.parT(fn, 0).elem }
	switch {
	case fn.Signature.Recv() != nil:
		return nil
	case strings.HasPrefix(n, "Load"):
		return func(m *Machine, fn *ssa.Function, a []Value) Value { return m.load(a[0], elem(m)) }
	case strings.HasPrefix(n, "Store"):
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			m.store(a[0], a[1], elem(m))
			return Value{}
		}
	case strings.HasPrefix(n, "Swap"):
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			old := m.load(a[0], elem(m))
			m.store(a[0], a[1], elem(m))
			return old
		}
	case strings.HasPrefix(n, "Add"):
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			t := elem(m)
			old := m.load(a[0], t)
			nv := ival(t.w, old.c+a[1].c)
			m.store(a[0], nv, t)
			return nv
		}
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		or := n[0] == 'O'
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			t := elem(m)
			old := m.load(a[0], t)
			nv := Value{c: old.c & a[1].c}
			if or {
				nv.c = old.c | a[1].c
			}
			m.store(a[0], nv, t)
			return old
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			t := elem(m)
			old := m.load(a[0], t)
			if !m.decide(m.eq(old, a[1], t)) {
				return Value{}
			}
			m.store(a[0], a[2], t)
			return Value{c: 1}
		}
	}
	return nil
}

func (m *Machine) structField(t *RType, name string) fieldInfo {
	for _, f := range t.fields {
		if f.name == name {
			return f
		}
	}
	panic(unsupported{"no field " + name + " in " + t.String()})
}

// bytesArg returns the byte terms of a string or []byte of concrete length.
func (m *Machine) bytesArg(v Value) []*Term {
	switch s := v.p.(type) {
	case *SliceV:
		n := int(m.concretize(s.len, 1024, "byte slice length"))
		r := make([]*Term, n)
		for i := range r {
			r[i] = m.byteAt(s, i)
		}
		return r
	}
	return m.strTerms(v)
}

func (m *Machine) concBytes(v Value) ([]byte, bool) {
	switch s := v.p.(type) {
	case nil:
		return nil, true
	case string:
		return []byte(s), true
	case *SliceV:
		if s.len.t != nil || s.off.t != nil || s.obj.rope != nil {
			return nil, false
		}
		st, n := s.base+int(s.off.c), int(s.len.c)
		if st+n > len(s.obj.cells) {
			return nil, false
		}
		b := make([]byte, n)
		for i := range b {
			c := &s.obj.cells[st+i]
			if c.t != nil {
				return nil, false
			}
			b[i] = byte(c.c)
		}
		return b, true
	case *SymStr:
		return nil, false
	}
	return nil, false
}

func (m *Machine) findByte(ts []*Term, c *Term) Value {
	for i, t := range ts {
		if m.decide(m.tt.Eq(t, c)) {
			return intv(i)
		}
	}
	return intv(-1)
}

func (m *Machine) findLastByte(ts []*Term, c *Term) Value {
	for i := len(ts) - 1; i >= 0; i-- {
		if m.decide(m.tt.Eq(ts[i], c)) {
			return intv(i)
		}
	}
	return intv(-1)
}

func natIndexByte(m *Machine, fn *ssa.Function, a []Value) Value {
	if b, ok := m.concBytes(a[0]); ok && a[1].t == nil {
		for i, x := range b {
			if x == byte(a[1].c) {
				return intv(i)
			}
		}
		return intv(-1)
	}
	return m.findByte(m.bytesArg(a[0]), m.term(a[1], 8))
}

func natLastIndexByte(m *Machine, fn *ssa.Function, a []Value) Value {
	return m.findLastByte(m.bytesArg(a[0]), m.term(a[1], 8))
}

func natIndex(m *Machine, fn *ssa.Function, a []Value) Value {
	x, ok1 := m.concBytes(a[0])
	y, ok2 := m.concBytes(a[1])
	if ok1 && ok2 {
		return intv(strings.Index(string(x), string(y)))
	}
	s, sub := m.bytesArg(a[0]), m.bytesArg(a[1])
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.decide(m.bytesEq(s[i:i+len(sub)], sub)) {
			return intv(i)
		}
	}
	return intv(-1)
}

func natCountByte(m *Machine, fn *ssa.Function, a []Value) Value {
	n := 0
	for _, t := range m.bytesArg(a[0]) {
		if m.decide(m.tt.Eq(t, m.term(a[1], 8))) {
			n++
		}
	}
	return intv(n)
}

func natBytesEq(m *Machine, fn *ssa.Function, a []Value) Value {
	return fromTerm(m.sliceEq(a[0], a[1]))
}

// sliceEq compares two byte strings/slices; symbolic lengths are compared first.
func (m *Machine) sliceEq(a, b Value) *Term {
	la, lb := m.anyLen(a), m.anyLen(b)
	if !m.decide(m.scEq(la, lb)) {
		return m.tt.fls
	}
	if la.t != nil && lb.t == nil {
		la = lb
	}
	if la.t != nil {
		la = Sc{c: m.concretize(la, 256, "length of compared slices")}
	}
	x, y := m.firstBytes(a, int(la.c)), m.firstBytes(b, int(la.c))
	return m.bytesEq(x, y)
}

func (m *Machine) anyLen(v Value) Sc {
	switch s := v.p.(type) {
	case *SliceV:
		return s.len
	case nil:
		return Sc{}
	}
	return csc(strLen(v))
}

func (m *Machine) firstBytes(v Value, n int) []*Term {
	if s, ok := v.p.(*SliceV); ok {
		r := make([]*Term, n)
		for i := range r {
			r[i] = m.byteAt(s, i)
		}
		return r
	}
	return m.strTerms(v)[:n]
}

func natCompare(m *Machine, fn *ssa.Function, a []Value) Value {
	x, y := m.bytesArg(a[0]), m.bytesArg(a[1])
	lt := m.bytesLess(x, y)
	eq := m.bytesEq(x, y)
	tt := m.tt
	return fromTerm(tt.Ite(lt, tt.Const(64, ^uint64(0)), tt.Ite(eq, tt.Const(64, 0), tt.Const(64, 1))))
}

func f1(f func(float64) float64) native {
	return func(m *Machine, fn *ssa.Function, a []Value) Value {
		if a[0].t != nil {
			panic(unsupported{"symbolic float"})
		}
		return fval(f(a[0].f()))
	}
}

func (m *Machine) strErr(msg string) Value { return Value{p: &Iface{m.types.rtErrStr, strv(msg)}} }

func init() {
	// runtime and friends
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime.Gosched",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"crypto/internal/boring/sig.BoringCrypto", "runtime.registerPoolCleanup", "sync.runtime_registerPoolCleanup",
	} {
		reg(n, nop)
	}
	reg("(*sync.Mutex).TryLock", func(m *Machine, fn *ssa.Function, a []Value) Value { return bval(true) })
	reg("(*internal/godebug.Setting).Value", func(m *Machine, fn *ssa.Function, a []Value) Value { return Value{} })
	ident := func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("strings.noescape", ident)
	reg("bytes.noescape", ident)
	reg("internal/stringslite.Clone", ident)
	reg("strings.Clone", ident)
	reg("time.initLocal", nop) // the local time zone is UTC
	reg("time.now", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Value{p: Tuple{intv(1700000000), Value{}, intv(1)}}
	})
	reg("time.runtimeNow", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Value{p: Tuple{intv(1700000000), Value{}, intv(1)}}
	})
	reg("time.runtimeNano", func(m *Machine, fn *ssa.Function, a []Value) Value { return intv(1) })
	reg("runtime.Callers", func(m *Machine, fn *ssa.Function, a []Value) Value { return intv(0) })

	reg("(*sync.Pool).Get", func(m *Machine, fn *ssa.Function, a []Value) Value {
		pt := m.parT(fn, 0).elem
		f := m.structField(pt, "New")
		nf := m.load(m.fieldPtr(a[0], f.off), f.t)
		cl, _ := nf.p.(*Closure)
		if cl == nil {
			return Value{}
		}
		return m.pushCall(cl, nil, func(m *Machine, res []Value) Value { return res[0] })
	})

	// sync.Map
	smap := func(m *Machine, p Value) *MapObj {
		o := p.p.(*Object)
		if mp, ok := o.cells[p.c].p.(*MapObj); ok {
			return mp
		}
		at := m.types.Of(types.NewInterfaceType(nil, nil))
		mp := m.newMap(m.types.Of(types.NewMap(at.t, at.t)))
		m.setCell(o, int(p.c), Value{p: mp})
		return mp
	}
	reg("(*sync.Map).Load", func(m *Machine, fn *ssa.Function, a []Value) Value {
		mp := smap(m, a[0])
		if i, _, _ := m.mapFind(mp, a[1]); i >= 0 {
			return Value{p: Tuple{mp.st.ents[i].v, bval(true)}}
		}
		return Value{p: Tuple{Value{}, bval(false)}}
	})
	reg("(*sync.Map).Store", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return Value{}
	})
	reg("(*sync.Map).Delete", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.mapDelete(smap(m, a[0]), a[1])
		return Value{}
	})
	reg("(*sync.Map).Swap", func(m *Machine, fn *ssa.Function, a []Value) Value {
		mp := smap(m, a[0])
		var old Value
		had := false
		if i, _, _ := m.mapFind(mp, a[1]); i >= 0 {
			old, had = mp.st.ents[i].v, true
		}
		m.mapSet(mp, a[1], a[2])
		return Value{p: Tuple{old, bval(had)}}
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, fn *ssa.Function, a []Value) Value {
		mp := smap(m, a[0])
		if i, _, _ := m.mapFind(mp, a[1]); i >= 0 {
			return Value{p: Tuple{mp.st.ents[i].v, bval(true)}}
		}
		m.mapSet(mp, a[1], a[2])
		return Value{p: Tuple{a[2], bval(false)}}
	})
	reg("(*sync.Map).LoadAndDelete", func(m *Machine, fn *ssa.Function, a []Value) Value {
		mp := smap(m, a[0])
		if i, _, _ := m.mapFind(mp, a[1]); i >= 0 {
			v := mp.st.ents[i].v
			m.mapDelete(mp, a[1])
			return Value{p: Tuple{v, bval(true)}}
		}
		return Value{p: Tuple{Value{}, bval(false)}}
	})

	// atomic.Value
	reg("(*sync/atomic.Value).Load", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return a[0].p.(*Object).cells[a[0].c]
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.setCell(a[0].p.(*Object), int(a[0].c), a[1])
		return Value{}
	})

	// byte searching
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, natIndexByte)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, natLastIndexByte)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index", "strings.Index", "internal/stringslite.Index"} {
		reg(n, natIndex)
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, natCountByte)
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		reg(n, natBytesEq)
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring"} {
		reg(n, natCompare)
	}
	// fmt's scanner classifies characters by searching them in a fixed string: one value instead of one path per character
	reg("fmt.indexRune", func(m *Machine, fn *ssa.Function, a []Value) Value {
		set, ok := m.concBytes(a[0])
		if !ok {
			if a[1].t != nil || a[1].c >= 0x80 {
				panic(unsupported{"fmt.indexRune"})
			}
			return m.findByte(m.bytesArg(a[0]), m.tt.Const(8, a[1].c))
		}
		if a[1].t == nil {
			return intv(strings.IndexRune(string(set), rune(a[1].c)))
		}
		c := m.term(a[1], 32)
		r := m.tt.Const(64, ^uint64(0))
		for i := len(set) - 1; i >= 0; i-- {
			if set[i] >= 0x80 {
				panic(unsupported{"fmt.indexRune"})
			}
			r = m.tt.Ite(m.tt.Eq(c, m.tt.Const(32, uint64(set[i]))), m.tt.Const(64, uint64(i)), r)
		}
		return fromTerm(r)
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.makeSlice(m.resT(fn, 0), a[0].sc(), a[0].sc())
	})

	// math
	for n, f := range map[string]func(float64) float64{
		"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Exp": math.Exp, "Log": math.Log,
		"Abs": math.Abs, "Sin": math.Sin, "Cos": math.Cos, "Log2": math.Log2, "Log10": math.Log10, "Round": math.Round, "RoundToEven": math.RoundToEven,
	} {
		reg("math."+n, f1(f))
	}
	reg("math.Pow", func(m *Machine, fn *ssa.Function, a []Value) Value { return fval(math.Pow(a[0].f(), a[1].f())) })
	reg("math.Mod", func(m *Machine, fn *ssa.Function, a []Value) Value { return fval(math.Mod(a[0].f(), a[1].f())) })
	reg("math.Float64bits", func(m *Machine, fn *ssa.Function, a []Value) Value { return Value{c: a[0].c} })
	reg("math.Float64frombits", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if a[0].t != nil {
			panic(unsupported{"symbolic float"})
		}
		return Value{c: a[0].c}
	})
	reg("math.Float32bits", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Value{c: uint64(math.Float32bits(float32(a[0].f())))}
	})
	reg("math.Float32frombits", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if a[0].t != nil {
			panic(unsupported{"symbolic float"})
		}
		return fval(float64(math.Float32frombits(uint32(a[0].c))))
	})
	reg("os.Getenv", func(m *Machine, fn *ssa.Function, a []Value) Value { return Value{} })
	reg("errors.init", nil)
	delete(natives, "errors.init")
}

func (m *Machine) describe(v Value, t *RType) string {
	switch t.kind {
	case KInt:
		if v.t != nil {
			return "<sym>"
		}
		if t.signed {
			return fmt.Sprint(sext(v.c, t.w))
		}
		return fmt.Sprint(v.c)
	case KString:
		if isConcStr(v) {
			return v.cstr()
		}
		return "<symstr>"
	}
	return t.String()
}

// modelFor maps functions of package winresverif/model to the library functions they stand in for.
var modelFor = map[string]string{
	"PNGEncode":  "image/png.Encode",
	"PNGDecode":  "image/png.Decode",
	"PNGEncoder": "(*image/png.Encoder).Encode",
	"Resize":     "github.com/nfnt/resize.Resize",
}
