package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	taken  bool
	forced bool
	val    uint64
}

type checkpoint struct {
	top     *Frame
	trail   int
	pcLen   int
	logLen  int
	replay  []dec
	model   *Model
	unknown bool
	snap    pathSnap
	prevCp  int64
}

// pathSnap: lengths of append-only per-path logs and counters.
type pathSnap struct {
	fresh      int
	inputs     int
	obs        int
	covers     int
	steps      int64
	mapOrder   int // 0 insertion order, 1 all orders, 2 reversed
	allocLimit uint64
}

type Input struct {
	name string
	kind string // u8 u16 ... blob
	t    *Term
	w    uint8
	uf   string
	ts   []*Term
	n    Sc
}

type Obs struct {
	label string
	w     []uint8
	ts    []*Term
	str   string
	raw   bool
}

type deferred struct {
	fn   Value
	args []Value
	// invoke/builtin
	bltn *ssa.Builtin
	bt   []*RType
}

type retMode uint8

const (
	retNormal     retMode = iota
	retDefer              // deferred call run by RunDefers
	retPanicDefer         // deferred call run while unwinding
	retHook               // onReturn
	retTop
)

type Frame struct {
	stamp     int64
	code      *Code
	regs      []Value
	pc        int
	parent    *Frame
	defers    []deferred
	mode      retMode
	onReturn  func(m *Machine, res []Value) Value
	panicking bool
	panicVal  Value
	unwinding bool
}

type Machine struct {
	prog   *ssa.Program
	types  *Universe
	tt     *Terms
	solver *Solver

	stamp   int64
	cpStamp int64
	objN    int
	trail   []trailEnt

	pc     []*Term
	model  *Model
	top    *Frame
	cps    []*checkpoint
	declog []dec
	replay []dec
	rpos   int

	iTrail, iPC, iLog int
	iTop              *Frame
	iSnap             pathSnap

	pathSnap
	inputLog []Input
	obsLog   []Obs
	coverLog []string

	globals map[*ssa.Global]*Object
	codes   map[*ssa.Function]*Code
	finfo   map[*ssa.Function]*funcInfo
	strObjs map[string]*Object

	maxSteps     int64
	totalSteps   int64
	branchUnk    int64
	orderPkgs    map[string]bool
	replacements map[string]*ssa.Function
	funcsSeen    map[*ssa.Function]bool
	finished     bool
	tracing      bool
	initPhase    bool
	natState     map[string]any
	hookPending  bool
	lastPanic    Value
	panicAt      string
	debug        bool
	clock        func() bool // polled regularly; true stops the run
	expired      func() bool // true once out of time
	asserts      int64
	assertQ      int64
	onViolation  func(m *Machine, label, msg string, md *Model)
	coverHit     func(label string)
}

// Universe: per-worker type information.
type Universe struct {
	*TypeTable
	byteT, intT, strT, boolT, errT, i32T, u16T *RType
	byteSliceT                                 *RType
	rtErrStr                                   *RType
	rtypePtr                                   *RType
	implCache                                  map[[2]*RType]bool
	msets                                      map[mkey]*ssa.Function
}

type mkey struct {
	t    *RType
	name string
}

func NewUniverse(prog *ssa.Program) *Universe {
	u := &Universe{TypeTable: NewTypeTable(prog), implCache: map[[2]*RType]bool{}, msets: map[mkey]*ssa.Function{}}
	u.byteT = u.Of(types.Typ[types.Uint8])
	u.intT = u.Of(types.Typ[types.Int])
	u.i32T = u.Of(types.Typ[types.Int32])
	u.u16T = u.Of(types.Typ[types.Uint16])
	u.strT = u.Of(types.Typ[types.String])
	u.boolT = u.Of(types.Typ[types.Bool])
	u.byteSliceT = u.Of(types.NewSlice(types.Typ[types.Uint8]))
	u.errT = u.Of(types.Universe.Lookup("error").Type())
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		u.rtErrStr = u.Of(rt.Type("errorString").Type())
	}
	if rf := prog.ImportedPackage("reflect"); rf != nil {
		u.rtypePtr = u.Of(types.NewPointer(rf.Type("rtype").Type()))
	}
	return u
}

func (m *Machine) runtimeError(msg string) Value {
	if m.types.rtErrStr == nil {
		return Value{p: &Iface{m.types.strT, strv(msg)}}
	}
	return Value{p: &Iface{m.types.rtErrStr, strv(msg)}}
}

// ---------- compiled code

type opcode uint8

type operand struct {
	reg int // -1: constant
	val Value
}

type Ins struct {
	in   ssa.Instruction
	dst  int
	a, b operand
	c, d operand
	args []operand
	t    *RType
	t2   *RType
	n    int
	n2   int
	tgt  [2]int // block start pcs
	call *callInfo
	phis [2][]phiMove
}

type phiMove struct {
	dst int
	src operand
}

type callInfo struct {
	common *ssa.CallCommon
	static *ssa.Function
	bltn   *ssa.Builtin
	method string
	mpkg   *types.Package
	atypes []*RType
	rt     *RType
}

type Code struct {
	fn      *ssa.Function
	ins     []Ins
	nregs   int
	start   []int // block -> pc
	nparams int
	nfree   int
	recover int
	inTgt   bool
}

type funcInfo struct {
	nat  native
	repl *ssa.Function
	body bool
	name string
}

type native func(m *Machine, fn *ssa.Function, args []Value) Value

func (m *Machine) constVal(c *ssa.Const) Value {
	t := m.types.Of(c.Type())
	if c.Value == nil {
		return t.zero()
	}
	switch t.kind {
	case KBool:
		return bval(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return ival(t.w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return ival(t.w, u)
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		if t.w == 32 {
			f = float64(float32(f))
		}
		return fval(f)
	case KString:
		if c.Value.Kind() == constant.String {
			return strv(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return strv(string(rune(i)))
	case KComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Value{p: complex(re, im)}
	case KUnsafe, KPtr:
		return Value{}
	}
	panic(fmt.Sprintf("const of type %s", t))
}

func (m *Machine) global(g *ssa.Global) *Object {
	o := m.globals[g]
	if o == nil {
		et := m.types.Of(g.Type().(*types.Pointer).Elem())
		o = m.newObj(et.cells)
		o.stamp = 0
		o.name = g.String()
		if et.kind == KArray && et.elem.kind == KInt {
			o.elemW = et.elem.w
		}
		m.globals[g] = o
	}
	return o
}

func (m *Machine) code(fn *ssa.Function) *Code {
	if c, ok := m.codes[fn]; ok {
		return c
	}
	c := m.compile(fn)
	m.codes[fn] = c
	return c
}

func (m *Machine) compile(fn *ssa.Function) *Code {
	c := &Code{fn: fn, recover: -1}
	regs := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		if r, ok := regs[v]; ok {
			return r
		}
		r := c.nregs
		c.nregs++
		regs[v] = r
		return r
	}
	for _, p := range fn.Params {
		alloc(p)
	}
	c.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		alloc(p)
	}
	c.nfree = len(fn.FreeVars)
	if fn.Pkg != nil {
		c.inTgt = m.orderPkgs[fn.Pkg.Pkg.Path()]
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		c.inTgt = m.orderPkgs[fn.Parent().Pkg.Pkg.Path()]
	}
	opd := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{reg: -1}
		case *ssa.Const:
			return operand{reg: -1, val: m.constVal(v)}
		case *ssa.Global:
			return operand{reg: -1, val: Value{p: m.global(v)}}
		case *ssa.Function:
			return operand{reg: -1, val: Value{p: &Closure{fn: v}}}
		case *ssa.Builtin:
			return operand{reg: -1, val: Value{p: &Closure{bltn: v}}}
		}
		return operand{reg: alloc(v)}
	}
	// layout
	pc := 0
	c.start = make([]int, len(fn.Blocks))
	for _, b := range fn.Blocks {
		c.start[b.Index] = pc
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			pc++
		}
	}
	if fn.Recover != nil {
		c.recover = c.start[fn.Recover.Index]
	}
	phisFor := func(from, to *ssa.BasicBlock, nth int) []phiMove {
		// nth occurrence of from among to's preds matching this successor edge
		pi := -1
		cnt := 0
		for i, p := range to.Preds {
			if p == from {
				if cnt == nth {
					pi = i
					break
				}
				cnt++
			}
		}
		var mv []phiMove
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				break
			}
			mv = append(mv, phiMove{alloc(ph), opd(ph.Edges[pi])})
		}
		return mv
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			x := Ins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); isPhi {
					alloc(v)
					continue
				}
				x.dst = alloc(v)
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				x.t = m.types.Of(in.Type().(*types.Pointer).Elem())
			case *ssa.BinOp:
				x.a, x.b = opd(in.X), opd(in.Y)
				x.t = m.types.Of(in.X.Type())
				x.t2 = m.types.Of(in.Y.Type())
			case *ssa.Call:
				x.call = m.callInfo(&in.Call)
				x.call.rt = m.types.Of(in.Type())
				m.callOperands(&x, &in.Call, opd)
			case *ssa.Go:
				x.call = m.callInfo(&in.Call)
				m.callOperands(&x, &in.Call, opd)
			case *ssa.Defer:
				x.call = m.callInfo(&in.Call)
				m.callOperands(&x, &in.Call, opd)
			case *ssa.ChangeInterface:
				x.a = opd(in.X)
			case *ssa.ChangeType:
				x.a = opd(in.X)
			case *ssa.Convert:
				x.a = opd(in.X)
				x.t = m.types.Of(in.X.Type())
				x.t2 = m.types.Of(in.Type())
			case *ssa.MultiConvert:
				x.a = opd(in.X)
				x.t = m.types.Of(in.X.Type())
				x.t2 = m.types.Of(in.Type())
			case *ssa.Extract:
				x.a = opd(in.Tuple)
				x.n = in.Index
			case *ssa.Field:
				x.a = opd(in.X)
				st := m.types.Of(in.X.Type())
				f := st.fields[in.Field]
				x.n, x.t = f.off, f.t
			case *ssa.FieldAddr:
				x.a = opd(in.X)
				st := m.types.Of(in.X.Type().Underlying().(*types.Pointer).Elem())
				x.n = st.fields[in.Field].off
			case *ssa.If:
				x.a = opd(in.Cond)
				x.tgt[0], x.tgt[1] = c.start[b.Succs[0].Index], c.start[b.Succs[1].Index]
				x.phis[0] = phisFor(b, b.Succs[0], 0)
				n := 0
				if b.Succs[0] == b.Succs[1] {
					n = 1
				}
				x.phis[1] = phisFor(b, b.Succs[1], n)
			case *ssa.Index:
				x.a, x.b = opd(in.X), opd(in.Index)
				x.t = m.types.Of(in.X.Type())
				x.t2 = m.types.Of(in.Index.Type())
			case *ssa.IndexAddr:
				x.a, x.b = opd(in.X), opd(in.Index)
				x.t = m.types.Of(in.X.Type())
				x.t2 = m.types.Of(in.Index.Type())
			case *ssa.Jump:
				x.tgt[0] = c.start[b.Succs[0].Index]
				x.phis[0] = phisFor(b, b.Succs[0], 0)
			case *ssa.Lookup:
				x.a, x.b = opd(in.X), opd(in.Index)
				x.t = m.types.Of(in.X.Type())
				x.t2 = m.types.Of(in.Index.Type())
				if in.CommaOk {
					x.n = 1
				}
			case *ssa.MakeChan:
				x.t = m.types.Of(in.Type())
			case *ssa.MakeClosure:
				x.a = opd(in.Fn)
				for _, v := range in.Bindings {
					x.args = append(x.args, opd(v))
				}
			case *ssa.MakeInterface:
				x.a = opd(in.X)
				x.t = m.types.Of(in.X.Type())
			case *ssa.MakeMap:
				x.t = m.types.Of(in.Type())
			case *ssa.MakeSlice:
				x.a, x.b = opd(in.Len), opd(in.Cap)
				x.t = m.types.Of(in.Type())
				x.n = int(m.types.Of(in.Len.Type()).w)
				x.n2 = int(m.types.Of(in.Cap.Type()).w)
				x.t2 = m.types.Of(in.Len.Type())
			case *ssa.MapUpdate:
				x.a, x.b, x.c = opd(in.Map), opd(in.Key), opd(in.Value)
				x.t = m.types.Of(in.Map.Type())
			case *ssa.Next:
				x.a = opd(in.Iter)
				if in.IsString {
					x.n = 1
				}
				tup := in.Type().(*types.Tuple)
				if tup.At(1).Type() != nil {
					x.t = m.types.Of(tup.At(1).Type())
				}
				if tup.At(2).Type() != nil {
					x.t2 = m.types.Of(tup.At(2).Type())
				}
			case *ssa.Panic:
				x.a = opd(in.X)
			case *ssa.Range:
				x.a = opd(in.X)
				x.t = m.types.Of(in.X.Type())
			case *ssa.Return:
				for _, v := range in.Results {
					x.args = append(x.args, opd(v))
				}
			case *ssa.RunDefers:
			case *ssa.Select:
			case *ssa.Send:
			case *ssa.Slice:
				x.a, x.b, x.c, x.d = opd(in.X), opd(in.Low), opd(in.High), opd(in.Max)
				x.t = m.types.Of(in.X.Type())
			case *ssa.SliceToArrayPointer:
				x.a = opd(in.X)
				x.t2 = m.types.Of(in.Type())
			case *ssa.Store:
				x.a, x.b = opd(in.Addr), opd(in.Val)
				x.t = m.types.Of(in.Val.Type())
			case *ssa.TypeAssert:
				x.a = opd(in.X)
				x.t = m.types.Of(in.AssertedType)
				if in.CommaOk {
					x.n = 1
				}
			case *ssa.UnOp:
				x.a = opd(in.X)
				x.t = m.types.Of(in.Type())
				if in.Op == token.MUL {
					x.t = m.types.Of(in.X.Type().Underlying().(*types.Pointer).Elem())
				}
			default:
				panic(unsupported{fmt.Sprintf("instruction %T", in)})
			}
			c.ins = append(c.ins, x)
		}
	}
	return c
}

func (m *Machine) callInfo(cc *ssa.CallCommon) *callInfo {
	ci := &callInfo{common: cc}
	if cc.IsInvoke() {
		ci.method = cc.Method.Name()
		ci.mpkg = cc.Method.Pkg()
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Function:
			ci.static = f
		case *ssa.Builtin:
			ci.bltn = f
		}
	}
	for _, a := range cc.Args {
		ci.atypes = append(ci.atypes, m.types.Of(a.Type()))
	}
	return ci
}

func (m *Machine) callOperands(x *Ins, cc *ssa.CallCommon, opd func(ssa.Value) operand) {
	if cc.IsInvoke() || x.call.static == nil && x.call.bltn == nil {
		x.a = opd(cc.Value)
	}
	for _, a := range cc.Args {
		x.args = append(x.args, opd(a))
	}
}

// ---------- decisions

func (m *Machine) addPC(t *Term) {
	if t.isConst() {
		if t.c == 0 {
			panic(pathEnd{"false path condition"})
		}
		return
	}
	if t.op == OpAnd {
		m.addPC(t.args[0])
		m.addPC(t.args[1])
		return
	}
	m.pc = append(m.pc, t)
}

func (m *Machine) decide(c *Term) bool { return m.decideV(c, 0) }

func (m *Machine) decideV(c *Term, val uint64) bool {
	if c.isConst() {
		return c.c != 0
	}
	if m.initPhase {
		panic(unsupported{"symbolic decision during initialisation"})
	}
	if m.rpos < len(m.replay) {
		d := m.replay[m.rpos]
		m.rpos++
		if m.rpos == len(m.replay) {
			m.replay, m.rpos = nil, 0
		}
		m.declog = append(m.declog, d)
		if !d.forced {
			if d.taken {
				m.addPC(c)
			} else {
				m.addPC(m.tt.Not(c))
			}
		}
		return d.taken
	}
	v := m.tt.Eval(c, m.model) != 0
	other := c
	if v {
		other = m.tt.Not(c)
	}
	r, md := m.solver.Check(m.pc, other, m.model)
	switch r {
	case Unsat:
		m.declog = append(m.declog, dec{taken: v, forced: true, val: val})
		return v
	case Unknown:
		m.branchUnk++
	}
	if r == Sat {
		cp := &checkpoint{top: m.iTop, trail: m.iTrail, pcLen: m.iPC, logLen: m.iLog, model: md, snap: m.iSnap, prevCp: m.cpStamp}
		cp.replay = append(cp.replay, m.declog[m.iLog:]...)
		cp.replay = append(cp.replay, dec{taken: !v, val: val})
		m.cps = append(m.cps, cp)
		m.stamp++
		m.cpStamp = m.stamp
	}
	m.declog = append(m.declog, dec{taken: v, val: val})
	if v {
		m.addPC(c)
	} else {
		m.addPC(m.tt.Not(c))
	}
	return v
}

// peekVal returns the value to try next in concretize: from replay or the model.
func (m *Machine) concretize(s Sc, limit int, why string) uint64 {
	if s.t == nil {
		return s.c
	}
	return m.concretizeT(s.t, limit, why)
}

func (m *Machine) concretizeT(t *Term, limit int, why string) uint64 {
	if t.isConst() {
		return t.c
	}
	for i := 0; ; i++ {
		var v uint64
		if m.rpos < len(m.replay) {
			v = m.replay[m.rpos].val
		} else {
			if i >= limit {
				panic(unsupported{"too many values for " + why})
			}
			v = m.tt.Eval(t, m.model)
		}
		if m.decideV(m.tt.Eq(t, m.tt.Const(t.w, v)), v) {
			return v
		}
	}
}

func (m *Machine) assume(c *Term) {
	if c.isConst() {
		if c.c == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if m.rpos < len(m.replay) {
		// model given with the replay satisfies everything decided later
		m.addPC(c)
		return
	}
	if m.tt.Eval(c, m.model) == 0 {
		r, md := m.solver.Check(m.pc, c, m.model)
		if r == Unsat {
			panic(pathEnd{"assume"})
		}
		if r == Unknown {
			m.branchUnk++
			panic(pathEnd{"assume-unknown"})
		}
		m.model = md
	}
	m.addPC(c)
}

func (m *Machine) fresh(w uint8, name string) *Term {
	m.pathSnap.fresh++
	return m.tt.Var(w, fmt.Sprintf("%s#%d", name, m.pathSnap.fresh))
}

// ---------- frames

func (m *Machine) wtop() *Frame {
	f := m.top
	if f.stamp <= m.cpStamp {
		f = m.cloneFrame(f)
		m.top = f
	}
	return f
}

func (m *Machine) cloneFrame(f *Frame) *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	m.stamp++
	n.stamp = m.stamp
	return &n
}

// wparent returns a writable parent of the (writable) top frame.
func (m *Machine) wparent() *Frame {
	t := m.wtop()
	p := t.parent
	if p.stamp <= m.cpStamp {
		p = m.cloneFrame(p)
		t.parent = p
	}
	return p
}

func (m *Machine) get(o *operand) Value {
	if o.reg >= 0 {
		return m.top.regs[o.reg]
	}
	return o.val
}

func (m *Machine) setReg(dst int, v Value) {
	f := m.wtop()
	if dst >= 0 {
		f.regs[dst] = v
	}
	f.pc++
}

func (m *Machine) pushFrame(fn *ssa.Function, args []Value, free []Value, mode retMode, hook func(m *Machine, res []Value) Value) {
	c := m.code(fn)
	if len(c.ins) == 0 {
		panic(unsupported{"no body: " + fn.String()})
	}
	m.funcsSeen[fn] = true
	m.stamp++
	f := &Frame{stamp: m.stamp, code: c, regs: make([]Value, c.nregs), parent: m.top, mode: mode, onReturn: hook}
	if len(args) != c.nparams {
		panic(fmt.Sprintf("call of %s with %d args, want %d", fn, len(args), c.nparams))
	}
	copy(f.regs, args)
	copy(f.regs[c.nparams:], free)
	m.top = f
	d := 0
	for p := f; p != nil; p = p.parent {
		d++
		if d > 2000 {
			panic(unsupported{"call depth"})
		}
	}
}

func (m *Machine) info(fn *ssa.Function) *funcInfo {
	fi := m.finfo[fn]
	if fi == nil {
		fi = m.resolve(fn)
		m.finfo[fn] = fi
	}
	return fi
}

// call starts a call. Natives complete immediately (result stored, pc advanced) unless they
// pushed a frame of their own; Go functions push a frame.
func (m *Machine) call(fn *ssa.Function, args []Value, free []Value, dst int) {
	fi := m.info(fn)
	if fi.nat != nil {
		v := fi.nat(m, fn, args)
		if m.hookPending {
			m.hookPending = false
			return
		}
		m.setReg(dst, v)
		return
	}
	if fi.repl != nil {
		fn = fi.repl
	}
	m.pushFrame(fn, args, free, retNormal, nil)
}

func (m *Machine) findMethod(t *RType, pkg *types.Package, name string) *ssa.Function {
	k := mkey{t, name}
	if pkg != nil && !token.IsExported(name) {
		k.name = pkg.Path() + "." + name
	}
	if f, ok := m.types.msets[k]; ok {
		return f
	}
	f := m.prog.LookupMethod(t.t, pkg, name)
	m.types.msets[k] = f
	return f
}

func (m *Machine) implements(t, it *RType) bool {
	k := [2]*RType{t, it}
	if v, ok := m.types.implCache[k]; ok {
		return v
	}
	v := types.Implements(t.t, it.u.(*types.Interface))
	m.types.implCache[k] = v
	return v
}

// ---------- main loop

func (m *Machine) startPath(fn *ssa.Function) {
	m.top = nil
	m.pushFrame(fn, nil, nil, retTop, nil)
	m.finished = false
}

type pathResult struct {
	kind string // done, end, unsupported, panic, budget
	msg  string
	val  Value
}

// run executes until the path ends.
func (m *Machine) run() (res pathResult) {
	for {
		r, again := m.runInner()
		if !again {
			return r
		}
	}
}

func (m *Machine) runInner() (res pathResult, again bool) {
	m.solver.expired = m.expired
	defer func() {
		r := recover()
		m.solver.expired = nil
		if r != nil {
			switch r := r.(type) {
			case stopRun:
				res = pathResult{kind: "stopped", msg: m.where()}
			case goPanic:
				m.hookPending = false
				m.panicAt = m.panicSite()
				res, again = m.raiseSafe(r.val)
			case unsupported:
				res = pathResult{kind: "unsupported", msg: r.msg + " @ " + m.where()}
			case pathEnd:
				res = pathResult{kind: "end", msg: r.why}
			case skipPath:
				res = pathResult{kind: "skip", msg: r.why}
			case violation:
				res = pathResult{kind: "violation", msg: r.msg}
			case uncaught:
				res = pathResult{kind: "panic", msg: m.panicString(r.v), val: r.v}
			default:
				if m.debug {
					fmt.Println("INTERNAL", r, m.stack())
					panic(r)
				}
				res = pathResult{kind: "unsupported", msg: fmt.Sprintf("internal: %v @ %s", r, m.where())}
			}
		}
	}()
	for !m.finished {
		f := m.top
		m.iTop = f
		m.iTrail = len(m.trail)
		m.iPC = len(m.pc)
		m.iLog = len(m.declog)
		m.iSnap = m.pathSnap
		m.pathSnap.steps++
		if m.pathSnap.steps > m.maxSteps {
			return pathResult{kind: "budget", msg: "instruction budget @ " + m.where()}, false
		}
		m.totalSteps++
		if (m.totalSteps&1023 == 0 || m.solver.slow) && m.clock != nil && m.clock() {
			return pathResult{kind: "stopped", msg: m.where()}, false
		}
		m.exec(&f.code.ins[f.pc])
	}
	return pathResult{kind: "done"}, false
}

// raiseSafe unwinds; natives run as deferred calls may themselves fail.
func (m *Machine) raiseSafe(v Value) (res pathResult, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res = pathResult{kind: "unsupported", msg: r.msg + " @ " + m.where()}
			default:
				res = pathResult{kind: "unsupported", msg: fmt.Sprintf("internal while unwinding: %v", r)}
			}
			again = false
		}
	}()
	if m.raise(v) {
		return pathResult{}, true
	}
	return pathResult{kind: "panic", msg: m.panicString(m.lastPanic), val: m.lastPanic}, false
}

// panicSite names the innermost function of the code under verification on the stack.
func (m *Machine) panicSite() string {
	for f := m.top; f != nil; f = f.parent {
		if f.code.inTgt {
			return f.code.fn.String()
		}
	}
	if m.top != nil {
		return m.top.code.fn.String()
	}
	return ""
}

// raise starts panicking in the current frame; false if nobody recovers.
func (m *Machine) raise(v Value) bool {
	f := m.wtop()
	f.panicking = true
	f.panicVal = v
	return m.unwind()
}

func (m *Machine) unwind() bool {
	for {
		f := m.wtop()
		if f.panicking || f.unwinding {
			f.unwinding = true
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[: n-1 : n-1]
				if m.runDeferred(d, retPanicDefer) {
					return true // frame pushed; continue when it returns
				}
				continue // native ran immediately
			}
			if !f.panicking {
				// recovered: return through the recover block
				f.unwinding = false
				if f.code.recover >= 0 {
					f.pc = f.code.recover
					return true
				}
				m.doReturn(m.zeroResults(f.code.fn))
				return true
			}
			v := f.panicVal
			if f.parent == nil {
				m.lastPanic = v
				return false
			}
			p := m.wparent()
			m.top = p
			p.panicking = true
			p.panicVal = v
			continue
		}
		return true
	}
}

func (m *Machine) zeroResults(fn *ssa.Function) []Value {
	res := fn.Signature.Results()
	out := make([]Value, res.Len())
	for i := range out {
		out[i] = m.types.Of(res.At(i).Type()).zero()
	}
	return out
}

// runDeferred runs a deferred call; true if a frame was pushed.
func (m *Machine) runDeferred(d deferred, mode retMode) bool {
	if d.bltn != nil {
		m.builtin(d.bltn, d.args, d.bt, nil)
		return false
	}
	cl, _ := d.fn.p.(*Closure)
	if cl == nil {
		m.nilDeref()
	}
	if cl.nat != nil {
		cl.nat(m, d.args)
		return false
	}
	fi := m.info(cl.fn)
	if fi.nat != nil {
		fi.nat(m, cl.fn, d.args)
		if m.hookPending {
			panic(unsupported{"deferred native with callback"})
		}
		return false
	}
	fn := cl.fn
	if fi.repl != nil {
		fn = fi.repl
	}
	m.pushFrame(fn, d.args, cl.free, mode, nil)
	return true
}

func (m *Machine) doReturn(res []Value) {
	f := m.top
	switch f.mode {
	case retTop:
		m.finished = true
		return
	case retDefer:
		m.wparent()
		m.top = m.top.parent
		// RunDefers re-executes
		return
	case retPanicDefer:
		m.wparent()
		m.top = m.top.parent
		if !m.unwind() {
			panic(uncaught{m.lastPanic})
		}
		return
	case retHook:
		h := f.onReturn
		m.wparent()
		m.top = m.top.parent
		v := h(m, res)
		if m.hookPending {
			m.hookPending = false
			return
		}
		p := m.top
		m.setReg(p.code.ins[p.pc].dst, v)
		return
	}
	m.wparent()
	p := m.top.parent
	m.top = p
	dst := p.code.ins[p.pc].dst
	var v Value
	switch len(res) {
	case 0:
	case 1:
		v = res[0]
	default:
		v = Value{p: Tuple(append([]Value(nil), res...))}
	}
	m.setReg(dst, v)
}

// stopRun ends a run in the middle of an instruction: out of time.
type stopRun struct{}

type uncaught struct{ v Value }
type violation struct{ msg string }

func (m *Machine) where() string {
	var out []string
	n := 0
	for f := m.top; f != nil && n < 8; f = f.parent {
		if f.pc < len(f.code.ins) {
			pos := m.prog.Fset.Position(f.code.ins[f.pc].in.Pos())
			nm := pos.Filename
			if i := strings.LastIndex(nm, "/"); i >= 0 {
				nm = nm[i+1:]
			}
			out = append(out, fmt.Sprintf("%s(%s:%d)", f.code.fn.Name(), nm, pos.Line))
		}
		n++
	}
	return strings.Join(out, " < ")
}

func (m *Machine) stack() string {
	var sb strings.Builder
	for f := m.top; f != nil; f = f.parent {
		if f.pc < len(f.code.ins) {
			in := f.code.ins[f.pc].in
			fmt.Fprintf(&sb, "  %s: %s [%T] %s\n", f.code.fn, m.prog.Fset.Position(in.Pos()), in, in)
		}
	}
	return sb.String()
}

func (m *Machine) panicString(v Value) string {
	i, _ := v.p.(*Iface)
	if i == nil {
		return "nil"
	}
	switch i.t.kind {
	case KString:
		if isConcStr(i.v) {
			s := i.v.cstr()
			if i.t == m.types.rtErrStr {
				return "runtime error: " + s
			}
			return s
		}
		return "symbolic string"
	case KPtr, KStruct:
		// errors.errorString and friends
		if o, ok := i.v.p.(*Object); ok && len(o.cells) > 0 {
			if s, ok := o.cells[i.v.c].p.(string); ok {
				return i.t.String() + ": " + s
			}
		}
	}
	return i.t.String()
}
