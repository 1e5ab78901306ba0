package main

import (
	"fmt"
)

type trailEnt struct {
	obj  *Object
	idx  int
	old  Value
	undo func()
}

func (m *Machine) newObj(n int) *Object {
	m.stamp++
	m.objN++
	return &Object{stamp: m.stamp, id: m.objN, cells: make([]Value, n)}
}

func (m *Machine) setCell(o *Object, i int, v Value) {
	if o.stamp <= m.cpStamp {
		m.trail = append(m.trail, trailEnt{obj: o, idx: i, old: o.cells[i]})
	}
	o.cells[i] = v
}

func (m *Machine) setRope(o *Object, r *Rope) {
	if o.stamp <= m.cpStamp {
		old := o.rope
		oc := o.cells
		m.trail = append(m.trail, trailEnt{undo: func() { o.rope = old; o.cells = oc }})
	}
	o.rope = r
}

func (m *Machine) growCells(o *Object, n int) {
	if n <= len(o.cells) {
		return
	}
	if n > 1<<22 {
		panic(unsupported{"lazily grown array too large"})
	}
	if o.stamp <= m.cpStamp {
		oc := o.cells
		m.trail = append(m.trail, trailEnt{undo: func() { o.cells = oc }})
	}
	nc := make([]Value, n, n+n/4+8)
	copy(nc, o.cells)
	o.cells = nc
}

func (m *Machine) undoTo(mark int) {
	for i := len(m.trail) - 1; i >= mark; i-- {
		e := &m.trail[i]
		if e.undo != nil {
			e.undo()
		} else {
			e.obj.cells[e.idx] = e.old
		}
		*e = trailEnt{}
	}
	m.trail = m.trail[:mark]
}

// ---- scalar helpers (64-bit Sc)

func (m *Machine) T(s Sc, w uint8) *Term {
	if s.t != nil {
		if s.t.w != w {
			panic(fmt.Sprintf("width mismatch: have %d want %d", s.t.w, w))
		}
		return s.t
	}
	return m.tt.Const(w, s.c)
}

func (m *Machine) term(v Value, w uint8) *Term {
	if v.t != nil {
		if v.t.w != w {
			panic(fmt.Sprintf("width mismatch: have %d want %d", v.t.w, w))
		}
		return v.t
	}
	return m.tt.Const(w, v.c)
}

func fromTerm(t *Term) Value {
	if t.isConst() {
		return Value{c: t.c}
	}
	return Value{t: t}
}

func scTerm(t *Term) Sc {
	if t.isConst() {
		return Sc{c: t.c}
	}
	return Sc{t: t}
}

func (m *Machine) scAdd(a, b Sc) Sc {
	if a.t == nil && b.t == nil {
		return Sc{c: a.c + b.c}
	}
	return scTerm(m.tt.Add(m.T(a, 64), m.T(b, 64)))
}

func (m *Machine) scSub(a, b Sc) Sc {
	if a.t == nil && b.t == nil {
		return Sc{c: a.c - b.c}
	}
	return scTerm(m.tt.Sub(m.T(a, 64), m.T(b, 64)))
}

func (m *Machine) scUlt(a, b Sc) *Term {
	if a.t == nil && b.t == nil {
		return m.tt.Bool(a.c < b.c)
	}
	return m.tt.Ult(m.T(a, 64), m.T(b, 64))
}

func (m *Machine) scEq(a, b Sc) *Term {
	if a.t == nil && b.t == nil {
		return m.tt.Bool(a.c == b.c)
	}
	return m.tt.Eq(m.T(a, 64), m.T(b, 64))
}

// ---- ropes

func (m *Machine) toRope(o *Object) {
	if o.rope != nil {
		return
	}
	if o.elemW == 0 {
		panic(unsupported{"rope conversion of non-scalar array"})
	}
	vec := make([]Value, len(o.cells))
	copy(vec, o.cells)
	m.setRope(o, &Rope{kind: ropeVec, vec: vec})
}

// snapRope returns an immutable rope view of an object's contents.
func (m *Machine) snapRope(o *Object) *Rope {
	if o.rope != nil {
		return o.rope
	}
	vec := make([]Value, len(o.cells))
	copy(vec, o.cells)
	return &Rope{kind: ropeVec, vec: vec}
}

func (m *Machine) ropeRead(r *Rope, idx Sc, w uint8) Value {
	tt := m.tt
	for {
		switch r.kind {
		case ropeZero:
			return Value{}
		case ropeUF:
			return fromTerm(tt.UF(r.name, w, m.T(idx, 64)))
		case ropeVec:
			if idx.t == nil {
				if idx.c < uint64(len(r.vec)) {
					return r.vec[idx.c]
				}
				return Value{}
			}
			return m.selectVals(r.vec, idx.t, w)
		case ropePoint:
			c := m.scEq(idx, r.idx)
			if !c.isConst() {
				c = m.simplifyCond(c)
			}
			if c.isConst() {
				if c.c != 0 {
					return r.val
				}
				r = r.prev
				continue
			}
			rest := m.ropeRead(r.prev, idx, w)
			return fromTerm(tt.Ite(c, m.term(r.val, w), m.term(rest, w)))
		case ropeCopy:
			d := m.scSub(idx, r.idx)
			c := m.scUlt(d, r.n)
			if !c.isConst() {
				c = m.simplifyCond(c)
			}
			if c.isConst() {
				if c.c != 0 {
					idx = m.scAdd(d, r.soff)
					r = r.src
				} else {
					r = r.prev
				}
				continue
			}
			a := m.ropeRead(r.src, m.scAdd(d, r.soff), w)
			b := m.ropeRead(r.prev, idx, w)
			return fromTerm(tt.Ite(c, m.term(a, w), m.term(b, w)))
		}
	}
}

// simplifyCond asks the solver whether c is decided by the path condition (no forking).
func (m *Machine) simplifyCond(c *Term) *Term {
	if m.model == nil {
		return c
	}
	v := m.tt.Eval(c, m.model)
	var q *Term
	if v != 0 {
		q = m.tt.Not(c)
	} else {
		q = c
	}
	r, _ := m.solver.Check(m.pc, q, m.model)
	if r == Unsat {
		return m.tt.Bool(v != 0)
	}
	return c
}

// selectVals builds a term for vals[idx] (idx in range), compressing runs.
func (m *Machine) selectVals(vals []Value, idx *Term, w uint8) Value {
	if len(vals) == 0 {
		return Value{}
	}
	lo, hi := 0, len(vals)-1
	if idx.lo > uint64(lo) && idx.lo <= uint64(hi) {
		lo = int(idx.lo)
	}
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	tt := m.tt
	// runs
	type run struct {
		start int
		v     Value
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		v := vals[i]
		if len(runs) == 0 || runs[len(runs)-1].v.c != v.c || runs[len(runs)-1].v.t != v.t {
			runs = append(runs, run{i, v})
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return m.term(runs[a].v, w)
		}
		mid := (a + b + 1) / 2
		return tt.Ite(tt.Ult(idx, tt.Const(64, uint64(runs[mid].start))), build(a, mid-1), build(mid, b))
	}
	if len(runs) > 4096 {
		panic(unsupported{"symbolic select over too many cells"})
	}
	return fromTerm(build(0, len(runs)-1))
}

// ---- loads and stores

func (m *Machine) nilDeref() {
	panic(goPanic{m.runtimeError("invalid memory address or nil pointer dereference")})
}

func (m *Machine) load(ptr Value, t *RType) Value {
	switch o := ptr.p.(type) {
	case nil:
		m.nilDeref()
	case *Object:
		return m.loadCells(o, int(ptr.c), t)
	case *SymPtr:
		return m.loadSym(o, t)
	}
	panic(fmt.Sprintf("load through %T", ptr.p))
}

func (m *Machine) loadCells(o *Object, off int, t *RType) Value {
	if o.rope != nil {
		if t.isAgg() {
			a := make(Agg, t.cells)
			for i := range a {
				a[i] = m.ropeRead(o.rope, csc(off+i), o.elemW)
			}
			return Value{p: a}
		}
		return m.ropeRead(o.rope, csc(off), o.elemW)
	}
	if off+t.cells > len(o.cells) {
		if o.symLen == nil {
			if t.cells == 0 {
				return t.zero()
			}
			panic(unsupported{fmt.Sprintf("load outside object (%s, off %d of %d; %s)", t, off, len(o.cells), o.name)})
		}
		m.growCells(o, off+t.cells)
	}
	if t.isAgg() {
		a := make(Agg, t.cells)
		copy(a, o.cells[off:off+t.cells])
		return Value{p: a}
	}
	return o.cells[off]
}

func (m *Machine) loadSym(p *SymPtr, t *RType) Value {
	if p.n < 0 { // rope
		return m.ropeRead(p.obj.rope, Sc{t: p.idx}, p.obj.elemW)
	}
	if p.obj.rope != nil {
		return m.ropeRead(p.obj.rope, m.scAdd(Sc{t: p.idx}, csc(p.base)), p.obj.elemW)
	}
	if !t.isAgg() && (t.kind == KInt || t.kind == KBool) {
		vals := make([]Value, p.n)
		for i := range vals {
			vals[i] = p.obj.cells[p.base+i*p.stride+p.sub]
		}
		w := t.w
		if t.kind == KBool {
			w = 0
		}
		return m.selectVals(vals, p.idx, w)
	}
	if t.isAgg() && scalarAgg(t) {
		a := make(Agg, t.cells)
		ws := cellWidths(t)
		for k := range a {
			vals := make([]Value, p.n)
			for i := range vals {
				vals[i] = p.obj.cells[p.base+i*p.stride+p.sub+k]
			}
			a[k] = m.selectVals(vals, p.idx, ws[k])
		}
		return Value{p: a}
	}
	i := m.concretize(Sc{t: p.idx}, 256, "symbolic element index")
	return m.loadCells(p.obj, p.base+int(i)*p.stride+p.sub, t)
}

func scalarAgg(t *RType) bool {
	switch t.kind {
	case KInt, KBool:
		return true
	case KArray:
		return scalarAgg(t.elem)
	case KStruct:
		for _, f := range t.fields {
			if !scalarAgg(f.t) {
				return false
			}
		}
		return true
	}
	return false
}

func cellWidths(t *RType) []uint8 {
	switch t.kind {
	case KInt:
		return []uint8{t.w}
	case KArray:
		var r []uint8
		e := cellWidths(t.elem)
		for i := 0; i < t.n; i++ {
			r = append(r, e...)
		}
		return r
	case KStruct:
		var r []uint8
		for _, f := range t.fields {
			r = append(r, cellWidths(f.t)...)
		}
		return r
	}
	return []uint8{0}
}

func (m *Machine) store(ptr Value, v Value, t *RType) {
	switch o := ptr.p.(type) {
	case nil:
		m.nilDeref()
	case *Object:
		m.storeCells(o, int(ptr.c), v, t)
	case *SymPtr:
		m.storeSym(o, v, t)
	default:
		panic(fmt.Sprintf("store through %T", ptr.p))
	}
}

func (m *Machine) storeCells(o *Object, off int, v Value, t *RType) {
	if o.rope != nil {
		if t.isAgg() {
			for i, x := range v.p.(Agg) {
				m.setRope(o, &Rope{kind: ropePoint, prev: o.rope, idx: csc(off + i), val: x})
			}
			return
		}
		m.setRope(o, &Rope{kind: ropePoint, prev: o.rope, idx: csc(off), val: v})
		return
	}
	if off+t.cells > len(o.cells) {
		if o.symLen == nil {
			if t.cells == 0 {
				return
			}
			panic(unsupported{fmt.Sprintf("store outside object (%s)", t)})
		}
		m.growCells(o, off+t.cells)
	}
	if t.isAgg() {
		a, _ := v.p.(Agg)
		for i := 0; i < t.cells; i++ {
			var x Value
			if a != nil {
				x = a[i]
			}
			m.setCell(o, off+i, x)
		}
		return
	}
	m.setCell(o, off, v)
}

func (m *Machine) storeSym(p *SymPtr, v Value, t *RType) {
	if p.n < 0 {
		m.setRope(p.obj, &Rope{kind: ropePoint, prev: p.obj.rope, idx: Sc{t: p.idx}, val: v})
		return
	}
	if p.obj.rope != nil {
		m.setRope(p.obj, &Rope{kind: ropePoint, prev: p.obj.rope, idx: m.scAdd(Sc{t: p.idx}, csc(p.base)), val: v})
		return
	}
	if !t.isAgg() && (t.kind == KInt || t.kind == KBool) && p.n <= 4096 {
		w := t.w
		if t.kind == KBool {
			w = 0
		}
		for i := 0; i < p.n; i++ {
			if uint64(i) < p.idx.lo || uint64(i) > p.idx.hi {
				continue
			}
			c := m.tt.Eq(p.idx, m.tt.Const(64, uint64(i)))
			k := p.base + i*p.stride + p.sub
			m.setCell(p.obj, k, fromTerm(m.tt.Ite(c, m.term(v, w), m.term(p.obj.cells[k], w))))
		}
		return
	}
	i := m.concretize(Sc{t: p.idx}, 256, "symbolic element index")
	m.storeCells(p.obj, p.base+int(i)*p.stride+p.sub, v, t)
}

// elemPtr returns a pointer to element i of a slice (already bounds checked).
func (m *Machine) elemPtr(s *SliceV, i Sc, stride int) Value {
	k := m.scAdd(s.off, i)
	if k.t == nil {
		return Value{c: uint64(s.base + int(k.c)*stride), p: s.obj}
	}
	if s.obj.rope != nil {
		idx := m.scAdd(k, csc(s.base))
		if idx.t == nil {
			return Value{c: idx.c, p: s.obj}
		}
		return Value{p: &SymPtr{obj: s.obj, idx: idx.t, n: -1, stride: 1}}
	}
	if s.obj.symLen != nil {
		x := m.concretize(k, 64, "index into lazily grown array")
		return Value{c: uint64(s.base + int(x)*stride), p: s.obj}
	}
	n := 0
	if stride > 0 {
		n = (len(s.obj.cells) - s.base) / stride
	}
	// restrict to the slice's extent when concrete
	if s.off.t == nil && s.len.t == nil && int(s.off.c+s.len.c) < n {
		n = int(s.off.c + s.len.c)
	}
	return Value{p: &SymPtr{obj: s.obj, base: s.base, idx: k.t, stride: stride, n: n}}
}

func (m *Machine) fieldPtr(p Value, off int) Value {
	switch o := p.p.(type) {
	case nil:
		m.nilDeref()
	case *Object:
		return Value{c: p.c + uint64(off), p: o}
	case *SymPtr:
		q := *o
		q.sub += off
		return Value{p: &q}
	}
	panic(fmt.Sprintf("fieldPtr %T", p.p))
}

// sliceGet reads element i (concrete or symbolic, in range) of a 1-cell-element slice.
func (m *Machine) sliceGet(s *SliceV, i Sc, et *RType) Value {
	return m.load(m.elemPtr(s, i, et.cells), et)
}

// byteAt reads byte i from a []byte slice as a term.
func (m *Machine) byteAt(s *SliceV, i int) *Term {
	p := m.elemPtr(s, csc(i), 1)
	switch o := p.p.(type) {
	case *Object:
		if o.rope != nil {
			return m.term(m.ropeRead(o.rope, Sc{c: p.c}, 8), 8)
		}
		if int(p.c) >= len(o.cells) {
			return m.tt.Const(8, 0)
		}
		return m.term(o.cells[p.c], 8)
	case *SymPtr:
		return m.term(m.loadSym(o, m.types.byteT), 8)
	}
	panic("byteAt")
}

func (m *Machine) newByteSlice(b []byte) Value {
	o := m.newObj(len(b))
	o.elemW = 8
	for i, x := range b {
		o.cells[i] = Value{c: uint64(x)}
	}
	return Value{p: &SliceV{obj: o, len: csc(len(b)), cap: csc(len(b))}}
}

func (m *Machine) newByteSliceT(b []*Term) Value {
	o := m.newObj(len(b))
	o.elemW = 8
	for i, x := range b {
		o.cells[i] = fromTerm(x)
	}
	return Value{p: &SliceV{obj: o, len: csc(len(b)), cap: csc(len(b))}}
}

func (m *Machine) strTerms(v Value) []*Term {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]*Term, len(s))
		for i := range r {
			r[i] = m.tt.byteC[s[i]]
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strTerms %T", v.p))
}

func mkStr(b []*Term) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, t := range b {
		if !t.isConst() {
			return Value{p: &SymStr{b}}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.c)
	}
	return Value{p: string(r)}
}

// copyElems implements copy(dst, src) for n elements of stride cells; n may be symbolic.
func (m *Machine) copyElems(dst, src *SliceV, n Sc, et *RType) {
	stride := et.cells
	db, sb := dst.base, src.base
	if dst.off.t == nil {
		db += int(dst.off.c) * stride
	}
	if src.off.t == nil {
		sb += int(src.off.c) * stride
	}
	dplain := dst.off.t == nil && dst.obj.rope == nil
	splain := src.off.t == nil && src.obj.rope == nil
	if n.t == nil {
		if n.c == 0 || stride == 0 {
			return
		}
		cnt := int(n.c)
		if dplain && splain {
			if dst.obj.symLen != nil {
				m.growCells(dst.obj, db+cnt*stride)
			}
			if src.obj.symLen != nil {
				m.growCells(src.obj, sb+cnt*stride)
			}
			tmp := make([]Value, cnt*stride)
			copy(tmp, src.obj.cells[sb:sb+cnt*stride])
			if dst.obj.stamp > m.cpStamp {
				copy(dst.obj.cells[db:], tmp)
				return
			}
			for i, v := range tmp {
				m.setCell(dst.obj, db+i, v)
			}
			return
		}
		if stride == 1 && et.kind == KInt && cnt <= 1<<16 && dplain {
			tmp := make([]Value, cnt)
			for i := range tmp {
				tmp[i] = m.sliceGet(src, csc(i), et)
			}
			for i, v := range tmp {
				m.setCell(dst.obj, db+i, v)
			}
			return
		}
	}
	if stride == 1 && et.kind == KInt {
		if n.t != nil && dplain && dst.len.t == nil && dst.len.c <= 4096 && dst.obj.symLen == nil {
			// small plain destination, symbolic count: per-cell ite
			lim := int(dst.len.c)
			if n.t.hi < uint64(lim) {
				lim = int(n.t.hi)
			}
			tmp := make([]Value, lim)
			for i := range tmp {
				c := m.scUlt(csc(i), n)
				old := dst.obj.cells[db+i]
				var nv Value
				if !(splain && sb+i >= len(src.obj.cells)) {
					nv = m.sliceGet(src, csc(i), et)
				}
				tmp[i] = fromTerm(m.tt.Ite(c, m.term(nv, et.w), m.term(old, et.w)))
			}
			for i, v := range tmp {
				m.setCell(dst.obj, db+i, v)
			}
			return
		}
		sr := m.snapRope(src.obj)
		if dst.obj.elemW == 0 {
			dst.obj.elemW = et.w
		}
		m.toRope(dst.obj)
		so := m.scAdd(src.off, csc(src.base))
		do := m.scAdd(dst.off, csc(dst.base))
		m.setRope(dst.obj, &Rope{kind: ropeCopy, prev: dst.obj.rope, idx: do, n: n, src: sr, soff: so})
		return
	}
	cnt := int(m.concretize(n, 64, "copy length"))
	tmp := make([]Value, cnt)
	for i := 0; i < cnt; i++ {
		tmp[i] = m.sliceGet(src, csc(i), et)
	}
	for i := 0; i < cnt; i++ {
		m.store(m.elemPtr(dst, csc(i), stride), tmp[i], et)
	}
}
