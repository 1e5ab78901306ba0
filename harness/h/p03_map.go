package h

import (
	"bytes"

	"github.com/tc-hib/winres"
	"winresverif/sym"
)

// table is the plain model of a resource set: a list of resources with distinct keys.
type table []item

func (t table) find(k item) int {
	for i := range t {
		if t[i].sameKey(k) {
			return i
		}
	}
	return -1
}

func (t *table) set(k item) {
	if i := t.find(k); i >= 0 {
		(*t)[i].data = k.data
		return
	}
	*t = append(*t, k)
}

func (t *table) delete(k item) {
	if i := t.find(k); i >= 0 {
		*t = append(append(table{}, (*t)[:i]...), (*t)[i+1:]...)
	}
}

// agree asserts that everything the set shows is what the model says, in canonical order.
func (t table) agree(rs *winres.ResourceSet) {
	sym.Assert(rs.Count() == len(t), "the count is that of a map")
	got := walkItems(rs)
	sym.Assert(len(got) == len(t), "a walk shows as many resources as a map holds")
	for i, g := range got {
		j := t.find(g)
		sym.Assert(j >= 0, "a walk only shows what was set")
		sym.Assert(sym.EqBytes(g.data, t[j].data), "a walk shows the last data set")
		if i > 0 {
			sym.Assert(itemLess(got[i-1], g), "a walk goes in strictly ascending order, names first")
		}
	}
}

// agreeKey asserts that lookups under a key are those of the model.
func (t table) agreeKey(rs *winres.ResourceSet, k item) {
	d := rs.Get(k.typ, k.res, k.lang)
	if i := t.find(k); i >= 0 {
		sym.Assert(d != nil && sym.EqBytes(d, t[i].data), "a lookup returns the last data set")
	} else {
		sym.Assert(d == nil, "a lookup of something absent returns nothing")
	}
	var prev *item
	n := 0
	rs.WalkType(k.typ, func(res winres.Identifier, lang uint16, data []byte) bool {
		g := item{k.typ, res, lang, data}
		j := t.find(g)
		sym.Assert(j >= 0 && sym.EqBytes(data, t[j].data), "walking a type shows what was set")
		if prev != nil {
			sym.Assert(itemLess(*prev, g), "walking a type goes in strictly ascending order")
		}
		prev = &g
		n++
		return true
	})
	want := 0
	for _, x := range t {
		if sameIdent(x.typ, k.typ) {
			want++
		}
	}
	sym.Assert(n == want, "walking a type shows every resource of that type")
}

// step performs one operation on both.
func step(rs *winres.ResourceSet, t *table, i int, key item, ops int) {
	switch sym.Choice(num("op", i), ops) {
	case 0:
		key.data = []byte{sym.U8(num("data", i))}
		sym.Assert(rs.Set(key.typ, key.res, key.lang, key.data) == nil, "valid identifiers are accepted")
		t.set(key)
	case 1:
		sym.Assert(rs.Set(key.typ, key.res, key.lang, nil) == nil, "deleting is accepted")
		t.delete(key)
	case 2:
		t.agree(rs)
	case 3:
		t.agreeKey(rs, key)
	case 4:
		key.data = []byte{}
		sym.Assert(rs.Set(key.typ, key.res, key.lang, key.data) == nil, "empty data is accepted")
		t.set(key)
	}
}

// P03_History: operations under arbitrary numeric keys.
func P03_History() {
	rs, t := &winres.ResourceSet{}, table{}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var last item
	for i := 0; i < n; i++ {
		last = item{typ: anyID(num("type", i)), res: anyID(num("res", i)), lang: sym.U16(num("lang", i))}
		step(rs, &t, i, last, 5)
	}
	t.agree(rs)
	t.agreeKey(rs, last)
	sym.ObserveInt("count", rs.Count())
	sym.Cover("done")
}

// P03_Long: longer histories where each key is one of eight (two types, two names, two languages),
// the types and names being a number and a letter.
func P03_Long() {
	rs, t := &winres.ResourceSet{}, table{}
	typs := []winres.Identifier{anyID("id"), winres.Name(asciiName("name", 1))}
	var key item
	// something to begin with, already walked or not
	for i := 0; i < 2; i++ {
		key = item{typ: typs[0], res: typs[1], lang: uint16(i), data: []byte{byte(i)}}
		rs.Set(key.typ, key.res, key.lang, key.data)
		t.set(key)
	}
	n, ops := 3, 4
	if sym.Thorough() {
		n = 4
	}
	if sym.Choice("walked", 2) == 1 {
		t.agree(rs)
	}
	for i := 0; i < n; i++ {
		c := sym.Choice(num("key", i), 8)
		key = item{typ: typs[c&1], res: typs[c>>1&1], lang: uint16(c >> 2)}
		step(rs, &t, i, key, ops)
	}
	t.agree(rs)
	for c := 0; c < 8; c++ {
		t.agreeKey(rs, item{typ: typs[c&1], res: typs[c>>1&1], lang: uint16(c >> 2)})
	}
	sym.Cover("done")
}

// P03_Refused: which identifiers are accepted, and that a refused call changes nothing.
func P03_Refused() {
	rs, t := &winres.ResourceSet{}, table{}
	a := item{typ: winres.ID(3), res: winres.Name("A"), lang: sym.U16("lang"), data: []byte{1}}
	rs.Set(a.typ, a.res, a.lang, a.data)
	t.set(a)
	ident := func(tag string) (winres.Identifier, bool) {
		if sym.Choice(tag+".kind", 2) == 0 {
			id := sym.U16(tag)
			return winres.ID(id), id != 0
		}
		s := sym.Str(tag, sym.Choice(tag+".len", 4))
		ok := len(s) > 0
		for i := 0; i < len(s); i++ {
			ok = sym.And(ok, s[i] != 0)
			sym.Assume(s[i] < 0x80)
		}
		return winres.Name(s), ok
	}
	k := item{lang: sym.U16("lang2"), data: []byte{2}}
	var ok1, ok2 bool
	k.typ, ok1 = ident("type")
	k.res, ok2 = ident("res")
	del := sym.Choice("delete", 2) == 1
	if del {
		k.data = nil
	}
	err := rs.Set(k.typ, k.res, k.lang, k.data)
	sym.Assert(sym.Iff(err == nil, sym.And(ok1, ok2)), "exactly the valid identifiers are accepted")
	if err == nil {
		if del {
			t.delete(k)
		} else {
			t.set(k)
		}
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
	t.agree(rs)
	t.agreeKey(rs, a)
	sym.ObserveErr("err", err)
}

// P03_Stop: a callback that returns false is not called again.
func P03_Stop() {
	rs := &winres.ResourceSet{}
	typ := anyID("type")
	for i := 0; i < 4; i++ {
		rs.Set([]winres.Identifier{typ, winres.Name("T")}[i/3], winres.ID(1+i/2), uint16(i), []byte{byte(i)})
	}
	at := sym.Choice("stop", 6)
	n := 0
	rs.Walk(func(winres.Identifier, winres.Identifier, uint16, []byte) bool { n++; return n <= at })
	sym.Assert(n == min(at+1, 4), "a walk stops at once")
	n = 0
	rs.WalkType(typ, func(winres.Identifier, uint16, []byte) bool { n++; return n <= at })
	sym.Assert(n == min(at+1, 3), "walking a type stops at once")
	sym.Cover("stopped")
}

// ---- P04

// P04_Order: the same resources added in two orders, with something added and removed meanwhile.
func P04_Order() {
	n := 3
	its := make([]item, n)
	mix := 0
	if !sym.Thorough() {
		mix = sym.Choice("mix", 4)
	}
	kind := func(tag string, bit int) winres.Identifier {
		switch {
		case sym.Thorough():
			return smallIdent(tag)
		case []int{0, 0b010010, 0b101000, 0b001111}[mix]>>bit&1 == 1:
			return winres.Name(asciiName(tag, 1))
		}
		return anyID(tag)
	}
	for i := range its {
		its[i] = item{typ: kind(num("type", i), 2*i), res: kind(num("res", i), 2*i+1), lang: sym.U16(num("lang", i)), data: []byte{sym.U8(num("data", i))}}
		for j := 0; j < i; j++ {
			sym.Assume(!its[i].sameKey(its[j]))
		}
	}
	a, b := &winres.ResourceSet{}, &winres.ResourceSet{}
	for _, x := range its {
		a.Set(x.typ, x.res, x.lang, x.data)
	}
	var buf1, buf2 bytes.Buffer
	sym.Assert(a.WriteObject(&buf1, winres.ArchAMD64) == nil, "writing to memory succeeds")
	p := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}[sym.Choice("order", 3)]
	when := sym.Choice("extra", 3)
	x := item{typ: its[0].typ, res: its[1].res, lang: its[2].lang}
	extra := true
	for _, y := range its {
		extra = sym.And(extra, !y.sameKey(x))
	}
	for i, j := range p {
		y := its[j]
		sym.Assert(b.Set(y.typ, y.res, y.lang, []byte{0}) == nil, "valid identifiers are accepted")
		if i == when && extra {
			b.Set(x.typ, x.res, x.lang, []byte{9})
			b.Count()
			walkItems(b)
		}
	}
	if extra {
		b.Set(x.typ, x.res, x.lang, nil)
	}
	for _, y := range its {
		b.Set(y.typ, y.res, y.lang, y.data)
	}
	sym.Assert(b.WriteObject(&buf2, winres.ArchAMD64) == nil, "writing to memory succeeds")
	sym.Assert(sym.EqBytes(buf1.Bytes(), buf2.Bytes()), "the same content gives the same file")
	sym.ObserveBytes("object", buf2.Bytes())
	sym.Cover("same")
}

// P04_MapOrder: every order in which Go may iterate the maps.
func P04_MapOrder() {
	rs := &winres.ResourceSet{}
	name, id := winres.Name(asciiName("name", 1)), anyID("id")
	other := anyID("other")
	sym.Assume(other != id)
	l := sym.U16("lang")
	sym.Assume(l != 5)
	var want table
	add := func(t, r winres.Identifier, l uint16) {
		it := item{t, r, l, []byte{byte(len(want) + 1)}}
		rs.Set(t, r, l, it.data)
		want.set(it)
	}
	switch sym.Choice("tree", 5) {
	case 0:
		add(id, id, l)
		add(name, id, l)
	case 1:
		add(id, id, l)
		add(id, name, l)
	case 2:
		add(id, id, l)
		add(id, other, l)
	case 3:
		add(name, id, l)
		add(name, id, 5)
	case 4:
		add(id, name, l)
		add(other, name+"z", l)
	}
	var ref, buf bytes.Buffer
	sym.Assert(rs.WriteObject(&ref, winres.ArchAMD64) == nil, "writing to memory succeeds")
	again := &winres.ResourceSet{}
	for _, w := range want {
		again.Set(w.typ, w.res, w.lang, w.data)
	}
	sym.MapOrders(1)
	if sym.Choice("walk", 2) == 1 {
		want.agree(again)
	} else {
		sym.Assert(again.WriteObject(&buf, winres.ArchAMD64) == nil, "writing to memory succeeds")
		sym.Assert(sym.EqBytes(ref.Bytes(), buf.Bytes()), "the order of maps does not show")
	}
	sym.Cover("same")
}
