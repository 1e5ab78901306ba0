package h

import (
	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"winresverif/sym"
)

// tableOf returns the strings of one language.
func (es entries) of(lang uint16) entries {
	var out entries
	for _, e := range es {
		if e.lang == lang {
			out = append(out, e)
		}
	}
	return out
}

func (es entries) langList() []uint16 {
	var out []uint16
	for i, e := range es {
		seen := false
		for j := 0; j < i; j++ {
			if es[j].lang == e.lang {
				seen = true
			}
		}
		if !seen {
			out = append(out, e.lang)
		}
	}
	return out
}

func (es entries) lowest() uint16 {
	low := uint16(0xFFFF)
	for _, e := range es {
		if e.lang < low {
			low = e.lang
		}
	}
	return low
}

// expand is the table of one language, completed by the neutral, the default, then the lowest other languages.
func (es entries) expand(lang uint16) entries {
	var out entries
	for _, e := range es {
		if out.find(lang, e.key) >= 0 {
			continue
		}
		best := -1
		rank := func(i int) int {
			switch {
			case es[i].lang == lang:
				return -3
			case es[i].lang == 0:
				return -2
			case es[i].lang == 0x409:
				return -1
			}
			return int(es[i].lang)
		}
		for i := range es {
			if sym.EqStr(es[i].key, e.key) {
				if best < 0 || rank(i) < rank(best) {
					best = i
				}
			}
		}
		out = append(out, entry{lang, e.key, es[best].value})
	}
	return out
}

// manyLangs is an arbitrary table.
func manyLangs(n int) entries {
	var es entries
	for i := 0; i < n; i++ {
		var l uint16
		kinds := 3
		if i == 1 {
			kinds = 4
		}
		switch k := sym.Choice(num("lang", i), kinds); {
		case k == 0:
			l = 0
		case k == 1:
			l = 0x409
		case k == 2 && i == 0:
			l = 0x40C
		case k == 2:
			l = 0xFFFF
		default:
			l = sym.U16(num("otherLang", i))
		}
		es.set(entry{l, asciiName(num("key", i), 1), valueStr(num("value", i), []int{1, 0, 2, 1}[i])})
	}
	return es
}

// P19_Split: splitting gives one complete structure per language.
func P19_Split() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	es := manyLangs(n)
	vi := &version.Info{}
	fixedFew(vi)
	setAll(vi, es)
	parts := vi.SplitTranslations()
	langs := es.langList()
	sym.Assert(len(parts) == len(langs), "one part per language")
	for _, l := range langs {
		p := parts[l]
		sym.Assert(p != nil, "one part per language")
		sameFixed(p, vi)
		sameTable(p.Table(), es.expand(l))
	}
	sameTable(vi.Table(), es)

	sym.Cover("split")
}

// P19_Store: storing gives one readable resource per language.
func P19_Store() {
	es := manyLangs(2)
	vi := &version.Info{}
	fixedFew(vi)
	setAll(vi, es)
	langs := es.langList()
	rs := &winres.ResourceSet{}
	rs.SetVersionInfo(*vi)
	sym.Assert(rs.Count() == len(langs), "one resource per language")
	for _, l := range langs {
		b := rs.Get(winres.RT_VERSION, winres.ID(1), l)
		sym.Assert(b != nil, "one resource per language")
		back, err := version.FromBytes(b)
		sym.Assert(err == nil, "readable")
		sameFixed(back, vi)
		sameTable(back.Table(), es.expand(l))
	}
	sym.Cover("stored")
}

// P19_Merge: merging the parts gives the strings back, whatever the parts were completed with.
func P19_Merge() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	es := manyLangs(n)
	vi := &version.Info{}
	fixedFew(vi)
	setAll(vi, es)
	m := version.MergeTranslations(vi.SplitTranslations())
	sameFixed(m, vi)
	var all entries
	for _, l := range es.langList() {
		for _, e := range es.expand(l) {
			all.set(e)
		}
	}
	sameTable(m.Table(), all)
	sym.Cover("merged")
}

// P19_MergeFixed: the fixed part comes from the neutral, the default, or the lowest language.
func P19_MergeFixed() {
	tr := map[uint16]*version.Info{}
	n := 3
	var es entries
	vis := make([]*version.Info, n)
	langs := make([]uint16, n)
	for i := 0; i < n; i++ {
		var l uint16
		switch k := sym.Choice(num("lang", i), 3); {
		case k == 0:
			l = []uint16{0, 0x409, 0x409}[i]
		case k == 1:
			l = []uint16{0xFFFF, 0x408, 0x40A}[i]
		default:
			l = sym.U16(num("otherLang", i))
		}
		langs[i] = l
		for j := 0; j < i; j++ {
			sym.Assume(langs[j] != l)
		}
		v := &version.Info{}
		for k := 0; k < 4; k++ {
			v.FileVersion[k] = uint16(100*i + k)
			v.ProductVersion[k] = uint16(100*i + 10 + k)
		}
		v.Flags.Debug = i == 0
		v.Flags.Prerelease = i == 1
		v.Flags.Patched = i == 2
		v.Flags.PrivateBuild = i != 0
		v.Flags.SpecialBuild = i != 1
		if i == 1 {
			v.Type = version.DLL
		}
		v.Set(l, "k", asciiName(num("value", i), 1))
		es.set(entry{l, "k", ""})
		vis[i] = v
		tr[l] = v
	}
	m := version.MergeTranslations(tr)
	best := -1
	for i := range langs {
		if langs[i] == 0 {
			best = i
		}
	}
	if best < 0 {
		for i := range langs {
			if langs[i] == 0x409 {
				best = i
			}
		}
	}
	if best < 0 {
		for i := range langs {
			if best < 0 || langs[i] < langs[best] {
				best = i
			}
		}
	}
	sameFixed(m, vis[best])
	for i := range langs {
		st := m.Table()[langs[i]]
		sym.Assert(st != nil && len(*st) == 1, "one string per language")
		sym.Assert(sym.EqStr((*st)["k"], (*vis[i].Table()[langs[i]])["k"]), "the string of that language")
	}
	main := m.Table().GetMainTranslation()
	sym.Assert(sym.EqStr(main["k"], (*vis[best].Table()[langs[best]])["k"]), "the main translation has the same priority")
	sym.Cover("merged")
}

// P19_MergeOne: which strings of a part are taken.
func P19_MergeOne() {
	v := &version.Info{}
	under := sym.U16("mapped")
	var es entries
	for i := 0; i < sym.Choice("n", 4); i++ {
		e := entry{[]uint16{0, 0x40C, 0x409}[i], asciiName(num("key", i), 1), asciiName(num("value", i), 1)}
		if sym.Choice(num("any", i), 2) == 1 {
			e.lang = sym.U16(num("lang", i))
		}
		es.set(e)
	}
	setAll(v, es)
	tr := map[uint16]*version.Info{under: v}
	if sym.Choice("missing", 2) == 1 {
		other := sym.U16("missingLang")
		sym.Assume(other != under)
		tr[other] = nil
	}
	m := version.MergeTranslations(tr)
	want := es.of(under)
	if len(want) == 0 {
		want = es.of(0)
	}
	if len(want) == 0 && es.langs() == 1 {
		want = es
	}
	var exp entries
	for _, e := range want {
		exp = append(exp, entry{under, e.key, e.value})
	}
	sameTable(m.Table(), exp)
	sameTable(v.Table(), es)
	sym.Cover("merged")
}

// P19_Main: the main translation is the neutral one, the default one, the lowest one, or nothing.
func P19_Main() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	es := manyLangs(sym.Choice("n", n+1))
	vi := &version.Info{}
	setAll(vi, es)
	want := es.of(0)
	if len(want) == 0 {
		want = es.of(0x409)
	}
	if len(want) == 0 {
		want = es.of(es.lowest())
	}
	main := vi.Table().GetMainTranslation()
	sym.Assert(len(main) == len(want), "all strings of the main translation")
	for _, e := range want {
		v, ok := main[e.key]
		sym.Assert(ok, "all strings of the main translation")
		sym.Assert(sym.EqStr(v, e.value), "same values")
	}
	sym.Cover("main")
}

// P19_Orders: nothing depends on the order in which maps are walked.
func P19_Orders() {
	es := entries{{0x411, "a", "1"}, {0x40C, "a", "2"}}
	switch sym.Choice("with", 3) {
	case 1:
		es = append(es, entry{0x409, "a", "4"})
	case 2:
		es = append(es, entry{0xC0C, "b", "5"})
	}
	vi := &version.Info{}
	fixedFew(vi)
	setAll(vi, es)
	low := es.lowest()
	if es.of(0x409) != nil {
		low = 0x409
	}
	switch sym.Choice("op", 3) {
	case 0:
		sym.MapOrders(1)
		parts := vi.SplitTranslations()
		sym.MapOrders(0)
		for _, l := range es.langList() {
			sym.Assert(parts[l] != nil, "one part per language")
			sameTable(parts[l].Table(), es.expand(l))
		}
	case 1:
		parts := vi.SplitTranslations()
		for l, p := range parts {
			p.FileVersion[3] = l
		}
		sym.MapOrders(1)
		m := version.MergeTranslations(parts)
		sym.MapOrders(0)
		sym.Assert(m.FileVersion[3] == low, "fixed part by priority")
		var all entries
		for _, l := range es.langList() {
			for _, e := range es.expand(l) {
				all.set(e)
			}
		}
		sameTable(m.Table(), all)
	case 2:
		t := vi.Table()
		sym.MapOrders(1)
		main := t.GetMainTranslation()
		sym.MapOrders(0)
		sym.Assert(len(main) == len(es.of(low)), "main translation by priority")
		for _, e := range es.of(low) {
			sym.Assert(main[e.key] == e.value, "main translation by priority")
		}
	}
	sym.Cover("same")
}

// P19_MergeEmpty: languages without strings (as a JSON document may hold) count for nothing.
func P19_MergeEmpty() {
	langs := []uint16{0, 0x409, 0x40C}
	names := []string{"0000", "0409", "040C"}
	under := langs[sym.Choice("mapped", 3)]
	val := []string{"1", "2", "3"}[sym.Choice("value", 3)]
	doc := ""
	var es entries
	for i := range langs {
		switch sym.Choice(num("table", i), 3) {
		case 1:
			doc += `,"` + names[i] + `":{}`
		case 2:
			doc += `,"` + names[i] + `":{"k":"` + val + names[i] + `"}`
			es = append(es, entry{langs[i], "k", val + names[i]})
		}
	}
	if doc != "" {
		doc = doc[1:]
	}
	vi := &version.Info{}
	sym.Assert(vi.UnmarshalJSON([]byte(`{"info":{`+doc+`}}`)) == nil, "accepted")
	want := es.of(under)
	if len(want) == 0 {
		want = es.of(0)
	}
	if len(want) == 0 && len(es) == 1 {
		want = es
	}
	var exp entries
	for _, e := range want {
		exp = append(exp, entry{under, e.key, e.value})
	}
	sameTable(version.MergeTranslations(map[uint16]*version.Info{under: vi}).Table(), exp)
	for l, p := range vi.SplitTranslations() {
		for _, e := range es.of(l) {
			sameTable(p.Table(), entries{e})
		}
	}
	sym.Cover("merged")
}

// P19_Standard: all standard keys at once, one part for each language and merged again.
func P19_Standard() {
	vi := &version.Info{}
	es := standard(24)
	fixedFew(vi)
	setAll(vi, es)
	parts := vi.SplitTranslations()
	sym.Assert(len(parts) == 2, "one part per language")
	var all entries
	for _, l := range es.langList() {
		sym.Assert(parts[l] != nil, "one part per language")
		sameFixed(parts[l], vi)
		sameTable(parts[l].Table(), es.expand(l))
		all = append(all, es.expand(l)...)
	}
	m := version.MergeTranslations(parts)
	sameFixed(m, vi)
	sameTable(m.Table(), all)
	sym.Cover("split")
}
