package xgen

//vp:use lib.go
//vp:use scale.go
//vp:use uses.go
//vp:use noise.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go
//vp:use names.go

import "strings"

// C05: every child appears once, in order, in its own type.

func vpBodies(lang string, host, steps, attrs int, letter bool) {
	d := vpXSD()
	g := &vpSchemaGen{d: d, attrs: attrs, letter: "k"}
	if letter {
		g.letter = vpStr("letter", 1, 1, "c-dh-mo-tv-z")
	}
	n := d.host(host)
	g.begin("Host")
	for i := 0; i < steps && g.pick(); i++ {
	}
	g.finish(n, vpIn(vpItoa(host), "0", "1", "4", "5", "6"))
	g.globals(attrs%2 == 1)
	if lang == "" {
		lang = vpLangs[(g.count+len(d.toks)/2)%5]
	}
	o := vpGen(lang, d.done()).ok()
	for _, T := range g.types {
		extra := 0
		if T.nattr < 0 && lang != "C" {
			extra = 1
		}
		T.members(o, extra)
	}
	outer := map[int]int{vpHostNested: 1, vpHostNested2: 2}[host]
	globals := 3 + 3*g.refs
	vpAssert(len(o.Decls) == len(g.types)+outer+globals, "declarations that the schema does not have")
	for i := 1; i <= g.refs; i++ {
		for _, p := range []string{"G", "B"} {
			D := o.find(p + vpItoa(i))
			vpAssert(D != nil && len(D.Fields) == 1, "a neighbour's members changed")
		}
	}
	U := o.find("U")
	vpAssert(U != nil && len(U.Fields) == 1, "a neighbour's members changed")
	vpCover("reached")
}

// any sequence of steps in a named complex type, for every language
func vpH_type() {
	vpBodies(vpLang(), vpHostType, 3+vpTier(), 1+vpPick("attrs", 2), false)
}

// longer ones: parsing does not depend on the language, so one of them each
func vpH_deep() {
	vpBodies("", vpHostType, 4+vpTier(), 2, true)
}

// shorter ones in every kind of host
func vpH_hosts() {
	host := vpPick("host", vpHosts)
	vpAssume(host != vpHostAll)
	vpBodies(vpLang(), host, 2+vpTier(), vpPick("attrs", 4), true)
}

// members with arbitrary names: names that are alike are different members,
// whatever else they have in common
func vpH_names() {
	lang := vpLang()
	kind := vpPick("kind", 6)
	a := vpStr2("a", 1, 2, "a-zA-Z", "a-zA-Z0-9")
	b := vpStr2("b", 1, 2, "a-zA-Z", "a-zA-Z0-9")
	vpAssume(a != b)
	third := "third"
	k, v := "", ""
	if kind < 3 && vpBool("many") {
		k, v = "maxOccurs", "unbounded"
	}
	d := vpXSD()
	d.open("complexType", "name", "Host")
	if kind < 3 {
		d.open("sequence")
	}
	for _, n := range []string{a, b, third} {
		switch kind {
		case 0:
			d.leaf("element", "name", n, "type", "xs:token", k, v)
		case 1:
			d.leaf("element", "ref", n, k, v)
		case 2:
			d.leaf("group", "ref", n, k, v)
		case 3:
			d.leaf("attribute", "name", n, "type", "xs:token")
		case 4:
			d.leaf("attributeGroup", "ref", n)
		case 5:
			d.leaf("attribute", "name", n, "type", "xs:token", "use", "required")
		}
	}
	if kind < 3 {
		d.close()
	}
	d.close()
	T := vpGen(lang, d.done()).ok().find("Host")
	vpAssert(T != nil && len(T.Fields) == 3, "a type does not have exactly its members| Host")
	for i, n := range []string{a, b, third} {
		vpNamed05(lang, &T.Fields[i], n, kind == 3 || kind == 5, kind != 2 && kind != 4, i > 0 && vpSame05(a) == vpSame05(b))
	}
	vpCover("reached")
}

// vpNamed05: the member is that of name. One that would have the identifier
// of another has something appended.
func vpNamed05(lang string, f *vpField, name string, attr, wire, taken bool) {
	want := vpSame05(name)
	if attr && lang != "Rust" {
		want += "attr"
	}
	got := vpSame05(f.Ident)
	vpAssert(got == want || taken && strings.HasPrefix(got, want) || lang == "Rust" && vpIn(want, vpRustWords...), "members are not in schema order| Host")
	if vpIn(lang, "Go", "Java") && wire {
		vpAssert(f.Wire == name, "a declared member is missing| Host")
	}
}

// a child, attributes and references of one name, or of names that start or
// end alike
func vpH_shared() {
	host := vpPick("host", 4)
	pool := []string{"a", "ab", "B", "bAttr", "itemA", "item", "count", "Count2"}
	x, y, z := vpPick("first", len(pool)), vpPick("second", len(pool)), vpPick("third", len(pool))
	first, second, third := pool[x], pool[y], pool[z]
	sameKind := vpPick("kinds", 4) // which of the three are attributes
	vpAssume(!(sameKind >= 2 && second == third))
	vpAssume(!(sameKind == 0 && (first == second || second == third || first == third)))
	vpAssume(!(sameKind == 1 && first == second))
	vpAssume(!(sameKind == 3 && first == second))
	lang := vpVary(x + 3*y + z + host + sameKind)
	d := vpXSD()
	n := 1
	switch host {
	case 0:
		d.open("complexType", "name", "Host")
	case 1:
		d.open("element", "name", "Host").open("complexType")
		n = 2
	case 2:
		d.open("complexType", "name", "Host").open("complexContent").open("extension", "base", "U")
		n = 3
	case 3:
		d.open("complexType", "name", "Outer").open("sequence").open("element", "name", "host").open("complexType")
		n = 4
	}
	names := []string{first, second, third}
	isAttr := []bool{sameKind == 3, sameKind >= 2, sameKind >= 1}
	types := []string{"xs:token", "xs:boolean", "xs:int"}
	if sameKind < 3 {
		d.open("sequence")
	}
	for i := range names {
		if isAttr[i] && i > 0 && !isAttr[i-1] {
			d.close()
		}
		if isAttr[i] {
			d.leaf("attribute", "name", names[i], "type", types[i])
		} else {
			d.leaf("element", "name", names[i], "type", types[i])
		}
	}
	if sameKind == 0 {
		d.close()
	}
	d.closeN(n)
	vpUses(d)
	T := vpGen(lang, d.done()).ok().find("Host")
	vpAssert(T != nil && len(T.Fields) == 3, "a type does not have exactly its members| Host")
	// each of them is there once, found by its type, children and attributes
	// in order
	last := []int{-1, -1}
	for i, n := range names {
		at := -1
		for j := range T.Fields {
			if vpFits(lang, vpBuiltinOf(types[i][3:]), T.Fields[j].Type, T.Fields[j].Depth, 0) && (i != 0 || !vpFits(lang, vpBuiltinOf("int"), T.Fields[j].Type, T.Fields[j].Depth, 0)) {
				vpAssert(at < 0, "a member is generated twice| Host")
				at = j
			}
		}
		vpAssert(at >= 0, "a declared member is missing| Host")
		k := 0
		if isAttr[i] {
			k = 1
		}
		vpAssert(at > last[k], "members are not in schema order| Host")
		last[k] = at
		taken := true
		vpNamed05(lang, &T.Fields[at], n, isAttr[i], true, taken)
		vpAssert(lang == "TypeScript" || lang == "Rust" || T.Fields[at].Attr == isAttr[i], "a declared member is missing| Host")
	}
	vpCover("reached")
}

func vpSame05(s string) (out string) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c != '_' {
			out += string([]byte{c})
		}
	}
	return
}

// a local declaration beside a reference to a global one of the same name
func vpH_samelocal() {
	d := vpSchema("xs", "xmlns:t", "urn:t", "targetNamespace", "urn:t", "xmlns", "urn:t")
	kind, host := vpPick("kind", 4), vpPick("host", 5)
	first := vpBool("reference first")
	name := vpStr2("name", 1, 2, "a-zA-Z", "a-zA-Z0-9_")
	ty := []string{"xs:int", "xs:boolean", "U"}[vpPick("type", 3)]
	local, ref := func() { d.leaf("element", "name", name, "type", ty) }, func() { d.leaf("element", "ref", "t:"+name) }
	if kind == 1 {
		local, ref = func() { d.leaf("attribute", "name", name, "type", ty) }, func() { d.leaf("attribute", "ref", "t:"+name) }
	}
	before := vpBool("declared before")
	global := func() { d.leaf([]string{"element", "attribute", "element", "element"}[kind], "name", name, "type", "xs:int") }
	if before {
		global()
	}
	k := 2
	switch {
	case kind == 1 && host == 0:
		d.open("attributeGroup", "name", "Host")
		k = 1
	case kind == 1:
		d.open("complexType", "name", "Host")
		k = 1
	case host == 4:
		d.open("group", "name", "Host").open("sequence")
	default:
		d.open("complexType", "name", "Host").open([]string{"sequence", "choice", "all", "sequence"}[host])
	}
	if first {
		ref()
	}
	local()
	switch kind {
	case 2:
		d.leaf("element", "name", "mid", "type", "xs:int")
	case 3:
		d.leaf("element", "name", "mid", "type", ty)
	}
	if !first {
		ref()
	}
	d.closeN(k)
	if !before {
		global()
	}
	vpUses(d)
	vpAssume(!vpIn(name, "mid", "U"))
	o := vpGen(vpVary(kind+host), d.done()).ok()
	n := 2
	if kind > 1 {
		n = 3
	}
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) == n, "a type does not have exactly its members| Host")
	vpCover("reached")
}

// references to groups and attribute groups, in any number and order
func vpH_refs() {
	d := vpXSD()
	n := 2 + vpPick("count", 3)
	names := []string{"longestName", "b", "B2", "mid", "a"}
	kind := vpPick("kind", 4)
	turn := vpPick("turn", 5)
	switch kind {
	case 0, 1:
		d.open("complexType", "name", "Host").open([]string{"sequence", "choice"}[kind])
	case 2:
		d.open("group", "name", "Host").open("sequence")
	case 3:
		d.open("complexType", "name", "Host")
	}
	for i := 0; i < n; i++ {
		w := names[(turn+i)%5]
		if kind == 3 {
			d.leaf("attributeGroup", "ref", w)
		} else {
			d.leaf("group", "ref", w)
		}
	}
	if kind < 3 {
		d.close()
	}
	d.close()
	for _, w := range names {
		if kind == 3 {
			d.open("attributeGroup", "name", w).leaf("attribute", "name", "u", "type", "xs:int").close()
		} else {
			d.open("group", "name", w).open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
		}
	}
	o := vpGen(vpLang(), d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) == n, "a type does not have exactly its members| Host")
	for i := 0; i < n; i++ {
		vpAssert(vpSame05(T.Fields[i].Ident) == vpSame05(names[(turn+i)%5]), "members are not in schema order| Host")
		vpAssert(vpSame05(T.Fields[i].Type) == vpSame05(names[(turn+i)%5]), "a member has the type of another declaration| Host")
	}
	vpCover("reached")
}

// a type between components of every kind
func vpH_among() {
	host := vpPick("host", vpHosts)
	vpAssume(host != vpHostAll)
	d := vpXSD()
	g := &vpSchemaGen{d: d, attrs: 1, letter: "k"}
	sum := vpAmong(d, func() {
		n := d.host(host)
		g.begin("Host")
		g.pick()
		g.finish(n, vpIn(vpItoa(host), "0", "1", "4", "5", "6"))
		for i := 1; i <= g.refs; i++ {
			s := vpItoa(i)
			d.open("group", "name", "g"+s).open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
			d.open("attributeGroup", "name", "b"+s).leaf("attribute", "name", "u", "type", "xs:int").close()
			d.leaf("element", "name", "e"+s, "type", "xs:short")
		}
	})
	vpAmongUses(d)
	o := vpGen(vpVary(sum+host), d.done()).ok()
	for _, T := range g.types {
		extra := 0
		if T.nattr < 0 && o.Lang != "C" {
			extra = 1
		}
		T.members(o, extra)
	}
	vpCover("reached")
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(len(a.Fields) == len(b.Fields), "a type does not have exactly its members| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Ident == b.Ident, "members are not in schema order| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, _ := vpRenamed()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(len(a.Fields) == len(b.Fields), "a type does not have exactly its members| "+a.Ident)
	})
}

// much of something
func vpH_scale() {
	vpScale(func(o *vpOut, D *vpDecl, s *vpBigDecl) {
		if s.Kind == "alias" {
			return
		}
		vpAssert(len(D.Fields) == len(s.Members), "a type does not have exactly its members| "+s.Name)
		for kind := 0; kind < 4; kind++ {
			last := -1
			for _, m := range s.Members {
				if m.Kind != kind {
					continue
				}
				at := -1
				for i := range D.Fields {
					if D.Fields[i].Ident == vpIdent(o.Lang, m.Name, m.Kind == 1) {
						vpAssert(at < 0, "a member is generated twice| "+m.Name)
						at = i
					}
				}
				vpAssert(at > last, "members are not in schema order| "+s.Name+"."+m.Name)
				last = at
			}
		}
	}, nil)
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(len(a.Fields) == len(b.Fields), "a type does not have exactly its members| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Attr == b.Attr && a.Embed == b.Embed, "a type does not have exactly its members| "+a.Ident)
	})
}
