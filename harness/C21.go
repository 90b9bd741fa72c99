package xgen

//vp:use lib.go
//vp:use uses.go
//vp:use noise.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

import "strings"

// C21: lists keep their item type, unions one member per listed type.

// vpPlain keeps letters and digits, in lower case: the spelling of a name
// that does not depend on a language's style.
func vpPlain(s string) (out string) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			out += string([]byte{c})
		}
	}
	return
}

// vpKnown21: known findings of C01.
func vpElsewhere(lang, b string, list bool) bool {
	return lang == "Rust" && vpIn(b, "date", "dateTime") || vpIn(lang, "C", "Java") && b == "double" ||
		list && lang == "TypeScript" && vpIn(b, "base64Binary", "hexBinary")
}

// vpItem is a simple type that can be an item or a member.
type vpItem struct {
	name  string // as written, with prefix
	base  string // built-in type it has; "" for a type of its own
	ident string // identifier, if it has no base
}

func (m *vpItem) local() string {
	if i := strings.IndexByte(m.name, ':'); i >= 0 {
		return m.name[i+1:]
	}
	return m.name
}

const vpItems21 = 9

// vpItemOf declares (in d, which may be another document) and describes.
func vpItemOf(kind int, d *vpDoc, name, base, prefix string) vpItem {
	q := prefix + name
	switch kind {
	case 0: // a built-in type
		return vpItem{"xs:" + base, base, ""}
	case 1:
		d.simple(name, "xs:"+base, "pattern", "x")
	case 2:
		d.simple(name, prefix+name+"Two", "maxLength", "2").simple(name+"Two", "xs:"+base)
	case 3:
		d.simple(name+"Two", "xs:"+base).simple(name, prefix+name+"Two", "maxLength", "2")
	case 4:
		d.open("simpleType", "name", name).leaf("union", "memberTypes", "xs:int xs:boolean").close()
		return vpItem{q, "", vpUpper1(name)}
	case 5:
		d.open("simpleType", "name", name).doc("an item").restrict("xs:"+base, "enumeration", "1", "enumeration", "2").close()
	case 6:
		d.open("simpleType", "name", name).leaf("list", "itemType", "xs:int").close()
		return vpItem{q, "", vpUpper1(name)}
	case 7:
		d.simple(name, "xs:"+base)
		d.open("simpleType", "name", name+"Not").leaf("list", "itemType", q).close()
	case 8:
		d.open("simpleType", "name", name+"Not").leaf("union", "memberTypes", q+" xs:int").close()
		d.simple(name, "xs:"+base)
	}
	return vpItem{q, base, ""}
}

// vpList21 checks a list declaration.
func vpList21(o *vpOut, ident string, m vpItem) {
	D := o.find(ident)
	vpAssert(D != nil, "a list type is not declared| "+ident)
	ty, depth, ok := D.single()
	vpAssert(ok, "a list type is not declared as one type| "+ident)
	if m.base == "" {
		vpAssert(ty == m.ident && depth == 1, "a list does not have its item type| "+ident)
	} else {
		vpAssert(vpFits(o.Lang, vpBuiltinOf(m.base), ty, depth, 1), "a list does not have its item type| "+ident)
	}
	vpCover("list")
}

// vpUnion21 checks a union declaration.
func vpUnion21(o *vpOut, ident string, members []vpItem) {
	D := o.find(ident)
	vpAssert(D != nil && D.Kind == "struct", "a union type is not declared| "+ident)
	for _, m := range members {
		n := 0
		for i := range D.Fields {
			f := &D.Fields[i]
			if vpPlain(f.Ident) != vpPlain(m.local()) {
				continue
			}
			n++
			if m.base == "" {
				vpAssert(f.Type == m.ident && f.Depth == 0, "a member of a union has another type than listed| "+ident)
			} else {
				vpAssert(vpFits(o.Lang, vpBuiltinOf(m.base), f.Type, f.Depth, 0), "a member of a union has another type than listed| "+ident)
			}
		}
		vpAssert(n == 1, "a union does not have one member per listed type| "+ident)
	}
	vpAssert(len(D.Fields) == len(members), "a union has members that are not listed| "+ident)
	vpAssert(D.Base == "", "a union has a base| "+ident)
	vpCover("union")
}

var vpBases21 = []string{"boolean", "unsignedLong", "token", "base64Binary", "time", "QName", "byte", "float", "date", "double"}

// every item type, in every place
func vpH_list() {
	lang := vpLang()
	d := vpTargets("xs")
	kind := vpPick("kind", 6)
	base := ""
	if kind < 2 {
		b := vpBuiltins[vpPick("builtin", len(vpBuiltins))]
		vpAssume(b.Kind != vpTList && b.Kind != vpTAny)
		base = b.Name
	} else {
		base = vpBases21[vpPick("base", 3+3*vpTier())]
	}
	vpAssume(!vpElsewhere(lang, base, true))
	e := &vpDoc{P: "xs"}
	m := vpItemOf(kind, e, "Item", base, "t:")
	after := vpBool("after")
	if !after {
		d.toks = append(d.toks, e.toks...)
	}
	d.open("simpleType", "name", "Host")
	if vpBool("annotation") {
		d.doc("a list")
	}
	d.leaf("list", "itemType", m.name).close()
	if after {
		d.toks = append(d.toks, e.toks...)
	}
	d.simple("Last", "xs:boolean")
	o := vpGen(lang, d.done()).ok()
	vpList21(o, "Host", m)
	L := o.find("Last")
	vpAssert(L != nil, "the type after a list is missing")
	ty, depth, ok := L.single()
	vpAssert(ok && vpFits(lang, vpBuiltinOf("boolean"), ty, depth, 0), "a type after a list is a list")
}

// lists and unions of anonymous item types, and restrictions of them around
func vpH_inline() {
	lang := vpLang()
	d := vpTargets("xs")
	base := vpBases21[vpPick("base", 7)]
	vpAssume(!vpElsewhere(lang, base, true))
	d.open("simpleType", "name", "Host").open("list").open("simpleType").restrict("xs:"+base, "enumeration", "1").closeN(3)
	n := vpStr2("name", 1, 1+vpTier(), "a-zA-Z", "a-zA-Z0-9")
	vpAssume(n != "Host" && n != "host")
	d.simple(n, "xs:boolean")
	o := vpGen(lang, d.done()).ok()
	vpList21(o, "Host", vpItem{"", base, ""})
	vpAssert(len(o.Decls) == 2, "not exactly the declared types are generated")
	ty, depth, ok := o.Decls[1].single()
	vpAssert(ok && vpFits(lang, vpBuiltinOf("boolean"), ty, depth, 0), "a type after a list is a list")
}

// unions of up to three members of any kind
func vpH_union() {
	lang := vpLang()
	d := vpTargets("xs")
	n := 1 + vpPick("members", 3)
	var members []vpItem
	e, f := &vpDoc{P: "xs"}, &vpDoc{P: "xs"}
	list := ""
	for i := 0; i < n; i++ {
		k := 0
		if i < 2 || vpTier() > 0 {
			k = vpPick("kind", vpItems21)
		}
		base := vpBases21[(2*i+k)%7]
		if k == 0 {
			base = vpBases21[[]int{vpPick("base", 8), 1, 2}[i]]
			if i > 0 && members[0].base == base {
				base = "anyURI"
			}
		}
		vpAssume(!vpElsewhere(lang, base, false))
		to := e
		if i == 0 {
			to = f
		}
		m := vpItemOf(k, to, []string{"One", "two", "Three"}[i], base, "t:")
		members = append(members, m)
		if i > 0 {
			list += []string{" ", "\n\t "}[i-1]
		}
		list += m.name
	}
	at := vpPick("where", 3)
	if at == 0 {
		d.toks = append(append(d.toks, e.toks...), f.toks...)
	} else if at == 1 {
		d.toks = append(d.toks, f.toks...)
	}
	d.open("simpleType", "name", "Host").leaf("union", "memberTypes", list).close()
	if at == 1 {
		d.toks = append(d.toks, e.toks...)
	} else if at == 2 {
		d.toks = append(append(d.toks, f.toks...), e.toks...)
	}
	d.simple("Last", "xs:boolean")
	o := vpGen(lang, d.done()).ok()
	vpUnion21(o, "Host", members)
	L := o.find("Last")
	vpAssert(L != nil, "the type after a union is missing")
	ty, depth, ok := L.single()
	vpAssert(ok && vpFits(lang, vpBuiltinOf("boolean"), ty, depth, 0), "a type after a union is a union")
}

// every built-in type as a member
func vpH_builtins() {
	lang := vpLang()
	b := vpBuiltins[vpPick("builtin", len(vpBuiltins))].Name
	vpAssume(!vpElsewhere(lang, b, false))
	other := "xs:boolean"
	if b == "boolean" {
		other = "xs:token"
	}
	d := vpXSD()
	list := "xs:" + b + " " + other
	if vpBool("swap") {
		list = other + " xs:" + b
	}
	d.open("simpleType", "name", "Host").leaf("union", "memberTypes", list).close()
	vpUnion21(vpGen(lang, d.done()).ok(), "Host", []vpItem{{"xs:" + b, b, ""}, {other, other[3:], ""}})
}

// a whole union of many members: order, equal types
func vpH_many() {
	lang := vpLang()
	d := vpTargets("xs")
	n := 4 + vpPick("members", 3+vpTier())
	var members []vpItem
	list, seps := "", []string{" ", "  ", "\t", "\n"}
	for i := 0; i < n; i++ {
		name, base := "m"+vpItoa((i*3)%n), []string{"token", "int", "boolean"}[i%3]
		if i%2 == 0 {
			d.simple(name, "xs:"+base)
		}
		members = append(members, vpItem{"t:" + name, base, ""})
	}
	// (i*3)%n gives names twice if three divides n
	if n == 6 {
		for i := range members {
			members[i].name = "t:m" + vpItoa(i)
		}
		d = vpTargets("xs")
		for i := 0; i < n; i += 2 {
			d.simple(members[i].local(), "xs:"+members[i].base)
		}
	}
	turn := vpPick("turn", n)
	for i := range members {
		list += seps[(i+turn)%len(seps)] + members[(i+turn)%n].name
	}
	d.open("simpleType", "name", "Host").leaf("union", "memberTypes", list+seps[turn%4]).close()
	for i := 1; i < n; i += 2 {
		d.simple(members[i].local(), "xs:"+members[i].base)
	}
	vpUnion21(vpGen(lang, d.done()).ok(), "Host", members)
}

// arbitrary names of members and items
func vpH_names() {
	lang := vpLang()
	name := vpStr2("name", 2, 2+vpTier(), "a-zA-Z", "a-zA-Z0-9._-")
	d := vpTargets("xs")
	ref := &vpDoc{P: "xs"}
	union := vpBool("union")
	if union {
		ref.open("simpleType", "name", "HostType").leaf("union", "memberTypes", "xs:boolean t:"+name).close()
	} else {
		ref.open("simpleType", "name", "HostType").leaf("list", "itemType", "t:"+name).close()
	}
	after := vpBool("after")
	if after {
		d.toks = append(d.toks, ref.toks...)
	}
	d.simple(name, "xs:unsignedLong")
	if !after {
		d.toks = append(d.toks, ref.toks...)
	}
	o := vpGen(lang, d.done()).ok()
	m := vpItem{"t:" + name, "unsignedLong", ""}
	if union {
		D := o.find("HostType")
		if lang == "Rust" && D != nil { // keywords get a suffix
			for _, w := range []string{"as", "do", "fn", "if", "in"} {
				vpAssume(vpPlain(name) != w)
			}
		}
		vpUnion21(o, "HostType", []vpItem{{"xs:boolean", "boolean", ""}, m})
	} else {
		vpList21(o, "HostType", m)
	}
}

// lists and unions among other declarations, and their state after them
func vpH_several() {
	lang := vpLang()
	d := vpTargets("xs")
	n := 3
	var kinds []int
	for i := 0; i < n; i++ {
		k := vpPick("kind", 8)
		kinds = append(kinds, k)
		me := "Type" + vpItoa(i)
		switch k {
		case 0:
			d.open("simpleType", "name", me).leaf("list", "itemType", "xs:boolean").close()
		case 1:
			d.open("simpleType", "name", me).leaf("union", "memberTypes", "xs:token xs:int").close()
		case 2:
			d.simple(me, "xs:boolean")
		case 3:
			d.open("complexType", "name", me).open("attribute", "name", "a").open("simpleType").leaf("union", "memberTypes", "xs:int xs:boolean").closeN(2)
			d.leaf("attribute", "name", "b", "type", "xs:boolean").close()
		case 4:
			d.open("complexType", "name", me).open("sequence").open("element", "name", "k").open("simpleType").leaf("list", "itemType", "xs:int").closeN(2)
			d.leaf("element", "name", "b", "type", "xs:boolean").closeN(2)
		case 5:
			d.open("simpleType", "name", me).open("union", "memberTypes", "xs:token xs:int").open("simpleType").restrict("xs:float").closeN(3)
		case 6:
			d.leaf("element", "name", me, "type", "xs:boolean")
		case 7:
			d.open("simpleType", "name", me).leaf("list", "itemType", "t:Type"+vpItoa((i+1)%n)).close()
		}
	}
	o := vpGen(lang, d.done()).ok()
	for i, k := range kinds {
		me := "Type" + vpItoa(i)
		D := o.find(me)
		vpAssert(D != nil, "a declaration is missing| "+me)
		switch k {
		case 0:
			vpList21(o, me, vpItem{"", "boolean", ""})
		case 1:
			vpUnion21(o, me, []vpItem{{"xs:token", "token", ""}, {"xs:int", "int", ""}})
		case 2, 6:
			ty, depth, ok := D.single()
			vpAssert(ok && vpFits(lang, vpBuiltinOf("boolean"), ty, depth, 0), "another type becomes a list or a union| "+me)
		case 3, 4:
			vpAssert(len(D.Fields) > 0, "a declaration has no members| "+me)
			f := &D.Fields[len(D.Fields)-1]
			vpAssert(vpPlain(f.Ident) == "b" || vpPlain(f.Ident) == "battr", "members are not in schema order| "+me)
			vpAssert(vpFits(lang, vpBuiltinOf("boolean"), f.Type, f.Depth, 0), "the member after a list or union has another type| "+me)
		case 5:
			vpAssert(D.Kind == "struct" && len(D.Fields) >= 2, "a union is not declared as one| "+me)
		case 7:
			next := kinds[(i+1)%n]
			if next == 2 {
				vpList21(o, me, vpItem{"", "boolean", ""})
			} else if next == 1 {
				vpList21(o, me, vpItem{"", "", "Type" + vpItoa((i+1)%n)})
			}
		}
	}
}

// item and member types of included and imported schemas
func vpH_files() {
	lang := vpLang()
	d := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:t", "urn:m", "xmlns:a", "urn:a")
	e := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:t", "urn:m", "xmlns:a", "urn:a")
	prefix := "t:"
	if vpBool("import") {
		e = vpSchema("xs", "targetNamespace", "urn:a", "xmlns:a", "urn:a")
		prefix = "a:"
		d.leaf("import", "namespace", "urn:a", "schemaLocation", "b.xsd")
	} else {
		d.leaf("include", "schemaLocation", "b.xsd")
	}
	kind := 1 + vpPick("kind", 5)
	base := vpBases21[vpPick("base", 6)]
	vpAssume(!vpElsewhere(lang, base, true))
	m := vpItemOf(kind, e, "Item", base, prefix)
	vpPutDoc("in/b.xsd", e.done())
	union := vpBool("union")
	if union {
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", "xs:int "+m.name).close()
	} else {
		d.open("simpleType", "name", "Host").leaf("list", "itemType", m.name).close()
	}
	o := vpGen(lang, d.done()).ok()
	if union {
		vpUnion21(o, "Host", []vpItem{{"xs:int", "int", ""}, m})
	} else {
		vpList21(o, "Host", m)
	}
}

// lists and unions between components of every kind, documented or not
func vpH_among() {
	d := vpTargets("xs")
	kind, long := vpPick("kind", 3), vpBool("documented")
	note := func() {
		if long {
			d.doc("A description that is long enough to fill more than one line of a comment,\n and then some more of it, so that no limit is missed: " +
				"0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789")
		}
	}
	vpAmong(d, func() {
		d.open("simpleType", "name", "Host", "id", "theIdentifierOfThisVeryType", "final", "restriction")
		note()
		switch kind {
		case 0:
			d.leaf("list", "itemType", "t:Item").close()
		case 1:
			d.leaf("union", "memberTypes", "t:Item xs:boolean").close()
		case 2:
			d.open("list").open("simpleType").restrict("xs:unsignedLong", "pattern", "x").closeN(3)
		}
		d.simple("Item", "xs:unsignedLong")
	})
	vpAmongUses(d)
	lang := vpLang()
	o := vpGen(lang, d.done()).ok()
	if kind == 1 {
		vpUnion21(o, "Host", []vpItem{{"t:Item", "unsignedLong", ""}, {"xs:boolean", "boolean", ""}})
	} else {
		vpList21(o, "Host", vpItem{"", "unsignedLong", ""})
	}
	D := o.find("Item")
	vpAssert(D != nil, "the type after a list is missing")
	ty, depth, ok := D.single()
	vpAssert(ok && vpFits(lang, vpBuiltinOf("unsignedLong"), ty, depth, 0), "a type after a list is a list")
}

// namespaces bound by inner elements
func vpH_scopes() {
	o, p := vpScoped()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Type == b.Type && a.Depth == b.Depth && len(a.Fields) == len(b.Fields), "the items or members depend on where their namespace is bound| "+a.Ident)
	})
}

// long unions, chains of lists, long names, many of them
func vpH_much() {
	n := []int{8, 9, 10, 11, 16, 17, 20, 33, 64}[vpPick("size", 9)]
	shape := vpPick("shape", 3)
	lang := vpVary(n + shape)
	at := []int{0, 1, n / 2, n - 1}[vpPick("at", 4)]
	d := vpTargets("xs")
	base := func(i int) string { return []string{"token", "int", "boolean"}[i%3] }
	switch shape {
	case 0: // members
		var members []vpItem
		list := ""
		for i := 0; i < n; i++ {
			name := "m" + vpItoa(i)
			if i == at {
				name = "odd" + vpStr("letter", 1, 1, "a-z")
			}
			members = append(members, vpItem{"t:" + name, base(i), ""})
			list += []string{" ", "  ", "\n"}[i%3] + members[i].name
			if i%2 == 0 {
				d.simple(name, "xs:"+base(i))
			}
		}
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", list).close()
		for i := 1; i < n; i += 2 {
			d.simple(members[i].local(), "xs:"+base(i))
		}
		vpUnion21(vpGen(lang, d.done()).ok(), "Host", members)
	case 1: // lists and unions
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				d.open("simpleType", "name", "Type"+vpItoa(i)).leaf("list", "itemType", "xs:"+base(i)).close()
			} else {
				d.open("simpleType", "name", "Type"+vpItoa(i)).leaf("union", "memberTypes", "t:Code xs:"+base(i)).close()
			}
		}
		d.simple("Code", "xs:unsignedLong")
		o := vpGen(lang, d.done()).ok()
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				vpList21(o, "Type"+vpItoa(i), vpItem{"", base(i), ""})
			} else {
				vpUnion21(o, "Type"+vpItoa(i), []vpItem{{"t:Code", "unsignedLong", ""}, {"xs:" + base(i), base(i), ""}})
			}
		}
	case 2: // letters
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, "abcdefghijklmnopqrstuvwxyz"[(i*7+n)%26])
		}
		name := string(b[:at]) + vpStr("letter", 1, 1, "a-z") + string(b[at+1:])
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", "xs:boolean t:"+name).close()
		d.open("simpleType", "name", "HostList").leaf("list", "itemType", "t:"+name).close()
		d.simple(name, "xs:unsignedLong")
		o := vpGen(lang, d.done()).ok()
		vpUnion21(o, "Host", []vpItem{{"xs:boolean", "boolean", ""}, {"t:" + name, "unsignedLong", ""}})
		vpList21(o, "HostList", vpItem{"t:" + name, "unsignedLong", ""})
	}
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Type == b.Type && a.Depth == b.Depth && len(a.Fields) == len(b.Fields), "a list or union has other members| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, same := vpRenamed()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(same(a.Type, b.Type) && a.Depth == b.Depth && len(a.Fields) == len(b.Fields), "a list or union has other members| "+a.Ident)
	})
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Type == b.Type && a.Depth == b.Depth && len(a.Fields) == len(b.Fields), "a list or union has other members| "+a.Ident)
	})
}
