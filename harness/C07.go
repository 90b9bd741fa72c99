package xgen

//vp:use lib.go
//vp:use scale.go
//vp:use gen.go
//vp:use comps.go
//vp:use noise.go
//vp:use oracle.go
//vp:use uses.go

// C07: references use the identifier of the declaration.

const vpRefs = 15

// vpTarget declares the component a reference of the given kind points to.
func vpTarget(d *vpDoc, kind int, name string) {
	switch kind {
	case 1, 3, 12: // a list stays a type of its own
		d.open("simpleType", "name", name).leaf("list", "itemType", "xs:int").close()
	case 2, 4, 11:
		d.open("simpleType", "name", name).leaf("union", "memberTypes", "xs:int xs:boolean").close()
	case 6, 10, 13:
		d.open("group", "name", name).open("sequence").leaf("element", "name", "inner1", "type", "xs:int").closeN(2)
	case 7:
		d.open("attributeGroup", "name", name).leaf("attribute", "name", "inner1", "type", "xs:int").close()
	default:
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", "inner1", "type", "xs:int").closeN(2)
	}
}

// vpRefer declares one component Host with a reference to q and tells how to
// find the referenced type in it.
func vpRefer(d *vpDoc, kind int, q string) func(o *vpOut, D *vpDecl) (string, bool) {
	first := func(o *vpOut, D *vpDecl) (string, bool) {
		if len(D.Fields) != 1 {
			return "", false
		}
		return D.Fields[0].Type, true
	}
	single := func(o *vpOut, D *vpDecl) (string, bool) {
		ty, _, ok := D.single()
		return ty, ok
	}
	switch kind {
	case 0, 1, 2:
		d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "mine", "type", q).closeN(2)
		return first
	case 3, 4:
		d.open("complexType", "name", "Host").leaf("attribute", "name", "mine", "type", q).close()
		return first
	case 5:
		d.open("complexType", "name", "Host").open("complexContent").leaf("extension", "base", q).closeN(2)
		return func(o *vpOut, D *vpDecl) (string, bool) {
			if o.Lang == "C" {
				return "", false // C20
			}
			return D.Base, len(D.Fields) == 0
		}
	case 6:
		d.open("complexType", "name", "Host").open("choice").leaf("group", "ref", q).closeN(2)
		return first
	case 7:
		d.open("complexType", "name", "Host").leaf("attributeGroup", "ref", q).close()
		return first
	case 8:
		d.leaf("element", "name", "Host", "type", q)
		return single
	case 9:
		d.open("group", "name", "Host").open("sequence").leaf("element", "name", "mine", "type", q).closeN(2)
		return first
	case 10:
		d.open("group", "name", "Host").open("sequence").leaf("group", "ref", q, "maxOccurs", "unbounded").closeN(2)
		return first
	case 11:
		d.open("simpleType", "name", "Host").leaf("list", "itemType", q).close()
		return single
	case 12:
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", q).close()
		return first
	case 13:
		d.open("element", "name", "Host").open("complexType").open("sequence").leaf("group", "minOccurs", "0", "ref", q).closeN(3)
		return first
	}
	d.open("complexType", "name", "Outer").open("sequence").open("element", "name", "Host").open("complexType").open("sequence")
	d.leaf("element", "name", "mine", "type", q, "maxOccurs", "unbounded").closeN(5)
	return first
}

func vpRefCheck(lang string, kind int, prefix, name, other string, otherFirst, refFirst bool) {
	vpAssume(!(lang == "C" && kind == 5)) // C20
	var d *vpDoc
	q := name
	if prefix != "" {
		q = prefix + ":" + name
		d = vpSchema("xs", "targetNamespace", "urn:t", "xmlns:"+prefix, "urn:t")
	} else {
		d = vpXSD()
	}
	iT, n := 0, 1
	var get func(o *vpOut, D *vpDecl) (string, bool)
	if refFirst {
		get = vpRefer(d, kind, q)
	}
	sib := 0
	if len(name)%2 == 1 {
		sib = kind // a component of the same kind
	}
	if other != "" && otherFirst {
		vpTarget(d, sib, other)
	}
	vpTarget(d, kind, name)
	if other != "" && !otherFirst {
		vpTarget(d, sib, other)
	}
	if !refFirst {
		get = vpRefer(d, kind, q)
	}
	o := vpGen(lang, d.done()).ok()
	H := o.find("Host")
	vpAssert(H != nil, "the referring type is not declared")
	// the target, by its position in the file
	if refFirst {
		iT++
		if kind == 14 {
			iT++
		}
	}
	n++
	if kind == 14 {
		n++
	}
	if other != "" {
		n++
		if otherFirst {
			iT++
		}
	}
	T := o.decl(iT, n)
	ref, ok := get(o, H)
	if lang == "TypeScript" && kind == 11 {
		vpAssert(ok, "a reference is missing")
	}
	vpKnown("C07-own-word", vpOwnWord(lang, name), ok && ref == T.Ident, "a reference does not spell the identifier of the declaration| "+ref)
	vpCover("reached")
}

// arbitrary names
func vpH_name() {
	lang := vpLang()
	name := vpStr2("name", 1, 3+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	vpRefCheck(lang, vpPick("kind", vpRefs), []string{"", "tns"}[vpPick("prefix", 2)], name, "", false, vpBool("ref first"))
}

// arbitrary prefixes
func vpH_prefix() {
	lang := vpLang()
	prefix := vpStr2("prefix", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(prefix != "xs")
	vpRefCheck(lang, vpPick("kind", vpRefs), prefix, []string{"target", "a.Target-b_C", "x_y"}[vpPick("name", 3)], "", false, vpBool("ref first"))
}

// names that mangling may make equal to another component's
func vpH_collide() {
	lang := vpLang()
	name := vpStr2("name", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	other := vpStr2("other", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(name != other)
	kind := []int{0, 5, 6, 7, 10, 12, 1, 8, 9, 11, 13, 2, 3}[vpPick("kind", 6+7*vpTier())]
	vpRefCheck(lang, kind, "", name, other, vpBool("other first"), vpBool("ref first"))
}

// longer names with symbolic seams
func vpH_long() {
	lang := vpLang()
	b := vpStr("seam", 1, 2+vpTier(), "a-zA-Z0-9._-")
	name := []string{"aXMLHttp" + b + "Req2x", "A-b.c" + b + "_dE", "x." + b + ".y"}[vpPick("form", 3)]
	vpRefCheck(lang, vpPick("kind", vpRefs), "tns", name, "", false, vpBool("ref first"))
}

// words that mean something to a language
func vpH_words() {
	lang := vpLang()
	words := append([]string{"type", "self", "Self", "class", "package", "interface", "value", "List", "Option", "Object", "object", "time", "xml", "Any", "Array", "Time", "Name"}, vpOwnWords[lang]...)
	vpRefCheck(lang, vpPick("kind", vpRefs), []string{"", "tns"}[vpPick("prefix", 2)], words[vpPick("word", len(words))], "", false, vpBool("ref first"))
}

// namespaces bound by inner elements
func vpH_scopes() {
	o, p := vpScoped()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Type == b.Type, "a reference depends on where its namespace is bound| "+a.Type+" instead of "+b.Type)
	})
}

// much of something
func vpH_scale() {
	vpScale(func(o *vpOut, D *vpDecl, s *vpBigDecl) {
		if s.Ref != "" {
			ty, depth, ok := D.single()
			vpAssert(ok && ty == s.Ref && depth == 0, "a reference does not have the identifier of what it refers to| "+s.Name)
		}
		if s.Base != "" && o.Lang != "C" {
			vpAssert(D.Base == s.Base, "a base does not have the identifier of what it refers to| "+s.Name)
		}
	}, func(o *vpOut, f *vpField, m *vpBigMember) {
		if m.Ref != "" {
			vpAssert(f.Type == m.Ref, "a reference does not have the identifier of what it refers to| "+m.Name)
		}
	})
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Ident == b.Ident && a.Base == b.Base, "a reference does not name the declaration| "+a.Ident)
		vpAssert(a.Type == b.Type, "a reference does not name the declaration| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Type == b.Type, "a reference does not name the declaration| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, same := vpRenamed()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(same(a.Base, b.Base) && same(a.Type, b.Type), "a reference does not name the declaration| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(same(a.Type, b.Type), "a reference does not name the declaration| "+a.Ident)
	})
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Base == b.Base && a.Type == b.Type, "a reference does not name the declaration| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Type == b.Type, "a reference does not name the declaration| "+a.Ident)
	})
}
