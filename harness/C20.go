package xgen

//vp:use lib.go
//vp:use scale.go
//vp:use noise.go
//vp:use oracle.go
//vp:use uses.go
//vp:use gen.go
//vp:use comps.go

// C20: derived types keep their base; types that are not derived have none.

var vpLangs20 = []string{"Go", "Java", "Rust", "TypeScript"} // C drops bases

// vpValue gives the value member of a declaration.
func vpValue(o *vpOut, D *vpDecl) (v *vpField, n int) {
	for i := range D.Fields {
		f := &D.Fields[i]
		if f.Annot == "value" || o.Lang == "TypeScript" && f.Ident == "Value" {
			v = f
			n++
		}
	}
	return
}

// vpDerived checks one declaration: base is the identifier of a type, value
// the name of a built-in type; extra is the depth of lists around it.
func vpDerived(o *vpOut, ident, base, value string, own int) {
	D := o.find(ident)
	vpAssert(D != nil && D.Kind == "struct", "a type is not declared| "+ident)
	v, n := vpValue(o, D)
	if value != "" {
		vpAssert(n == 1, "a type with simple content does not have one value member| "+ident)
		b := vpBuiltinOf(value)
		if o.Lang == "Rust" && vpIn(value, "date", "dateTime") || o.Lang == "Java" && value == "double" {
			// known findings of C01
			vpAssert(v.Depth == 0 && vpIn(v.Type, "u8", "String", "Float", "Double"), "the value member has another type than declared| "+ident)
		} else {
			vpAssert(vpFits(o.Lang, b, v.Type, v.Depth, 0), "the value member has another type than declared| "+ident)
		}
		vpAssert(!v.Opt && !v.Attr, "the value member is optional| "+ident)
	} else {
		vpAssert(n == 0, "a type without simple content has a value member| "+ident)
	}
	vpAssert(D.Base == base, "a type does not have its base, and no other| "+ident)
	if o.Lang == "Go" && base != "" {
		vpAssert(D.Ptr, "the base is not embedded by a pointer| "+ident)
	}
	vpAssert(len(D.Fields) == own+n, "a derived type does not have exactly its own members| "+ident)
	vpCover("reached")
}

const vpOwn20 = 8

// vpMembers20 declares members of a type: content first, then attributes; it
// returns how many.
func vpContent20(d *vpDoc, kind int) int {
	switch kind {
	case 1:
		d.open("sequence").leaf("element", "name", "one", "type", "xs:int").leaf("element", "name", "two", "type", "Other", "maxOccurs", "unbounded").close()
		return 2
	case 2:
		d.open("choice").leaf("group", "ref", "G").leaf("element", "name", "one", "type", "xs:int", "minOccurs", "0").close()
		return 2
	case 3: // an anonymous type within, derived or not
		d.open("sequence").open("element", "name", "nest").open("complexType").open("sequence").leaf("element", "name", "deep", "type", "xs:int").closeN(4)
		return 1
	case 4:
		d.open("sequence").open("element", "name", "nest").open("complexType").open("simpleContent").open("extension", "base", "xs:boolean").leaf("attribute", "name", "b", "type", "xs:int").closeN(5)
		return 1
	case 5:
		d.open("sequence").open("element", "name", "nest").open("complexType").open("complexContent").open("extension", "base", "Other").leaf("attribute", "name", "b", "type", "xs:int").closeN(5)
		return 1
	case 6:
		d.open("all").open("element", "name", "one").open("simpleType").restrict("xs:boolean", "pattern", "t").closeN(3)
		return 1
	}
	return 0
}

// vpNest20 checks the anonymous type of the content.
func vpNest20(o *vpOut, kind int) {
	switch kind {
	case 3:
		vpDerived(o, "Nest", "", "", 1)
	case 4:
		vpDerived(o, "Nest", "", "boolean", 1)
	case 5:
		vpDerived(o, "Nest", "Other", "", 1)
	}
}

func vpAttrs20(d *vpDoc, kind int) int {
	switch kind {
	case 1:
		d.leaf("attribute", "name", "a", "type", "xs:int")
		return 1
	case 2:
		d.leaf("attribute", "name", "a", "use", "required", "type", "xs:token").leaf("attributeGroup", "ref", "B1")
		return 2
	case 3:
		d.open("attribute", "name", "a").open("simpleType").restrict("xs:string", "enumeration", "x").closeN(2)
		return 1
	}
	return 0
}

// vpSupport20 declares what the members refer to, and types without a base.
func vpSupport20(d *vpDoc) {
	d.open("complexType", "name", "Other").open("sequence").leaf("element", "name", "o", "type", "xs:int").closeN(2)
	d.open("group", "name", "G").open("sequence").leaf("element", "name", "g", "type", "xs:int").closeN(2)
	d.open("attributeGroup", "name", "B1").leaf("attribute", "name", "u", "type", "xs:int").close()
}

// vpDerive declares a complex type derived from q: named, or of an element.
func vpDerive(d *vpDoc, host, content int, name, q string, body func() int) int {
	levels := 3
	switch host {
	case 0:
		d.open("complexType", "name", name)
	case 1:
		d.open("element", "name", name).open("complexType")
		levels = 4
	case 2:
		d.open("complexType", "name", "Outer").open("sequence").open("element", "name", name, "maxOccurs", "unbounded").open("complexType")
		levels = 6
	case 3:
		d.open("complexType", "name", name, "mixed", "true").doc("derived from another type")
	}
	d.open([]string{"complexContent", "simpleContent"}[content], "id", "c").open("extension", "base", q)
	n := body()
	d.closeN(levels)
	return n
}

// extension of a complex type with any members, by any place, in any order
func vpH_complex() {
	lang := vpLangs20[vpPick("lang", 4)]
	d := vpTargets("xs")
	host, c, a := vpPick("host", 4), vpPick("content", 7), vpPick("attributes", 4)
	before := vpBool("before")
	q := []string{"t:Base", "Base"}[vpPick("prefix", 1)]
	base := func() {
		d.open("complexType", "name", "Base").open("sequence").leaf("element", "name", "inner", "type", "xs:int").closeN(2)
	}
	if before {
		base()
	}
	own := vpDerive(d, host, 0, "Host", q, func() int { return vpContent20(d, c) + vpAttrs20(d, a) })
	if !before {
		base()
	}
	vpSupport20(d)
	o := vpGen(lang, d.done()).ok()
	vpDerived(o, "Host", "Base", "", own)
	vpDerived(o, "Base", "", "", 1)
	vpDerived(o, "Other", "", "", 1)
	if host == 2 {
		vpDerived(o, "Outer", "", "", 1)
	}
	vpNest20(o, c)
}

// simple content over every built-in type, directly and by simple types
func vpH_simple() {
	lang := vpLangs20[vpPick("lang", 4)]
	d := vpTargets("xs")
	i := vpPick("base", len(vpBuiltins))
	chain := vpPick("chain", 3)
	host := vpPick("host", 4)
	before := vpBool("before")
	if chain == 0 {
		vpAssume(before)
	}
	if i > 11 && vpTier() == 0 {
		vpAssume(host == i%4)
	}
	b := vpBuiltins[i].Name
	vpAssume(b != "anyType")
	q := "xs:" + b
	types := func() {
		for k := 1; k <= chain; k++ {
			from := "xs:" + b
			if k > 1 {
				from = "t:Step" + vpItoa(k-1)
			}
			d.simple("Step"+vpItoa(k), from, "pattern", "x")
		}
	}
	if chain > 0 {
		q = "t:Step" + vpItoa(chain)
	}
	if before {
		types()
	}
	own := vpDerive(d, host, 1, "Host", q, func() int { return vpAttrs20(d, i%4) })
	if !before {
		types()
	}
	vpSupport20(d)
	o := vpGen(lang, d.done()).ok()
	vpDerived(o, "Host", "", b, own)
	vpDerived(o, "Other", "", "", 1)
	if host == 2 {
		vpDerived(o, "Outer", "", "", 1)
	}
}

// simple content over a complex type that has simple content; chains
func vpH_chains() {
	lang := vpLangs20[vpPick("lang", 4)]
	d := vpTargets("xs")
	n := 2 + vpPick("types", 2+vpTier())
	kind := vpPick("root", 3) // no base, simple content, another root
	order := vpBool("derived first")
	content := 0
	if kind == 1 {
		content = 1
	}
	for k := 0; k < n; k++ {
		i := k
		if order {
			i = n - 1 - k
		}
		me := "Type" + vpItoa(i)
		switch {
		case i > 0:
			vpDerive(d, 0, content, me, "t:Type"+vpItoa(i-1), func() int { return vpAttrs20(d, i%2) })
		case kind == 1:
			vpDerive(d, 0, 1, me, "xs:unsignedShort", func() int { return vpAttrs20(d, 1) })
		case kind == 2:
			vpDerive(d, 0, 0, me, "t:Other", func() int { return vpContent20(d, 1) })
		default:
			d.open("complexType", "name", me)
			vpContent20(d, 1)
			d.close()
		}
	}
	vpSupport20(d)
	o := vpGen(lang, d.done()).ok()
	for i := 0; i < n; i++ {
		me := "Type" + vpItoa(i)
		switch {
		case i > 0:
			vpDerived(o, me, "Type"+vpItoa(i-1), "", i%2)
		case kind == 1:
			vpDerived(o, me, "", "unsignedShort", 1)
		case kind == 2:
			vpDerived(o, me, "Other", "", 2)
		default:
			vpDerived(o, me, "", "", 2)
		}
	}
	vpDerived(o, "Other", "", "", 1)
}

const vpKinds20 = 9

// a sequence of declarations, derived or not
func vpH_several() {
	lang := vpLangs20[vpPick("lang", 4)]
	d := vpTargets("xs")
	n := 2 + vpTier()
	vpSupport20(d)
	var kinds []int
	for i := 0; i < n; i++ {
		k := vpPick("kind", vpKinds20)
		kinds = append(kinds, k)
		me := "Type" + vpItoa(i)
		switch k {
		case 0:
			vpDerive(d, 0, 0, me, "t:Other", func() int { return vpContent20(d, 1) })
		case 1:
			vpDerive(d, 1, 1, me, "xs:boolean", func() int { return vpAttrs20(d, 1) })
		case 2:
			d.open("complexType", "name", me)
			vpContent20(d, 1)
			d.close()
		case 3:
			d.open("group", "name", me)
			vpContent20(d, 1)
			d.close()
		case 4:
			d.open("attributeGroup", "name", me)
			vpAttrs20(d, 1)
			d.close()
		case 5:
			d.open("element", "name", me).open("complexType")
			vpAttrs20(d, 1)
			d.closeN(2)
		case 6:
			vpDerive(d, 3, 0, me, "t:Type"+vpItoa((i+1)%n), func() int { return vpAttrs20(d, 1) })
		case 7: // an element whose type is derived in the member
			d.open("complexType", "name", me).open("sequence").leaf("element", "name", "pre", "type", "xs:int").open("element", "name", "in"+vpItoa(i)).open("complexType")
			d.open("complexContent").open("extension", "base", "t:Other").leaf("attribute", "name", "b", "type", "xs:int").closeN(4)
			d.leaf("element", "name", "post", "type", "xs:int").closeN(2)
		case 8:
			d.leaf("complexType", "name", me)
		}
	}
	o := vpGen(lang, d.done()).ok()
	for i, k := range kinds {
		me := "Type" + vpItoa(i)
		switch k {
		case 0:
			vpDerived(o, me, "Other", "", 2)
		case 1:
			vpDerived(o, me, "", "boolean", 1)
		case 2, 3:
			vpDerived(o, me, "", "", 2)
		case 4, 5:
			vpDerived(o, me, "", "", 1)
		case 6:
			// a type may be derived from an element's name in a schema with
			// other declarations of that name; only types can be bases
			if t := kinds[(i+1)%n]; vpIn(vpItoa(t), "0", "2", "6", "7", "8") {
				vpDerived(o, me, "Type"+vpItoa((i+1)%n), "", 1)
			}
		case 7:
			vpDerived(o, me, "", "", 3)
			vpDerived(o, "In"+vpItoa(i), "Other", "", 1)
		case 8:
			vpDerived(o, me, "", "", 0)
		}
	}
}

// arbitrary names of the base
func vpH_names() {
	lang := vpLangs20[vpPick("lang", 4)]
	name := vpStr2("name", 2, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	d := vpTargets("xs")
	before := vpBool("before")
	base := func() {
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", "inner", "type", "xs:int").closeN(2)
	}
	if before {
		base()
	}
	own := vpDerive(d, 0, 0, "Derived", "t:"+name, func() int { return vpAttrs20(d, 1) })
	if !before {
		base()
	}
	o := vpGen(lang, d.done()).ok()
	vpAssert(len(o.Decls) == 2, "not exactly the declared types are generated")
	i := 1
	if before {
		i = 0
	}
	vpAssume(!vpWord20(lang, name))
	vpDerived(o, "Derived", o.Decls[i].Ident, "", own)
}

// vpWord20: known finding C07-own-word.
func vpWord20(lang, n string) bool {
	return lang == "Rust" && vpIn(n, "i8", "u8")
}

// bases in included and imported schemas
func vpH_files() {
	lang := vpLangs20[vpPick("lang", 4)]
	d := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:t", "urn:m", "xmlns:a", "urn:a")
	e := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:t", "urn:m", "xmlns:a", "urn:a")
	q := "t:Else"
	if vpBool("import") {
		e = vpSchema("xs", "targetNamespace", "urn:a", "xmlns:a", "urn:a")
		q = "a:Else"
		d.leaf("import", "namespace", "urn:a", "schemaLocation", "b.xsd")
	} else {
		d.leaf("include", "schemaLocation", "b.xsd")
	}
	kind := vpPick("kind", 4)
	b := vpBuiltins[vpPick("base", 8)].Name
	content := 1
	switch kind {
	case 0:
		e.simple("Else", "xs:"+b, "pattern", "x")
	case 1: // by a chain in the other file
		e.simple("Else", q[:2]+"More", "pattern", "x").simple("More", "xs:"+b)
	case 2:
		content = 0
		e.open("complexType", "name", "Else")
		vpContent20(e, 1)
		e.close()
	case 3:
		vpDerive(e, 0, 1, "Else", "xs:"+b, func() int { return vpAttrs20(e, 1) })
	}
	own := vpDerive(d, vpPick("host", 3), content, "Host", q, func() int { return vpAttrs20(d, 1) })
	vpSupport20(d)
	vpPutDoc("in/b.xsd", e.done())
	o := vpGen(lang, d.done()).ok()
	if kind < 2 {
		vpDerived(o, "Host", "", b, own)
	} else {
		vpDerived(o, "Host", "Else", "", own)
	}
	vpDerived(o, "Other", "", "", 1)
}

// derived types between components of every kind
func vpH_among() {
	d := vpTargets("xs")
	host, c := vpPick("host", 4), vpPick("content", 3)
	own := 0
	vpAmong(d, func() {
		switch c {
		case 0:
			own = vpDerive(d, host, 0, "Host", "t:Other", func() int { return vpContent20(d, 1) })
		case 1:
			own = vpDerive(d, host, 1, "Host", "xs:boolean", func() int { return vpAttrs20(d, 1) })
		case 2:
			own = vpDerive(d, host, 1, "Host", "t:S", func() int { return vpAttrs20(d, 2) })
		}
		d.open("complexType", "name", "Plain")
		vpContent20(d, 1)
		d.close()
	})
	vpAmongUses(d)
	d.open("complexType", "name", "Other").open("sequence").leaf("element", "name", "o", "type", "xs:int").closeN(2)
	d.open("attributeGroup", "name", "B1").leaf("attribute", "name", "u", "type", "xs:int").close()
	lang := vpLangs20[vpPick("lang", 4)]
	o := vpGen(lang, d.done()).ok()
	vpDerived(o, "Host", []string{"Other", "", ""}[c], []string{"", "boolean", "base64Binary"}[c], own)
	vpDerived(o, "Plain", "", "", 2)
	vpDerived(o, "Other", "", "", 1)
	vpDerived(o, "U", "", "", 1)
}

// longer names of bases, of any ending
func vpH_long() {
	lang := vpLangs20[vpPick("lang", 4)]
	name := vpStr2("name", 3, 8, "A-Z", "a-zA-Z")
	d := vpTargets("xs")
	d.open("complexType", "name", name).open("sequence").leaf("element", "name", "inner", "type", "xs:int").closeN(2)
	own := vpDerive(d, 0, 0, "Derived", "t:"+name, func() int { return vpAttrs20(d, 1) })
	vpAssume(name != "Derived" && !vpOwnWord(lang, name))
	o := vpGen(lang, d.done()).ok()
	vpAssert(len(o.Decls) == 2, "not exactly the declared types are generated")
	vpDerived(o, "Derived", o.Decls[0].Ident, "", own)
}

// namespaces bound by inner elements
func vpH_scopes() {
	o, p := vpScoped()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Base == b.Base && a.Type == b.Type, "the base depends on where its namespace is bound| "+a.Ident)
	})
}

// much of something
func vpH_scale() {
	vpScale(func(o *vpOut, D *vpDecl, s *vpBigDecl) {
		if s.Kind != "alias" && o.Lang != "C" {
			vpAssert(D.Base == s.Base, "a type does not have its base, and no other| "+s.Name)
		}
	}, nil)
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Base == b.Base, "a derived type has another base| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Annot == b.Annot && a.Embed == b.Embed && a.Type == b.Type, "a derived type has other members| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, same := vpRenamed()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(same(a.Base, b.Base), "a derived type has another base| "+a.Ident)
		vpAssert(len(a.Fields) == len(b.Fields), "a derived type has other members| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Annot == b.Annot && a.Embed == b.Embed && same(a.Type, b.Type), "a derived type has other members| "+a.Ident)
	})
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Base == b.Base, "a derived type has another base| "+a.Ident)
		vpAssert(len(a.Fields) == len(b.Fields), "a derived type has other members| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Annot == b.Annot && a.Embed == b.Embed && a.Type == b.Type, "a derived type has other members| "+a.Ident)
	})
}
