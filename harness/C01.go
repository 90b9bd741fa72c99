package xgen

//vp:use lib.go
//vp:use scale.go
//vp:use gen.go
//vp:use comps.go
//vp:use uses.go
//vp:use noise.go
//vp:use oracle.go

// C01: built-in types map to an adequate target type, wherever they are used
// and whatever prefix the schema binds to XSD.

const vpPlaces = 18

// vpPlace puts one use of type ty into d and tells how to find it again.
func vpUseType(d *vpDoc, place int, ty string) (get func(o *vpOut) (string, int), extra int) {
	field := func(decl, ident string, attr bool) func(o *vpOut) (string, int) {
		return func(o *vpOut) (string, int) {
			T := o.find(decl)
			vpAssert(T != nil, "no declaration| "+decl)
			f := T.field(vpIdent(o.Lang, ident, attr))
			vpAssert(f != nil, "no member| "+ident)
			return f.Type, f.Depth
		}
	}
	single := func(decl string) func(o *vpOut) (string, int) {
		return func(o *vpOut) (string, int) {
			T := o.find(decl)
			vpAssert(T != nil, "no declaration| "+decl)
			t, depth, ok := T.single()
			vpAssert(ok, "not a single value")
			return t, depth
		}
	}
	value := func(decl string) func(o *vpOut) (string, int) {
		return func(o *vpOut) (string, int) {
			T := o.find(decl)
			vpAssert(T != nil, "no declaration| "+decl)
			f := T.field("Value")
			if f == nil {
				f = T.field("value")
			}
			vpAssert(f != nil, "simple content without a value member")
			return f.Type, f.Depth
		}
	}
	switch place {
	case 0:
		n := d.host(vpHostType)
		d.leaf("element", "name", "kid", "type", ty).closeN(n)
		return field("Host", "kid", false), 0
	case 1:
		d.open("complexType", "name", "Host").leaf("attribute", "name", "kid", "type", ty).close()
		return field("Host", "kid", true), 0
	case 2:
		d.simple("Host", ty)
		return single("Host"), 0
	case 3:
		d.open("simpleType", "name", "Host").leaf("list", "itemType", ty).close()
		return single("Host"), 1
	case 4:
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", ty+" t:Other").close()
		d.simple("Other", d.ty("string"))
		return func(o *vpOut) (string, int) {
			T := o.find("Host")
			vpAssert(T != nil && len(T.Fields) == 2, "a union without its members")
			for _, f := range T.Fields {
				if !vpIn(f.Ident, "Other", "other") {
					return f.Type, f.Depth
				}
			}
			return "", 0
		}, 0
	case 5:
		d.open("complexType", "name", "Host").open("simpleContent").leaf("extension", "base", ty).closeN(2)
		return value("Host"), 0
	case 6:
		d.leaf("element", "name", "Host", "type", ty)
		return single("Host"), 0
	case 7:
		d.leaf("attribute", "type", ty, "name", "Host")
		return single("Host"), 0
	case 8:
		n := d.host(vpHostGroup)
		d.leaf("element", "name", "kid", "type", ty).closeN(n)
		return field("Host", "kid", false), 0
	case 9:
		d.open("attributeGroup", "name", "Host").leaf("attribute", "name", "kid", "type", ty, "use", "required").close()
		return field("Host", "kid", true), 0
	case 10:
		n := d.host(vpHostElem)
		d.open("element", "name", "kid").open("simpleType").restrict(ty).closeN(2).closeN(n)
		return field("Host", "kid", false), 0
	case 11:
		d.open("complexType", "name", "Host").open("attribute", "name", "kid").open("simpleType").restrict(ty).closeN(3)
		return field("Host", "kid", true), 0
	case 12:
		n := d.host(vpHostNested)
		d.leaf("element", "type", ty, "name", "kid", "minOccurs", "0").closeN(n)
		return field("Host", "kid", false), 0
	case 13:
		n := d.host(vpHostExt)
		d.leaf("element", "name", "kid", "maxOccurs", "unbounded", "type", ty).closeN(n)
		return field("Host", "kid", false), 1
	case 14:
		d.open("complexType", "name", "Host").open("simpleContent").open("extension", "base", ty)
		d.leaf("attribute", "name", "kid", "type", d.ty("int")).closeN(3)
		return value("Host"), 0
	case 15:
		d.open("complexType", "name", "Host").open("simpleContent").open("extension", "base", d.ty("int"))
		d.leaf("attribute", "name", "kid", "type", ty).closeN(3)
		return field("Host", "kid", true), 0
	case 16: // through a named simple type declared later
		n := d.host(vpHostType)
		d.leaf("element", "name", "kid", "type", "t:Later").closeN(n)
		d.simple("Later", ty)
		return field("Host", "kid", false), 0
	}
	d.open("simpleType", "name", "Host").open("list").open("simpleType").restrict(ty).closeN(3)
	return single("Host"), 1
}

func vpCheckUse(lang, prefix string, b vpBuiltin, place int) {
	vpAssume(!(lang == "C" && vpIn(vpItoa(place), "5", "14")))    // C has no value member (C20)
	vpAssume(!(b.Kind == vpTList && (place == 3 || place == 17))) // no lists of lists in XSD
	vpAssume(!(b.Kind == vpTAny && b.Name == "anyType" && !vpIn(vpItoa(place), "0", "6", "8", "12", "13")))
	d := vpTargets(prefix)
	get, extra := vpUseType(d, place, d.ty(b.Name))
	d.open("complexType", "name", "U").open("sequence").leaf("element", "name", "u", "type", d.ty("int")).closeN(2)
	o := vpGen(lang, d.done()).ok()
	ty, depth := get(o)
	vpType("C01", lang, b, ty, depth, extra, "a built-in type maps to an unsuitable target type| "+b.Name+" -> "+ty)
	vpCover("reached")
}

// every built-in type in every place
func vpH_everywhere() {
	prefix := []string{"xs", ""}[vpPick("prefix", 2)]
	vpCheckUse(vpLang(), prefix, vpBuiltins[vpPick("type", len(vpBuiltins))], vpPick("place", vpPlaces))
}

// every prefix
func vpH_prefix() {
	n := 8
	if vpTier() > 0 {
		n = len(vpBuiltins)
	}
	prefix := vpStr2("prefix", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(prefix != "t")
	vpAssume(prefix != "xml")
	vpCheckUse(vpLang(), prefix, vpBuiltins[vpPick("type", n)], vpPick("place", vpPlaces))
}

// the attributes of the xml namespace are text
func vpH_xml() {
	lang := vpLang()
	name := []string{"lang", "space", "base", "id"}[vpPick("attr", 4)]
	d := vpXSD()
	switch vpPick("place", 3) {
	case 0:
		d.open("complexType", "name", "Host")
	case 1:
		d.open("attributeGroup", "name", "Host")
	case 2:
		d.open("element", "name", "Host").open("complexType").open("simpleContent").open("extension", "base", "xs:int")
	}
	d.leaf("attribute", "ref", "xml:"+name)
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) > 0, "no member for an xml attribute")
	f := T.Fields[0]
	vpAssert(vpFits(lang, vpBuiltin{"string", vpTText, 0}, f.Type, f.Depth, 0), "an attribute of the xml namespace is not text")
	vpCover("reached")
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Type == b.Type, "the type of a declaration depends on what says nothing| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Type == b.Type, "the type of a member depends on what says nothing| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, same := vpRenamed()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(same(a.Type, b.Type), "a declaration has another type than declared| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(same(a.Type, b.Type), "a member has another type than declared| "+a.Ident)
	})
}

// namespaces bound by inner elements
func vpH_scopes() {
	o, p := vpScoped()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Type == b.Type, "the type of a declaration depends on where its namespace is bound| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Type == b.Type && a.Depth == b.Depth, "the type of a member depends on where its namespace is bound| "+a.Ident)
	})
}

// much of something
func vpH_scale() {
	vpScale(func(o *vpOut, D *vpDecl, s *vpBigDecl) {
		if s.B != "" {
			ty, depth, ok := D.single()
			vpAssert(ok && vpFits(o.Lang, vpBuiltinOf(s.B), ty, depth, 0), "a built-in type maps to an unsuitable target type| "+s.Name)
		}
	}, func(o *vpOut, f *vpField, m *vpBigMember) {
		if m.B != "" {
			extra := 0
			if m.Many {
				extra = 1
			}
			vpAssert(vpFits(o.Lang, vpBuiltinOf(m.B), f.Type, f.Depth, extra), "a built-in type maps to an unsuitable target type| "+m.Name)
		}
	})
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Type == b.Type, "a declaration has another type than declared| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Type == b.Type, "a member has another type than declared| "+a.Ident)
	})
}
