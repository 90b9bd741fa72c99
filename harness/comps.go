package xgen

// The kinds of global components, with what their declarations have to say.

const vpComponents = 48

type vpComp struct {
	name   string
	decl   bool
	scalar string // built-in type of a single value
	depth  int
	enum   []string
	union  int
	base   string
	value  string // built-in type of a value member
	spec   *vpTypeSpec
	nested string // an anonymous type declared along with it
	also   string // a simple type declared in front of it
	ref    string // identifier of the type it has, instead of scalar
}

func vpComponent(d *vpDoc, kind int, name string) (c vpComp) {
	c = vpComp{name: name, decl: true}
	kid := func() { d.leaf("element", "name", "k1", "type", "xs:boolean") }
	one := []vpMember{{Name: "k1", B: vpBuiltinOf("boolean")}}
	attr := func() { d.leaf("attribute", "name", "a1", "type", "xs:unsignedLong") }
	oneAttr := []vpMember{{Name: "a1", Kind: 1, B: vpBuiltinOf("unsignedLong")}}
	record := func(m ...vpMember) { c.spec = &vpTypeSpec{Ident: vpUpper1(name), Members: m} }
	switch kind {
	case 0:
		d.simple(name, "xs:int", "minInclusive", "1")
		c.scalar = "int"
	case 1:
		d.open("simpleType", "name", name).leaf("list", "itemType", "xs:int").close()
		c.scalar, c.depth = "int", 1
	case 2:
		d.open("simpleType", "name", name).leaf("union", "memberTypes", "xs:int xs:boolean").close()
		c.union = 2
	case 3:
		d.simple(name, "xs:string", "enumeration", "red", "enumeration", "blue")
		c.scalar, c.enum = "string", []string{"red", "blue"}
	case 4:
		d.open("complexType", "name", name).open("sequence")
		kid()
		d.closeN(2)
		record(one...)
	case 5:
		d.leaf("complexType", "name", name)
		record()
	case 6:
		d.open("complexType", "name", name).open("complexContent").open("extension", "base", "U").open("sequence")
		kid()
		d.closeN(4)
		record(one...)
		c.base = "U"
	case 7:
		d.open("complexType", "name", name).open("simpleContent").open("extension", "base", "xs:boolean")
		attr()
		d.closeN(3)
		record(oneAttr...)
		c.value = "boolean"
	case 8:
		d.open("complexType", "name", name).open("sequence")
		c.nested = "nest" + vpItoa(len(d.toks))
		d.open("element", "name", c.nested, "maxOccurs", "unbounded").open("complexType").open("sequence")
		kid()
		d.closeN(5)
		record(vpMember{Name: c.nested, Ref: vpUpper1(c.nested)})
	case 9:
		d.open("group", "name", name).open("choice")
		kid()
		d.closeN(2)
		record(one...)
	case 10:
		d.open("attributeGroup", "name", name)
		attr()
		d.close()
		record(oneAttr...)
	case 11:
		d.leaf("element", "type", "xs:boolean", "name", name)
		c.scalar = "boolean"
	case 12:
		d.open("element", "name", name).open("complexType").open("all")
		kid()
		d.close()
		attr()
		d.closeN(2)
		record(append(one, oneAttr...)...)
	case 13:
		d.open("element", "name", name).open("simpleType").restrict("xs:unsignedLong", "pattern", "1").closeN(2)
		c.scalar = "unsignedLong"
	case 14:
		d.leaf("attribute", "name", name, "type", "xs:unsignedLong")
		c.scalar = "unsignedLong"
	case 15:
		d.open("attribute", "name", name).open("simpleType").restrict("xs:boolean").closeN(2)
		c.scalar = "boolean"
	case 16:
		d.doc("nothing here declares anything")
		c.decl = false
	case 17:
		d.open("complexType", "name", name).open("sequence").leaf("group", "ref", "gg").close().leaf("attributeGroup", "ref", "bb").close()
		record(vpMember{Name: "gg", Kind: 2, Ref: "Gg"}, vpMember{Name: "bb", Kind: 3, Ref: "Bb"})
	case 18:
		d.leaf("element", "name", name)
		c.scalar = "anyType"
	case 19:
		d.open("complexType", "name", name)
		attr()
		d.leaf("anyAttribute").close()
		record(oneAttr...)
	case 20:
		d.open("element", "name", name).open("complexType").open("sequence")
		kid()
		d.leaf("any", "minOccurs", "0").closeN(2)
		d.open("key", "name", "theKey").leaf("selector", "xpath", "k1").leaf("field", "xpath", "@a1").close().close()
		record(one...)
	case 21:
		d.leaf("notation", "name", name, "public", "x")
		c.decl = false
	case 22:
		d.open("group", "name", name).open("all")
		c.nested = "nest" + vpItoa(len(d.toks))
		d.open("element", "name", c.nested).open("complexType").open("sequence")
		kid()
		d.closeN(3)
		d.leaf("element", "name", "k2", "type", "xs:boolean").closeN(2)
		record(vpMember{Name: c.nested, Ref: vpUpper1(c.nested)}, vpMember{Name: "k2", B: vpBuiltinOf("boolean")})
	case 23:
		d.open("element", "name", name).open("complexType").open("simpleContent").open("extension", "base", "xs:boolean")
		attr()
		d.closeN(4)
		record(oneAttr...)
		c.value = "boolean"
	case 24:
		d.leaf("element", "name", name, "type", "U", "nillable", "true")
		c.scalar = "U"
	case 25:
		d.open("simpleType", "name", name).open("list").open("simpleType").restrict("xs:boolean", "enumeration", "true").closeN(3)
		c.scalar, c.depth = "boolean", 1
	case 26:
		d.open("simpleType", "name", name).leaf("union", "memberTypes", "xs:boolean").close()
		c.union = 1
	case 27:
		d.open("group", "name", name).open("sequence").leaf("group", "ref", "gg").closeN(2)
		record(vpMember{Name: "gg", Kind: 2, Ref: "Gg"})
	case 28:
		d.leaf("attributeGroup", "name", name)
		record()
	case 29:
		d.open("group", "name", name).leaf("sequence").close()
		record()
	case 30:
		d.open("complexType", "name", name).open("complexContent").leaf("extension", "base", "U").closeN(2)
		record()
		c.base = "U"
	case 31:
		d.open("simpleType", "name", name).open("restriction").open("simpleType").restrict("xs:boolean").close().leaf("pattern", "value", "t").closeN(2)
		c.scalar = "boolean"
	case 32:
		d.open("complexType", "name", name, "mixed", "true", "abstract", "true").open("choice", "minOccurs", "0", "maxOccurs", "unbounded")
		kid()
		d.closeN(2)
		record(one...)
	case 33:
		d.open("complexType", "name", name).open("choice").open("sequence")
		kid()
		d.close().open("choice").leaf("element", "name", "k2", "type", "xs:boolean").closeN(2)
		attr()
		d.close()
		record(vpMember{Name: "k1", B: vpBuiltinOf("boolean")}, vpMember{Name: "k2", B: vpBuiltinOf("boolean")}, oneAttr[0])
	case 34:
		d.simple(name, "S", "maxLength", "3")
		c.scalar = "base64Binary"
	case 35:
		d.leaf("element", "name", name, "type", "S", "default", "x", "block", "extension", "substitutionGroup", "other")
		c.scalar = "base64Binary"
	case 36:
		d.open("complexType", "name", name).open("complexContent").open("extension", "base", "U").open("choice", "maxOccurs", "3")
		kid()
		d.close()
		attr()
		d.leaf("attributeGroup", "ref", "bb").closeN(3)
		record(one[0], oneAttr[0], vpMember{Name: "bb", Kind: 3, Ref: "Bb"})
		c.base = "U"
	case 37:
		d.open("attributeGroup", "name", name)
		d.open("attribute", "name", "a1").open("simpleType").restrict("xs:unsignedLong", "enumeration", "1").closeN(2)
		d.leaf("attribute", "name", "a2", "type", "xs:boolean", "fixed", "1").close()
		record(oneAttr[0], vpMember{Name: "a2", Kind: 1, B: vpBuiltinOf("boolean")})
	case 38:
		d.leaf("import", "namespace", "http://www.w3.org/XML/1998/namespace")
		c.decl = false
	case 39:
		d.open("element", "name", name).open("complexType").open("sequence").leaf("group", "ref", "gg", "maxOccurs", "2").close()
		d.leaf("attributeGroup", "ref", "bb").closeN(2)
		record(vpMember{Name: "gg", Kind: 2, Ref: "Gg"}, vpMember{Name: "bb", Kind: 3, Ref: "Bb"})
	case 40:
		d.open("complexType", "name", name).doc("a documented type").open("sequence").open("element", "name", "k1", "type", "xs:boolean", "maxOccurs", "1").doc("and child").closeN(2)
		d.open("attribute", "name", "a1", "type", "xs:unsignedLong", "use", "required").doc("and attribute").closeN(2)
		record(append(one, oneAttr...)...)
	case 41:
		d.open("simpleType", "name", name).doc("a documented type").open("restriction", "base", "xs:token")
		for _, f := range []string{"length", "minLength", "maxLength", "totalDigits", "fractionDigits", "minExclusive", "maxExclusive", "minInclusive", "maxInclusive"} {
			d.leaf(f, "value", "1")
		}
		d.leaf("pattern", "value", "a|b").leaf("whiteSpace", "value", "collapse").closeN(2)
		c.scalar = "token"
	case 42: // types of the attribute or element declared right in front
		c.also = "pre" + vpItoa(len(d.toks))
		d.open("simpleType", "name", c.also).leaf("list", "itemType", "xs:int").close()
		d.leaf("attribute", "name", name, "type", c.also)
		c.ref = vpUpper1(c.also)
	case 43:
		c.also = "pre" + vpItoa(len(d.toks))
		d.open("simpleType", "name", c.also).leaf("union", "memberTypes", "xs:int xs:boolean").close()
		d.leaf("element", "name", name, "type", c.also)
		c.ref = vpUpper1(c.also)
	case 44:
		c.also = "pre" + vpItoa(len(d.toks))
		d.simple(c.also, "xs:unsignedLong", "maxInclusive", "7")
		d.leaf("attribute", "name", name, "type", c.also)
		c.scalar = "unsignedLong"
	case 45:
		c.also = "pre" + vpItoa(len(d.toks))
		d.open("simpleType", "name", c.also).leaf("list", "itemType", "xs:int").close()
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", "k1", "type", "xs:boolean", "maxOccurs", "unbounded")
		d.leaf("element", "name", "k2", "type", c.also, "maxOccurs", "2").leaf("group", "ref", "gg", "maxOccurs", "unbounded").close()
		d.leaf("attribute", "name", "a1", "type", "xs:unsignedLong", "use", "required").leaf("attribute", "name", "a2", "type", c.also)
		d.leaf("attributeGroup", "ref", "bb").close()
		record(one[0], vpMember{Name: "k2", Ref: vpUpper1(c.also)}, oneAttr[0], vpMember{Name: "a2", Kind: 1, Ref: vpUpper1(c.also)},
			vpMember{Name: "gg", Kind: 2, Ref: "Gg"}, vpMember{Name: "bb", Kind: 3, Ref: "Bb"})
	case 46:
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", "k1", "type", "xs:boolean").leaf("element", "name", "k2", "type", "U", "maxOccurs", "unbounded", "minOccurs", "0").close()
		d.leaf("attribute", "name", "k9", "type", "xs:unsignedLong").leaf("attribute", "name", "a2", "type", "S", "use", "required").close()
		record(one[0], vpMember{Name: "k2", Ref: "U"}, vpMember{Name: "k9", Kind: 1, B: vpBuiltinOf("unsignedLong")}, vpMember{Name: "a2", Kind: 1, B: vpBuiltinOf("base64Binary")})
	case 47:
		c.also = "pre" + vpItoa(len(d.toks))
		d.simple(c.also, "xs:string", "enumeration", "red", "enumeration", "blue")
		d.open("element", "name", name).open("complexType").open("simpleContent").open("extension", "base", "xs:boolean")
		attr()
		d.closeN(4)
		record(oneAttr...)
		c.value = "boolean"
	}
	return
}

// vpAmong declares what f does between two components of any kind. Neither may
// change what f's declarations give. It returns a number to vary things by.
func vpAmong(d *vpDoc, f func()) int {
	n := vpNeighbours()
	vpBetween(d, n, f)
	return n
}

func vpNeighbours() int {
	return vpPick("before", vpComponents)*8 + vpPick("after", 3+5*vpTier())
}

func vpBetween(d *vpDoc, n int, f func()) {
	vpComponent(d, n/8, "histOne")
	f()
	vpComponent(d, []int{4, 12, 27, 26, 10, 14, 7, 9}[n%8], "histTwo")
}

// vpAmongUses declares what components of any kind refer to.
func vpAmongUses(d *vpDoc) {
	vpUses(d)
	d.open("attributeGroup", "name", "bb").leaf("attribute", "name", "u", "type", "xs:int").close()
	d.open("group", "name", "gg").open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
}

// vpVary picks a language, in the quick tier by a number.
func vpVary(n int) string {
	if vpTier() > 0 {
		return vpLang()
	}
	return vpLangs[n%5]
}

func (c *vpComp) check(o *vpOut, D *vpDecl) {
	lang := o.Lang
	switch {
	case c.spec != nil:
		vpAssert(D.Kind == "struct", "a component is declared as another kind| "+c.name)
		extra := 0
		if c.value != "" && lang != "C" {
			extra = 1
			v := D.field("Value")
			if v == nil {
				v = D.field("value")
			}
			vpAssert(v != nil && vpFits(lang, vpBuiltinOf(c.value), v.Type, v.Depth, 0), "a component has other content than declared| "+c.name)
		}
		c.spec.members(o, extra)
		vpAssert(D.Base == c.base || lang == "C", "a component has another base than declared| "+c.name)
	case c.union > 0:
		vpAssert(D.Kind == "struct" && len(D.Fields) == c.union, "a component has other content than declared| "+c.name)
	case c.enum != nil && lang == "TypeScript":
		vpAssert(D.Kind == "enum" && len(D.Enum) == len(c.enum), "a component has other content than declared| "+c.name)
		for i := range c.enum {
			vpAssert(D.Enum[i].Value == c.enum[i], "a component has other content than declared| "+c.name)
		}
	default:
		ty, depth, ok := D.single()
		vpAssert(ok, "a component is declared as another kind| "+c.name)
		if c.ref != "" {
			vpAssert(ty == c.ref && depth == 0, "a component has other content than declared| "+c.name)
		} else if c.scalar == "U" {
			vpAssert(ty == "U" && depth == 0, "a component has other content than declared| "+c.name)
		} else {
			vpAssert(vpFits(lang, vpBuiltinOf(c.scalar), ty, depth, c.depth), "a component has other content than declared| "+c.name)
		}
	}
}
