package xgen

// Every position a name can be declared in.

const vpWirePlaces = 16

// vpWireCase declares something named name and tells how to check it.
func vpWireCase(d *vpDoc, place int, name string) func(o *vpOut) {
	member := func(decl string, attr bool) func(o *vpOut) {
		return func(o *vpOut) {
			T := o.find(decl)
			vpAssert(T != nil, "the type is not declared")
			cnt := 0
			for _, f := range T.Fields {
				if f.Type == vpBoolType(o.Lang) {
					cnt++
					vpAssert(f.Wire == name, "a member is not bound to its XML name")
					if o.Lang != "Rust" {
						vpAssert(f.Attr == attr, "a member is bound as the wrong kind of node")
					}
				} else {
					vpAssert(f.Wire != name, "another member is bound to the XML name")
				}
			}
			vpAssert(cnt == 1, "not exactly one member for a declaration")
		}
	}
	decl := func(i int) func(o *vpOut) {
		return func(o *vpOut) {
			vpAssert(len(o.Decls) > i, "no declaration")
			T := &o.Decls[i]
			if o.Lang == "Go" {
				if T.Kind == "struct" && T.Ident != name {
					vpAssert(T.HasWire, "a struct whose identifier is not the XML name has no XMLName")
				}
				if T.HasWire {
					vpAssert(T.Wire == name, "XMLName is not the XML name")
				}
			}
			if o.Lang == "Java" && T.Kind == "alias" {
				vpAssert(T.Wire == name, "a class is not bound to its XML name")
			}
			if o.Lang == "Rust" && len(T.Fields) == 1 && place != 9 && place != 10 && place != 11 && place != 13 {
				vpAssert(T.Fields[0].Wire == name, "a struct member is not bound to its XML name")
			}
		}
	}
	kid := func() { d.leaf("element", "name", name, "type", "xs:boolean", "maxOccurs", "1") }
	att := func() { d.leaf("attribute", "use", "required", "name", name, "type", "xs:boolean") }
	around := func(tag, n string) { d.leaf(tag, "name", n, "type", "xs:int") }
	switch place {
	case 0: // child among others, in each kind of host (place 12)
		n := d.host(vpHostType)
		around("element", "neighbour1")
		kid()
		around("element", "neighbour2")
		d.closeN(n)
		return member("Host", false)
	case 1:
		d.open("complexType", "name", "Host").open("sequence")
		around("element", "neighbour1")
		d.close()
		around("attribute", "neighbour2")
		att()
		around("attribute", "neighbour3")
		d.close()
		return member("Host", true)
	case 2:
		d.open("attributeGroup", "name", "Host")
		around("attribute", "neighbour1")
		att()
		d.close()
		return member("Host", true)
	case 3:
		n := d.host(vpHostGroup)
		kid()
		around("element", "neighbour1")
		d.closeN(n)
		return member("Host", false)
	case 4:
		d.open("complexType", "name", "Host").open("simpleContent").open("extension", "base", "xs:int")
		att()
		around("attribute", "neighbour1")
		d.closeN(3)
		return member("Host", true)
	case 5:
		n := d.host(vpHostNested2)
		kid()
		d.closeN(n)
		return member("Host", false)
	case 6: // anonymous simple type
		n := d.host(vpHostType)
		d.open("element", "name", name).open("simpleType").restrict("xs:boolean").closeN(2)
		around("element", "neighbour1")
		d.closeN(n)
		return member("Host", false)
	case 7:
		n := d.host(vpHostExt)
		around("element", "neighbour1")
		d.open("choice", "maxOccurs", "unbounded")
		kid()
		d.close().closeN(n)
		return func(o *vpOut) { member("Host", false)(o) }
	case 8:
		d.open("complexType", "name", "Host").open("attribute", "name", name).open("simpleType").restrict("xs:boolean").closeN(3)
		return member("Host", true)
	case 9:
		d.open("complexType", "name", name).open("sequence")
		around("element", "neighbour1")
		d.closeN(2)
		return decl(0)
	case 10:
		d.open("attributeGroup", "name", name)
		around("attribute", "neighbour1")
		d.close()
		return decl(0)
	case 11:
		d.open("group", "name", name).open("sequence")
		around("element", "neighbour1")
		d.closeN(2)
		return decl(0)
	case 12:
		d.simple(name, "xs:int", "maxInclusive", "4")
		return decl(0)
	case 13:
		d.open("simpleType", "name", name).leaf("union", "memberTypes", "xs:int xs:boolean").close()
		return decl(0)
	case 14:
		d.leaf("element", "name", name, "type", "xs:int")
		return decl(0)
	}
	d.leaf("attribute", "name", name, "type", "xs:int")
	return decl(0)
}

func vpBoolType(lang string) string {
	if lang == "Java" {
		return "Boolean"
	}
	return "bool"
}

var vpRustWords = []string{"abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn",
	"else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod",
	"move", "mut", "override", "priv", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true",
	"try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield"}

// vpWideName is a name with characters that ASCII does not have.
func vpWideName() string {
	first := []string{"\u00e9", "\u0436", "\u4e2d", "\u00df", "\u01f0", "\u0645", "\u00c9", "a"}
	rest := []string{"", "\u00b7", "\u0301", "\u00e9", "\u0416", "\u0663", "\u3005", "\u0639"}
	i, j := vpPick("first", len(first)), vpPick("second", len(rest))
	name := first[i] + rest[j]
	if vpTier() > 0 {
		return name + vpStr("seam", 0, 1, "a-zA-Z0-9._-") + rest[vpPick("third", 3)]
	}
	return name + []string{"", "-", "b", ".", "_"}[(i+j)%5] + rest[(i+2*j)%3]
}
