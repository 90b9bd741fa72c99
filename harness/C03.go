package xgen

//vp:use lib.go
//vp:use scale.go
//vp:use uses.go
//vp:use noise.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

// C03: attributes are mandatory exactly when declared required.

const vpAttrHosts = 12

// vpAttrHost opens a place for attributes; the declaration generated for it
// is named Host.
func vpAttrHost(d *vpDoc, kind int) int {
	child := func() {
		d.open("sequence").leaf("element", "name", "kid", "type", "xs:int").close()
	}
	switch kind {
	case 0:
		d.open("complexType", "name", "Host")
		return 1
	case 1:
		d.open("complexType", "name", "host")
		child()
		return 1
	case 2:
		d.open("complexType", "name", "Host").open("complexContent").open("extension", "base", "U")
		child()
		return 3
	case 3:
		d.open("complexType", "name", "Host").open("simpleContent").open("extension", "base", "xs:token")
		return 3
	case 4:
		d.open("attributeGroup", "name", "Host")
		return 1
	case 5:
		d.open("complexType", "name", "Outer").open("sequence").open("element", "name", "host").open("complexType")
		return 4
	case 6:
		d.open("element", "name", "Host").open("complexType")
		child()
		return 2
	case 7:
		d.open("complexType", "name", "Outer").open("choice").leaf("element", "name", "kid", "type", "U")
		d.open("element", "name", "host", "maxOccurs", "unbounded").open("complexType").open("simpleContent").open("extension", "base", "xs:token")
		return 6
	case 8:
		d.open("group", "name", "Outer").open("sequence").open("element", "name", "host").open("complexType")
		return 4
	case 9:
		d.open("complexType", "name", "Host").open("complexContent").open("restriction", "base", "U")
		child()
		return 3
	case 10:
		d.open("complexType", "name", "Host", "mixed", "true")
		d.open("choice", "maxOccurs", "unbounded").leaf("element", "name", "kid", "type", "S").close()
		d.leaf("attributeGroup", "ref", "A")
		return 1
	}
	d.open("complexType", "name", "Host").open("complexContent").open("extension", "base", "U")
	return 3
}

// vpAttrUses declares what the attributes refer to.
func vpAttrUses(d *vpDoc) {
	d.open("attributeGroup", "name", "A").leaf("attribute", "name", "x", "type", "xs:int", "use", "required").close()
	d.leaf("attribute", "name", "kr", "type", "xs:boolean")
}

type vpAttrCase struct {
	name string
	b    vpBuiltin
	req  bool
}

// vpAttrDecl writes an attribute declaration with a symbolic use.
func vpAttrDecl(d *vpDoc, name string, order, extra, kind int) (c vpAttrCase) {
	c = vpAttrCase{name: name, b: vpBuiltinOf("token")}
	use := ""
	if vpBool("use." + name) {
		use = vpStr("use.value."+name, 8, 8, "a-z")
		vpAssume(use == "optional" || use == "required")
		c.req = use == "required"
	}
	n := []string{"name", name}
	ty := []string{"", ""}
	switch kind {
	case 0:
		ty = []string{"type", "xs:token"}
	case 1:
		ty = []string{"type", "S"}
		c.b = vpBuiltinOf("base64Binary")
	case 2:
		c.b = vpBuiltinOf("unsignedInt")
	case 3:
		c.b = vpBuiltinOf("anySimpleType")
	case 4:
		c.name = "kr"
		n = []string{"ref", "kr"}
		c.b = vpBuiltinOf("boolean")
	case 5:
		ty = []string{"type", "xs:NMTOKENS"}
		c.b = vpBuiltinOf("NMTOKENS")
	}
	u := []string{"", ""}
	if use != "" {
		u = []string{"use", use}
	}
	e := [][]string{{"", ""}, {"form", "qualified"}, {"default", "required"}, {"id", "required"}, {"fixed", "optional"}}[extra]
	var kv []string
	for _, p := range [][][]string{{n, ty, u, e}, {u, n, ty, e}, {ty, u, e, n}, {e, u, n, ty}, {n, u, e, ty}, {ty, n, e, u}}[order] {
		kv = append(kv, p...)
	}
	d.open("attribute", kv...)
	if extra == 3 {
		d.doc("use is required")
	}
	if kind == 2 {
		d.open("simpleType").restrict("xs:unsignedInt", "enumeration", "3").close()
	}
	d.close()
	return
}

func vpCheckAttr(o *vpOut, T *vpDecl, c vpAttrCase) {
	f := T.field(vpIdent(o.Lang, c.name, true))
	vpAssert(f != nil, "no member for an attribute")
	if o.Lang != "TypeScript" && o.Lang != "Rust" { // no mark in the notation
		vpAssert(f.Attr, "an attribute is not marked as one")
	}
	vpAssert(f.Opt == !c.req, "an attribute is optional though required, or required though optional")
	vpType("C03", o.Lang, c.b, f.Type, f.Depth, 0, "the type of an attribute is changed| "+f.Type)
}

// one attribute, in every place
func vpH_one() {
	lang := vpLang()
	host := vpPick("host", vpAttrHosts)
	d := vpXSD()
	before := vpBool("before")
	if before {
		vpUses(d)
		vpAttrUses(d)
	}
	n := vpAttrHost(d, host)
	order := vpPick("order", 6)
	extra := (order + host) % 5
	if vpTier() > 0 {
		extra = vpPick("extra", 5)
	}
	c := vpAttrDecl(d, "ka", order, extra, vpPick("kind", 6))
	d.closeN(n)
	if !before {
		vpUses(d)
		vpAttrUses(d)
	}
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil, "the type is not declared")
	vpCheckAttr(o, T, c)
	vpCover("reached")
}

// several attributes do not influence one another
func vpH_several() {
	lang := vpLang()
	host := vpPick("host", vpAttrHosts)
	d := vpXSD()
	n := vpAttrHost(d, host)
	kind := vpPick("kind", 4)
	cs := []vpAttrCase{
		vpAttrDecl(d, "ka", 0, 0, []int{0, 2, 1, 2}[kind]),
		vpAttrDecl(d, "kb", []int{2, 0, 2, 1}[kind], 0, []int{2, 0, 3, 2}[kind]),
	}
	if vpTier() > 0 {
		cs = append(cs, vpAttrDecl(d, "kc", 0, vpPick("extra", 5), 0))
	} else {
		cs = append(cs, vpAttrDecl(d, "kc", 0, 0, 0))
	}
	d.closeN(n)
	if (kind == 0 || vpTier() > 0) && vpBool("next") {
		d.open("attributeGroup", "name", "B")
		cs = append(cs, vpAttrDecl(d, "kd", 0, 0, 0))
		d.close()
	}
	vpUses(d)
	vpAttrUses(d)
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil, "the type is not declared")
	for i, c := range cs {
		if i == 3 {
			T = o.find("B")
			vpAssert(T != nil, "the attribute group is not declared")
		}
		vpCheckAttr(o, T, c)
	}
	vpCover("reached")
}

// children carry no attribute marks
func vpH_children() {
	lang := vpLang()
	d := vpXSD()
	n := d.host(vpPick("host", vpHosts))
	k, v := "", ""
	if vpBool("use") {
		k, v = "minOccurs", "0"
	}
	d.leaf("element", "name", "kid", "type", "xs:int", k, v).closeN(n)
	vpUses(d)
	d.open("attributeGroup", "name", "A").leaf("attribute", "name", "kid", "type", "xs:int", "use", "required").close()
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) == 1 && !T.Fields[0].Attr && (!T.Fields[0].Opt || k != ""), "a child is marked as an attribute")
	A := o.find("A")
	vpAssert(A != nil && len(A.Fields) == 1 && !A.Fields[0].Opt, "the attribute of the group is not mandatory")
	vpCover("reached")
}

// an attribute between components of every kind
func vpH_among() {
	d := vpXSD()
	host, kind := vpPick("host", vpAttrHosts), vpPick("kind", 3)
	var c vpAttrCase
	sum := vpAmong(d, func() {
		n := vpAttrHost(d, host)
		c = vpAttrDecl(d, "ka", 0, 0, []int{0, 2, 4}[kind])
		d.closeN(n)
	})
	vpAmongUses(d)
	vpAttrUses(d)
	o := vpGen(vpVary(sum+host+kind), d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil, "the type is not declared")
	vpCheckAttr(o, T, c)
	vpCover("reached")
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Attr == b.Attr, "a child is marked as an attribute| "+a.Ident)
		vpAssert(a.Opt == b.Opt, "an attribute is optional though required, or required though optional| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, _ := vpRenamed()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Attr == b.Attr, "a child is marked as an attribute, or an attribute as a child| "+a.Ident)
		vpAssert(a.Opt == b.Opt, "an attribute is optional though required, or required though optional| "+a.Ident)
	})
}

// much of something
func vpH_scale() {
	vpScale(nil, func(o *vpOut, f *vpField, m *vpBigMember) {
		if m.Kind == 1 {
			vpAssert(f.Opt == !m.Required, "an attribute is optional though required, or required though optional")
		}
	})
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Attr == b.Attr, "a child is marked as an attribute, or an attribute as a child| "+a.Ident)
		vpAssert(a.Opt == b.Opt, "an attribute is optional though required, or required though optional| "+a.Ident)
	})
}
