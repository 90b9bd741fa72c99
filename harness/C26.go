package xgen

//vp:use lib.go
//vp:use whole.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go
//vp:use uses.go
//vp:use facets.go
//vp:use scale.go
//vp:use noise.go

// C26: a generated file is marked as generated, and whole: its header and
// complete declarations.

// vpGenWhole generates code for a document and reads it strictly.
func vpGenWhole(lang string, toks []vpTok) string {
	text := vpGenText(lang, toks)
	vpWhole(lang, text)
	vpCover("reached")
	return text
}

// two components of any kinds, in front of or behind what they use
func vpH_pairs() {
	d := vpXSD()
	a, b := vpPick("first", vpComponents), vpPick("second", vpComponents)
	before := (a+b)%2 == 0
	if before {
		vpAmongUses(d)
	}
	vpComponent(d, a, "histOne")
	vpComponent(d, b, "histTwo")
	if !before {
		vpAmongUses(d)
	}
	vpGenWhole(vpVary(a+3*b), d.done())
}

// one component under any name, alone: everything it refers to is absent, or
// in front
func vpH_single() {
	d := vpXSD()
	if vpBool("uses") {
		vpAmongUses(d)
	}
	k := vpPick("component", vpComponents)
	vpComponent(d, k, vpStr2("name", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-"))
	vpGenWhole(vpLang(), d.done())
}

// members of any name and kind in every host
func vpH_members() {
	d := vpXSD()
	vpAmongUses(d)
	name := vpStr2("name", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	max := []string{"1", "unbounded"}[vpPick("max", 2)]
	ty := []string{"xs:int", "xs:boolean", "xs:NMTOKENS", "xs:dateTime", "S", "U", "xs:anyType"}[vpPick("type", 7)]
	host, kind := vpPick("host", vpHosts), vpPick("kind", 6)
	if kind > 3 { // references are to what they can refer to, or to nothing
		vpAssume(name != "S" && name != "U" && name != "G")
	}
	n := d.host(host)
	switch kind {
	case 0:
		d.leaf("element", "name", name, "type", ty, "maxOccurs", max)
	case 1:
		d.open("element", "name", name, "maxOccurs", max).open("simpleType").restrict(ty).closeN(2)
	case 2:
		d.open("element", "name", name, "maxOccurs", max).open("complexType").leaf("attribute", "name", "a", "type", ty).closeN(2)
	case 3:
		d.open("element", "name", name, "maxOccurs", max).open("simpleType").leaf("list", "itemType", ty).closeN(2)
	case 4:
		d.leaf("group", "ref", name, "maxOccurs", max)
	case 5:
		d.leaf("element", "ref", name, "maxOccurs", max)
	}
	d.closeN(n)
	vpGenWhole(vpVary(host+kind), d.done())
}

// attributes of any name
func vpH_attributes() {
	d := vpXSD()
	vpAmongUses(d)
	name := vpStr2("name", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(name != "S" && name != "U" && name != "G")
	ty := []string{"xs:int", "xs:IDREFS", "xs:time", "S"}[vpPick("type", 4)]
	use := []string{"", "required", "optional"}[vpPick("use", 3)]
	kv := []string{"name", name, "type", ty, "use", use}
	if use == "" {
		kv = kv[:4]
	}
	switch vpPick("host", 5) {
	case 0:
		d.open("complexType", "name", "Host").leaf("attribute", kv...)
	case 1:
		d.open("attributeGroup", "name", "Host").leaf("attribute", kv...)
	case 2:
		d.open("complexType", "name", "Host").open("simpleContent").open("extension", "base", "xs:int").leaf("attribute", kv...)
	case 3:
		d.open("complexType", "name", "Host").open("complexContent").open("extension", "base", "U").leaf("attribute", kv...)
	case 4:
		d.open("complexType", "name", "Host").leaf("attributeGroup", "ref", name).leaf("attribute", kv...)
	}
	vpGenWhole(vpLang(), d.done())
}

// schemas that declare nothing that is generated, with anything in them
func vpH_nothing() {
	d := vpXSD()
	for i := 0; i < 2; i++ {
		switch vpPick("what", 10) {
		case 1:
			d.doc(vpStr("text", 0, 2, " -~"))
		case 2:
			d.open("annotation").open("appinfo").text("}").closeN(2)
		case 3:
			d.leaf("notation", "name", "n", "public", "x")
		case 4:
			d.leaf("import", "namespace", "urn:b")
		case 5:
			d.toks = append(d.toks, vpTok{Kind: 4, Data: " class X { "})
		case 6:
			d.toks = append(d.toks, vpTok{Kind: 5, Local: "pi", Data: "class X {"})
		case 7:
			d.text("\n\n")
		case 8:
			d.leaf("include", "schemaLocation", "b.xsd")
			vpPutDoc("in/b.xsd", vpXSD().done())
		case 9:
			d.leaf("complexType", "name", "Empty"+vpItoa(i))
		}
	}
	vpGenWhole(vpLang(), d.done())
}

// facets with any value
func vpH_facets() {
	d := vpXSD()
	where := vpPick("where", 3)
	switch where {
	case 0:
		d.open("simpleType", "name", "Named")
	case 1:
		d.open("complexType", "name", "Host").open("sequence").open("element", "name", "x").open("simpleType")
	case 2:
		d.open("complexType", "name", "Host").open("attribute", "name", "x").open("simpleType")
	}
	vpFacet(d)
	vpGenWhole(vpVary(where+vpPick("lang", 2)), d.done())
}

// attributes with any value
func vpH_values() {
	d := vpXSD()
	n := vpFree(d)
	vpGenWhole(vpVary(n+vpPick("lang", 2)), d.done())
}

// documentation anywhere
func vpH_doc() {
	d := vpXSD()
	k := vpPick("component", vpComponents)
	vpAmongUses(d)
	at := len(d.toks)
	vpComponent(d, k, "histOne")
	head := []string{"", "line\n", "*", "\\", "// "}[vpPick("head", 5)]
	note := vpXSD().doc(head + vpStr("text", 1, 1+vpTier(), "\n\r\t -~") + "\n}")
	// into the component's start tag
	var toks []vpTok
	toks = append(toks, d.toks[:at+1]...)
	toks = append(toks, note.toks[1:]...)
	d.toks = append(toks, d.toks[at+1:]...)
	vpGenWhole(vpVary(k+vpPick("lang", 2)), d.done())
}

// enumerated values: any text
func vpH_enum() {
	d := vpXSD()
	base := []string{"xs:string", "xs:NMTOKEN", "xs:anyURI", "xs:token"}[vpPick("base", 4)]
	one := vpStr("value", 1, 2+vpTier(), " -~")
	two := []string{"plain", "", "a-b", "1"}[vpPick("other", 4)]
	vpAssume(one != two)
	switch vpPick("where", 3) {
	case 0:
		d.simple("Named", base, "enumeration", one, "enumeration", two)
	case 1:
		d.open("complexType", "name", "Host").open("sequence").open("element", "name", "x").open("simpleType")
		d.restrict(base, "enumeration", two, "enumeration", one).closeN(4)
	case 2:
		d.open("complexType", "name", "Host").open("attribute", "name", "x").open("simpleType")
		d.restrict(base, "enumeration", one, "enumeration", two).closeN(3)
	}
	vpGenWhole(vpLang(), d.done())
}

// an earlier, longer output in its place, in this or any other language
func vpH_stale() {
	lang := vpLang()
	k := vpPick("component", vpComponents)
	was := []string{"x", "", vpMarker, "// Code generated by xgen. DO NOT EDIT.\n\npackage old\n\ntype Old struct {\n"}[vpPick("stale", 4)]
	for i := 0; i < 40 && was != ""; i++ {
		was += "stale text that is longer than what is written {\n"
	}
	vpPutText("out/a.xsd"+vpExt(lang), was)
	d := vpXSD()
	vpAmongUses(d)
	vpComponent(d, k, "histOne")
	vpGenWhole(lang, d.done())
}

// files that include and import one another: each has one that is whole
func vpH_files() {
	lang := vpLang()
	k := vpPick("component", vpComponents)
	how := vpPick("how", 3)
	a := vpSchema("xs", "xmlns:t", "urn:t", "targetNamespace", "urn:t")
	switch how {
	case 0:
		a.leaf("include", "schemaLocation", "b.xsd")
	case 1:
		a.leaf("import", "namespace", "urn:b", "schemaLocation", "b.xsd")
	}
	a.open("complexType", "name", "Main").open("sequence").leaf("element", "name", "k", "type", "xs:int").closeN(2)
	b := vpXSD()
	if how == 1 {
		b = vpSchema("xs", "xmlns", "urn:b", "targetNamespace", "urn:b")
	}
	vpAmongUses(b)
	vpComponent(b, k, "histOne")
	vpPutDoc("in/a.xsd", a.done())
	vpPutDoc("in/b.xsd", b.done())
	first, second := "a.xsd", "b.xsd"
	if vpBool("other") {
		first, second = second, first
	}
	for _, f := range []string{first, second} {
		err := NewParser(vpOptions(lang, "in", "out", "in/"+f)).Parse()
		vpAssert(err == nil, "Parse failed on a valid schema")
		text, st := vpRead("out/" + f + vpExt(lang))
		vpAssert(st == 0, "no output file was written")
		vpWhole(lang, text)
	}
	vpCover("reached")
}

// one file after another
func vpH_again() {
	lang := vpLang()
	a, b := vpPick("first", vpComponents), vpPick("second", 4)
	pkg := []string{"", "pkg"}[vpPick("package", 2)]
	for i, f := range []string{"a.xsd", "b.xsd"} {
		d := vpXSD()
		vpAmongUses(d)
		if i == 0 {
			vpComponent(d, a, "histOne")
		} else {
			vpComponent(d, []int{4, 0, 9, 14}[b], "histTwo")
		}
		vpPutDoc("in/"+f, d.done())
		opt := vpOptions(lang, "in", "out", "in/"+f)
		opt.Package = pkg
		vpAssert(NewParser(opt).Parse() == nil, "Parse failed on a valid schema")
		text, st := vpRead("out/" + f + vpExt(lang))
		vpAssert(st == 0, "no output file was written")
		vpWhole(lang, text)
	}
	vpCover("reached")
}

// much of something
func vpH_scale() {
	o, _ := vpScale(nil, nil)
	vpWhole(o.Lang, o.Text)
}

// attributes and content that say nothing about the generated code
func vpH_noise() {
	o, p := vpNoise()
	vpWhole(o.Lang, o.Text)
	vpWhole(p.Lang, p.Text)
	vpCover("reached")
}

// much code: nothing of it is lost on the way into the file
func vpH_large() {
	lang := vpLang()
	n := []int{9, 33, 65, 110}[vpPick("count", 4)]
	kind := vpPick("kind", 5)
	last := vpPick("last", 3)
	d := vpXSD()
	vpAmongUses(d)
	for i := 0; i < n; i++ {
		name := "part" + vpItoa(i)
		switch kind {
		case 0:
			d.simple(name, "xs:int")
		case 1:
			d.open("complexType", "name", name).open("sequence").leaf("element", "name", "kid", "type", "xs:int").close().leaf("attribute", "name", "a", "type", "xs:int").close()
		case 2:
			d.simple(name, "xs:string", "enumeration", "red", "enumeration", "blue")
		case 3:
			d.open("simpleType", "name", name).doc("about it").leaf("union", "memberTypes", "xs:int xs:boolean").close()
		case 4:
			d.open("group", "name", name).open("sequence").leaf("element", "name", "kid", "type", "xs:int").closeN(2)
		}
	}
	switch last {
	case 1:
		d.leaf("complexType", "name", "last")
		n++
	case 2:
		d.simple("last", "xs:string")
		n++
	}
	text := vpGenWhole(lang, d.done())
	o := vpParseOut(lang, text).ok()
	vpAssert(len(o.Decls) == n+5, "declarations are lost")
}
