package xgen

//vp:use lib.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go
//vp:use uses.go
//vp:use facets.go

// C13: a schema that cannot be processed is reported, never ignored.

func vpParse13(lang, file string) error {
	return NewParser(vpOptions(lang, "in", "out", file)).Parse()
}

// vpBreak puts a document that cannot be read whole at path.
func vpBreak(path string, toks []vpTok) {
	switch vpPick("fault", 5) {
	case 0: // missing
	case 1:
		vpPutFault(path, "loop")
	case 2:
		vpPutFault(path, "eio")
	case 3:
		k := vpPick("malformed after", len(toks)+1)
		bad := append(append([]vpTok{}, toks[:k]...), vpTok{Kind: 6})
		vpPutDoc(path, append(bad, toks[k:]...))
	case 4:
		vpPutDoc(path, toks[:1+vpPick("cut after", len(toks)-1)])
	}
}

// the input
func vpH_input() {
	lang := vpLang()
	d := vpXSD()
	vpComponent(d, vpPick("component", vpComponents), vpStr2("name", 1, 1, "a-zA-Z", "a-z"))
	if vpBool("documented") {
		d.open("complexType", "name", "Doc").doc("text").close()
	}
	vpUses(d)
	vpBreak("in/a.xsd", d.done())
	vpAssert(vpParse13(lang, "in/a.xsd") != nil, "a schema that cannot be read is not reported")
	vpCover("reached")
}

// a schema it needs
func vpH_needed() {
	lang := vpLang()
	d := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:m", "urn:m", "xmlns:a", "urn:a")
	e := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:m", "urn:m", "xmlns:a", "urn:a")
	n := vpSchema("xs", "targetNamespace", "urn:a", "xmlns:a", "urn:a")
	q := "m:Code"
	use := vpPick("use", vpUses10+1)
	uses := func() {
		if use < vpUses10 {
			vpUseIn(d, use, q)
		} else {
			d.open("simpleType", "name", "Host").leaf("union", "memberTypes", "xs:int "+q).close()
		}
	}
	good := vpSchema("xs", "targetNamespace", "urn:m").simple("Fine", "xs:int").done()
	switch vpPick("link", 5) {
	case 0:
		d.leaf("include", "schemaLocation", "b.xsd")
		uses()
		vpBreakNeeded("in/b.xsd", e.simple("Code", "xs:int").done())
	case 1:
		q = "a:Code"
		d.leaf("import", "namespace", "urn:a", "schemaLocation", "b.xsd")
		uses()
		vpBreakNeeded("in/b.xsd", n.simple("Code", "xs:int").done())
	case 2:
		d.leaf("include", "schemaLocation", "a.xsd").leaf("include", "schemaLocation", "b.xsd").leaf("include", "schemaLocation", "c.xsd")
		uses()
		vpPutDoc("in/a.xsd", good)
		vpPutDoc("in/c.xsd", good)
		vpBreakNeeded("in/b.xsd", e.simple("Code", "xs:int").done())
	case 3:
		d.leaf("include", "schemaLocation", "a.xsd")
		uses()
		f := vpSchema("xs", "targetNamespace", "urn:m").leaf("include", "schemaLocation", "sub/b.xsd").simple("Fine", "xs:int")
		vpPutDoc("in/a.xsd", f.done())
		vpBreakNeeded("in/sub/b.xsd", e.simple("Code", "xs:int").done())
	case 4:
		q = "a:Code"
		d.leaf("import", "namespace", "urn:a", "schemaLocation", "a.xsd")
		uses()
		f := vpSchema("xs", "targetNamespace", "urn:a").leaf("include", "schemaLocation", "b.xsd").simple("Fine", "xs:int")
		vpPutDoc("in/a.xsd", f.done())
		vpBreakNeeded("in/b.xsd", n.simple("Code", "xs:int").done())
	}
	vpPutDoc("in/m.xsd", d.done())
	vpAssert(vpParse13(lang, "in/m.xsd") != nil, "a needed schema that cannot be read is not reported")
	vpCover("reached")
}

func vpBreakNeeded(path string, toks []vpTok) {
	if vpBool("directory") {
		vpPutFault(path, "dir")
		return
	}
	vpBreak(path, toks)
}

// the output
func vpH_output() {
	lang := vpLang()
	d := vpXSD()
	vpComponent(d, vpPick("component", vpComponents), vpStr2("name", 1, 1, "a-zA-Z", "a-z"))
	vpUses(d)
	dir := []string{"", "sub/", "sub/deep/"}[vpPick("dir", 3)]
	vpPutDoc("in/"+dir+"a.xsd", d.done())
	file := "out/" + dir + "a.xsd" + vpExt(lang)
	switch vpPick("fault", 8) {
	case 7: // only the beginning is written
		vpPutFault(file, "part")
	case 0:
		vpPutFault("out", "file")
	case 1:
		vpPutFault("out", "loop")
	case 2:
		vpPutFault("out/sub", "file")
		vpAssume(dir != "")
	case 3:
		vpPutFault("out/sub/deep", "file")
		vpAssume(dir == "sub/deep/")
	case 4:
		vpPutFault(file, "dir")
	case 5:
		vpPutFault(file, "loop")
	case 6:
		vpPutFault(file, "full")
	}
	vpAssert(vpParse13(lang, "in/"+dir+"a.xsd") != nil, "output that cannot be written is not reported")
	vpCover("reached")
}

// no failure: it succeeds, over a longer or shorter file of an earlier run too
func vpH_fine() {
	lang := vpLang()
	d := vpXSD()
	vpComponent(d, vpPick("component", vpComponents), vpStr2("name", 1, 1+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-"))
	vpUses(d)
	toks := d.done()
	vpPutDoc("in/a.xsd", toks)
	stale := ""
	for i := 0; i < 40; i++ {
		stale += "stale text that is longer than what is written\n"
	}
	file := "out/a.xsd" + vpExt(lang)
	switch vpPick("before", 4) {
	case 1:
		vpPutText(file, stale)
	case 2:
		vpPutText(file, "x")
	case 3:
		vpPutText("out/other.txt", "kept")
	}
	vpAssert(vpParse13(lang, "in/a.xsd") == nil, "a valid schema is not generated")
	a, st := vpRead(file)
	vpAssert(st == 0, "no output file was written")
	vpPutDoc("in/fresh/b.xsd", toks)
	vpAssert(vpParse13(lang, "in/fresh/b.xsd") == nil, "a valid schema is not generated")
	b, st := vpRead("out/fresh/b.xsd" + vpExt(lang))
	vpAssert(st == 0 && a == b, "output is not written in full over an earlier file")
	vpParseOut(lang, a).ok()
	vpCover("reached")
}

// facets with any value a schema can have
func vpH_facets() {
	d := vpXSD()
	where := vpPick("where", 3)
	lang := vpVary(where + vpPick("lang", 2))
	n := 1
	switch where {
	case 0:
		d.open("simpleType", "name", "Named")
	case 1:
		d.open("complexType", "name", "Host").open("attribute", "name", "a").open("simpleType")
		n = 3
	case 2:
		d.open("element", "name", "item").open("simpleType")
		n = 2
	}
	vpFacet(d)
	d.closeN(n)
	vpPutDoc("in/a.xsd", d.done())
	err := NewParser(vpOptions(lang, "in", "out", "in/a.xsd")).Parse()
	vpAssert(err == nil, "a valid schema is not generated")
	text, st := vpRead("out/a.xsd" + vpExt(lang))
	vpAssert(st == 0, "no output file was written")
	o := vpParseOut(lang, text).ok()
	vpAssert(len(o.Decls) == 1, "a valid schema is not generated in full")
	vpCover("reached")
}

// attributes with any value a schema can have
func vpH_attributes() {
	lang := vpLang()
	d := vpXSD()
	decls := vpFree(d)
	vpPutDoc("in/a.xsd", d.done())
	err := NewParser(vpOptions(lang, "in", "out", "in/a.xsd")).Parse()
	vpAssert(err == nil, "a valid schema is not generated")
	text, st := vpRead("out/a.xsd" + vpExt(lang))
	vpAssert(st == 0, "no output file was written")
	o := vpParseOut(lang, text).ok()
	vpAssert(len(o.Decls) == decls, "a valid schema is not generated in full")
	vpCover("reached")
}

// every kind of reference to what a schema that is not there declares, between
// references that can be resolved
func vpH_refs() {
	lang := vpLang()
	d := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:m", "urn:m", "xmlns:a", "urn:a", "xmlns:o", "urn:o", "xmlns:p", "urn:p")
	q := "m:Code"
	other := func(name string) {
		d.leaf("import", "namespace", "urn:"+name, "schemaLocation", name+".xsd")
		vpPutDoc("in/"+name+".xsd", vpSchema("xs", "targetNamespace", "urn:"+name).simple("Code", "xs:int").done())
	}
	links := vpPick("others", 4)
	if links&1 == 1 {
		other("o")
	}
	if vpBool("import") {
		q = "a:Code"
		d.leaf("import", "namespace", "urn:a", "schemaLocation", "b.xsd")
	} else {
		d.leaf("include", "schemaLocation", "b.xsd")
	}
	if links&2 == 2 {
		other("p")
	}
	if vpBool("a") {
		vpComponent(d, []int{1, 4, 9, 10, 14, 26}[vpPick("before", 6)], "histOne")
	}
	member := func(f func()) {
		d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "k1", "type", "m:U")
		f()
		d.leaf("element", "name", "k2", "type", "m:S").closeN(2)
	}
	switch vpPick("reference", 16) {
	case 0:
		member(func() { d.leaf("group", "ref", q) })
	case 1:
		d.open("complexType", "name", "Host").leaf("attributeGroup", "ref", q).leaf("attribute", "name", "a1", "type", "m:S").close()
	case 2:
		member(func() { d.leaf("element", "ref", q) })
	case 3:
		d.open("complexType", "name", "Host").leaf("attribute", "ref", q).leaf("attribute", "name", "a1", "type", "m:S").close()
	case 4:
		d.open("complexType", "name", "Host").open("complexContent").open("extension", "base", q).open("sequence").leaf("element", "name", "k1", "type", "m:S").closeN(4)
	case 5:
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", q+" xs:int").close()
	case 6:
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", "xs:int "+q+" m:S").close()
	case 7:
		d.open("simpleType", "name", "Host").restrict(q, "maxLength", "4").close()
	case 8:
		member(func() { d.open("element", "name", "k3").open("simpleType").restrict(q, "pattern", "x").closeN(2) })
	case 9:
		d.open("element", "name", "Host").open("complexType").open("sequence").leaf("element", "name", "k1", "type", q)
		d.leaf("element", "name", "k2", "type", "m:U").closeN(3)
	case 10:
		d.open("group", "name", "Host").open("sequence").leaf("element", "name", "k2", "type", q, "maxOccurs", "2")
		d.leaf("group", "ref", "m:G").closeN(2)
	case 11:
		d.open("attributeGroup", "name", "Host").leaf("attribute", "name", "k2", "type", q).leaf("attribute", "name", "a1", "type", "m:S").close()
	case 12:
		d.open("group", "name", "Host").open("choice").leaf("group", "ref", q).leaf("group", "ref", "m:G").closeN(2)
	case 13:
		d.open("complexType", "name", "Host").open("simpleContent").open("extension", "base", q).leaf("attribute", "name", "a1", "type", "m:S").closeN(3)
	case 14:
		d.open("simpleType", "name", "Host").open("list").open("simpleType").restrict(q).closeN(3)
	case 15:
		d.leaf("element", "name", "Host", "type", q)
	}
	vpUses(d)
	vpPutDoc("in/m.xsd", d.done())
	vpAssert(vpParse13(lang, "in/m.xsd") != nil, "a needed schema that cannot be read is not reported")
	vpCover("reached")
}

// a fault far from the input: after many schemas, components or directories
func vpH_far() {
	n := []int{3, 4, 5, 7, 8, 9, 10, 16, 17, 33}[vpPick("size", 10)]
	shape := vpPick("shape", 5)
	lang := vpLangs[(n+shape)%5]
	bad := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:m", "urn:m").simple("Code", "xs:int").done()
	d := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:m", "urn:m")
	switch shape {
	case 0, 1: // the end of a chain of includes or of imports
		ns := "urn:m"
		for i := 0; i < n; i++ {
			here := ns
			if shape == 1 {
				ns = "urn:n" + vpItoa(i+1)
			}
			d = vpSchema("xs", "targetNamespace", here, "xmlns:q", ns)
			if shape == 0 {
				d.leaf("include", "schemaLocation", "f"+vpItoa(i+1)+".xsd")
			} else {
				d.leaf("import", "namespace", ns, "schemaLocation", "f"+vpItoa(i+1)+".xsd")
			}
			if i == 0 {
				d.open("complexType", "name", "T").leaf("attribute", "name", "x", "type", "q:Code").close()
			} else if shape == 1 {
				d.simple("Code", "q:Code")
			} else {
				d.simple("Other"+vpItoa(i), "xs:boolean")
			}
			vpPutDoc("in/f"+vpItoa(i)+".xsd", d.done())
		}
		vpBreakNeeded("in/f"+vpItoa(n)+".xsd", vpSchema("xs", "targetNamespace", ns).simple("Code", "xs:int").done())
	case 2: // one of many
		at := []int{1, (n + 1) / 2, n}[vpPick("at", 3)]
		for i := 1; i <= n; i++ {
			f := "f" + vpItoa(i) + ".xsd"
			d.leaf("include", "schemaLocation", f)
			if i == at {
				vpBreakNeeded("in/"+f, bad)
			} else {
				vpPutDoc("in/"+f, vpSchema("xs", "targetNamespace", "urn:m").simple("Code"+vpItoa(i), "xs:int").done())
			}
		}
		d.open("complexType", "name", "T").leaf("attribute", "name", "x", "type", "m:Code").close()
		vpPutDoc("in/f0.xsd", d.done())
	case 3: // a syntax error after many components
		for i := 0; i < n; i++ {
			vpComponent(d, (i*7+n)%vpComponents, "c"+vpItoa(i))
		}
		vpUses(d)
		toks := d.done()
		if vpBool("cut") {
			toks = toks[:len(toks)-1-vpPick("less", 4)]
		} else {
			k := len(toks) - vpPick("before the end", 6)
			toks = append(append(append([]vpTok{}, toks[:k]...), vpTok{Kind: 6}), toks[k:]...)
		}
		vpPutDoc("in/f0.xsd", toks)
	case 4: // output below many directories
		dir := ""
		for i := 0; i < n; i++ {
			dir += "d" + vpItoa(i) + "/"
		}
		d.simple("Code", "xs:int")
		vpPutDoc("in/"+dir+"a.xsd", d.done())
		switch vpPick("fault", 4) {
		case 0:
			vpPutFault("out/"+dir[:len(dir)-1], "file")
		case 1:
			vpPutFault("out/d0", "file")
		case 2:
			vpPutFault("out/"+dir+"a.xsd"+vpExt(lang), "full")
		case 3:
			vpPutFault("out/"+dir+"a.xsd"+vpExt(lang), "dir")
		}
		vpAssert(vpParse13(lang, "in/"+dir+"a.xsd") != nil, "output that cannot be written is not reported")
		vpCover("reached")
		return
	}
	vpAssert(vpParse13(lang, "in/f0.xsd") != nil, "a needed schema that cannot be read is not reported")
	vpCover("reached")
}

// large valid schemas in deep directories
func vpH_large() {
	n := []int{5, 9, 10, 17, 33, 64}[vpPick("components", 6)]
	k := vpPick("kind", vpComponents)
	lang := vpLangs[(n+k)%5]
	d := vpXSD()
	for i := 0; i < n; i++ {
		vpComponent(d, (k+i)%vpComponents, "c"+vpItoa(i))
	}
	vpUses(d)
	dir := []string{"", "one/two/three/four/five/six/seven/eight/nine/"}[k%2]
	vpPutDoc("in/"+dir+"a.xsd", d.done())
	file := "out/" + dir + "a.xsd" + vpExt(lang)
	fail := vpBool("partly")
	if fail {
		vpPutFault(file, "part")
	}
	err := vpParse13(lang, "in/"+dir+"a.xsd")
	if fail {
		vpAssert(err != nil, "output that cannot be written is not reported")
	} else {
		vpAssert(err == nil, "a valid schema is not generated")
		text, st := vpRead(file)
		vpAssert(st == 0, "no output file was written")
		vpParseOut(lang, text).ok()
	}
	vpCover("reached")
}
