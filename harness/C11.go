package xgen

import "strings"

//vp:use lib.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

// C11: output is a function of the schema alone. The first generation of a
// path iterates over maps in order of insertion; the one compared with it
// takes every order.

func vpSameText(a, b string) {
	vpAssert(a == b, "the same schema gives different output")
	vpCover("reached")
}

func vpTextOf(lang, file string, toks []vpTok) string {
	vpPutDoc("in/"+file, toks)
	return vpGenFile(lang, file)
}

func vpMapUses(d *vpDoc) {
	vpUses(d)
	d.open("attributeGroup", "name", "bb").leaf("attribute", "name", "u", "type", "xs:int").close()
	d.open("group", "name", "gg").open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
}

// unions: every order of their map of members
func vpH_union() {
	lang := vpLang()
	all := []string{"xs:int", "xs:token", "First", "second", "xs:string", "xs:short", "Third"}
	n := 2 + vpPick("members", 2+vpTier())
	members := ""
	for i, at := 0, 0; i < n; i++ {
		at += vpPick("member", 3)
		vpAssume(at < len(all))
		members += " " + all[at]
		at++
	}
	d := vpXSD()
	first := vpBool("types first")
	types := func() {
		d.simple("First", "xs:token")
		d.simple("second", "First")
		d.open("complexType", "name", "Third").close()
	}
	if first {
		types()
	}
	d.open("simpleType", "name", "Mixed").leaf("union", "memberTypes", members[1:]).close()
	d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "k", "type", "Mixed").closeN(2)
	if !first {
		types()
	}
	toks := d.done()
	a := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(true)
	b := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(false)
	vpSameText(a, b)
}

// unions of many members, of one target type or several
func vpH_crowd() {
	lang := vpLang()
	all := strings.Fields("xs:string xs:token xs:NMTOKEN xs:Name xs:NCName xs:ID xs:IDREF xs:language xs:anyURI xs:ENTITY xs:normalizedString First second xs:int Third xs:long xs:gDay xs:gYear xs:NOTATION xs:gMonth")
	n := []int{5, 7, 8, 9, 10, 12, 13, 16, 17, 20}[vpPick("members", 10)]
	d := vpXSD()
	d.open("simpleType", "name", "Mixed").leaf("union", "memberTypes", strings.Join(all[:n], " ")).close()
	d.simple("First", "xs:token").simple("second", "First")
	d.open("complexType", "name", "Third").close()
	toks := d.done()
	a := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(true)
	b := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(false)
	vpSameText(a, b)
}

// an output file of an earlier run, whatever it contains
func vpH_stale() {
	lang := vpLang()
	d := vpXSD()
	vpComponent(d, vpPick("component", vpComponents), "comp1")
	vpMapUses(d)
	toks := d.done()
	first := vpTextOf(lang, "a.xsd", toks)
	stale := vpStr("stale", 0, 2, " -~")
	switch vpPick("length", 4) {
	case 1:
		stale = first + stale
	case 2:
		stale += strings.Repeat("stale text\n", 300)
	case 3:
		stale += first[len(first)/2:]
	}
	vpPutText("out/a.xsd"+vpExt(lang), stale)
	vpSameText(first, vpTextOf(lang, "a.xsd", toks))
}

// unions with arbitrary member names
func vpH_unionNames() {
	lang := vpLang()
	x := vpStr2("x", 1, 1+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	y := vpStr2("y", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(x != y)
	d := vpXSD()
	d.open("simpleType", "name", "Mixed").leaf("union", "memberTypes", x+" xs:int "+y).close()
	if vpBool("declared") {
		d.simple(x, "xs:int")
	}
	toks := d.done()
	a := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(true)
	b := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(false)
	vpSameText(a, b)
}

// several schemas included and imported, with types that have the same name
func vpH_files() {
	lang := vpLang()
	part := func(tns, base string, n int, inc string) []vpTok {
		e := vpSchema("xs", "targetNamespace", tns, "xmlns:t", tns)
		if inc != "" {
			e.leaf("include", "schemaLocation", inc)
		}
		e.simple("Shared", "xs:"+base)
		e.simple("Own"+vpItoa(n), "xs:"+base)
		return e.done()
	}
	kind := vpPick("kind", 3)
	d := vpSchema("xs", "targetNamespace", "urn:t", "xmlns:t", "urn:t", "xmlns:a", "urn:a", "xmlns:b", "urn:b", "xmlns:c", "urn:c")
	n := 2 + vpTier()
	for i := 1; i <= n; i++ {
		s, p := vpItoa(i), []string{"a", "b", "c"}[i-1]
		base := []string{"int", "boolean", "double"}[i-1]
		switch kind {
		case 0:
			vpPutDoc("in/part"+s+".xsd", part("urn:t", base, i, ""))
			d.leaf("include", "schemaLocation", "part"+s+".xsd")
		case 1:
			vpPutDoc("in/part"+s+".xsd", part("urn:"+p, base, i, ""))
			d.leaf("import", "namespace", "urn:"+p, "schemaLocation", "part"+s+".xsd")
		case 2:
			vpPutDoc("in/part"+s+".xsd", part("urn:t", base, i, "part"+vpItoa(i%n+1)+".xsd"))
			d.leaf("include", "schemaLocation", "part"+s+".xsd")
		}
	}
	d.open("complexType", "name", "Host").open("sequence")
	for i := 1; i <= n; i++ {
		p := "t"
		if kind == 1 {
			p = []string{"a", "b", "c"}[i-1]
		}
		d.leaf("element", "name", "own"+vpItoa(i), "type", p+":Own"+vpItoa(i))
		if vpBool("shared") {
			d.leaf("element", "name", "shared"+vpItoa(i), "type", p+":Shared")
		}
	}
	toks := d.done()
	a := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(true)
	b := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(false)
	vpSameText(a, b)
}

// any pair of components, every order of every map on the way
func vpH_maps() {
	lang := vpLang()
	d := vpXSD()
	vpComponent(d, vpPick("component", vpComponents), "comp1")
	vpComponent(d, vpPick("component", vpComponents), "comp2")
	vpMapUses(d)
	toks := d.done()
	a := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(true)
	b := vpTextOf(lang, "a.xsd", toks)
	vpMapOrder(false)
	vpSameText(a, b)
}

// whatever was generated before in the process
func vpH_history() {
	lang := vpLang()
	k, h := vpPick("component", vpComponents), vpPick("history", vpComponents)
	d := vpXSD()
	vpComponent(d, k, "a-b")
	vpMapUses(d)
	toks := d.done()
	first := vpTextOf(lang, "a.xsd", toks)

	e := vpXSD()
	name, file := "a.b", "b.xsd"
	if (k+h)%2 == 0 {
		name, file = "a-b", "a.xsd"
	}
	vpComponent(e, h, name)
	e.simple("Extra", "xs:int", "enumeration", "1").simple("U", "xs:boolean")
	vpMapUses(e)
	other := vpLangs[(k+h/2)%len(vpLangs)]
	if vpTier() > 0 {
		other = vpLangs[vpPick("other", len(vpLangs))]
	}
	vpTextOf(other, file, e.done())
	if vpTier() > 0 {
		vpTextOf(lang, file, e.done())
	}

	vpSameText(first, vpTextOf(lang, "a.xsd", toks))
}

// a generation that failed leaves nothing behind
func vpH_failure() {
	lang := vpLang()
	d := vpXSD()
	vpComponent(d, vpPick("component", vpComponents), "comp1")
	vpMapUses(d)
	toks := d.done()
	first := vpTextOf(lang, "a.xsd", toks)
	e := vpXSD()
	vpComponent(e, vpPick("failing", vpComponents), "comp1")
	e.open("complexType", "name", "Open").open("choice", "maxOccurs", "unbounded").open("element", "name", "x").open("simpleType").open("restriction", "base", "xs:int")
	e.leaf("enumeration", "value", "1")
	e.toks = append(e.toks, vpTok{Kind: 6})
	vpPutDoc("in/bad.xsd", e.toks)
	err := NewParser(vpOptions(lang, "in", "out", "in/bad.xsd")).Parse()
	vpAssert(err != nil, "malformed input is accepted")
	vpSameText(first, vpTextOf(lang, "a.xsd", toks))
}

// an earlier generation with other options
func vpH_options() {
	lang := vpLang()
	k := vpPick("component", vpComponents)
	d := vpXSD()
	vpComponent(d, k, "a-b")
	vpMapUses(d)
	toks := d.done()
	gen := func(l, out, pkg string) string {
		vpPutDoc("in/a.xsd", toks)
		opt := vpOptions(l, "in", out, "in/a.xsd")
		opt.Package = pkg
		vpAssert(NewParser(opt).Parse() == nil, "Parse failed on a valid schema")
		text, st := vpRead(out + "/a.xsd" + vpExt(l))
		vpAssert(st == 0, "no output file was written")
		return text
	}
	pkgs := []string{"", "one", "org.two"}
	p, q := pkgs[vpPick("package", 3)], pkgs[vpPick("earlier package", 3)]
	other := lang
	if vpBool("other language") {
		other = vpLangs[(k+len(p)+len(q))%5]
	}
	vpAssume(!(vpIn("org.two", p, q) && (lang == "Go" || other == "Go"))) // no package of Go
	first := gen(lang, "out", p)
	gen(other, []string{"out", "elsewhere"}[k%2], q)
	vpSameText(first, gen(lang, "out", p))
}

// many schemas before, in many languages
func vpH_much() {
	n := []int{2, 3, 8, 9, 10, 16, 17, 33}[vpPick("before", 8)]
	k := vpPick("component", vpComponents)
	lang := vpLangs[(n+k)%5]
	d := vpXSD()
	for i := 0; i < 3; i++ {
		vpComponent(d, (k+i*7)%vpComponents, []string{"a-b", "a.b", "c"}[i])
	}
	vpMapUses(d)
	toks := d.done()
	first := vpTextOf(lang, "a.xsd", toks)
	for i := 0; i < n; i++ {
		e := vpXSD()
		vpComponent(e, (k*3+i)%vpComponents, []string{"a-b", "a.b", "Ab", "c"}[i%4])
		e.simple("Extra"+vpItoa(i), "xs:int", "enumeration", "1")
		vpMapUses(e)
		vpTextOf(vpLangs[(k+i)%5], []string{"a.xsd", "b.xsd"}[i%2], e.done())
	}
	vpSameText(first, vpTextOf(lang, "a.xsd", toks))
}
