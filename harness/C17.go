package xgen

//vp:use lib.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

// C17: Go output imports exactly what it uses and has the right package.

// vpImports checks the import clause against the qualified names in the code.
func vpImports(o *vpOut) {
	uses := map[string]bool{}
	for i := 0; i+2 < len(o.t); i++ {
		if o.t[i].K == vpWord && o.t[i+1].K == vpPunct && o.t[i+1].S == "." && o.t[i+2].K == vpWord {
			switch w := o.t[i].S; w {
			case "time", "xml":
				uses[w] = true
			default:
				vpFail("a qualified name of a package that is not imported| " + w)
			}
		}
	}
	seen := map[string]bool{}
	for _, imp := range o.Imports {
		w := ""
		switch imp {
		case "time":
			w = "time"
		case "encoding/xml":
			w = "xml"
		}
		vpAssert(w != "", "something else is imported| "+imp)
		vpAssert(uses[w], "a package is imported that is not used| "+imp)
		vpAssert(!seen[w], "a package is imported twice| "+imp)
		seen[w] = true
	}
	for _, w := range []string{"time", "xml"} {
		vpAssert(!uses[w] || seen[w], "a package is used that is not imported| "+w)
	}
	vpCover("reached")
}

const vpPlaces17 = 20

// vpPlace17 declares a component with a use of type ty.
func vpPlace17(d *vpDoc, place int, name, ty string) {
	switch place {
	case 0:
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", "kid", "type", ty).closeN(2)
	case 1:
		d.open("complexType", "name", name).leaf("attribute", "name", "kid", "type", ty, "use", "required").close()
	case 2:
		d.simple(name, ty)
	case 3:
		d.open("simpleType", "name", name).leaf("list", "itemType", ty).close()
	case 4:
		d.open("simpleType", "name", name).leaf("union", "memberTypes", "xs:int "+ty).close()
	case 5:
		d.open("complexType", "name", name).open("simpleContent").leaf("extension", "base", ty).closeN(2)
	case 6:
		d.leaf("element", "name", name, "type", ty)
	case 7:
		d.leaf("attribute", "name", name, "type", ty)
	case 8:
		d.open("group", "name", name).open("choice").leaf("element", "name", "kid", "type", ty).closeN(2)
	case 9:
		d.open("attributeGroup", "name", name).leaf("attribute", "name", "kid", "type", ty).close()
	case 10:
		d.open("complexType", "name", name).open("sequence").open("element", "name", "kid").open("simpleType").restrict(ty).closeN(4)
	case 11:
		d.open("complexType", "name", name).open("attribute", "name", "kid").open("simpleType").restrict(ty).closeN(3)
	case 12:
		d.open("complexType", "name", name).open("sequence").open("element", "name", name+"Kid").open("complexType").leaf("attribute", "name", "a", "type", ty).closeN(4)
	case 13:
		d.open("complexType", "name", name).open("complexContent").open("extension", "base", "U").open("choice", "maxOccurs", "unbounded").leaf("element", "name", "kid", "type", ty).closeN(4)
	case 14:
		d.leaf("element", "name", name, "type", ty, "maxOccurs", "unbounded")
	case 15:
		d.open("complexType", "name", name).open("sequence").leaf("element", "ref", name+"Top").closeN(2)
		d.leaf("element", "name", name+"Top", "type", ty)
	case 16:
		d.open("element", "name", name).open("simpleType").restrict(ty).closeN(2)
	case 17:
		d.open("complexType", "name", name).leaf("attribute", "ref", name+"Top").close()
		d.leaf("attribute", "name", name+"Top", "type", ty)
	case 18: // not a use
		d.open("complexType", "name", name).doc("time.Time xml.Name").leaf("attribute", "name", "timeTime", "type", "xs:int").close()
	case 19:
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", "time", "type", "U").leaf("group", "ref", "G").closeN(2)
	}
}

var vpTypes17 = []string{"xs:dateTime", "xs:QName", "t:Stamp", "t:Named", "xs:int", "xs:time", "xs:date", "xs:NOTATION", "xs:anyType"}

func vpSupport17(d *vpDoc) {
	// Stamp and Named may be unused: their own declarations count as uses
	d.open("complexType", "name", "U").open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
	d.open("group", "name", "G").open("sequence").leaf("element", "name", "g", "type", "xs:int").closeN(2)
}

// two components, every place, with types that need an import or do not
func vpH_places() {
	d := vpTargets("xs")
	n := 4 + 5*vpTier()
	a, b := vpTypes17[vpPick("type", len(vpTypes17))], vpTypes17[vpPick("other", n)]
	p, q := vpPick("place", vpPlaces17), vpPick("beside", vpPlaces17)
	x, y := "One", "Two"
	if (p+q)%2 == 0 {
		x = "one"
	}
	if (p+q)%3 == 0 {
		y = "tw-o"
	}
	vpPlace17(d, p, x, a)
	vpPlace17(d, q, y, b)
	vpSupport17(d)
	if a == "t:Stamp" || b == "t:Stamp" {
		d.simple("Stamp", "xs:dateTime")
	}
	if a == "t:Named" || b == "t:Named" {
		d.simple("Named", "xs:QName")
	}
	vpImports(vpGen("Go", d.done()).ok())
}

// types of included or imported schemas, declared in another file
func vpH_files() {
	d := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:t", "urn:m", "xmlns:a", "urn:a")
	e := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:t", "urn:m", "xmlns:a", "urn:a")
	ty := "t:Else"
	if vpBool("import") {
		e = vpSchema("xs", "targetNamespace", "urn:a")
		ty = "a:Else"
		d.leaf("import", "namespace", "urn:a", "schemaLocation", "b.xsd")
	} else {
		d.leaf("include", "schemaLocation", "b.xsd")
	}
	vpPlace17(d, vpPick("place", vpPlaces17), []string{"One", "one"}[vpPick("name", 2)], ty)
	vpSupport17(d)
	vpPutDoc("in/b.xsd", e.simple("Else", vpTypes17[vpPick("base", 2)]).done())
	vpImports(vpGen("Go", d.done()).ok())
}

// arbitrary names: a struct gets an XMLName or not
func vpH_names() {
	d := vpXSD()
	name := vpStr2("name", 1, 3+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	vpComponent(d, vpPick("component", vpComponents), name)
	vpUses(d)
	vpImports(vpGen("Go", d.done()).ok())
}

// the package clause
func vpH_package() {
	lang := []string{"Go", "Java"}[vpPick("lang", 2)]
	pkg := vpStr2("package", 0, 5+vpTier(), "a-zA-Z_", "a-zA-Z0-9_")
	vpAssume(pkg != "_")
	if lang == "Java" && vpBool("nested") {
		vpAssume(len(pkg) > 0)
		pkg = "org." + pkg
	}
	for _, k := range []string{"if", "go", "for", "var", "map", "case", "func", "else", "goto", "type", "chan", "break", "const", "defer", "range"} {
		vpAssume(pkg != k)
	}
	d := vpXSD()
	vpPlace17(d, vpPick("place", 4), "Host", []string{"xs:dateTime", "xs:int"}[vpPick("type", 2)])
	vpPutDoc("in/a.xsd", d.done())
	opt := vpOptions(lang, "in", "out", "in/a.xsd")
	opt.Package = pkg
	vpAssert(NewParser(opt).Parse() == nil, "Parse failed on a valid schema")
	text, st := vpRead("out/a.xsd" + vpExt(lang))
	vpAssert(st == 0, "no output file was written")
	o := vpParseOut(lang, text).ok()
	if pkg == "" {
		pkg = "schema"
	}
	vpAssert(o.Package == pkg, "the package name is not the configured one| "+o.Package)
	if lang == "Go" {
		vpImports(o)
	}
	vpCover("reached")
}

// a schema that is imported is generated with the same package
func vpH_imported() {
	lang := []string{"Go", "Java"}[vpPick("lang", 2)]
	pkg := []string{"", "mine"}[vpPick("package", 2)]
	d := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:a", "urn:a").leaf("import", "namespace", "urn:a", "schemaLocation", "sub/b.xsd")
	d.leaf("element", "name", "Host", "type", "a:Else")
	vpPutDoc("in/sub/b.xsd", vpSchema("xs", "targetNamespace", "urn:a").simple("Else", "xs:dateTime").done())
	vpPutDoc("in/a.xsd", d.done())
	opt := vpOptions(lang, "in", "out", "in/a.xsd")
	opt.Package = pkg
	vpAssert(NewParser(opt).Parse() == nil, "Parse failed on a valid schema")
	if pkg == "" {
		pkg = "schema"
	}
	for _, f := range []string{"a.xsd", "sub/b.xsd"} {
		text, st := vpRead("out/" + f + vpExt(lang))
		if st == 0 {
			vpAssert(vpParseOut(lang, text).ok().Package == pkg, "the package name is not the configured one")
		} else {
			vpAssert(f != "a.xsd", "no output file was written")
		}
	}
	vpCover("reached")
}

// two components of any kind, with names that are identifiers or are not
func vpH_pairs() {
	d := vpXSD()
	x := []string{"One", "one", "O-ne"}[vpPick("x", 3)]
	y := []string{"Two", "tWo"}[vpPick("y", 2)]
	vpComponent(d, vpPick("component", vpComponents), x)
	vpComponent(d, vpPick("component", vpComponents), y)
	first := vpBool("uses first")
	toks := d.toks
	d.toks = nil
	d.open("complexType", "name", "U").close()
	d.leaf("complexType", "name", "Bb").leaf("complexType", "name", "Gg")
	d.simple("S", "xs:base64Binary")
	if first {
		d.toks = append(append(append([]vpTok{}, toks[0]), d.toks...), toks[1:]...)
	} else {
		d.toks = append(append([]vpTok{}, toks...), d.toks...)
	}
	vpImports(vpGen("Go", d.done()).ok())
}

// one use among many components or members that are none
func vpH_many() {
	n := []int{8, 9, 10, 16, 17, 33, 64}[vpPick("size", 7)]
	ty := []string{"xs:dateTime", "xs:QName", "xs:int", "xs:NOTATION"}[vpPick("type", 4)]
	at := []int{0, 1, n / 2, n - 1}[vpPick("at", 4)]
	place := vpPick("place", vpPlaces17+2)
	d := vpXSD()
	if place < vpPlaces17 {
		for i := 0; i < n; i++ {
			if i == at {
				vpPlace17(d, place, "Some", ty)
			} else {
				vpPlace17(d, (i*3+n)%(vpPlaces17-2), "Type"+vpItoa(i), "xs:int")
			}
		}
		vpSupport17(d)
	} else {
		d.open("complexType", "name", "Some")
		if place == vpPlaces17 {
			d.open("sequence")
		}
		for i := 0; i < n; i++ {
			t := "xs:int"
			if i == at {
				t = ty
			}
			d.leaf([]string{"element", "attribute"}[place-vpPlaces17], "name", "k"+vpItoa(i), "type", t)
		}
		if place == vpPlaces17 {
			d.close()
		}
		d.close()
	}
	vpImports(vpGen("Go", d.done()).ok())
}

// long package names
func vpH_packageLengths() {
	lang := []string{"Go", "Java"}[vpPick("lang", 2)]
	n := []int{8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200}[vpPick("length", 12)]
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, "abcdefghijklmnopqrstuvwxyz"[(i*7+n)%26])
	}
	at := []int{1, n / 2, n - 1}[vpPick("at", 3)]
	pkg := string(b[:at]) + vpStr("letter", 1, 1, "a-zA-Z0-9_") + string(b[at+1:])
	d := vpXSD()
	vpPlace17(d, 0, "Host", "xs:dateTime")
	vpPutDoc("in/a.xsd", d.done())
	opt := vpOptions(lang, "in", "out", "in/a.xsd")
	opt.Package = pkg
	vpAssert(NewParser(opt).Parse() == nil, "Parse failed on a valid schema")
	text, st := vpRead("out/a.xsd" + vpExt(lang))
	vpAssert(st == 0, "no output file was written")
	o := vpParseOut(lang, text).ok()
	vpAssert(o.Package == pkg, "the package name is not the configured one| "+o.Package)
	vpCover("reached")
}

// a schema of one component only
func vpH_alone() {
	d := vpTargets("xs")
	name := []string{"One", "one"}[vpPick("name", 2)]
	if vpBool("any") {
		vpComponent(d, vpPick("component", vpComponents), name)
	} else {
		vpPlace17(d, vpPick("place", vpPlaces17), name, vpTypes17[vpPick("type", len(vpTypes17))])
	}
	vpImports(vpGen("Go", d.done()).ok())
}
