package xgen

//vp:use lib.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

// C14: any well-formed document is handled without panicking. A panic or a
// run that does not end, anywhere in Parse, is the violation; what Parse
// returns is not judged here.

var vpNames14 = []string{"element", "complexType", "simpleType", "attribute", "attributeGroup", "group", "choice", "sequence", "restriction", "extension",
	"list", "union", "enumeration", "simpleContent", "complexContent", "all", "annotation", "documentation", "appinfo", "schema",
	"include", "import", "pattern", "length", "minLength", "maxLength", "whiteSpace", "totalDigits", "fractionDigits", "minInclusive", "maxInclusive",
	"minExclusive", "maxExclusive", "any", "anyAttribute", "redefine", "key", "selector", "notation", "charData", "x"}

const vpKinds14 = 6

// vpOpen14 opens a construct with one of several sets of attributes.
func vpOpen14(d *vpDoc, name string, kind int) {
	switch kind {
	case 0:
		d.open(name)
	case 1:
		d.open(name, "name", "n")
	case 2:
		d.open(name, "name", "m", "type", "xs:int", "base", "xs:string", "value", "3", "memberTypes", "xs:int n", "itemType", "xs:int", "maxOccurs", "unbounded")
	case 3:
		d.open(name, "ref", "r", "base", "n", "type", "n", "value", "b", "memberTypes", "n m", "itemType", "n", "use", "required")
	case 4:
		d.open(name, "name", "", "type", "", "base", "", "value", "", "memberTypes", "", "itemType", "", "maxOccurs", "", "use", "")
	case 5:
		d.open(name, "ref", "", "name", ":", "type", ":", "base", ":", "value", ":", "memberTypes", ": :", "itemType", ":", "maxOccurs", "-1")
	}
}

func vpRun14(lang string, d *vpDoc) {
	vpPutDoc("in/a.xsd", d.done())
	code, msg := vpGuard(func() { NewParser(vpOptions(lang, "in", "out", "in/a.xsd")).Parse() })
	vpAssert(code == 0, "a well-formed document makes the parser panic| "+msg)
	vpCover("reached")
}

// one construct after any combination of open ones
func vpH_step() {
	d := vpXSD()
	n := 0
	order := vpBool("order")
	for i := 0; i < 8; i++ {
		k := i
		if order {
			k = 7 - i
		}
		if vpBool("open") {
			vpOpen14(d, []string{"element", "complexType", "simpleType", "attribute", "attributeGroup", "group", "choice", "union"}[k], 1+(n+k)%3)
			n++
		}
	}
	e := vpPick("event", len(vpNames14))
	k := (e + n) % vpKinds14
	if vpTier() > 0 {
		k = vpPick("attributes", vpKinds14)
	}
	vpOpen14(d, vpNames14[e], k)
	vpRun14(vpLangs[(e+n)%5], d)
}

var vpContexts14 = [][]string{{}, {"element"}, {"complexType"}, {"element", "complexType"}, {"complexType", "sequence", "element", "simpleType"},
	{"group"}, {"attributeGroup", "attribute"}, {"simpleType", "union"}, {"simpleType", "restriction"}, {"complexType", "simpleContent", "extension"},
	{"group", "group"}, {"attribute", "simpleType", "list"}}

// any two constructs in a row or one in the other, in some contexts
func vpH_pairs() {
	d := vpXSD()
	c := vpPick("context", len(vpContexts14))
	for i, n := range vpContexts14[c] {
		vpOpen14(d, n, 1+i%2)
	}
	n := 14
	a, b := vpPick("first", n), vpPick("second", len(vpNames14))
	k := (a + b/vpKinds14 + c) % vpKinds14
	vpOpen14(d, vpNames14[a], b%vpKinds14)
	if vpBool("beside") {
		d.close()
	}
	vpOpen14(d, vpNames14[b], k)
	vpRun14(vpLangs[(a+b)%5], d)
}

// every construct as the whole document, a root of its own or in the root
func vpH_alone() {
	lang := vpLang()
	n := vpNames14[vpPick("name", len(vpNames14))]
	k := vpPick("attributes", vpKinds14)
	d := vpXSD()
	switch vpPick("root", 3) {
	case 1:
		d = &vpDoc{P: "xs"}
		d.open(n, "xmlns:xs", vpXS)
	case 2:
		d = &vpDoc{P: ""}
		d.open(n, "xmlns", vpXS, "name", "r")
		vpOpen14(d, "element", 1)
	}
	vpOpen14(d, n, k)
	d.text("text")
	vpRun14(lang, d)
}

// arbitrary attribute values where they belong
func vpH_values() {
	lang := vpLang()
	d := vpXSD()
	v := vpStr("value", 0, 2+vpTier(), "a-cA-Z0-9.:_ /#-")
	kid := func() *vpDoc { return d.open("complexType", "name", "T").open("sequence") }
	switch vpPick("where", 22) {
	case 0:
		d.leaf("element", "name", v, "type", "xs:int")
	case 1:
		d.leaf("element", "name", "e", "type", v)
	case 2:
		kid().leaf("element", "name", v, "type", "xs:int")
	case 3:
		kid().leaf("element", "name", "e", "type", v)
	case 4:
		kid().leaf("element", "ref", v)
	case 5:
		kid().leaf("element", "name", "e", "type", "xs:int", "maxOccurs", v)
	case 6:
		kid().leaf("group", "ref", v, "maxOccurs", v)
	case 7:
		d.open("complexType", "name", v).open("sequence").leaf("element", "name", "e", "type", "T")
	case 8:
		d.open("complexType", "name", "T").open("complexContent").leaf("extension", "base", v)
	case 9:
		d.open("complexType", "name", "T").open("simpleContent").leaf("extension", "base", v)
	case 10:
		d.open("complexType", "name", "T").leaf("attribute", "name", v, "use", v)
	case 11:
		d.open("complexType", "name", "T").leaf("attribute", "ref", v)
	case 12:
		d.open("complexType", "name", "T").leaf("attributeGroup", "ref", v)
	case 13:
		d.leaf("group", "name", v)
	case 14:
		d.leaf("attributeGroup", "name", v)
	case 15:
		d.simple("T", v).simple(v, "xs:int")
	case 16:
		d.open("simpleType", "name", "T").leaf("list", "itemType", v)
	case 17:
		d.open("simpleType", "name", "T").leaf("union", "memberTypes", v)
	case 18:
		d.simple("T", "xs:int", "enumeration", v, "enumeration", "1"+v)
	case 19:
		f := []string{"pattern", "length", "minLength", "maxLength", "whiteSpace", "totalDigits", "fractionDigits", "minInclusive", "maxInclusive", "minExclusive", "maxExclusive"}
		d.simple("T", "xs:int", f[vpPick("facet", len(f))], v)
	case 20:
		d.open("complexType", "name", "T").doc(v).open("choice", "maxOccurs", v)
	case 21:
		d.leaf("attribute", "name", v, "type", "xs:int").leaf("import", "namespace", v)
	}
	vpRun14(lang, d)
}

// elements whose name is any short word, and names of methods
func vpH_words() {
	d := vpXSD()
	w := vpStr2("word", 1, 15, "a-zA-Z", "a-zA-Z")
	if i := vpPick("context", 3); i > 0 {
		vpOpen14(d, []string{"complexType", "simpleType"}[i-1], 1)
	}
	d.open(w, "name", "n").open("element", "name", "k", "type", "xs:int").close().close()
	vpRun14(vpLang(), d)
}

// definitions that refer to themselves or to each other
func vpH_cycles() {
	lang := vpLang()
	d := vpXSD()
	n := 1 + vpPick("length", 3)
	kind := vpPick("kind", 9)
	for i := 0; i < n; i++ {
		me, next := "T"+vpItoa(i), "T"+vpItoa((i+1)%n)
		switch kind {
		case 0:
			d.simple(me, next)
		case 1:
			d.open("complexType", "name", me).open("complexContent").open("extension", "base", next).closeN(3)
		case 2:
			d.open("simpleType", "name", me).leaf("list", "itemType", next).close()
		case 3:
			d.open("simpleType", "name", me).leaf("union", "memberTypes", next+" xs:int "+next).close()
		case 4:
			d.open("group", "name", me).open("sequence").leaf("group", "ref", next).closeN(2)
		case 5:
			d.open("attributeGroup", "name", me).leaf("attributeGroup", "ref", next).close()
		case 6:
			d.leaf("element", "name", me, "type", next)
		case 7:
			d.leaf("attribute", "name", me, "type", next)
		case 8:
			d.open("complexType", "name", me).open("simpleContent").open("extension", "base", next).closeN(3)
		}
	}
	d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "h", "type", "T0").leaf("element", "ref", "T0").close()
	d.leaf("attribute", "name", "a", "type", "T0").leaf("attribute", "ref", "T0").leaf("attributeGroup", "ref", "T0")
	vpRun14(lang, d)
}

// foreign content, comments and the like anywhere
func vpH_foreign() {
	d := vpXSD()
	n := 0
	put := func() {
		k := vpPick("what", 8)
		n += k
		switch k {
		case 0:
		case 1:
			d.toks = append(d.toks, vpTok{Kind: 4, Data: " element "})
		case 2:
			d.toks = append(d.toks, vpTok{Kind: 5, Local: "pi", Data: "x"})
		case 3:
			d.text(" text ")
		case 4:
			d.toks = append(d.toks, vpTok{Kind: 1, Local: "complexType", Attrs: vpAttrs([]string{"name", "F", "xmlns", "urn:f"})}, vpTok{Kind: 2, Local: "complexType"})
		case 5:
			d.open("annotation").open("appinfo").open("element").open("choice").open("simpleType").closeN(5)
		case 6:
			d.open("annotation").open("documentation").open("documentation").open("element").closeN(2).text("t").close().close()
		case 7:
			d.open("documentation").open("restriction", "base", "xs:int").close().close()
		}
	}
	put()
	d.open([]string{"complexType", "element", "group", "simpleType", "attributeGroup", "attribute"}[vpPick("host", 6)], "name", "H")
	put()
	d.open([]string{"sequence", "restriction", "attribute", "union"}[vpPick("inner", 4)], "name", "I", "base", "xs:int")
	put()
	lang := vpLangs[n%5]
	if vpTier() > 0 {
		lang = vpLang()
	}
	vpRun14(lang, d)
}

// any three constructs, each in or after the one before
func vpH_triples() {
	d := vpXSD()
	h := 0
	for i := 0; i < 3; i++ {
		e := vpPick("construct", 12)
		h += e
		vpOpen14(d, vpNames14[e], (h+i)%3)
		if vpBool("closed") {
			d.close()
			h++
		}
	}
	vpRun14(vpLangs[h%5], d)
}

// a construct, or its end, after two complete components
func vpH_after() {
	d := vpXSD()
	a := vpPick("component", vpComponents)
	e := vpPick("event", len(vpNames14))
	vpComponent(d, a, "histOne")
	if e%2 == 0 || vpTier() > 0 {
		vpComponent(d, (a*7+e)%vpComponents, "histTwo")
	}
	c := vpPick("context", len(vpContexts14)-5*(1-vpTier()))
	for i, n := range vpContexts14[c] {
		vpOpen14(d, n, 1+i%2)
	}
	vpOpen14(d, vpNames14[e], (a+e+c)%vpKinds14)
	d.close()
	vpComponent(d, (a*5+e)%vpComponents, "histThree")
	vpRun14(vpLangs[(a+e+c)%5], d)
}

// much of one construct: in itself, beside itself, or left open by others
func vpH_much() {
	n := []int{10, 16, 17, 33, 65, 130}[vpPick("size", 5+vpTier())]
	e := vpPick("construct", len(vpNames14))
	how := vpPick("how", 4)
	c := vpPick("context", 5)
	d := vpXSD()
	for i, name := range vpContexts14[c] {
		vpOpen14(d, name, 1+i%2)
	}
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			vpOpen14(d, vpNames14[e], (e+n)%vpKinds14)
		case 1:
			vpOpen14(d, vpNames14[e], (e+n+i)%vpKinds14)
			d.close()
		case 2:
			vpOpen14(d, vpNames14[(e+i)%len(vpNames14)], (e+n)%3)
		case 3:
			vpOpen14(d, vpNames14[(e+i*i)%len(vpNames14)], i%vpKinds14)
			if i%3 > 0 {
				d.close()
			}
		}
	}
	vpRun14(vpLangs[(e+n+c)%5], d)
}

// long attribute values and texts
func vpH_long() {
	n := []int{16, 17, 33, 65, 130, 260}[vpPick("size", 6)]
	unit := []string{"a", "1", "é", " ", ":", "a ", "t:", "/", "-"}[vpPick("unit", 9)]
	v := ""
	for i := 0; i < n; i++ {
		v += unit
	}
	at := []int{0, len(v) / 2, len(v)}[vpPick("at", 3)]
	if unit == "é" {
		at = 2 * (at / 2)
	}
	v = v[:at] + vpStr("character", 0, 1, "a-cA-Z0-9.:_ /#-") + v[at:]
	d := vpXSD()
	w := vpPick("where", 9)
	switch w {
	case 0:
		d.leaf("element", "name", v, "type", v)
	case 1:
		d.open("complexType", "name", v).open("sequence", "maxOccurs", v).leaf("element", "name", v, "type", v, "maxOccurs", v).leaf("element", "ref", v).leaf("group", "ref", v)
		d.close().leaf("attribute", "name", v, "type", v, "use", v).leaf("attribute", "ref", v).leaf("attributeGroup", "ref", v)
	case 2:
		d.open("complexType", "name", "T").open("complexContent").leaf("extension", "base", v)
	case 3:
		d.simple(v, v, "enumeration", v, "pattern", v, "length", v)
	case 4:
		d.open("simpleType", "name", v).leaf("union", "memberTypes", v)
	case 5:
		d.open("simpleType", "name", v).leaf("list", "itemType", v)
	case 6:
		d.open("group", "name", v).doc(v).open("choice", "maxOccurs", v).leaf("element", "name", "a", "type", v)
	case 7:
		d.open("attributeGroup", "name", v).doc(v).leaf("attribute", "name", "a", "type", v)
	case 8:
		d.open("element", "name", v).doc(v).open("complexType").open("simpleContent").open("extension", "base", v)
	}
	vpRun14(vpLangs[(n+w)%5], d)
}
