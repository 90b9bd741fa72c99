package xgen

// vpNumeral picks a numeral of xs:nonNegativeInteger.
func vpNumeral(name string) string {
	n := vpStr(name, 1, 2, "0-9")
	switch vpPick(name+".form", 5) {
	case 1:
		n = "+" + n
	case 2:
		n = "00" + n
	case 3:
		n = "42949672" + n // beyond 32 bits, maybe
	case 4:
		n = "184467440737095516" + n + "000" // beyond 64 bits
	}
	return n
}

// vpPatterns are regular expressions of XML Schema, not all of which are ones
// elsewhere.
var vpPatterns = []string{"", "[a-z]*", "\\i\\c*", "[\\i-[:]][\\c-[:]]*", "\\p{IsBasicLatin}+", "[a-z-[aeiou]]+", "\\d{1,100000}", "a{2000}", "$^", "[^\\C]", "\\p{Lu}\\P{Nd}", "[\\-a]|", "(a(b(c)))?", "\u00e9|\u20ac", "%d%s", "\\\\\\.\\|\\(", "[&#]", "\\\u002d"}

// vpRestriction picks a built-in base and a value of it.
func vpValueOf() (base, value string) {
	dd := vpStr("dd", 2, 2, "0-9")
	cases := [][2]string{
		{"int", dd}, {"int", "-" + dd}, {"long", "+" + dd}, {"integer", "123456789012345678901234567890" + dd}, {"unsignedLong", "184467440737095515" + dd},
		{"decimal", dd + "." + dd}, {"decimal", "." + dd}, {"decimal", dd + "."}, {"double", dd + "e" + dd}, {"double", "-1.5E-" + dd}, {"float", "INF"}, {"float", "-INF"}, {"double", "NaN"}, {"double", "1e400"},
		{"date", "20" + dd + "-01-01"}, {"date", "2000-01-01Z"}, {"dateTime", "2000-01-01T00:00:" + dd}, {"dateTime", "-0001-12-31T24:00:00-14:00"}, {"time", "12:00:" + dd + ".125"},
		{"gYear", "20" + dd}, {"gYear", "-12345"}, {"gYearMonth", "2000-01"}, {"gMonthDay", "--02-29"}, {"gDay", "---01"}, {"gMonth", "--12"}, {"duration", "P" + dd + "Y"}, {"duration", "-P1DT2.5S"},
		{"unsignedByte", "1"}, {"byte", "-128"}, {"negativeInteger", "-" + dd + "1"},
	}
	c := cases[vpPick("value", len(cases))]
	return c[0], c[1]
}

// vpFacet writes a restriction with facets.
func vpFacet(d *vpDoc) {
	base, facet, value := "string", "", ""
	switch kind := vpPick("facet", 12); kind {
	case 0, 1, 2:
		facet, value = []string{"length", "minLength", "maxLength"}[kind], vpNumeral("n")
		base = []string{"string", "hexBinary", "NMTOKENS", "anyURI"}[vpPick("base", 4)]
	case 3, 4:
		facet, value = []string{"totalDigits", "fractionDigits"}[kind-3], vpNumeral("n")
		if kind == 3 {
			value += "1"
		}
		base = "decimal"
	case 5, 6, 7, 8:
		facet = []string{"minInclusive", "maxInclusive", "minExclusive", "maxExclusive"}[kind-5]
		base, value = vpValueOf()
	case 9:
		facet = "pattern"
		base = []string{"string", "int", "date"}[vpPick("base", 3)]
		k := vpPick("pattern", len(vpPatterns)+1)
		if k == len(vpPatterns) {
			value = vpStr("text", 1, 2, "a-zA-Z0-9 _~!@#&=:;<>,/")
		} else {
			value = vpPatterns[k]
		}
	case 10:
		facet, value = "whiteSpace", []string{"preserve", "replace", "collapse", " collapse "}[vpPick("value", 4)]
	case 11:
		facet = "enumeration"
		base, value = vpValueOf()
	}
	d.open("restriction", "base", "xs:"+base)
	var kv []string
	extra := vpPick("extra", 5)
	if facet != "enumeration" && facet != "pattern" && extra > 0 && extra < 3 {
		kv = []string{"fixed", []string{"true", "0"}[extra-1]}
	} else if extra == 3 {
		kv = []string{"id", "i-" + vpStr("id", 1, 1, "a-z0-9._")}
	}
	if extra == 2 {
		d.open(facet, append(kv, "value", value)...)
	} else {
		d.open(facet, append([]string{"value", value}, kv...)...)
	}
	if extra == 4 {
		d.doc("text")
	}
	d.closeN(2)
}

// vpFree writes declarations with attributes whose values are free, and tells
// how many there are.
func vpFree(d *vpDoc) (decls int) {
	// any text, and texts that look like something
	text := func() string {
		k := vpPick("text", 12)
		if k < 11 {
			return []string{"", "unbounded", "100%s", "0x", "1e400", "2000-01-01", "{urn:x}y", "a b\tc", "\u20ac", "*", "a:b"}[k]
		}
		return vpStr("text", 1, 2, " -~")
	}
	flag := func() string { return []string{"true", "false", "1", "0"}[vpPick("flag", 4)] }
	members := func(f func()) int {
		d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "k", "type", "xs:int")
		f()
		d.closeN(2)
		return 1
	}
	switch vpPick("what", 21) {
	case 0:
		return members(func() { d.leaf("element", "name", "x", "type", "xs:string", "default", text()) })
	case 1:
		return members(func() { d.leaf("element", "name", "x", "type", "xs:string", "fixed", text()) })
	case 2:
		d.open("complexType", "name", "Host").leaf("attribute", "name", "x", "type", "xs:string", []string{"default", "fixed"}[vpPick("which", 2)], text()).close()
		return 1
	case 3:
		d.leaf("element", "name", "x", "type", "xs:string", []string{"default", "fixed"}[vpPick("which", 2)], text())
		return 1
	case 4:
		d.leaf("attribute", "name", "x", "type", "xs:string", []string{"default", "fixed"}[vpPick("which", 2)], text())
		return 1
	case 5:
		d.leaf("element", "name", "x", "type", "xs:string", "nillable", flag(), "abstract", flag())
		return 1
	case 6:
		d.open("complexType", "name", "Host", "mixed", flag(), "abstract", flag()).close()
		return 1
	case 7:
		v := []string{"", "#all", "extension", "restriction", "extension restriction"}[vpPick("block", 5)]
		d.open("complexType", "name", "Host", "block", v, "final", v).close()
		d.leaf("element", "name", "x", "type", "Host", "final", v, "block", v)
		return 2
	case 8:
		d.open("simpleType", "name", "Named", "final", []string{"", "#all", "list", "union", "restriction", "list union restriction"}[vpPick("final", 6)])
		d.restrict("xs:int").close()
		return 1
	case 9:
		n := vpNumeral("min")
		what := []string{"sequence", "choice", "any", "element"}[vpPick("particle", 4)]
		return members(func() {
			switch what {
			case "any":
				d.leaf("any", "minOccurs", n, "maxOccurs", "unbounded")
			case "element":
				d.leaf("element", "name", "x", "type", "xs:int", "maxOccurs", "unbounded", "minOccurs", n)
			default:
				d.open(what, "minOccurs", n, "maxOccurs", "unbounded").leaf("element", "name", "x", "type", "xs:int").close()
			}
		})
	case 10:
		// the particles whose bounds say nothing about members
		return members(func() {
			d.leaf("any", "maxOccurs", vpNumeral("max"), "minOccurs", "0", "processContents", []string{"lax", "strict", "skip"}[vpPick("process", 3)],
				"namespace", []string{"##any", "##other", "##local ##targetNamespace", "urn:x urn:y", "http://x.org/%20"}[vpPick("namespace", 5)])
		})
	case 11:
		d.open("complexType", "name", "Host").leaf("anyAttribute", "processContents", []string{"lax", "strict", "skip"}[vpPick("process", 3)],
			"namespace", []string{"##any", "##other", "##local ##targetNamespace", "urn:x urn:y"}[vpPick("namespace", 4)]).close()
		return 1
	case 12:
		d.open("element", "name", "x", "type", "xs:string")
		kind := []string{"key", "unique"}[vpPick("kind", 2)]
		d.open(kind, "name", "k1").leaf("selector", "xpath", []string{".//a|b", "*", "x:a/x:b", "."}[vpPick("selector", 4)]).leaf("field", "xpath", []string{"@a", ".", "b/@*"}[vpPick("field", 3)]).close()
		d.open("keyref", "name", "k2", "refer", "k1").leaf("selector", "xpath", "a").leaf("field", "xpath", "@a").close()
		d.close()
		return 1
	case 13:
		d.leaf("notation", "name", "n", "public", text(), "system", text())
		d.leaf("element", "name", "x", "type", "xs:string")
		return 1
	case 14:
		d.open("annotation").open("documentation", "source", text(), "xml:lang", "en-GB").text("x").close().open("appinfo", "source", text()).closeN(2)
		d.leaf("element", "name", "x", "type", "xs:string")
		return 1
	case 15:
		d.leaf("element", "name", "x", "type", "xs:string", "id", vpStr2("id", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-"))
		return 1
	case 16:
		d.leaf("element", "name", "x", "type", "xs:string").leaf("element", "name", "y", "substitutionGroup", "x", "type", "xs:string")
		return 2
	case 17:
		d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "x", "type", "xs:string", "form", []string{"qualified", "unqualified"}[vpPick("form", 2)]).close()
		d.leaf("attribute", "name", "x", "form", []string{"qualified", "unqualified"}[vpPick("form", 2)], "type", "xs:string").close()
		return 1
	case 18:
		*d = *vpSchema("xs", "version", text(), "id", "s", "elementFormDefault", "qualified", "blockDefault", "#all", "finalDefault", "#all", "xml:lang", "en")
		d.leaf("element", "name", "x", "type", "xs:string")
		return 1
	case 19:
		d.open("complexType", "name", "Host").open("all", "minOccurs", []string{"0", "1", "01", "+0"}[vpPick("min", 4)]).leaf("element", "name", "x", "type", "xs:string").closeN(2)
		return 1
	case 20:
		d.open("complexType", "name", "Host").leaf("group", "minOccurs", vpNumeral("min"), "maxOccurs", "unbounded", "ref", "G").close()
		d.open("group", "name", "G").open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
		return 2
	}
	return 0
}
