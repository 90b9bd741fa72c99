package xgen

//vp:use lib.go
//vp:use gen.go
//vp:use comps.go
//vp:use scale.go
//vp:use oracle.go
//vp:use names.go

import "unicode"

// C08: generated identifiers are legal and not reserved.

var vpReserved = map[string][]string{
	"Go": {"break", "default", "func", "interface", "select", "case", "defer", "go", "map", "struct", "chan", "else", "goto", "package", "switch",
		"const", "fallthrough", "if", "range", "type", "continue", "for", "import", "return", "var"},
	"C": {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if",
		"inline", "int", "long", "register", "restrict", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union",
		"unsigned", "void", "volatile", "while", "_Bool", "_Complex", "_Imaginary", "bool", "true", "false"},
	"Java": {"abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const", "continue", "default", "do", "double",
		"else", "enum", "extends", "final", "finally", "float", "for", "goto", "if", "implements", "import", "instanceof", "int", "interface",
		"long", "native", "new", "package", "private", "protected", "public", "return", "short", "static", "strictfp", "super", "switch",
		"synchronized", "this", "throw", "throws", "transient", "try", "void", "volatile", "while", "true", "false", "null", "_"},
	"TypeScript": {"break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export",
		"extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null", "return", "super", "switch", "this",
		"throw", "true", "try", "typeof", "var", "void", "while", "with", "any", "boolean", "number", "string", "symbol", "undefined", "never", "unknown", "object"},
}

func vpLegal(lang, ident, what string) {
	vpAssert(ident != "", "an empty identifier| "+what)
	wide := false
	for i := 0; i < len(ident); i++ {
		c := ident[i]
		if c >= 0x80 {
			wide = true
			continue
		}
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		vpAssert(letter || c >= '0' && c <= '9' && i > 0, "an identifier with an illegal character| "+what)
	}
	if wide {
		for i, r := range ident {
			vpAssert(r < 0x80 || unicode.IsLetter(r) || unicode.IsDigit(r) && i > 0, "an identifier with an illegal character| "+what)
			vpAssert(lang != "Go" || i > 0 || unicode.IsUpper(r), "a Go identifier that is not exported| "+what)
		}
	} else if lang == "Go" {
		vpAssert(ident[0] >= 'A' && ident[0] <= 'Z', "a Go identifier that is not exported| "+what)
	}
	words := vpReserved[lang]
	if lang == "Rust" {
		words = vpRustWords
	}
	for _, w := range words {
		vpAssert(ident != w, "an identifier is a reserved word| "+what)
	}
}

func vpLegalAll(o *vpOut) {
	for i := range o.Decls {
		D := &o.Decls[i]
		vpLegal(o.Lang, D.Ident, "declaration")
		for j := range D.Fields {
			vpLegal(o.Lang, D.Fields[j].Ident, "member")
		}
	}
	vpCover("reached")
}

const vpIdentPlaces = vpWirePlaces + 6

func vpIdentPlace(d *vpDoc, place int, name string) {
	switch place - vpWirePlaces {
	case 0:
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", "xs:int "+name).close()
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", name, "type", "xs:int").closeN(2)
	case 1:
		d.open("complexType", "name", "Host").open("sequence").leaf("group", "ref", name).closeN(2)
		d.open("group", "name", name).open("sequence").leaf("element", "name", name, "type", "xs:int").closeN(2)
	case 2:
		d.open("complexType", "name", "Host").leaf("attributeGroup", "ref", name).close()
		d.open("attributeGroup", "name", name).leaf("attribute", "name", name, "type", "xs:int").close()
	case 3:
		d.open("complexType", "name", "Host").open("sequence").open("element", "name", name).open("complexType").open("sequence")
		d.leaf("element", "name", "x", "type", "xs:int").closeN(5)
	case 4:
		d.open("complexType", "name", "Host").open("complexContent").leaf("extension", "base", name).closeN(2)
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", "x", "type", name).closeN(2)
	case 5:
		d.simple(name, "xs:string", "enumeration", "x")
		d.open("simpleType", "name", "Host").leaf("list", "itemType", name).close()
	default:
		vpWireCase(d, place, name)
	}
}

func vpH_short() {
	lang := vpLang()
	name := vpStr2("name", 1, 3+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	d := vpXSD()
	vpIdentPlace(d, vpPick("place", vpIdentPlaces), name)
	vpLegalAll(vpGen(lang, d.done()).ok())
}

// reserved words, spelled in every way that mangling leads back to them
func vpH_reserved() {
	lang := vpLang()
	words := vpReserved[lang]
	if lang == "Rust" {
		words = vpRustWords
	}
	w := words[vpPick("word", len(words))]

	switch vpPick("spelling", 4+vpTier()) {
	case 1:
		w = vpUpper1(w)
	case 2: // any separator anywhere
		at := 1 + vpPick("at", 2)
		vpAssume(at <= len(w))
		w = w[:at] + vpStr("sep", 1, 1, "-._") + w[at:]
	case 3:
		w = w + vpStr("end", 1, 1, "-._")
	case 4:
		w = w[:1] + vpStr("sep", 2, 2, "-._") + w[1:]
	}
	d := vpXSD()
	place := 0
	if vpTier() > 0 || lang == "Rust" {
		place = vpPick("place", vpIdentPlaces)
	} else {
		place = []int{0, 1, 2, 3, 9, 12, 13, 14, 16, 17, 18}[vpPick("place", 11)]
	}
	vpIdentPlace(d, place, w)
	vpLegalAll(vpGen(lang, d.done()).ok())
}

// longer names with symbolic seams
func vpH_long() {
	lang := vpLang()
	b := vpStr("seam", 1, 2+vpTier(), "a-zA-Z0-9._-")
	name := []string{"aXMLHttp" + b + "Req2x", "A-b.c" + b + "-9", "x." + b + ".2"}[vpPick("form", 3)]
	d := vpXSD()
	vpIdentPlace(d, vpPick("place", vpIdentPlaces), name)
	vpLegalAll(vpGen(lang, d.done()).ok())
}

// letters of other scripts, with or without an upper case, and characters of
// names that are not letters
func vpH_scripts() {
	lang := vpLang()
	name := vpWideName()
	d := vpXSD()
	place := vpPick("place", vpIdentPlaces)
	vpIdentPlace(d, place, name)
	vpLegalAll(vpGen(lang, d.done()).ok())
}

// much of something
func vpH_scale() {
	o, _ := vpScale(nil, nil)
	vpLegalAll(o)
}
