package xgen

// Shared by the harnesses: a builder of schema documents, a call of the real
// generator, and one reader per target language that turns a generated file
// back into declarations.

import "strings"

var vpLangs = []string{"Go", "C", "Java", "Rust", "TypeScript"}

func vpExt(lang string) string {
	switch lang {
	case "Go":
		return ".go"
	case "C":
		return ".h"
	case "Java":
		return ".java"
	case "Rust":
		return ".rs"
	}
	return ".ts"
}

func vpLang() string { return vpLangs[vpPick("lang", len(vpLangs))] }

// ---- documents ----

const vpXS = "http://www.w3.org/2001/XMLSchema"

type vpDoc struct {
	toks []vpTok
	st   []vpTok
	P    string // prefix bound to the XSD namespace; "" is the default namespace
}

func vpAttrs(kv []string) (out []vpAttr) {
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == "" {
			continue
		}
		a := vpAttr{Local: kv[i], Value: kv[i+1]}
		if j := strings.Index(a.Local, ":"); j >= 0 {
			a.Space, a.Local = a.Local[:j], a.Local[j+1:]
		}
		out = append(out, a)
	}
	return
}

// vpSchema opens a schema document with the given prefix for XSD.
func vpSchema(prefix string, kv ...string) *vpDoc {
	d := &vpDoc{P: prefix}
	if prefix == "" {
		kv = append([]string{"xmlns", vpXS}, kv...)
	} else {
		kv = append([]string{"xmlns:" + prefix, vpXS}, kv...)
	}
	return d.open("schema", kv...)
}

func vpTargets(prefix string) *vpDoc {
	return vpSchema(prefix, "xmlns:t", "urn:t", "targetNamespace", "urn:t")
}

func vpItoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return vpItoa(n/10) + string([]byte{byte('0' + n%10)})
}

func vpXSD() *vpDoc { return vpSchema("xs") }

func (d *vpDoc) open(local string, kv ...string) *vpDoc {
	t := vpTok{Kind: 1, Space: d.P, Local: local, Attrs: vpAttrs(kv)}
	d.toks = append(d.toks, t)
	d.st = append(d.st, t)
	return d
}

func (d *vpDoc) close() *vpDoc {
	t := d.st[len(d.st)-1]
	d.st = d.st[:len(d.st)-1]
	d.toks = append(d.toks, vpTok{Kind: 2, Space: t.Space, Local: t.Local})
	return d
}

func (d *vpDoc) closeN(n int) *vpDoc {
	for ; n > 0; n-- {
		d.close()
	}
	return d
}

func (d *vpDoc) leaf(local string, kv ...string) *vpDoc { return d.open(local, kv...).close() }

func (d *vpDoc) text(s string) *vpDoc {
	d.toks = append(d.toks, vpTok{Kind: 3, Data: s})
	return d
}

// ty spells a built-in type with the document's prefix.
func (d *vpDoc) ty(name string) string {
	if d.P == "" {
		return name
	}
	return d.P + ":" + name
}

func (d *vpDoc) doc(text string) *vpDoc {
	return d.open("annotation").open("documentation").text(text).closeN(2)
}

func (d *vpDoc) done() []vpTok {
	d.closeN(len(d.st))
	return d.toks
}

// simple declares a named simple type restricting base, with facets given as
// name/value pairs.
func (d *vpDoc) simple(name, base string, facets ...string) *vpDoc {
	d.open("simpleType", "name", name)
	d.restrict(base, facets...)
	return d.close()
}

func (d *vpDoc) restrict(base string, facets ...string) *vpDoc {
	d.open("restriction", "base", base)
	for i := 0; i+1 < len(facets); i += 2 {
		d.leaf(facets[i], "value", facets[i+1])
	}
	return d.close()
}

// ---- hosts: every place children and attributes can be declared in ----

const (
	vpHostType    = iota // named complex type
	vpHostChoice         // named complex type, choice as its particle
	vpHostAll            // named complex type, all as its particle
	vpHostExt            // extension of a complex type
	vpHostElem           // anonymous type of a global element
	vpHostNested         // anonymous type of a child element
	vpHostNested2        // the same after a sibling, two levels down
	vpHostGroup          // named model group
	vpHosts
)

// host opens a place for child elements; the declaration generated for it is
// named Host. It returns the number of elements to close.
func (d *vpDoc) host(kind int) int {
	switch kind {
	case vpHostType:
		d.open("complexType", "name", "host").open("sequence")
		return 2
	case vpHostChoice:
		d.open("complexType", "name", "Host").open("choice")
		return 2
	case vpHostAll:
		d.open("complexType", "name", "Host").open("all")
		return 2
	case vpHostExt:
		d.open("complexType", "name", "Host").open("complexContent").open("extension", "base", "U").open("sequence")
		return 4
	case vpHostElem:
		d.open("element", "name", "host").open("complexType").open("sequence")
		return 3
	case vpHostNested:
		d.open("complexType", "name", "Outer").open("sequence").open("element", "name", "host").open("complexType").open("sequence")
		return 5
	case vpHostNested2:
		d.open("element", "name", "Outer").open("complexType").open("sequence")
		d.leaf("element", "name", "first", "type", "U", "maxOccurs", "unbounded")
		d.open("element", "name", "mid", "maxOccurs", "unbounded").open("complexType").open("choice", "maxOccurs", "7")
		d.open("element", "name", "host").open("complexType").open("sequence")
		return 9
	}
	d.open("group", "name", "Host").open("sequence")
	return 2
}

// vpUses declares what the hosts refer to.
func vpUses(d *vpDoc) {
	d.open("complexType", "name", "U").open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
	d.simple("S", "xs:base64Binary", "maxLength", "9")
	d.open("group", "name", "G").open("sequence").leaf("element", "name", "g", "type", "xs:int").closeN(2)
}

// ---- reading generated code ----

type vpField struct {
	Ident string
	Type  string // item type, without list, option and pointer marks
	Depth int    // lists of lists
	Wire  string // name on the wire; "" when the code gives none
	Annot string // kind of the annotation: element, attr, value, flatten, ""
	Attr  bool
	Opt   bool
	List  bool
	Ptr   bool
	Embed bool
}

type vpEntry struct {
	Name, Value string
	Quoted      bool
}

type vpDecl struct {
	Kind    string // alias, struct, enum
	Ident   string
	Base    string
	Type    string
	Depth   int
	List    bool
	Ptr     bool
	Wire    string
	HasWire bool
	Own     []string // identifiers of members not among the fields: embedded base, XMLName
	Fields  []vpField
	Enum    []vpEntry
	Doc     string
}

type vpOut struct {
	Lang    string
	Text    string
	Package string
	Imports []string
	Decls   []vpDecl
	Bad     string
	Old     string // a name, and what it is in this output
	New     string
	t       []vpLex
	i       int
	doc     string
}

func (o *vpOut) fail(msg string) { o.Bad = msg; o.i = len(o.t) }

func (o *vpOut) at(s string) bool {
	if o.i >= len(o.t) {
		return false
	}
	t := &o.t[o.i]
	return t.S == s && t.K != vpComm && t.K != vpStrT
}

func (o *vpOut) eat(s string) bool {
	if o.at(s) {
		o.i++
		return true
	}
	return false
}

func (o *vpOut) need(s string) {
	if !o.eat(s) && o.Bad == "" {
		o.fail("expected " + s)
	}
}

func (o *vpOut) word() string {
	if o.i < len(o.t) && o.t[o.i].K == vpWord {
		o.i++
		if s := o.t[o.i-1].S; s[0] < '0' || s[0] > '9' {
			return s
		}
	}
	if o.Bad == "" {
		o.fail("expected an identifier")
	}
	return ""
}

func (o *vpOut) str() string {
	if o.i < len(o.t) && o.t[o.i].K == vpStrT {
		o.i++
		return o.t[o.i-1].S
	}
	if o.Bad == "" {
		o.fail("expected a string")
	}
	return ""
}

// comments gathers comments in front of a declaration.
func (o *vpOut) comments() {
	for o.i < len(o.t) && o.t[o.i].K == vpComm {
		o.doc += o.t[o.i].S + "\n"
		o.i++
	}
}

func (o *vpOut) noComments() {
	for o.i < len(o.t) && o.t[o.i].K == vpComm {
		o.i++
	}
}

func (o *vpOut) more() bool { return o.i < len(o.t) && o.Bad == "" }

func vpParseOut(lang, text string) *vpOut {
	o := &vpOut{Lang: lang, Text: text, t: vpTokens(lang, text)}
	switch lang {
	case "Go":
		o.goFile()
	case "C":
		o.cFile()
	case "Java":
		o.javaFile()
	case "Rust":
		o.rustFile()
	case "TypeScript":
		o.tsFile()
	}
	return o
}

func (o *vpOut) push(d vpDecl) {
	d.Doc, o.doc = o.doc, ""
	o.Decls = append(o.Decls, d)
}

// goType reads a type expression: [], *, words joined by dots.
func (o *vpOut) goType() (depth int, ptr bool, ty string) {
	for o.at("[") {
		o.i++
		o.need("]")
		depth++
	}
	for o.eat("*") {
		if ptr {
			o.fail("pointer to pointer")
		}
		ptr = true
	}
	ty = o.word()
	if ty == "interface" {
		o.need("{")
		o.need("}")
		return
	}
	for o.eat(".") {
		ty += "." + o.word()
	}
	return
}

func (o *vpOut) goFile() {
	o.noComments()
	o.need("package")
	o.Package = o.word()
	if o.eat("import") {
		if o.eat("(") {
			for o.more() && !o.at(")") {
				o.Imports = append(o.Imports, o.str())
			}
			o.need(")")
		} else {
			o.Imports = append(o.Imports, o.str())
		}
	}
	for o.comments(); o.more(); o.comments() {
		o.need("type")
		d := vpDecl{Ident: o.word()}
		if o.eat("struct") {
			d.Kind = "struct"
			o.need("{")
			for o.noComments(); o.more() && !o.at("}"); o.noComments() {
				f := vpField{}
				if o.at("*") || o.i+1 < len(o.t) && (o.t[o.i+1].NL || o.t[o.i+1].K == vpStrT || o.t[o.i+1].S == ".") {
					f.Embed = true
					f.Depth, f.Ptr, f.Type = o.goType()
					f.List = f.Depth > 0
					f.Ident = f.Type
				} else {
					f.Ident = o.word()
					f.Depth, f.Ptr, f.Type = o.goType()
					f.List = f.Depth > 0
				}
				if o.more() && o.t[o.i].K == vpStrT && !o.t[o.i].NL {
					o.goTag(&f, o.str())
				}
				if o.more() && !o.t[o.i].NL && !o.at("}") && o.t[o.i].K != vpComm {
					o.fail("trailing tokens after a field")
				}
				if f.Ident == "XMLName" && f.Type == "xml.Name" && f.Annot == "element" {
					d.Wire, d.HasWire = f.Wire, true
					d.Own = append(d.Own, f.Ident)
					continue
				}
				if f.Embed {
					if d.Base != "" {
						o.fail("two embedded types")
					}
					if f.List {
						o.fail("an embedded list")
					}
					d.Base, d.Ptr = f.Type, f.Ptr
					d.Own = append(d.Own, f.Type)
					continue
				}
				d.Fields = append(d.Fields, f)
			}
			o.need("}")
		} else {
			d.Kind = "alias"
			d.Depth, d.Ptr, d.Type = o.goType()
			d.List = d.Depth > 0
		}
		if o.more() && !o.t[o.i].NL {
			o.fail("trailing tokens after a declaration")
		}
		o.push(d)
	}
}

func (o *vpOut) goTag(f *vpField, tag string) {
	if !strings.HasPrefix(tag, "xml:\"") || !strings.HasSuffix(tag, "\"") {
		o.fail("unexpected struct tag")
		return
	}
	tag = tag[5 : len(tag)-1]
	parts := strings.Split(tag, ",")
	f.Wire, f.Annot = parts[0], "element"
	for _, p := range parts[1:] {
		switch p {
		case "attr":
			f.Attr, f.Annot = true, "attr"
		case "omitempty":
			f.Opt = true
		case "chardata":
			f.Annot = "value"
		default:
			o.fail("unexpected tag flag")
		}
	}
}

// cDecl reads "type words, name, brackets ;".
func (o *vpOut) cDecl() (ty, name string, depth int) {
	var w []string
	for o.more() && o.t[o.i].K == vpWord {
		w = append(w, o.word())
	}
	if len(w) < 2 {
		if o.Bad == "" {
			o.fail("incomplete C declaration")
		}
		return
	}
	name = w[len(w)-1]
	ty = strings.Join(w[:len(w)-1], " ")
	for o.eat("[") {
		o.need("]")
		depth++
	}
	if depth > 1 {
		o.fail("array of arrays")
	}
	o.need(";")
	return
}

func (o *vpOut) cFile() {
	o.noComments()
	if o.i > 1 { // the banner is the first comment; the rest belongs to a declaration
		o.i = 1
	}
	for o.comments(); o.more(); o.comments() {
		o.need("typedef")
		d := vpDecl{}
		if o.eat("struct") {
			d.Kind = "struct"
			o.need("{")
			for o.noComments(); o.more() && !o.at("}"); o.noComments() {
				f := vpField{}
				f.Type, f.Ident, f.Depth = o.cDecl()
				f.List = f.Depth > 0
				if o.more() && o.t[o.i].K == vpComm && !o.t[o.i].NL {
					c := strings.TrimSpace(o.t[o.i].S)
					if c == "attr" {
						f.Attr, f.Annot = true, "attr"
					} else if c == "attr, optional" {
						f.Attr, f.Opt, f.Annot = true, true, "attr"
					}
					o.i++
				}
				d.Fields = append(d.Fields, f)
			}
			o.need("}")
			d.Ident = o.word()
			o.need(";")
		} else {
			d.Kind = "alias"
			d.Type, d.Ident, d.Depth = o.cDecl()
			d.List = d.Depth > 0
		}
		o.push(d)
	}
}

// generic reads a type, unwrapping the given one-argument generics; opt only
// counts outside lists.
func (o *vpOut) generic(list, opt string) (depth int, isOpt bool, ty string) {
	ty = o.word()
	if ty == opt && o.eat("<") {
		isOpt = true
		depth, _, ty = o.generic(list, "")
		o.need(">")
	} else if ty == list && o.eat("<") {
		depth, _, ty = o.generic(list, "")
		depth++
		o.need(">")
	}
	for o.eat(".") {
		ty += "." + o.word()
	}
	return
}

func (o *vpOut) javaFile() {
	o.noComments()
	o.need("package")
	o.Package = o.word()
	for o.more() && !o.eat(";") {
		o.Package += o.t[o.i].S
		o.i++
	}
	for o.eat("import") {
		imp := ""
		for o.more() && !o.at(";") {
			imp += o.t[o.i].S
			o.i++
		}
		o.need(";")
		o.Imports = append(o.Imports, imp)
	}
	for o.comments(); o.more(); o.comments() {
		a := o.javaAnnots()
		o.comments()
		o.need("public")
		o.need("class")
		d := vpDecl{Kind: "struct", Ident: o.word()}
		if a.Annot != "" {
			d.Kind, d.Wire, d.HasWire = "alias", a.Wire, true
		}
		if o.eat("extends") {
			d.Base = o.word()
		}
		o.need("{")
		for o.noComments(); o.more() && !o.at("}"); o.noComments() {
			f := o.javaAnnots()
			o.noComments()
			o.need("protected")
			f.Depth, _, f.Type = o.generic("List", "")
			f.List = f.Depth > 0
			f.Ident = o.word()
			if f.Annot == "value" && f.Ident != "value" {
				o.fail("value member")
			}
			o.need(";")
			d.Fields = append(d.Fields, f)
		}
		o.need("}")
		if d.Kind == "alias" {
			if len(d.Fields) == 1 {
				d.Type, d.List, d.Depth = d.Fields[0].Type, d.Fields[0].List, d.Fields[0].Depth
			} else if o.Bad == "" {
				o.fail("class for a simple declaration without exactly one member")
			}
		}
		o.push(d)
	}
}

func (o *vpOut) javaAnnots() (f vpField) {
	for o.more() && o.eat("@") {
		k := o.word()
		req := false
		if o.eat("(") {
			for o.more() && !o.eat(")") {
				if o.eat("name") {
					o.need("=")
					f.Wire = o.str()
				} else if o.eat("required") {
					o.need("=")
					req = o.word() == "true"
				} else {
					o.i++
				}
			}
		}
		switch k {
		case "XmlAttribute":
			f.Attr, f.Annot, f.Opt = true, "attr", !req
		case "XmlElement":
			f.Annot = "element"
		case "XmlValue":
			f.Annot = "value"
		}
	}
	return
}

func (o *vpOut) rustFile() {
	o.noComments()
	if o.i > 1 {
		o.i = 1
	}
	for o.more() && (o.at("#") || o.at("extern") || o.at("use")) {
		if o.at("#") && o.i+2 < len(o.t) && o.t[o.i+2].S == "derive" {
			break
		}
		if o.eat("#") {
			for o.more() && !o.eat("]") {
				o.i++
			}
			continue
		}
		for o.more() && !o.eat(";") {
			o.i++
		}
	}
	for o.comments(); o.more(); o.comments() {
		for o.eat("#") {
			for o.more() && !o.eat("]") {
				o.i++
			}
		}
		o.comments()
		o.need("pub")
		o.need("struct")
		d := vpDecl{Kind: "struct", Ident: o.word()}
		o.need("{")
		for o.noComments(); o.more() && !o.at("}"); o.noComments() {
			f := vpField{}
			flat := false
			for o.eat("#") {
				o.need("[")
				o.need("serde")
				o.need("(")
				for o.more() && !o.eat(")") {
					if o.eat("rename") {
						o.need("=")
						f.Wire, f.Annot = o.str(), "element"
						if f.Wire == "$value" {
							f.Annot = "value"
						}
					} else if o.eat("flatten") {
						flat = true
						f.Annot = "flatten"
					} else {
						o.i++
					}
				}
				o.need("]")
			}
			o.need("pub")
			f.Ident = o.word()
			o.need(":")
			f.Depth, f.Opt, f.Type = o.generic("Vec", "Option")
			f.List = f.Depth > 0
			if !o.at("}") {
				o.need(",")
			}
			if flat {
				if d.Base != "" {
					o.fail("two flattened members")
				}
				d.Base = f.Type
				d.Own = append(d.Own, f.Ident)
				continue
			}
			d.Fields = append(d.Fields, f)
		}
		o.need("}")
		o.push(d)
	}
}

func (o *vpOut) tsType() (depth int, ty string) {
	depth, _, ty = o.generic("Array", "")
	for o.eat("[") {
		o.need("]")
		depth++
	}
	return
}

func (o *vpOut) tsFile() {
	o.noComments()
	if o.i > 1 {
		o.i = 1
	}
	for o.comments(); o.more(); o.comments() {
		o.need("export")
		d := vpDecl{}
		switch {
		case o.eat("type"):
			d.Kind = "alias"
			d.Ident = o.word()
			o.need("=")
			d.Depth, d.Type = o.tsType()
			d.List = d.Depth > 0
			o.need(";")
		case o.eat("enum"):
			d.Kind = "enum"
			d.Ident = o.word()
			o.need("{")
			for o.noComments(); o.more() && !o.at("}"); o.noComments() {
				e := vpEntry{}
				if o.t[o.i].K == vpStrT {
					e.Name = o.str()
				} else {
					e.Name = o.word()
				}
				o.need("=")
				if o.more() && o.t[o.i].K == vpStrT {
					e.Value, e.Quoted = o.str(), true
				} else {
					for o.more() && !o.at(",") && !o.at("}") {
						e.Value += o.t[o.i].S
						o.i++
					}
				}
				if !o.at("}") {
					o.need(",")
				}
				d.Enum = append(d.Enum, e)
			}
			o.need("}")
		default:
			o.need("class")
			d.Kind = "struct"
			d.Ident = o.word()
			if o.eat("extends") {
				d.Base = o.word()
			}
			o.need("{")
			for o.noComments(); o.more() && !o.at("}"); o.noComments() {
				f := vpField{Ident: o.word()}
				o.need(":")
				f.Depth, f.Type = o.tsType()
				f.List = f.Depth > 0
				if o.eat("|") {
					o.need("null")
					f.Opt = true
				}
				o.need(";")
				d.Fields = append(d.Fields, f)
			}
			o.need("}")
		}
		o.push(d)
	}
}

// ---- helpers over the declarations ----

// ok asserts that the whole file was understood.
func (o *vpOut) ok() *vpOut {
	vpAssert(o.Bad == "", "the generated file is not well formed| "+o.Bad)
	return o
}

// decl is the i-th declaration of exactly n.
func (o *vpOut) decl(i, n int) *vpDecl {
	o.ok()
	vpAssert(len(o.Decls) == n, "wrong number of declarations")
	return &o.Decls[i]
}

func (o *vpOut) find(ident string) *vpDecl {
	for i := range o.Decls {
		if o.Decls[i].Ident == ident {
			return &o.Decls[i]
		}
	}
	return nil
}

// single gives the type a declaration stands for when it is not a record:
// aliases, and in Java and Rust the only member of its class or struct.
func (d *vpDecl) single() (ty string, depth int, ok bool) {
	if d.Kind == "alias" {
		return d.Type, d.Depth, true
	}
	if d.Kind == "struct" && len(d.Fields) == 1 && d.Base == "" {
		return d.Fields[0].Type, d.Fields[0].Depth, true
	}
	return "", 0, false
}

// values drops nothing: all members.
func (d *vpDecl) field(ident string) *vpField {
	for i := range d.Fields {
		if d.Fields[i].Ident == ident {
			return &d.Fields[i]
		}
	}
	return nil
}

// vpSnake is the snake-case form of a mangled identifier (reference model).
func vpUpper1(s string) string {
	if s != "" && s[0] >= 'a' && s[0] <= 'z' {
		return string([]byte{s[0] - 32}) + s[1:]
	}
	return s
}
