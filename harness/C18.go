package xgen

//vp:use lib.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

import "strings"

// C18: documentation stays in comments, and the comment of a documented type
// has it.

// vpCode gives the generated code without its comments.
func vpCode(o *vpOut) (out []vpLex) {
	for _, t := range o.t {
		if t.K != vpComm {
			out = append(out, t)
		}
	}
	return
}

// vpSameCode compares the output of a schema with that of the same schema
// without its documentation.
func vpSameCode(o, plain *vpOut) {
	a, b := vpCode(o), vpCode(plain)
	for i := 0; i < len(a) && i < len(b); i++ {
		vpAssert(a[i].K == b[i].K && a[i].S == b[i].S, "documentation changes the declarations| "+b[i].S)
	}
	vpAssert(len(a) == len(b), "documentation changes the declarations")
	vpCover("reached")
}

// vpLetters keeps letters and digits.
func vpLetters(s string) (out string) {
	for i := 0; i < len(s); i++ {
		if c := s[i]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			out += s[i : i+1]
		}
	}
	return
}

// vpNote is a documentation: an annotation, in the forms XML allows.
func vpNote(d *vpDoc, form int, text string) {
	switch form {
	case 0:
		d.doc(text)
	case 1: // language and source attributes, appinfo in front
		d.open("annotation", "id", "x").open("appinfo").text("}").close()
		d.open("documentation", "xml:lang", "en", "source", "urn:d").text(text).closeN(2)
	case 2: // comment and processing instruction inside
		d.open("annotation").open("documentation")
		h := len(text) / 2
		d.text(text[:h])
		d.toks = append(d.toks, vpTok{Kind: 4, Data: " type X struct { "}, vpTok{Kind: 5, Local: "pi", Data: "class X {"})
		d.text(text[h:]).closeN(2)
	case 3: // white space around it
		d.open("annotation").text("\n\t")
		d.open("documentation").text("\n\t  " + text + "\n\t").close().text("\n").close()
	case 4: // markup inside
		d.open("annotation").open("documentation").open("simpleType", "name", "Evil").text(text).closeN(3)
	}
}

const vpDocPlaces = 22

// vpDocumented declares components with the annotation n at one place; it
// returns the declaration that has to show it, if any.
func vpDocumented(d *vpDoc, place int, name string, n func()) string {
	at := func(p int) {
		if p == place {
			n()
		}
	}
	switch place {
	case 0, 1:
		d.open("simpleType", "name", name)
		at(0)
		d.open("restriction", "base", "xs:string").open("pattern", "value", "a*")
		at(1)
		d.closeN(3)
	case 2, 3, 4:
		d.open("complexType", "name", name)
		at(2)
		d.open("sequence").open("element", "name", "kid", "type", "xs:int")
		at(3)
		d.closeN(2)
		d.open("attribute", "name", "a", "type", "xs:int")
		at(4)
		d.closeN(2)
	case 5, 6, 7, 8:
		d.open("simpleType", "name", name)
		at(5)
		d.open("restriction", "base", "xs:string")
		at(6)
		d.open("enumeration", "value", "v1")
		at(7)
		d.close().open("enumeration", "value", "v2")
		at(8)
		d.closeN(3)
	case 9:
		d.open("simpleType", "name", name)
		n()
		d.leaf("list", "itemType", "xs:int").close()
	case 10:
		d.open("simpleType", "name", name)
		n()
		d.leaf("union", "memberTypes", "xs:int xs:boolean").close()
	case 11:
		d.open("complexType", "name", name)
		n()
		d.open("complexContent").open("extension", "base", "U").leaf("attribute", "name", "a", "type", "xs:int").closeN(3)
	case 12:
		d.open("complexType", "name", name)
		n()
		d.open("simpleContent").leaf("extension", "base", "xs:int").closeN(2)
	case 13:
		d.open("group", "name", name)
		n()
		d.open("sequence").leaf("element", "name", "kid", "type", "xs:int").closeN(2)
	case 14:
		d.open("attributeGroup", "name", name)
		n()
		d.leaf("attribute", "name", "a", "type", "xs:int").close()
	case 15:
		d.open("element", "name", name, "type", "xs:int")
		n()
		d.close()
	case 16:
		d.open("attribute", "name", name, "type", "xs:int")
		n()
		d.close()
	case 17:
		d.open("element", "name", name)
		n()
		d.open("complexType").open("sequence").leaf("element", "name", "kid", "type", "xs:int").closeN(3)
	case 18:
		n()
		d.leaf("complexType", "name", name)
	case 19:
		d.open("complexType", "name", name)
		d.open("sequence").open("element", "name", "nest").open("complexType")
		n()
		d.leaf("attribute", "name", "a", "type", "xs:int").closeN(4)
	case 20:
		d.open("complexType", "name", name)
		d.open("sequence").open("element", "name", "kid").open("simpleType")
		n()
		d.restrict("xs:int").closeN(4)
	case 21:
		d.open("complexType", "name", name)
		d.open("attributeGroup", "ref", "B1")
		n()
		d.closeN(2)
		d.open("attributeGroup", "name", "B1").leaf("attribute", "name", "u", "type", "xs:int").close()
	}
	if vpIn(vpItoa(place), "0", "2", "5", "9", "10", "11", "12") {
		return name
	}
	return ""
}

// vpDocRun generates with and without the documentation and compares. The
// component stands between two others that have documentation of their own.
func vpDocRun(lang string, place, form int, text string) {
	build := func(on bool) (*vpDoc, string) {
		d := vpXSD()
		own := ""
		note := func(form int, text string) func() {
			return func() {
				if on {
					vpNote(d, form, text)
				}
			}
		}
		vpDocumented(d, 2, "First", note(0, "one } first"))
		own = vpDocumented(d, place, "Mid", note(form, text))
		vpDocumented(d, 0, "Last", note(0, "three\n} last"))
		vpUses(d)
		return d, own
	}
	d, _ := build(false)
	plain := vpGen(lang, d.done()).ok()
	d, own := build(true)
	o := vpGen(lang, d.done()).ok()
	vpSameCode(o, plain)
	shows := func(ident, text string) {
		D := o.find(ident)
		vpAssert(D != nil, "a documented type is missing| "+ident)
		vpAssert(strings.Contains(vpLetters(D.Doc), vpLetters(text)), "the comment of a type does not have its documentation| "+ident)
	}
	shows("First", "one } first")
	shows("Last", "three last")
	if own != "" && form != 4 {
		shows(own, text)
	}
	for _, D := range o.Decls {
		if D.Ident != "First" {
			vpAssert(!strings.Contains(D.Doc, "one } first"), "documentation is shown at another declaration| "+D.Ident)
		}
		if D.Ident != "Last" {
			vpAssert(!strings.Contains(D.Doc, "} last"), "documentation is shown at another declaration| "+D.Ident)
		}
	}
}

// arbitrary characters, in every place
func vpH_places() {
	lang, place := vpLang(), vpPick("place", vpDocPlaces)
	vpDocRun(lang, place, 0, "Q"+vpStr("text", 1, 1+vpTier(), " -~\n\r\t")+"y1 }")
}

// arbitrary text in the places that are shown, with ends a lexer may see
func vpH_text() {
	lang := vpLang()
	place := []int{0, 2}[vpPick("place", 1+vpTier())]
	head := []string{"", "Q", "\\"}[vpPick("head", 3)]
	tail := []string{"", "000a int x;", "\n}"}[vpPick("tail", 3)]
	text := head + vpStr("text", 1, 2+vpTier(), " -~\n\r\t") + tail
	vpDocRun(lang, place, 0, text)
}

// characters of several bytes, line terminators of other languages
func vpH_pieces() {
	lang := vpLang()
	place := []int{2, 5, 15, 13}[vpPick("place", 1+3*vpTier())]
	text := "Q"
	pieces := []string{"\u2028", "\u2029", "\r\n", "\ufeff", "\\u000a", "*/", "\u00e9", "\u0434\u4e00", "/*", "\\uuu000D"}
	for i := 0; i < 2; i++ {
		text += pieces[vpPick("piece", 10-i*5)] + vpStr("after", 0, 1-i+i*vpTier(), " -~\n\r\t")
	}
	vpDocRun(lang, place, 0, text+"int z;")
}

// the forms of an annotation
func vpH_forms() {
	lang, place := vpLang(), vpPick("place", vpDocPlaces)
	form := vpPick("form", 5)
	vpDocRun(lang, place, form, "Q\n"+vpStr("text", 1, 1, " -~\n\r\t")+"}\nint y1;")
}

// documentation of two places at once: a type and what is in it
func vpH_two() {
	lang := vpLang()
	outer := []int{0, 2, 5}[vpPick("outer", 3)]
	inner := [][]int{{1}, {3, 4}, {6, 7, 8}}[outer/2]
	in := inner[vpPick("inner", len(inner))]
	text := "Q" + vpStr("text", 1, 1, "!-~\n\r\t") + "end"
	build := func(on bool) *vpDoc {
		d := vpXSD()
		say := func(p int, text string) {
			if on && (p == outer || p == in) {
				d.doc(text)
			}
		}
		switch outer {
		case 0:
			d.open("simpleType", "name", "Host")
			say(0, text)
			d.open("restriction", "base", "xs:string").open("pattern", "value", "a*")
			say(1, "inner }")
			d.closeN(3)
		case 2:
			d.open("complexType", "name", "Host")
			say(2, text)
			d.open("sequence").open("element", "name", "kid", "type", "xs:int")
			say(3, "inner }")
			d.closeN(2)
			d.open("attribute", "name", "a", "type", "xs:int")
			say(4, "inner }")
			d.closeN(2)
		case 5:
			d.open("simpleType", "name", "Host")
			say(5, text)
			d.open("restriction", "base", "xs:string")
			say(6, "inner }")
			d.open("enumeration", "value", "v1")
			say(7, "inner }")
			d.close().open("enumeration", "value", "v2")
			say(8, "inner }")
			d.closeN(3)
		}
		d.leaf("complexType", "name", "Plain")
		return d
	}
	plain := vpGen(lang, build(false).done()).ok()
	o := vpGen(lang, build(true).done()).ok()
	vpSameCode(o, plain)
	D, P := o.find("Host"), o.find("Plain")
	vpAssert(D != nil && P != nil, "a documented type is missing")
	vpAssert(strings.Contains(vpLetters(D.Doc), vpLetters(text)), "the comment of a type does not have its documentation| Host")
	vpAssert(!strings.Contains(P.Doc, "inner") && !strings.Contains(P.Doc, "end"), "documentation is shown at another declaration| Plain")
}

// documentation between components of every kind
func vpH_among() {
	place := vpPick("place", vpDocPlaces)
	text := "Q" + []string{"*/", "}", "\n", "`", "\"\"\""}[vpPick("text", 2+3*vpTier())] + "int z;"
	sum := vpNeighbours()
	build := func(on bool) (*vpDoc, string) {
		d := vpXSD()
		own := ""
		vpBetween(d, sum, func() {
			own = vpDocumented(d, place, "Mid", func() {
				if on {
					d.doc(text)
				}
			})
			d.leaf("complexType", "name", "Plain")
		})
		vpAmongUses(d)
		return d, own
	}
	d, _ := build(false)
	lang := vpVary(sum + place)
	plain := vpGen(lang, d.done()).ok()
	d, own := build(true)
	o := vpGen(lang, d.done()).ok()
	vpSameCode(o, plain)
	if own != "" {
		D := o.find(own)
		vpAssert(D != nil && strings.Contains(vpLetters(D.Doc), vpLetters(text)), "the comment of a type does not have its documentation| "+own)
	}
	P := o.find("Plain")
	vpAssert(P != nil && !strings.Contains(P.Doc, "int z"), "documentation is shown at another declaration| Plain")
}

// what ends a comment or begins one somewhere, in every place
func vpH_each() {
	lang, place := vpLang(), vpPick("place", vpDocPlaces)
	pieces := []string{"*/", "/*", "\n", "\r", "\r\n", "\u2028", "\\u000a", "\\", "//", "`", "\u0085x", "\"", "\n\n\t}", "\x7f", "}"}
	vpDocRun(lang, place, 0, "Qa "+pieces[vpPick("piece", len(pieces))]+" int z;")
}

// long documentation
func vpH_lengths() {
	lang := vpLang()
	place := []int{0, 2, 5, 10, 12, 15, 8}[vpPick("place", 3+4*vpTier())]
	word := []string{"word ", "some  words, ", "a\tb ", "line\n", "p\n\n  ", "wordswithoutblanks", "*/ }", "<&> "}[vpPick("word", 8)]
	text := "Q"
	for n := []int{30, 100, 300, 1100}[vpPick("length", 4)]; len(text) < n; {
		text += word
	}
	vpDocRun(lang, place, vpPick("form", 1+3*vpTier()), text+vpStr("last", 0, 1, " -~\n\r\t")+"z")
}

// much documentation: many documented declarations, or many lines
func vpH_many() {
	n := []int{4, 8, 9, 10, 16, 17, 33, 65}[vpPick("size", 8)]
	at := []int{0, 1, n / 2, n - 1}[vpPick("at", 4)]
	p := vpPick("places", 12)
	odd := "Q" + []string{"*/", "\n", "*", "}", "\r", "\n\n", "`", "\\"}[vpPick("text", 4+4*vpTier())] + vpStr("letter", 1, 1, "/*a-z\n") + "int z;"
	if p == 11 {
		text := "first"
		for i := 1; i < n; i++ {
			text += "\n"
			if i == at {
				text += odd
			} else if i%5 != 3 {
				text += "line " + vpItoa(i)
			}
		}
		vpDocRun(vpVary(n+at), []int{0, 2, 5, 10}[n%4], 0, text)
		return
	}
	owns := make([]string, n)
	text := func(i int) string {
		if i == at {
			return odd
		}
		return "text" + vpItoa(i) + " }\n* of its own"
	}
	build := func(on bool) *vpDoc {
		d := vpXSD()
		for i := 0; i < n; i++ {
			i := i
			place := (p + 5*i) % vpDocPlaces
			if place == 21 { // declares a group of a fixed name
				place = 2
			}
			owns[i] = vpDocumented(d, place, "Type"+vpItoa(i), func() {
				if on {
					d.doc(text(i))
				}
			})
		}
		vpUses(d)
		return d
	}
	lang := vpVary(n + at)
	plain := vpGen(lang, build(false).done()).ok()
	o := vpGen(lang, build(true).done()).ok()
	vpSameCode(o, plain)
	for i := 0; i < n; i++ {
		if owns[i] != "" {
			D := o.find(owns[i])
			vpAssert(D != nil && strings.Contains(vpLetters(D.Doc), vpLetters(text(i))), "the comment of a type does not have its documentation| "+owns[i])
			for j := 0; j < n; j++ {
				if j != i && j != at && j > 9 {
					vpAssert(!strings.Contains(D.Doc, "text"+vpItoa(j)), "documentation is shown at another declaration| "+owns[i])
				}
			}
		}
	}
	vpCover("reached")
}

// documentation that says no more than a name, or what another one says
func vpH_named() {
	lang := vpLang()
	place := []int{0, 2, 5, 9, 10, 11, 12}[vpPick("place", 7)]
	name := []string{"Mid", "mid", "mid-x", "Q"}[vpPick("name", 4)]
	texts := []string{name, vpUpper1(name), "First", "is", "...", name + " " + name, name + " is " + name, "string", "a documentation", "U", name + " ...", "v1", "todo", "TODO", "0", "x"}
	text := texts[vpPick("text", len(texts))]
	first := "a documentation"
	if vpBool("like the first") {
		first = text
	}
	d := vpXSD()
	vpDocumented(d, []int{0, 2}[vpPick("other", 2)], "First", func() { d.doc(first) })
	vpDocumented(d, place, name, func() { d.doc(text) })
	vpDocumented(d, 0, "Last", func() { d.doc(text) })
	vpUses(d)
	o := vpGen(lang, d.done()).ok()
	for i, id := range []string{"First", vpIdentOf(o, name), "Last"} {
		D := o.find(id)
		vpAssert(D != nil, "a documented type is missing| "+id)
		say := text
		if i == 0 {
			say = first
		}
		// the comment names the declaration first
		doc := D.Doc
		if k := strings.Index(doc, D.Ident); k >= 0 {
			doc = doc[k+len(D.Ident):]
		}
		vpAssert(strings.Contains(doc, say), "the comment of a type does not have its documentation| "+id)
	}
	vpCover("reached")
}

// vpIdentOf is the identifier of a component whose name is ASCII.
func vpIdentOf(o *vpOut, name string) string {
	for _, D := range o.Decls {
		if vpLetters(D.Ident) == vpLetters(vpUpper1(name)) {
			return D.Ident
		}
	}
	return ""
}
