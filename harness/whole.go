package xgen

import "strings"

// A strict reader of a whole generated file: the marker line, the header and
// complete declarations, token by token, as the grammar of the language has
// them. It says nothing about what is declared.

const vpMarker = "// Code generated by xgen. DO NOT EDIT.\n"

func vpWhole(lang, text string) {
	vpAssert(strings.HasPrefix(text, vpMarker), "the first line does not mark the file as generated")
	o := &vpOut{Lang: lang, Text: text, t: vpTokens(lang, text)}
	vpAssert(len(o.t) > 0 && o.t[0].K == vpComm, "the first line is not a comment of its own")
	o.i = 1
	switch lang {
	case "Go":
		o.wholeGo()
	case "C":
		o.wholeC()
	case "Java":
		o.wholeJava()
	case "Rust":
		o.wholeRust()
	case "TypeScript":
		o.wholeTS()
	}
	vpAssert(o.Bad == "", "the generated file is not well formed| "+o.Bad)
}

// left: more tokens, comments skipped.
func (o *vpOut) left() bool {
	o.noComments()
	return o.more()
}

func (o *vpOut) sees(s string) bool { o.noComments(); return o.at(s) }
func (o *vpOut) eats(s string) bool { o.noComments(); return o.eat(s) }
func (o *vpOut) takes(s string)     { o.noComments(); o.need(s) }
func (o *vpOut) name() string       { o.noComments(); return o.word() }

// path reads names with separators between them.
func (o *vpOut) path(sep ...string) (s string) {
	s = o.name()
	for o.more() && o.sees(sep[0]) {
		for _, p := range sep {
			o.takes(p)
			s += p
		}
		s += o.name()
	}
	return
}

// plain: a string literal without anything that would have to be escaped.
func (o *vpOut) plain() string {
	o.noComments()
	s := o.str()
	return s
}

func (o *vpOut) wholeGo() {
	o.takes("package")
	o.Package = o.name()
	once := func(s string) {
		for _, p := range o.Imports {
			vpAssert(p != s, "a package is imported twice| "+s)
		}
		vpAssert(s != "", "an import of nothing")
		o.Imports = append(o.Imports, s)
	}
	for o.left() && o.eats("import") {
		if !o.eats("(") {
			once(o.plain())
			continue
		}
		for o.left() && !o.at(")") {
			once(o.plain())
		}
		o.takes(")")
	}
	for o.left() {
		o.takes("type")
		o.name()
		o.eats("=")
		if !o.eats("struct") {
			o.wholeGoType()
			o.ends()
			continue
		}
		o.takes("{")
		for o.left() && !o.at("}") {
			if o.at("*") || o.i+1 < len(o.t) && (o.t[o.i+1].NL || o.t[o.i+1].K == vpStrT || o.t[o.i+1].S == ".") {
				o.eats("*")
				o.path(".")
			} else {
				o.name()
				o.wholeGoType()
			}
			if o.more() && o.t[o.i].K == vpStrT && !o.t[o.i].NL {
				o.i++
			}
			if !o.at("}") {
				o.ends()
			}
		}
		o.takes("}")
		o.ends()
	}
}

// ends: nothing follows on the line but a comment.
func (o *vpOut) ends() {
	if o.more() && !o.t[o.i].NL && o.t[o.i].K != vpComm && !o.eat(";") {
		o.fail("more on the line")
	}
}

func (o *vpOut) wholeGoType() {
	for o.more() {
		if o.eats("[") {
			o.takes("]")
		} else if !o.eats("*") {
			break
		}
	}
	if o.eats("interface") {
		o.takes("{")
		o.takes("}")
		return
	}
	o.path(".")
}

func (o *vpOut) wholeC() {
	for o.more() && o.eats("#") { // #include <...>
		for o.more() && !o.t[o.i].NL {
			o.i++
		}
	}
	one := func() {
		n := 0
		for o.left() && o.t[o.i].K == vpWord {
			o.name()
			n++
		}
		if n < 2 && o.Bad == "" {
			o.fail("a C declaration without type or name")
		}
		if o.eats("[") {
			o.takes("]")
		}
		o.takes(";")
	}
	for o.left() {
		o.takes("typedef")
		if !o.eats("struct") {
			one()
			continue
		}
		o.takes("{")
		for o.left() && !o.at("}") {
			one()
		}
		o.takes("}")
		o.name()
		o.takes(";")
	}
}

// args reads name = value, words joined by dots, or values alone, in
// parentheses, if there are any.
func (o *vpOut) args() {
	if !o.eats("(") {
		return
	}
	for o.left() && !o.at(")") {
		if o.t[o.i].K == vpStrT {
			o.i++
		} else {
			o.path(".")
			if o.eats("=") {
				if o.left() && o.t[o.i].K == vpStrT {
					o.i++
				} else {
					o.path(".")
				}
			}
		}
		if !o.eats(",") {
			break
		}
		if o.sees(")") && o.Lang == "Java" {
			o.fail("an annotation's arguments end with a comma")
		}
	}
	o.takes(")")
}

func (o *vpOut) generics(sep ...string) {
	o.path(sep...)
	if o.eats("<") {
		o.generics(sep...)
		for o.eats(",") {
			o.generics(sep...)
		}
		o.takes(">")
	}
	for o.Lang != "Rust" && o.eats("[") {
		o.takes("]")
	}
}

func (o *vpOut) wholeJava() {
	o.takes("package")
	o.Package = o.path(".")
	o.takes(";")
	for o.left() && o.eats("import") {
		s := o.name()
		for o.eats(".") {
			if o.eats("*") {
				s += ".*"
				break
			}
			s += "." + o.name()
		}
		o.takes(";")
		for _, p := range o.Imports {
			vpAssert(p != s, "a class is imported twice| "+s)
		}
		o.Imports = append(o.Imports, s)
	}
	notes := func() {
		var seen []string
		for o.left() && o.eats("@") {
			s := o.path(".")
			o.args()
			for _, p := range seen {
				vpAssert(p != s, "an annotation is given twice| "+s)
			}
			seen = append(seen, s)
		}
	}
	for o.left() {
		notes()
		for o.eats("public") || o.eats("final") {
		}
		o.takes("class")
		o.name()
		if o.eats("extends") {
			o.generics(".")
		}
		o.takes("{")
		for o.left() && !o.at("}") {
			notes()
			if !o.eats("protected") && !o.eats("private") {
				o.eats("public")
			}
			o.generics(".")
			o.name()
			o.takes(";")
		}
		o.takes("}")
	}
}

func (o *vpOut) wholeRust() {
	note := func() {
		if o.Bad != "" {
			return
		}
		o.takes("[")
		o.path(":", ":")
		o.args()
		o.takes("]")
	}
	for o.left() { // #[macro_use] extern crate x; use x::y;
		k := o.i
		for o.eats("#") {
			note()
		}
		if o.eats("extern") {
			o.takes("crate")
			o.name()
		} else if o.eats("use") {
			o.path(":", ":")
		} else {
			if o.Bad == "" {
				o.i = k
			}
			break
		}
		o.takes(";")
	}
	for o.left() {
		for o.eats("#") {
			note()
		}
		o.takes("pub")
		o.takes("struct")
		o.name()
		o.takes("{")
		for o.left() && !o.at("}") {
			for o.eats("#") {
				note()
			}
			o.takes("pub")
			o.name()
			o.takes(":")
			o.generics(":", ":")
			if !o.sees("}") {
				o.takes(",")
			}
		}
		o.takes("}")
	}
}

func (o *vpOut) wholeTS() {
	typ := func() {
		o.generics(".")
		for o.eats("|") {
			o.generics(".")
		}
	}
	for o.left() && o.eats("import") {
		for o.left() && !o.eat(";") {
			o.i++
		}
	}
	for o.left() {
		o.takes("export")
		if o.eats("type") {
			o.name()
			o.takes("=")
			typ()
			o.takes(";")
			continue
		}
		if o.eats("enum") {
			o.name()
			o.takes("{")
			for o.left() && !o.at("}") {
				if o.t[o.i].K == vpStrT {
					o.i++
				} else {
					o.name()
				}
				if o.eats("=") {
					if o.left() && o.t[o.i].K == vpStrT {
						o.i++
					} else {
						n := o.i
						for o.left() && !o.at(",") && !o.at("}") {
							w := o.t[o.i]
							if w.K != vpWord && w.S != "-" && w.S != "+" && w.S != "." {
								o.fail("not a value of an enumeration")
							}
							o.i++
						}
						if o.i == n && o.Bad == "" {
							o.fail("a member of an enumeration without a value")
						}
					}
				}
				if !o.sees("}") {
					o.takes(",")
				}
			}
			o.takes("}")
			continue
		}
		o.takes("class")
		o.name()
		if o.eats("extends") {
			o.generics(".")
		}
		o.takes("{")
		for o.left() && !o.at("}") {
			o.name()
			o.takes(":")
			typ()
			o.takes(";")
		}
		o.takes("}")
	}
}
