package xgen

import "strings"

// Attributes and content that say nothing about the generated code. Adding
// one of them to any start tag of a schema leaves the declarations as they
// were.

var vpNoiseForeign = [][]string{
	{"xmlns:x", "urn:x", "x:maxOccurs", "unbounded"}, {"xmlns:x", "urn:x", "x:use", "required"}, {"xmlns:x", "urn:x", "x:name", "evil"},
	{"xmlns:x", "urn:x", "x:type", "xs:date"}, {"xmlns:x", "urn:x", "x:base", "xs:date"}, {"xmlns:x", "urn:x", "x:ref", "evil"},
	{"id", "unbounded"},
}

// vpNoiseOf lists attributes a schema element may have that change nothing.
func vpNoiseOf(t vpTok, top bool) [][]string {
	ref := false
	for _, a := range t.Attrs {
		ref = ref || a.Local == "ref"
	}
	var own [][]string
	switch t.Local {
	case "schema":
		own = [][]string{{"version", "required"}, {"elementFormDefault", "qualified"}, {"attributeFormDefault", "qualified"}, {"finalDefault", "restriction"}, {"xml:lang", "en"}}
	case "element":
		if top {
			own = [][]string{{"abstract", "true"}, {"nillable", "true"}, {"substitutionGroup", "U"}, {"default", "required"}, {"block", "extension"}, {"final", "restriction"}}
		} else if ref {
			own = [][]string{{"minOccurs", "0"}, {"maxOccurs", "1"}}
		} else {
			own = [][]string{{"nillable", "true"}, {"form", "qualified"}, {"default", "unbounded"}, {"fixed", "2"}, {"minOccurs", "1"}, {"maxOccurs", "1"}, {"block", "extension"}}
		}
	case "group", "sequence", "choice", "all":
		if !top {
			own = [][]string{{"minOccurs", "0"}, {"minOccurs", "1"}, {"maxOccurs", "1"}}
		}
	case "any":
		own = [][]string{{"namespace", "##other"}, {"processContents", "lax"}, {"maxOccurs", "unbounded"}}
	case "anyAttribute":
		own = [][]string{{"namespace", "##other"}, {"processContents", "lax"}}
	case "complexType":
		own = [][]string{{"mixed", "true"}}
		if top {
			own = append(own, []string{"abstract", "true"}, []string{"block", "extension"}, []string{"final", "restriction"})
		}
	case "complexContent":
		own = [][]string{{"mixed", "true"}}
	case "simpleType":
		if top {
			own = [][]string{{"final", "list"}}
		}
	case "attribute":
		if top {
			own = [][]string{{"default", "required"}, {"fixed", "optional"}}
		} else {
			own = [][]string{{"form", "qualified"}, {"default", "required"}, {"fixed", "required"}}
			if !ref {
				own = append(own, []string{"use", "optional"})
			}
		}
	case "pattern", "length", "minLength", "maxLength", "totalDigits", "fractionDigits", "minExclusive", "maxExclusive", "minInclusive", "maxInclusive", "whiteSpace":
		own = [][]string{{"fixed", "true"}}
	}
	var out [][]string
	for _, o := range own {
		free := true
		for _, a := range t.Attrs {
			if a.Local == o[0] || vpIn(a.Local, "default", "fixed", "use") && vpIn(o[0], "default", "fixed") {
				free = false
			}
		}
		if free {
			out = append(out, o)
		}
	}
	return out
}

const vpNoiseInner = 6

// vpNoiseInside writes content that says nothing; the forms from 3 on are
// annotations, which have to come first.
func vpNoiseInside(d *vpDoc, form int) {
	switch form {
	case 0:
		d.text("\n\t ")
	case 1:
		d.toks = append(d.toks, vpTok{Kind: 4, Data: " <xs:element name=\"evil\" type=\"xs:int\" maxOccurs=\"unbounded\"/> "})
	case 2:
		d.toks = append(d.toks, vpTok{Kind: 5, Local: "evil", Data: "<xs:enumeration value=\"evil\"/>"})
	case 3:
		d.doc("unbounded required xs:date")
	case 4:
		d.open("annotation").open("appinfo", "source", "urn:x")
		d.open("element", "name", "evil", "maxOccurs", "unbounded").open("complexType").open("sequence").closeN(3)
		d.leaf("attribute", "name", "evil", "type", "xs:date", "use", "required").leaf("enumeration", "value", "evil").closeN(2)
	case 5:
		d.open("annotation", "id", "i").open("documentation", "source", "urn:x", "xml:lang", "en").open("restriction", "base", "xs:date")
		d.leaf("include", "schemaLocation", "none.xsd").leaf("union", "memberTypes", "xs:date").closeN(3)
	}
}

// vpNoise generates code for a component of any kind, or a use of any kind,
// with and without an addition that says nothing, or with the schema's other
// components behind it, and in front or nowhere.
func vpNoise() (o, p *vpOut) {
	kind := vpPick("component", vpComponents+vpUses10)
	build := func() (*vpDoc, int, int) {
		d := vpXSD()
		lo := len(d.toks)
		if kind < vpComponents {
			vpComponent(d, kind, "comp")
		} else {
			d.simple("named", "xs:unsignedByte", "minInclusive", "2")
			vpUseIn(d, kind-vpComponents, "named")
		}
		hi := len(d.toks)
		vpAmongUses(d)
		return d, lo, hi
	}
	d, lo, hi := build()
	// the start tags that can have an addition
	tags := []int{0}
	inside := 0
	for i := lo; i < hi; i++ {
		t := d.toks[i]
		if t.Kind == 1 && t.Local == "annotation" {
			inside++
		}
		if t.Kind == 1 && inside == 0 {
			tags = append(tags, i)
		}
		if t.Kind == 2 && t.Local == "annotation" {
			inside--
		}
	}
	sites := vpNoiseSites(d.toks, lo, hi)
	k := vpPick("tag", len(tags)+len(sites)+2)
	if k >= len(tags)+len(sites) {
		return vpAlone(d, lo, hi, k > len(tags)+len(sites))
	}
	if k >= len(tags) {
		// a declaration of something else that says nothing
		at := sites[k-len(tags)]
		e := &vpDoc{P: d.P}
		e.toks = append(e.toks, d.toks[:at.At]...)
		n := vpPick("declaration", 3)
		switch at.What {
		case "any":
			e.leaf("any", [][]string{{"minOccurs", "0"}, {"maxOccurs", "unbounded"}, {"maxOccurs", "2", "processContents", "lax"}}[n]...)
		case "anyAttribute":
			e.leaf("anyAttribute", [][]string{{}, {"namespace", "##other"}, {"processContents", "skip"}}[n]...)
		case "key":
			tag := []string{"key", "unique", "unique"}[n]
			e.open(tag, "name", "constraint").leaf("selector", "xpath", "k1").leaf("field", "xpath", "@a1")
			if n == 2 {
				e.leaf("field", "xpath", "k2")
			}
			e.close()
		case "top":
			switch n {
			case 0:
				e.leaf("notation", "name", "remark", "public", "x")
			case 1:
				e.doc("a remark")
			case 2:
				e.open("annotation").open("appinfo").text("x").closeN(2)
			}
		}
		e.toks = append(e.toks, d.toks[at.At:]...)
		e.st = d.st
		lang := vpVary(kind + at.At + n)
		o = vpGen(lang, e.done()).ok()
		d, lo, hi = build()
		p = vpGen(lang, d.done()).ok()
		return
	}
	at := tags[k]
	t := d.toks[at]
	top := false
	level := 0
	for i := 0; i < at; i++ {
		if d.toks[i].Kind == 1 {
			level++
		}
		if d.toks[i].Kind == 2 {
			level--
		}
	}
	top = level == 1
	own := vpNoiseOf(t, top)
	forms := vpNoiseInner
	if at+1 < len(d.toks) && d.toks[at+1].Local == "annotation" {
		forms = 3 // not two annotations
	}
	pads := 0
	for _, a := range t.Attrs {
		if a.Space == "" && !vpIn(a.Local, "value", "default", "fixed", "xmlns") {
			pads++
		}
	}
	n := vpPick("addition", forms+pads+2*len(own)+2*len(vpNoiseForeign))
	e := &vpDoc{P: d.P}
	e.toks = append(e.toks, d.toks[:at]...)
	if n < forms {
		e.toks = append(e.toks, t)
		vpNoiseInside(e, n)
	} else if n < forms+pads {
		// white space around a value
		t.Attrs = append([]vpAttr{}, t.Attrs...)
		k := n - forms
		for i, a := range t.Attrs {
			if a.Space == "" && !vpIn(a.Local, "value", "default", "fixed", "xmlns") {
				if k == 0 {
					t.Attrs[i].Value = []string{" ", "", "\n\t"}[(kind+n)%3] + a.Value + []string{"  ", " "}[n%2]
				}
				k--
			}
		}
		e.toks = append(e.toks, t)
	} else {
		n -= forms + pads
		add := vpAttrs(append(own, vpNoiseForeign...)[n/2])
		if n%2 == 0 {
			t.Attrs = append(append([]vpAttr{}, add...), t.Attrs...)
		} else {
			t.Attrs = append(append([]vpAttr{}, t.Attrs...), add...)
		}
		e.toks = append(e.toks, t)
	}
	e.toks = append(e.toks, d.toks[at+1:]...)
	e.st = d.st
	lang := vpVary(kind + at + n/2)
	o = vpGen(lang, e.done()).ok()
	d, lo, hi = build()
	p = vpGen(lang, d.done()).ok()
	return
}

// vpAlone generates code for what is declared from lo to hi, with the rest of
// the schema behind it, and in front of it or without what it does not use.
func vpAlone(d *vpDoc, lo, hi int, front bool) (o, p *vpOut) {
	used := func(name string) bool {
		for _, t := range d.toks[lo:hi] {
			for _, a := range t.Attrs {
				if vpIn(a.Local, "ref", "type", "base", "itemType", "memberTypes") && vpIn(name, strings.Fields(a.Value)...) {
					return true
				}
			}
		}
		return false
	}
	rest, kept, depth := 0, 0, 0
	var keep []vpTok
	on := false
	for _, t := range d.toks[hi:] {
		if t.Kind == 1 {
			if depth++; depth == 1 {
				rest++
				on = false
				for _, a := range t.Attrs {
					on = on || a.Local == "name" && used(a.Value)
				}
				if on {
					kept++
				}
			}
		}
		if t.Kind == 2 {
			depth--
		}
		if on && depth >= 0 {
			keep = append(keep, t)
		}
	}
	e := &vpDoc{P: d.P, st: d.st}
	e.toks = append(e.toks, d.toks[:lo]...)
	if front {
		e.toks = append(e.toks, d.toks[hi:]...)
	}
	e.toks = append(e.toks, d.toks[lo:hi]...)
	if !front {
		e.toks = append(e.toks, keep...)
	}
	lang := vpLang()
	p = vpGen(lang, d.done()).ok()
	o = vpGen(lang, e.done()).ok()
	vpAssert(len(p.Decls) >= rest, "a component is not declared")
	p.Decls = p.Decls[:len(p.Decls)-rest]
	if front {
		vpAssert(len(o.Decls) >= rest, "a component is not declared")
		o.Decls = o.Decls[rest:]
	} else {
		vpAssert(len(o.Decls) >= kept, "a component is not declared")
		o.Decls = o.Decls[:len(o.Decls)-kept]
	}
	return
}

type vpNoiseSite struct {
	At   int
	What string
}

// vpNoiseSites lists where in the component from lo to hi a wildcard, a
// constraint or a notation may be declared as well.
func vpNoiseSites(toks []vpTok, lo, hi int) (sites []vpNoiseSite) {
	type open struct {
		tag  string
		kids []string
	}
	st := []open{{tag: "schema"}}
	for i := lo; i <= hi; i++ {
		top := &st[len(st)-1]
		end := i == hi || toks[i].Kind == 2
		if !end && toks[i].Kind != 1 {
			continue
		}
		if end || toks[i].Local != "annotation" {
			kids := strings.Join(top.kids, " ")
			switch top.tag {
			case "schema":
				sites = append(sites, vpNoiseSite{i, "top"})
			case "sequence", "choice":
				sites = append(sites, vpNoiseSite{i, "any"})
			case "complexType", "extension", "attributeGroup":
				if end && !strings.Contains(kids, "anyAttribute") && !strings.Contains(kids, "Content") && (top.tag != "attributeGroup" || kids != "") {
					sites = append(sites, vpNoiseSite{i, "anyAttribute"})
				}
			case "element":
				if end {
					sites = append(sites, vpNoiseSite{i, "key"})
				}
			}
		}
		if i == hi {
			break
		}
		if toks[i].Kind == 1 {
			top.kids = append(top.kids, toks[i].Local)
			tag := toks[i].Local
			for _, a := range toks[i].Attrs {
				if a.Local == "ref" {
					tag = ""
				}
			}
			st = append(st, open{tag: tag})
		} else {
			st = st[:len(st)-1]
		}
	}
	return
}

// vpSameDecls pairs the declarations of two outputs, as far as they go.
func vpSameDecls(o, p *vpOut, f func(a, b *vpDecl)) {
	for i := 0; i < len(o.Decls) && i < len(p.Decls); i++ {
		f(&o.Decls[i], &p.Decls[i])
	}
	vpCover("reached")
}

func vpSameFields(o, p *vpOut, f func(a, b *vpField)) {
	vpSameDecls(o, p, func(a, b *vpDecl) {
		for i := 0; i < len(a.Fields) && i < len(b.Fields); i++ {
			f(&a.Fields[i], &b.Fields[i])
		}
	})
}

// vpRenamed generates code for a component or use of any kind with two names
// for one of the things it declares: a plain one, and any of some length or
// that of another declaration but for the case of its first letter. The
// declarations must be alike but for that name. same tells whether the
// types a and b of the outputs are.
func vpRenamed() (o, p *vpOut, same func(a, b string) bool) {
	kind := vpPick("component", vpComponents+vpUses10)
	d := vpXSD()
	lo := len(d.toks)
	if kind < vpComponents {
		vpComponent(d, kind, "comp")
	} else {
		d.simple("named", "xs:unsignedByte", "minInclusive", "2")
		vpUseIn(d, kind-vpComponents, "named")
	}
	hi := len(d.toks)
	vpAmongUses(d)
	// the names there are
	var names []string
	own := 0
	members := map[string]bool{}
	for i, t := range d.toks {
		if t.Kind != 1 || vpIn(t.Local, "key", "notation") {
			continue
		}
		for _, a := range t.Attrs {
			if a.Local == "name" && !vpIn(a.Value, names...) {
				names = append(names, a.Value)
				if i >= lo && i < hi {
					own = len(names)
				}
			}
			if a.Local == "name" && vpIn(t.Local, "element", "attribute") {
				members[a.Value] = true
			}
		}
	}
	vpAssume(own > 0)
	old := names[vpPick("which", own)]
	like := vpPick("like", 1+len(names))
	if like > 0 {
		// the name of a type, a group or a global element but for a letter
		m := names[like-1]
		vpAssume(m != old && !(members[m] && members[old]))
		return vpRenameTo(d, names, old, vpFlip1(m), vpLang())
	}
	n := 3 + vpPick("length", 5)
	name := vpStr2("name", n, n, "A-Z", "a-z")
	forms := 2
	if n == 4 || vpTier() > 0 {
		forms = 5
	}
	switch vpPick("form", forms) {
	case 0: // another word in front
		name = vpStr2("head", 3, 3, "a-z", "a-z") + name
	case 2:
		name = vpStr2("lower", n, n+vpTier(), "a-z", "a-z")
	case 3:
		name += vpStr2("number", 1, 2, "0-9", "0-9")
	case 4:
		name = vpStr2("head", 2, 2, "a-z", "a-z") + vpStr2("middle", 1, 1, "0-9", "0-9") + name
	}
	for _, l := range vpLangs {
		vpAssume(!vpOwnWord(l, name))
	}
	for _, m := range names {
		vpAssume(vpUpper1(name) != vpUpper1(m))
	}
	lang := vpVary(kind + n)
	if n == 5 {
		lang = vpLang()
	}
	return vpRenameTo(d, names, old, name, lang)
}

// vpFlip1 returns name with its first letter in the other case.
func vpFlip1(name string) string {
	if name[0] >= 'a' {
		return vpUpper1(name)
	}
	return string([]byte{name[0] + 32}) + name[1:]
}

// vpRenameTo generates code for d and for the same schema with another name
// for what is called old.
func vpRenameTo(d *vpDoc, names []string, old, name, lang string) (o, p *vpOut, same func(a, b string) bool) {
	for _, m := range names {
		vpAssume(name != m)
	}
	e := &vpDoc{P: d.P, st: d.st}
	for _, t := range d.toks {
		t.Attrs = append([]vpAttr{}, t.Attrs...)
		for i, a := range t.Attrs {
			if a.Value == old && vpIn(a.Local, "name", "ref", "type", "base", "itemType", "memberTypes") {
				t.Attrs[i].Value = name
			}
		}
		e.toks = append(e.toks, t)
	}
	p = vpGen(lang, d.done()).ok()
	o = vpGen(lang, e.done()).ok()
	vpAssert(len(o.Decls) == len(p.Decls), "declarations that the schema does not have")
	o.Old, o.New = old, name
	return o, p, func(a, b string) bool {
		// types are declared at the same place
		for i := range p.Decls {
			if p.Decls[i].Ident == b {
				return o.Decls[i].Ident == a
			}
		}
		return a == b || b == vpUpper1(old) && a == vpUpper1(name)
	}
}

// vpScoped generates code for a component or use of any kind with its
// namespaces bound by the schema and by the elements that need them. A prefix
// may mean something else on either side of an element.
func vpScoped() (o, p *vpOut) {
	kind := vpPick("component", vpComponents+vpUses10)
	n := 1 + vpPick("prefix length", 2)
	q := vpStr2("prefix", n, n, "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(q != "r" && q != "xs")
	build := func() (*vpDoc, int, int) {
		d := vpSchema("xs", "targetNamespace", "urn:t", "xmlns:"+q, "urn:t", "xmlns", "urn:t")
		lo := len(d.toks)
		if kind < vpComponents {
			vpComponent(d, kind, "comp")
		} else {
			d.simple("named", "xs:unsignedByte", "minInclusive", "2")
			vpUseIn(d, kind-vpComponents, "named")
		}
		hi := len(d.toks)
		vpAmongUses(d)
		return d, lo, hi
	}
	d, lo, hi := build()
	var tags []int
	inside := 0
	for i := lo; i < hi; i++ {
		t := d.toks[i]
		if t.Kind == 1 && t.Local == "annotation" {
			inside++
		}
		if t.Kind == 1 && inside == 0 {
			tags = append(tags, i)
		}
		if t.Kind == 2 && t.Local == "annotation" {
			inside--
		}
	}
	vpAssume(len(tags) > 0)
	at := tags[vpPick("tag", len(tags))]
	form := vpPick("form", 6)
	// xsd and own are the prefixes within the element, out that of the types
	// of the schema outside of it
	xsd, own, out, decl := q, "", "", []string{"xmlns:" + q, vpXS}
	elements := false
	switch form {
	case 1:
		elements = true
	case 2:
		xsd, own, elements, decl = "", q, true, []string{"xmlns", vpXS}
	case 3:
		own, out, elements, decl = "r", q, true, []string{"xmlns:r", "urn:t", "xmlns:" + q, vpXS}
	case 4:
		own, out, decl = "r", q, []string{"xmlns:" + q, vpXS, "xmlns:r", "urn:t"}
	case 5: // nothing of the element needs it
		xsd, own, out, decl = "xs", "r", q, []string{"xmlns:r", "urn:t", "xmlns:" + q, "urn:other", "xmlns", "urn:another"}
	}
	join := func(prefix, name string) string {
		if prefix == "" {
			return name
		}
		return prefix + ":" + name
	}
	e := &vpDoc{P: d.P}
	level, end := 0, false
	for i, t := range d.toks {
		within := i >= at && !end
		if t.Kind == 1 {
			t.Attrs = append([]vpAttr{}, t.Attrs...)
			for k, a := range t.Attrs {
				if a.Space != "" || !vpIn(a.Local, "ref", "type", "base", "itemType", "memberTypes") {
					continue
				}
				v := ""
				for _, w := range strings.Split(a.Value, " ") {
					if v != "" {
						v += " "
					}
					if strings.HasPrefix(w, "xs:") {
						if within {
							w = join(xsd, w[3:])
						}
					} else if !strings.Contains(w, ":") {
						if within {
							w = join(own, w)
						} else {
							w = join(out, w)
						}
					}
					v += w
				}
				t.Attrs[k].Value = v
			}
			if i == at {
				t.Attrs = append(t.Attrs, vpAttrs(decl)...)
			}
		}
		if within && elements && t.Space == "xs" {
			t.Space = xsd
		}
		if within {
			if t.Kind == 1 {
				level++
			}
			if t.Kind == 2 {
				level--
				end = level == 0
			}
		}
		e.toks = append(e.toks, t)
	}
	e.st = d.st
	lang := vpVary(kind + at + form)
	o = vpGen(lang, e.done()).ok()
	d, lo, hi = build()
	p = vpGen(lang, d.done()).ok()
	vpAssert(len(o.Decls) == len(p.Decls), "declarations depend on where a namespace is bound| "+lang)
	return
}

// vpNamesake generates code for a component or use of any kind, and for the
// same one with a local element or attribute that has the name of a global
// component, of a built-in type, or one that only differs from it by the case
// of its first letter; it may be of the type it is declared in. The declarations must be alike but for that name.
func vpNamesake() (o, p *vpOut, old, name string) {
	kind := vpPick("component", vpComponents+vpUses10)
	d := vpXSD()
	lo := len(d.toks)
	if kind < vpComponents {
		vpComponent(d, kind, "comp")
	} else {
		d.simple("named", "xs:unsignedByte", "minInclusive", "2")
		vpUseIn(d, kind-vpComponents, "named")
	}
	hi := len(d.toks)
	vpAmongUses(d)
	var globals, locals []string
	var at []int
	depth, anon := 0, ""
	for i, t := range d.toks {
		if t.Kind == 2 {
			depth--
		}
		if t.Kind != 1 {
			continue
		}
		if vpIn(t.Local, "complexType", "simpleType") && depth > 1 && len(t.Attrs) == 0 && anon != "" {
			at = at[:len(at)-1] // the element of an anonymous type names a declaration
			anon = ""
		}
		if t.Local == "element" || t.Local == "attribute" || depth == 1 {
			anon = ""
		}
		for _, a := range t.Attrs {
			if a.Local != "name" {
				continue
			}
			switch {
			case depth == 1:
				globals = append(globals, a.Value)
			case t.Local == "element" || t.Local == "attribute":
				locals = append(locals, a.Value)
				if i >= lo && i < hi {
					at = append(at, i)
					anon = a.Value
				}
			}
		}
		depth++
	}
	vpAssume(len(at) > 0)
	m := at[vpPick("which", len(at))]
	globals = append(globals, "string", "int", "boolean", "anyType", "token")
	g := vpPick("global", len(globals))
	name = globals[g]
	switch vpPick("letter", 2) {
	case 1:
		name = vpFlip1(name)
		vpAssume(!vpIn(name, globals...))
	}
	for _, l := range locals {
		vpAssume(vpUpper1(l) != vpUpper1(name))
	}
	// an element may have the type it is declared in
	host := ""
	if t := d.toks[lo]; t.Kind == 1 && t.Local == "complexType" && d.toks[m].Local == "element" && vpBool("self") {
		for _, a := range t.Attrs {
			if a.Local == "name" {
				host = a.Value
			}
		}
		typed := false
		t := d.toks[m]
		t.Attrs = append([]vpAttr{}, t.Attrs...)
		for j, a := range t.Attrs {
			if a.Local == "type" {
				t.Attrs[j].Value = host
				typed = true
			}
		}
		vpAssume(typed && host != "")
		d.toks[m] = t
	}
	e := &vpDoc{P: d.P, st: d.st}
	for i, t := range d.toks {
		if i == m {
			t.Attrs = append([]vpAttr{}, t.Attrs...)
			for j, a := range t.Attrs {
				if a.Local == "name" {
					old = a.Value
					t.Attrs[j].Value = name
				}
			}
		}
		e.toks = append(e.toks, t)
	}
	lang := vpLang()
	p = vpGen(lang, d.done()).ok()
	o = vpGen(lang, e.done()).ok()
	vpAssert(len(o.Decls) == len(p.Decls), "declarations that the schema does not have")
	return
}
