package xgen

//vp:use lib.go
//vp:use scale.go
//vp:use uses.go
//vp:use noise.go
//vp:use oracle.go
//vp:use names.go
//vp:use gen.go
//vp:use comps.go

// C04: binding metadata carries the exact XML name.

func vpWireLang() string { return []string{"Go", "Java", "Rust"}[vpPick("lang", 3)] }

func vpWireCheck(lang string, place int, name string) {
	d := vpXSD()
	check := vpWireCase(d, place, name)
	vpUses(d)
	check(vpGen(lang, d.done()).ok())
	vpCover("reached")
}

// arbitrary short names in every place
func vpH_short() {
	vpWireCheck(vpWireLang(), vpPick("place", vpWirePlaces), vpStr2("name", 1, 3+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-"))
}

// longer names: symbolic characters at the positions where words meet
func vpH_long() {
	lang := vpWireLang()
	place := vpPick("place", vpWirePlaces)
	b := vpStr("seam", 1, 2+vpTier(), "a-zA-Z0-9._-")
	name := ""
	switch vpPick("form", 3) {
	case 0:
		name = "aXMLHttp" + b + "Req2x"
	case 1:
		name = "Aa-b.c" + b + "_dE"
	case 2:
		name = "a.b" + b + ".c"
	}
	vpWireCheck(lang, place, name)
}

// words that mean something to a language
func vpH_words() {
	lang := vpWireLang()
	place := vpPick("place", vpWirePlaces)
	more := []string{"value", "Value", "attr", "class", "package", "interface", "id", "ID", "xmlName", "list", "optional", "chardata", "omitempty", "flatten"}
	w := ""
	if k := vpPick("word", len(vpRustWords)+len(more)); k < len(vpRustWords) {
		w = vpRustWords[k]
	} else {
		w = more[k-len(vpRustWords)]
	}
	vpWireCheck(lang, place, w)
}

// two arbitrary names in one type: each is bound to its own member
func vpH_two() {
	lang := vpWireLang()
	a := vpStr2("a", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	b := vpStr2("b", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(a != b)
	d := vpXSD()
	attr := false
	switch vpPick("place", 4) {
	case 0:
		n := d.host(vpHostType)
		d.leaf("element", "name", a, "type", "xs:int").leaf("element", "name", b, "type", "xs:boolean").closeN(n)
	case 1:
		attr = true
		d.open("attributeGroup", "name", "Host")
		d.leaf("attribute", "name", a, "type", "xs:int").leaf("attribute", "name", b, "type", "xs:boolean").close()
	case 2:
		n := d.host(vpHostGroup)
		d.leaf("element", "name", a, "type", "xs:int").leaf("element", "name", b, "type", "xs:boolean").closeN(n)
	case 3:
		n := d.host(vpHostElem)
		d.leaf("element", "name", a, "type", "xs:int").open("element", "name", "mid1").open("complexType").open("sequence")
		d.leaf("element", "name", a, "type", "xs:token").closeN(3)
		d.leaf("element", "name", b, "type", "xs:boolean").closeN(n)
	}
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) >= 2, "a member is missing")
	f, g := T.Fields[0], T.Fields[len(T.Fields)-1]
	vpAssert(f.Wire == a && g.Wire == b, "a member is not bound to its own XML name")
	vpAssert(lang == "Rust" || f.Attr == attr && g.Attr == attr, "a member is bound as the wrong kind of node")
	vpAssert(g.Type == vpBoolType(lang), "members are swapped")
	vpCover("reached")
}

// every kind of member in every kind of host: its type, its repetition and
// whether it shares its name with a type do not matter
func vpH_variants() {
	lang := vpWireLang()
	d := vpXSD()
	name := vpStr("first", 1, 1, "w-xW-X") + "idget"
	attr := false
	var kv []string
	switch vpPick("type", 6) {
	case 0:
		kv = []string{"type", "Widget"}
	case 1:
		kv = []string{"type", "widget"}
	case 2:
		kv = []string{"type", "S"}
	case 3:
		kv = []string{"type", "xs:time"}
	case 4:
		kv = []string{"type", "xs:NMTOKENS"}
	case 5:
		kv = []string{"default", "x", "id", "theId"}
	}
	host := vpPick("host", vpHosts+3)
	if host < vpHosts {
		n := d.host(host)
		if vpBool("repeats") {
			kv = append(kv, "maxOccurs", "unbounded", "minOccurs", "0")
		}
		d.leaf("element", append([]string{"name", name}, kv...)...).leaf("element", "name", "other", "type", "Widget").closeN(n)
	} else {
		attr = true
		n := 1
		switch host - vpHosts {
		case 0:
			d.open("complexType", "name", "Host")
		case 1:
			d.open("attributeGroup", "name", "Host")
		case 2:
			d.open("complexType", "name", "Host").open("simpleContent").open("extension", "base", "xs:int")
			n = 3
		}
		vpAssume(kv[1] != "Widget" && kv[1] != "widget")
		if vpBool("required") {
			kv = append(kv, "use", "required")
		}
		d.leaf("attribute", append([]string{"name", name}, kv...)...).leaf("attribute", "name", "other", "type", "xs:int").closeN(n)
	}
	d.leaf("complexType", "name", "Widget").open("complexType", "name", "widget").leaf("attribute", "name", "x", "type", "xs:int").close()
	vpUses(d)
	T := vpGen(lang, d.done()).ok().find("Host")
	vpAssert(T != nil, "the type is not declared")
	n, other := 0, 0
	for _, f := range T.Fields {
		if f.Wire == name {
			n++
			vpAssert(lang == "Rust" || f.Attr == attr, "a member is bound as the wrong kind of node")
		}
		if f.Wire == "other" {
			other++
		}
	}
	vpAssert(n == 1 && other == 1, "a member is not bound to its XML name")
	vpCover("reached")
}

// a name between components of every kind
func vpH_among() {
	place := vpPick("place", vpWirePlaces)
	vpAssume(place < 9)
	d := vpXSD()
	var check func(o *vpOut)
	n := vpAmong(d, func() { check = vpWireCase(d, place, "a-Bc.d_E") })
	vpAmongUses(d)
	lang := []string{"Go", "Java", "Rust"}[n%3]
	if vpTier() > 0 {
		lang = vpWireLang()
	}
	check(vpGen(lang, d.done()).ok())
	vpCover("reached")
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.HasWire == b.HasWire && a.Wire == b.Wire, "a declaration is not bound to its XML name| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Wire == b.Wire && a.Annot == b.Annot, "a member is not bound to its XML name| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, _ := vpRenamed()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert((vpUpper1(b.Wire) == vpUpper1(o.Old) && vpUpper1(a.Wire) == vpUpper1(o.New) || a.Wire == b.Wire && vpUpper1(b.Wire) != vpUpper1(o.Old)) && a.Annot == b.Annot, "a member is not bound to its XML name| "+a.Ident)
	})
}

// names with characters that ASCII does not have
func vpH_scripts() {
	vpWireCheck(vpWireLang(), vpPick("place", vpWirePlaces), vpWideName())
}

// much of something
func vpH_scale() {
	vpScale(func(o *vpOut, D *vpDecl, s *vpBigDecl) {
		vpAssert(!D.HasWire || D.Wire == s.Name, "a declaration is not bound to its XML name")
	}, func(o *vpOut, f *vpField, m *vpBigMember) {
		if vpIn(o.Lang, "Go", "Java", "Rust") && m.Kind < 2 {
			vpAssert(f.Wire == m.Name, "a member is not bound to its XML name")
		}
	})
}

// members with the names of global components
func vpH_namesake() {
	o, p, old, name := vpNamesake()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert((a.Wire == b.Wire && b.Wire != old || b.Wire == old && a.Wire == name) && a.Annot == b.Annot || b.Wire == "", "a member is not bound to its XML name| "+a.Ident)
	})
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Wire == b.Wire && a.HasWire == b.HasWire, "a declaration is not bound to its XML name| "+a.Ident)
	})
}
