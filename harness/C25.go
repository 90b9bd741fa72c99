package xgen

//vp:use lib.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go
//vp:use scale.go

// C25: members of one declaration never share an identifier.

// vpUnlike checks that the members of every declaration have identifiers of
// their own, and that Host has n members.
func vpUnlike(o *vpOut, n int) {
	o.ok()
	H := o.find("Host")
	vpAssert(H != nil, "the declaration is missing")
	vpAssert(len(H.Fields) == n, "not one member per declared member")
	vpUnlikeAll(o)
}

func vpUnlikeAll(o *vpOut) {
	for k := range o.Decls {
		D := &o.Decls[k]
		ids := append([]string{}, D.Own...)
		for _, f := range D.Fields {
			ids = append(ids, f.Ident)
		}
		for i := range ids {
			for j := 0; j < i; j++ {
				vpAssert(ids[i] != ids[j], "two members of a declaration share one identifier")
			}
		}
	}
	vpCover("reached")
}

// vpMember25 declares a member of the given kind.
func vpMember25(d *vpDoc, kind int, name string) {
	switch kind {
	case 0:
		d.leaf("element", "name", name, "type", "xs:int")
	case 1:
		d.leaf("element", "name", name, "type", "Other", "maxOccurs", "unbounded")
	case 2:
		d.leaf("group", "ref", name)
	case 3:
		d.open("element", "name", name).open("simpleType").restrict("xs:boolean").closeN(2)
	case 4:
		d.leaf("attribute", "name", name, "type", "xs:int")
	case 5:
		d.leaf("attribute", "name", name, "type", "xs:boolean", "use", "required")
	case 6:
		d.leaf("attributeGroup", "ref", name)
	}
}

// vpHost25 declares Host with members, children before attributes; it gives
// the number of its members that are not listed.
func vpHost25(d *vpDoc, host int, kinds []int, names []string) (n int) {
	each := func(child bool) {
		for i, k := range kinds {
			if child == (k < 4) {
				vpMember25(d, k, names[i])
				n++
			}
		}
	}
	switch host {
	case 0, 1, 2, 3, 4:
		c := 2
		switch host {
		case 0:
			d.open("complexType", "name", "Host")
		case 1:
			d.open("element", "name", "Host").open("complexType")
			c = 3
		case 2:
			d.open("complexType", "name", "Outer").open("sequence").open("element", "name", "host").open("complexType")
			c = 5
		case 3:
			d.open("complexType", "name", "host").open("complexContent").open("extension", "base", "Other")
			c = 4
		case 4:
			d.open("complexType", "name", "Host").open("complexContent").open("extension", "base", "other2.Base")
			c = 4
		}
		d.open("choice")
		each(true)
		d.close()
		each(false)
		d.closeN(c - 1)
	case 5:
		d.open("group", "name", "host").open("sequence")
		each(true)
		d.closeN(2)
	case 6:
		d.open("attributeGroup", "name", "host")
		each(false)
		d.close()
	case 7: // simple content has attributes only
		d.open("complexType", "name", "Host").open("simpleContent").open("extension", "base", "xs:int")
		each(false)
		d.closeN(3)
	}
	d.open("complexType", "name", "Other").open("sequence").leaf("element", "name", "o", "type", "xs:int").closeN(2)
	d.open("complexType", "name", "other2.Base").leaf("attribute", "name", "o", "type", "xs:int").close()
	return
}

// vpLegal25: members a schema may declare together.
func vpLegal25(host, ka, kb int, same bool) bool {
	if host == 5 && (ka > 3 || kb > 3) || host == 6 && (ka != 4 && ka != 5 || kb != 4 && kb != 5) || host == 7 && (ka < 4 || kb < 4) {
		return false
	}
	if !same {
		return true
	}
	// the same name in different symbol spaces
	space := []int{0, 0, 1, 0, 2, 2, 3}
	return space[ka] != space[kb]
}

func vpFields25(lang string, host, n int) int {
	if host == 7 && lang != "C" {
		n++ // the value
	}
	return n
}

// members of any two kinds with arbitrary names
func vpH_pairs() {
	lang := vpLang()
	host := vpPick("host", 8)
	kinds := []int{0, 2, 4, 6}
	ka, kb := kinds[vpPick("kind a", 4)], kinds[vpPick("kind b", 4)]
	if (ka+kb)/2%2 == 1 && ka < 2 {
		ka = 1 + ka
	}
	vpAssume(ka <= kb || ka == 1)
	same := vpBool("same name")
	vpAssume(vpLegal25(host, ka, kb, same))
	a := vpStr2("a", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
	b := a
	if !same {
		b = vpStr2("b", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
		vpAssume(a != b)
	}
	d := vpXSD()
	n := vpHost25(d, host, []int{ka, kb}, []string{a, b})
	vpUnlike(vpGen(lang, d.done()), vpFields25(lang, host, n))
}

// names that mean something in the declaration itself, and names that look
// like those given to another member
func vpH_special() {
	lang := vpLang()
	host := vpPick("host", 8)
	kinds := []int{0, 2, 3, 4, 6}
	ka, kb := kinds[vpPick("kind a", 5)], kinds[vpPick("kind b", 5)]
	words := []string{"XMLName", "value", "Value", "other", "other2Base", "Other2Base", "other2_base", "eAttr", "e-attr", "e.Attr", "EAttr", "e2", "E2", "E"}
	a := "e"
	b := words[vpPick("word", len(words))]
	vpAssume(vpLegal25(host, ka, kb, false))
	d := vpXSD()
	n := vpHost25(d, host, []int{ka, kb}, []string{a, b})
	vpUnlike(vpGen(lang, d.done()), vpFields25(lang, host, n))
}

// three names one of which looks like a numbered identifier
func vpH_triples() {
	lang := vpLang()
	host := []int{0, 5, 6}[vpPick("host", 3)]
	base := []string{"Ab", "a.b", "aB"}[vpPick("base", 3)]
	names := []string{base,
		base[:1] + vpStr("sep", 1, 1, "a0-9._B-") + base[len(base)-1:],
		"Ab" + vpStr("number", 1, 1, "0-9a-z.-"),
	}
	p := vpPick("order", 6)
	order := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[p]
	k := []int{0, 2, 4, 6}[vpPick("kind", 4)]
	vpAssume(vpLegal25(host, k, k, false))
	for i := range names {
		for j := 0; j < i; j++ {
			vpAssume(names[i] != names[j])
		}
	}
	d := vpXSD()
	n := vpHost25(d, host, []int{k, k, k}, []string{names[order[0]], names[order[1]], names[order[2]]})
	vpUnlike(vpGen(lang, d.done()), vpFields25(lang, host, n))
}

// members of a union
func vpH_union() {
	lang := vpLang()
	a := vpStr2("a", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
	b := vpStr2("b", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(a != b)
	d := vpXSD()
	members := a + " " + b
	n := 2
	if vpBool("third") {
		members += " XMLName"
		n++
	}
	d.open("simpleType", "name", []string{"Host", "host"}[n%2]).leaf("union", "memberTypes", members).close()
	vpUnlike(vpGen(lang, d.done()), n)
}

// names that differ in characters ASCII does not have, or only in them
func vpH_scripts() {
	lang := vpLang()
	host := vpPick("host", 8)
	k := []int{0, 2, 4, 6}[vpPick("kind", 4)]
	vpAssume(vpLegal25(host, k, k, false))
	p := []string{"\u4e2d", "a", "\u00e9", "\u0436a"}[vpPick("head", 1+3*vpTier())]
	rest := []string{"", "\u00b7", "\u0301", "\u00e9", "\u00c9", "-", "\u3005\u00b7", "b", "\u00b7b", ".b"}
	i := vpPick("a", len(rest)-1)
	j := i + 1 + vpPick("b", len(rest)-1-i)
	a, b := p+rest[i], p+rest[j]
	if vpBool("capital") {
		b = ToTitle(b)
	}
	vpAssume(a != b)
	d := vpXSD()
	n := vpHost25(d, host, []int{k, k}, []string{a, b})
	vpUnlike(vpGen(lang, d.done()), vpFields25(lang, host, n))
}

// many names that lead to one identifier
func vpH_many() {
	n := []int{3, 4, 8, 9, 10, 11, 12, 16, 17, 30}[vpPick("members", 10)]
	host := []int{0, 2, 5, 6}[vpPick("host", 4)]
	k := []int{0, 2, 4, 6}[vpPick("kind", 4)]
	vpAssume(vpLegal25(host, k, k, false))
	var names []string
	for size := 1; len(names) < n; size++ {
		for bits := 0; bits < 1<<uint(size) && len(names) < n; bits++ {
			name := "ab"
			for i := 0; i < size; i++ {
				name += []string{".", "-"}[bits>>uint(i)&1]
			}
			names = append(names, name+"Cd")
		}
	}
	// one of them elsewhere, with a number of its own
	at := []int{0, n / 2, n - 1}[vpPick("at", 3)]
	names[at] = "abCd" + vpStr("number", 1, 1, "0-9._-")
	if at > 0 && vpBool("two digits") {
		names[at-1] = "ab.Cd1" + vpStr("digit", 1, 1, "0-9")
	}
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = k
	}
	d := vpXSD()
	lang := vpVary(n + host + at)
	m := vpHost25(d, host, kinds, names)
	vpUnlike(vpGen(lang, d.done()), vpFields25(lang, host, m))
}

// much of something
func vpH_scale() {
	o, _ := vpScale(nil, nil)
	vpUnlikeAll(o)
}
