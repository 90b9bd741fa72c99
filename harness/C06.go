package xgen

//vp:use lib.go
//vp:use scale.go
//vp:use uses.go
//vp:use noise.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

// C06: every global component yields exactly one declaration.

var vpThird = []int{0, 2, 4, 9, 10, 11, 13, 14, 23, 26, 27, 28, 33, 38}

func vpDeclareAll(lang string, n int, usesFirst bool, name func(i int) string) {
	d := vpXSD()
	uses := func() {
		vpUses(d)
		d.open("attributeGroup", "name", "bb").leaf("attribute", "name", "u", "type", "xs:int").close()
		d.open("group", "name", "gg").open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
	}
	if usesFirst {
		uses()
	}
	var cs []vpComp
	sum := 0
	for i := 0; i < n; i++ {
		k := 0
		if i < 2 {
			k = vpPick("component", vpComponents)
		} else {
			k = vpThird[vpPick("component", len(vpThird))]
		}
		sum += k
		cs = append(cs, vpComponent(d, k, name(i)))
	}
	if !usesFirst {
		uses()
	}
	if lang == "" {
		lang = vpLangs[sum%5]
	}
	o := vpGen(lang, d.done()).ok()
	want := 5
	last := -1
	for i := range cs {
		c := &cs[i]
		if c.nested != "" {
			want++
			vpAssert(o.find(vpUpper1(c.nested)) != nil, "an anonymous type is not declared")
			(&vpTypeSpec{Ident: vpUpper1(c.nested), Members: []vpMember{{Name: "k1", B: vpBuiltinOf("boolean")}}}).members(o, 0)
		}
		if c.also != "" {
			want++
			at := -1
			for j := range o.Decls {
				if o.Decls[j].Ident == vpUpper1(c.also) {
					vpAssert(at < 0, "a component is declared twice| "+c.also)
					at = j
				}
			}
			vpAssert(at > last, "declarations are not in schema order| "+c.also)
			last = at
		}
		if !c.decl {
			continue
		}
		want++
		at := -1
		for j := range o.Decls {
			if o.Decls[j].Ident == vpUpper1(c.name) {
				vpAssert(at < 0, "a component is declared twice| "+c.name)
				at = j
			}
		}
		vpAssert(at >= 0, "a component is not declared| "+c.name)
		vpAssert(at > last, "declarations are not in schema order| "+c.name)
		last = at
		c.check(o, &o.Decls[at])
	}
	vpAssert(len(o.Decls) == want, "declarations that the schema does not have")
	for _, u := range []string{"U", "G", "Bb", "Gg"} {
		D := o.find(u)
		vpAssert(D != nil && len(D.Fields) == 1 && D.Base == "", "a neighbour's declaration changed")
	}
	D := o.find("S")
	vpAssert(D != nil, "a neighbour's declaration changed")
	ty, depth, ok := D.single()
	vpAssert(ok && vpFits(lang, vpBuiltinOf("base64Binary"), ty, depth, 0), "a neighbour's declaration changed")
	vpCover("reached")
}

func vpPlainName(i int) string { return "comp" + vpItoa(i+1) }

// every pair of components, in every language
func vpH_pairs() {
	vpDeclareAll(vpLang(), 2, vpBool("uses first"), vpPlainName)
}

// every triple
func vpH_triples() {
	vpDeclareAll("", 3+vpTier(), false, vpPlainName)
}

// a component with an arbitrary name
func vpH_names() {
	a := vpStr2("name", 2, 3+vpTier(), "a-zA-Z", "a-z0-9")
	vpAssume(vpUpper1(a) != "Bb" && vpUpper1(a) != "Gg")
	vpDeclareAll(vpLang(), 1, true, func(i int) string { return a })
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpAssert(len(o.Decls) == len(p.Decls), "declarations that the schema does not have")
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Ident == b.Ident, "declarations are not in schema order| "+a.Ident)
		vpAssert(a.Kind == b.Kind && a.Base == b.Base && len(a.Enum) == len(b.Enum), "a component is declared as another kind| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, same := vpRenamed()
	vpAssert(len(o.Decls) == len(p.Decls), "declarations that the schema does not have")
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(same(a.Ident, b.Ident) || a.Ident == "SelfType", "declarations are not in schema order| "+a.Ident)
		vpAssert(a.Kind == b.Kind && same(a.Base, b.Base) && len(a.Enum) == len(b.Enum), "a component is declared as another kind| "+a.Ident)
	})
}

// much of something
func vpH_scale() {
	o, g := vpScale(nil, nil)
	vpAssert(len(o.Decls) == len(g.decls), "not one declaration per component")
	for i, s := range g.decls {
		vpAssert(o.Decls[i].Ident == vpUpper1(s.Name), "declarations are not in schema order| "+s.Name)
		vpAssert(s.Kind == "alias" || o.Decls[i].Kind == "struct", "a component has a declaration of another kind| "+s.Name)
	}
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Ident == b.Ident && a.Kind == b.Kind && a.Base == b.Base && len(a.Enum) == len(b.Enum), "a component is declared as another kind| "+a.Ident)
	})
}
