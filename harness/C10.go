package xgen

//vp:use lib.go
//vp:use oracle.go
//vp:use uses.go
//vp:use noise.go
//vp:use gen.go
//vp:use comps.go

// C10: named simple types resolve to their base type in any order.

var vpFacets10 = [][]string{{}, {"enumeration", "1", "enumeration", "2"}, {"pattern", "[0-9]+", "minInclusive", "1", "maxExclusive", "9"},
	{"length", "3", "whiteSpace", "collapse"}, {"minLength", "1", "maxLength", "2"}, {"totalDigits", "4", "fractionDigits", "0"}, {"minExclusive", "3", "maxInclusive", "7"}}

func vpResolves(lang, prefix string, names []string, base string, use int, order []int, facets int) {
	vpAssume(!(lang == "C" && use == 2)) // C20
	vpAssume(!(base == "NMTOKENS" && use == 8))
	d := vpXSD()
	q := func(n string) string { return n }
	if prefix != "" {
		d = vpSchema("xs", "xmlns:"+prefix, "urn:t", "targetNamespace", "urn:t")
		q = func(n string) string { return prefix + ":" + n }
	}
	for _, k := range order {
		switch {
		case k == 0:
			vpUseIn(d, use, q(names[0]))
		case k < len(names):
			d.simple(names[k-1], q(names[k]), vpFacets10[(facets+k-1)%len(vpFacets10)]...)
		default:
			d.simple(names[k-1], "xs:"+base, vpFacets10[(facets+k-1)%len(vpFacets10)]...)
		}
	}
	ty, depth := vpUseType10(vpGen(lang, d.done()))

	e := vpXSD()
	vpUseIn(e, use, "xs:"+base)
	ty2, depth2 := vpUseType10(vpGen(lang, e.done()))
	vpAssert(ty == ty2 && depth == depth2, "a use of a simple type has not the target type of its base| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// every order of a use and a chain of simple types
func vpH_orders() {
	lang := vpLang()
	n := 1 + vpPick("length", 3+vpTier())
	names := []string{"first", "Second-type", "x.third", "fourth_T"}[:n]
	base := []string{"int", "base64Binary", "NMTOKENS", "token", "time", "unsignedByte"}[vpPick("base", 3+3*vpTier())]
	use := vpPick("use", vpUses10)
	order := vpOrder(n + 1)
	facets := use
	prefix := ""
	if vpTier() > 0 {
		facets = vpPick("facets", len(vpFacets10))
	}
	if (use+n)%2 == 0 {
		prefix = "t"
	}
	vpResolves(lang, prefix, names, base, use, order, facets)
}

// every built-in base and facet
func vpH_facets() {
	lang := vpLang()
	base := vpBuiltins[vpPick("base", len(vpBuiltins))].Name
	vpAssume(!vpIn(base, "anyType", "anySimpleType"))
	order := []int{0, 1}
	if vpBool("type first") {
		order = []int{1, 0}
	}
	vpResolves(lang, "", []string{"Named"}, base, vpPick("use", 3), order, vpPick("facets", len(vpFacets10)))
}

// arbitrary names
func vpH_names() {
	lang := vpLang()
	a := vpStr2("a", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	b := vpStr2("b", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(a != b)
	vpAssume(!vpOwn10(a) && !vpOwn10(b))
	vpResolves(lang, "", []string{a, b}, "unsignedByte", vpPick("use", 2+9*vpTier()), vpOrder(3), 0)
}

// a use and its type between components of every kind
func vpH_among() {
	d := vpXSD()
	use, order := vpPick("use", vpUses10), vpBool("order")
	vpAmong(d, func() {
		if order {
			vpUseIn(d, use, "Code")
		}
		d.simple("Code", "More", "pattern", "x")
		if !order {
			vpUseIn(d, use, "Code")
		}
	})
	vpAmongUses(d)
	d.simple("More", "xs:unsignedByte")
	lang := vpLang()
	if use == 2 && lang == "C" { // C20
		lang = "Go"
	}
	ty, depth := vpUseType10(vpGen(lang, d.done()))
	e := vpXSD()
	vpUseIn(e, use, "xs:unsignedByte")
	ty2, depth2 := vpUseType10(vpGen(lang, e.done()))
	vpAssert(ty == ty2 && depth == depth2, "a use of a simple type has not the target type of its base| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// long chains, declared forward, backward or mixed, the use anywhere
func vpH_long() {
	n := []int{4, 5, 7, 8, 9, 10, 11, 16, 17, 20, 33}[vpPick("length", 11)]
	use := vpPick("use", vpUses10)
	how := vpPick("order", 4)
	at := []int{0, n / 2, n}[vpPick("at", 3)]
	var names []string
	var order []int
	for i := 1; i <= n; i++ {
		names = append(names, []string{"T", "t-", "tt."}[i%3]+vpItoa(i))
		k := i
		switch how {
		case 1:
			k = n + 1 - i
		case 2: // the odd ones first
			if k = 2*i - 1; k > n {
				k = 2 * (i - (n+1)/2)
			}
		case 3:
			if k = 2 * i; k > n {
				k = 2*n + 1 - k
				if n%2 == 1 {
					k = 2*(i-n/2) - 1
				}
			}
		}
		order = append(order, k)
	}
	order = append(order[:at:at], append([]int{0}, order[at:]...)...)
	lang := vpVary(n + use + at)
	if use == 2 && lang == "C" {
		lang = "Rust"
	}
	vpResolves(lang, "", names, []string{"int", "base64Binary", "token", "unsignedByte"}[(n+use)%4], use, order, n)
}

// many types and uses of them
func vpH_many() {
	n := []int{5, 8, 9, 10, 11, 16, 17, 33, 64}[vpPick("types", 9)]
	at := []int{0, 1, n / 2, n - 1}[vpPick("at", 4)]
	use := vpPick("use", vpUses10)
	first := vpBool("use first")
	d := vpXSD()
	if first {
		vpUseIn(d, use, "Type"+vpItoa(at))
	}
	for i := 0; i < n; i++ {
		b := "xs:" + []string{"boolean", "token", "long"}[i%3]
		if i == at {
			b = "xs:unsignedByte"
		}
		d.simple("Type"+vpItoa(i), b, vpFacets10[i%len(vpFacets10)]...)
		if i != at {
			d.open("complexType", "name", "Use"+vpItoa(i)).leaf("attribute", "name", "x", "type", "Type"+vpItoa(i)).close()
		}
	}
	if !first {
		vpUseIn(d, use, "Type"+vpItoa(at))
	}
	lang := vpVary(n + at)
	if use == 2 && lang == "C" { // C20
		lang = "Go"
	}
	ty, depth := vpUseType10(vpGen(lang, d.done()))
	e := vpXSD()
	vpUseIn(e, use, "xs:unsignedByte")
	ty2, depth2 := vpUseType10(vpGen(lang, e.done()))
	vpAssert(ty == ty2 && depth == depth2, "a use of a simple type has not the target type of its base| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Type == b.Type, "a use of a simple type is not of its base type| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, same := vpRenamed()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(same(a.Type, b.Type) && a.Depth == b.Depth, "a use of a simple type is not of its base type| "+a.Ident)
	})
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Type == b.Type && a.Depth == b.Depth, "a use of a simple type is not of its base type| "+a.Ident)
	})
}
