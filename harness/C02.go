package xgen

//vp:use lib.go
//vp:use scale.go
//vp:use uses.go
//vp:use noise.go
//vp:use tok.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

// C02: a member is a list exactly when its declaration can repeat.

// vpMany picks between no maxOccurs and unbounded.
func vpMany(name string) (key, val string, many bool) {
	if vpTier() > 0 {
		return vpOccurs(name)
	}
	if vpBool(name) {
		return "maxOccurs", "unbounded", true
	}
	return "", "", false
}

// vpOccurs picks a maxOccurs: the attribute as key/value and whether it
// means "more than one".
func vpOccurs(name string) (key, val string, many bool) {
	switch vpPick(name+".form", 3) {
	case 0:
		return "", "", false
	case 1:
		return "maxOccurs", "unbounded", true
	}
	n := vpStr(name, 1, 2+2*vpTier(), "0-9")
	v := 0
	for i := 0; i < len(n); i++ {
		v = v*10 + int(n[i]-'0')
	}
	return "maxOccurs", n, v > 1
}

var vpAround = []string{"sequence", "choice"}

// vpSameList: known finding, TypeScript has no array of byte arrays.
func vpSameList(o *vpOut, f vpField, bytes, many bool) {
	depth := 0
	if many {
		depth = 1
	}
	if bytes && (o.Lang == "Java" || o.Lang == "C" && !many) {
		depth++ // List<Byte>; in C an array of char either way
	}
	vpKnown("ts-uint8array-plural", o.Lang == "TypeScript" && many && f.Type == "Uint8Array", f.Depth == depth,
		"a member's list-ness differs from its declaration")
}

// one child at any depth of choices and sequences, in every kind of host
func vpH_child() {
	lang := vpLang()
	host := vpPick("host", vpHosts)
	kind := vpPick("kind", 6)
	d := vpXSD()
	n := d.host(host)
	depth := 0
	if host != vpHostAll {
		max := 2 + vpTier()
		if host == vpHostType && kind == 0 {
			max++
		}
		depth = vpPick("depth", max)
	}
	many := false
	for i := 0; i < depth; i++ {
		k, v, m := vpOccurs("around")
		d.open(vpAround[vpPick("particle", 2)], k, v)
		many = many || m
	}
	k, v, m := vpOccurs("self")
	many = many || m
	switch kind {
	case 0:
		d.leaf("element", "name", "kid", "type", "xs:string", k, v)
	case 1:
		d.leaf("element", "type", "U", k, v, "name", "kid")
	case 2:
		d.leaf("element", k, v, "name", "kid", "type", "S")
	case 3:
		vpAssume(host != vpHostAll)
		d.leaf("group", "ref", "G", k, v)
	case 4:
		d.open("element", "name", "kid", k, v).open("complexType").open("sequence")
		d.leaf("element", "name", "x", "type", "xs:int").closeN(3)
	case 5:
		d.open("element", "name", "kid", k, v).open("simpleType").restrict("xs:base64Binary").closeN(2)
	}
	d.closeN(depth).closeN(n)
	vpUses(d)
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) == 1, "the type does not have exactly its one member")
	vpSameList(o, T.Fields[0], kind == 2 || kind == 5, many)
	if kind == 4 {
		kid := o.find("Kid")
		vpAssert(kid != nil && len(kid.Fields) == 1 && !kid.Fields[0].List, "the child of a nested type is a list")
	}
	vpCover("reached")
}

// every way to write a number: a sign, zeros, white space around it, and up to
// 18 digits
func vpH_numerals() {
	n, many := "", false
	switch vpPick("form", 5) {
	case 0:
		n, many = "unbounded", true
	case 1:
		n = []string{"0", "-0", "+0", "000"}[vpPick("zero", 4)]
	default:
		zeros := []string{"", "0", "00000000"}[vpPick("zeros", 2+vpTier())]
		v := vpStr("digits", 1, 2+vpTier(), "0-9")
		for i := 0; i < len(v); i++ {
			many = many || v[i] > '1' || v[i] == '1' && i < len(v)-1
		}
		n = []string{"", "+"}[vpPick("sign", 2)] + zeros + v
		if vpBool("long") {
			n, many = n+"000000", true
			vpAssume(v[0] != '0')
		}
	}
	spaces := [][]string{{"", ""}, {" ", ""}, {"\n\t", "  "}}
	sp := vpPick("space", 3)
	n = spaces[sp][0] + n + spaces[sp][1]
	d := vpXSD()
	host, kind := vpPick("host", 3), vpPick("kind", 5)
	k := d.host([]int{0, 3, vpHosts - 1}[host])
	lang := vpVary(host*5 + kind + sp*2)
	switch kind {
	case 0:
		d.leaf("element", "name", "kid", "type", "xs:string", "maxOccurs", n)
	case 1:
		d.leaf("group", "maxOccurs", n, "ref", "G")
	case 2:
		d.open("choice", "maxOccurs", n).leaf("element", "name", "kid", "type", "U").close()
	case 3:
		d.open("sequence", "maxOccurs", n).leaf("element", "name", "kid", "type", "U").close()
	case 4:
		d.open("choice", "maxOccurs", n).open("sequence").leaf("group", "ref", "G").closeN(2)
	}
	d.closeN(k)
	vpUses(d)
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) == 1, "the type does not have exactly its one member")
	vpSameList(o, T.Fields[0], false, many)
	vpCover("reached")
}

// neighbours do not change list-ness: a particle that repeats ends with its
// end tag
func vpH_neighbours() {
	lang := vpLang()
	host := vpPick("host", vpHosts)
	vpAssume(host != vpHostAll)
	d := vpXSD()
	n := d.host(host)
	var want []bool
	names := []string{"ka", "kb", "kc", "kd", "ke"}
	manyKid := vpPick("many", 6)
	kid := func(around bool) {
		k, v, m := "", "", false
		if len(want) == manyKid {
			k, v, m = "maxOccurs", "unbounded", true
		}
		d.leaf("element", "name", names[len(want)], "type", "xs:token", k, v)
		want = append(want, m || around)
	}
	outer := vpPick("outer", 3)
	om := false
	if outer > 0 {
		om = vpBool("outer.many")
		v := "1"
		if om {
			v = "unbounded"
		}
		d.open(vpAround[outer-1], "maxOccurs", v, "minOccurs", "0")
	}
	kid(om)
	k, v, m := vpMany("inner")
	d.open(vpAround[vpPick("particle", 2)], k, v)
	kid(om || m)
	if vpBool("third") {
		k2, v2, m2 := vpMany("inmost")
		d.open(vpAround[vpPick("particle", 2)], k2, v2)
		kid(om || m || m2)
		d.close()
		kid(om || m)
	}
	d.close()
	kid(om)
	if outer > 0 {
		d.close()
	}
	d.closeN(n)
	vpUses(d)
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) == len(want), "wrong number of members")
	for i, w := range want {
		vpAssert(T.Fields[i].List == w, "a neighbour changes a member's list-ness")
	}
	vpCover("reached")
}

// the same child twice in one type is one member, a list if either repeats
func vpH_twice() {
	lang := vpLang()
	host := vpPick("host", vpHosts)
	vpAssume(host != vpHostAll)
	d := vpXSD()
	n := d.host(host)
	many := false
	total, same := 2, "kid"
	switch vpPick("more", 3) {
	case 1:
		vpAssume(vpTier() > 0 || host == vpHostType)
		total = 3
	case 2:
		vpAssume(vpTier() > 0 || host == vpHostType || host == vpHostGroup)
		same = vpStr2("name", 1, 2, "a-zA-Z", "a-z0-9._-")
		vpAssume(same != "b" && same != "B")
	}
	between := vpPick("between", total)
	for i := 0; i < total; i++ {
		if i > 0 && i == between {
			d.leaf("element", "name", "b", "type", "xs:int")
		}
		around := vpPick("around", 3)
		am := false
		if around > 0 {
			k, v, m := vpMany("around")
			am = m
			d.open(vpAround[around-1], k, v)
		}
		k, v, m := vpMany("self")
		d.leaf("element", "name", same, "type", "xs:string", k, v)
		if around > 0 {
			d.close()
		}
		many = many || m || am
	}
	d.closeN(n)
	vpUses(d)
	o := vpGen(lang, d.done()).ok()
	T := o.find("Host")
	cnt := 1
	if between > 0 {
		cnt = 2
	}
	vpAssert(T != nil && len(T.Fields) == cnt, "same-named children are not one member")
	vpAssert(T.Fields[0].List == many, "a child declared twice: list-ness is not that of either")
	if cnt == 2 {
		vpAssert(!T.Fields[1].List, "the child between is a list")
	}
	vpCover("reached")
}

// vpKid02 declares a child or group reference of a kind; it returns how to
// check the member for it.
func vpKid02(d *vpDoc, kind int, name, k, v string, many bool) func(o *vpOut, f *vpField) {
	list := func(b string) func(o *vpOut, f *vpField) {
		return func(o *vpOut, f *vpField) {
			extra := 0
			if many {
				extra = 1
			}
			known := o.Lang == "TypeScript" && many && f.Type == "Uint8Array"
			vpKnown("ts-uint8array-plural", known, vpFits(o.Lang, vpBuiltinOf(b), f.Type, f.Depth, extra),
				"a member's list-ness differs from its declaration")
		}
	}
	ref := func(o *vpOut, f *vpField) {
		vpAssert(f.List == many && f.Depth < 2, "a member's list-ness differs from its declaration")
	}
	switch kind {
	case 0:
		d.leaf("element", "name", name, "type", "xs:int", k, v)
		return list("int")
	case 1:
		d.leaf("element", "type", "U", k, v, "name", name)
		return ref
	case 2:
		d.leaf("element", k, v, "name", name, "type", "S")
		return list("base64Binary")
	case 3:
		d.leaf("element", "name", name, "type", "xs:IDREFS", k, v)
		return list("IDREFS")
	case 4:
		d.leaf("group", "ref", []string{"G", "gg"}[len(name)%2], k, v)
		return ref
	case 5:
		d.leaf("element", "ref", name, k, v)
		return ref
	case 6:
		d.leaf("element", "name", name, k, v)
		return list("anyType")
	}
	d.open("element", "name", name, k, v).open("complexType").open("sequence")
	d.leaf("element", "name", "x"+name, "type", "xs:int").closeN(3)
	return ref
}

// two members of any kinds, each a list or not, in every kind of host
func vpH_two() {
	host := vpPick("host", vpHosts)
	a, b := vpPick("first", 8), vpPick("second", 8)
	vpAssume(host != vpHostAll || a != 4 && b != 4)
	vpAssume(vpTier() > 0 || host < vpHostAll || host == vpHostNested || host == vpHostGroup || a == b)
	m, n := vpBool("first many"), vpBool("second many")
	vpAssume(host != vpHostAll || !m && !n)
	kv := func(many bool) (string, string) {
		if many {
			return "maxOccurs", "2"
		}
		return "", ""
	}
	d := vpXSD()
	if a == 5 || b == 5 {
		d.leaf("element", "name", "ka", "type", "xs:int").leaf("element", "name", "kid", "type", "U")
	}
	c := d.host(host)
	k, v := kv(m)
	first := vpKid02(d, a, "ka", k, v, m)
	k, v = kv(n)
	second := vpKid02(d, b, "kid", k, v, n)
	d.closeN(c)
	vpAmongUses(d)
	o := vpGen(vpLang(), d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) == 2, "wrong number of members")
	f, g := &T.Fields[0], &T.Fields[1]
	if vpSame02(f.Ident, []string{"kid", "gg"}) { // groups and children are in an order of their own
		f, g = g, f
	}
	first(o, f)
	second(o, g)
	vpCover("reached")
}

func vpSame02(ident string, names []string) bool {
	return vpIn(ident, names...) || vpIn(ident, vpUpper1(names[0]), vpUpper1(names[1]))
}

// a child or group reference between components of every kind
func vpH_among() {
	d := vpXSD()
	host, kind, many := vpPick("host", vpHosts), vpPick("kind", 3), false
	sum := vpAmong(d, func() {
		n := d.host(host)
		k, v := "", ""
		if many = vpBool("many"); many {
			k, v = "maxOccurs", "2"
		}
		switch kind {
		case 0:
			d.leaf("element", "name", "kid", "type", "xs:string", k, v)
		case 1:
			vpAssume(host != vpHostAll)
			d.leaf("group", "ref", "gg", k, v)
		case 2:
			vpAssume(host != vpHostAll)
			d.open("choice", k, v).leaf("element", "name", "kid", "type", "U").close()
		}
		d.closeN(n)
	})
	vpAmongUses(d)
	o := vpGen(vpVary(sum+host+kind), d.done()).ok()
	T := o.find("Host")
	vpAssert(T != nil && len(T.Fields) == 1, "the type does not have exactly its one member")
	vpSameList(o, T.Fields[0], false, many)
	vpCover("reached")
}

// additions that say nothing
func vpH_noise() {
	o, p := vpNoise()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Depth == b.Depth, "the list-ness of a declaration depends on what says nothing| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Depth == b.Depth, "the list-ness of a member depends on what says nothing| "+a.Ident)
	})
}

// other names
func vpH_renamed() {
	o, p, _ := vpRenamed()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Depth == b.Depth, "a type repeats otherwise than declared| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Depth == b.Depth, "a member repeats otherwise than declared| "+a.Ident)
	})
}

// much of something
func vpH_scale() {
	vpScale(nil, func(o *vpOut, f *vpField, m *vpBigMember) {
		vpAssert(f.Depth == 1 == m.Many && f.Depth < 2, "a member's list-ness differs from its declaration")
	})
}

// members with the names of global components
func vpH_namesake() {
	o, p, _, _ := vpNamesake()
	vpSameDecls(o, p, func(a, b *vpDecl) {
		vpAssert(a.Depth == b.Depth, "a type repeats otherwise than declared| "+a.Ident)
	})
	vpSameFields(o, p, func(a, b *vpField) {
		vpAssert(a.Depth == b.Depth, "a member repeats otherwise than declared| "+a.Ident)
	})
}
