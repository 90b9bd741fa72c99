package xgen

//vp:use lib.go
//vp:use oracle.go
//vp:use uses.go
//vp:use gen.go
//vp:use comps.go

// C12: types from included and imported schemas resolve, and cycles end.

// vpFile is one schema file of a graph.
type vpFile struct {
	ns, path string
	d        *vpDoc
	links    map[int]bool
}

type vpFiles struct{ f []*vpFile }

// vpNewFiles makes files with the given namespaces; the first is the input.
func vpNewFiles(paths []string, ns []string) *vpFiles {
	g := &vpFiles{}
	for i, p := range paths {
		d := vpSchema("xs", "targetNamespace", "urn:"+ns[i], "xmlns:m", "urn:m", "xmlns:a", "urn:a", "xmlns:b", "urn:b")
		g.f = append(g.f, &vpFile{ns: ns[i], path: p, d: d, links: map[int]bool{}})
	}
	return g
}

// link includes or imports file j in file i, as their namespaces demand.
func (g *vpFiles) link(i, j int, loc string) {
	g.f[i].links[j] = true
	if g.f[i].ns == g.f[j].ns {
		g.f[i].d.leaf("include", "schemaLocation", loc)
	} else {
		g.f[i].d.leaf("import", "namespace", "urn:"+g.f[j].ns, "schemaLocation", loc)
	}
}

// includes are the files of i's own namespace it includes, itself among them.
func (g *vpFiles) includes(i int) []int {
	out := []int{i}
	for k := 0; k < len(out); k++ {
		for j := range g.f {
			if g.f[out[k]].links[j] && g.f[j].ns == g.f[i].ns && !vpHas(out, j) {
				out = append(out, j)
			}
		}
	}
	return out
}

func vpHas(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// sees tells whether file i may refer to what file j declares.
func (g *vpFiles) sees(i, j int) bool {
	if g.f[i].ns == g.f[j].ns {
		return vpHas(g.includes(i), j)
	}
	for k := range g.f {
		if g.f[i].links[k] && g.f[k].ns == g.f[j].ns {
			return vpHas(g.includes(k), j) // the first schema location of the namespace counts
		}
	}
	return false
}

func (g *vpFiles) put() {
	for _, f := range g.f {
		vpPutDoc(f.path, f.d.done())
	}
}

func vpReadUse(lang, file string) (string, int) {
	err := NewParser(vpOptions(lang, "in", "out", file)).Parse()
	vpAssert(err == nil, "a schema with includes or imports is not generated")
	text, st := vpRead("out" + file[2:] + vpExt(lang))
	vpAssert(st == 0, "no output file was written")
	return vpUseType10(vpParseOut(lang, text))
}

// vpLocally is the target type of a use when the type is declared in the
// same file.
func vpLocally(lang string, use int, name, base string, complex bool) (string, int) {
	e := vpTargets("xs")
	vpUseIn(e, use, "t:"+name)
	if complex {
		e.open("complexType", "name", name).leaf("attribute", "name", "x", "type", "xs:int").close()
	} else {
		e.simple(name, "xs:"+base)
	}
	return vpUseType10(vpGen(lang, e.done()))
}

// every graph of three files with a type in one and, maybe, its base in
// another
func vpH_graph() {
	ns := []string{"m", []string{"m", "a"}[vpPick("nsA", 2)], []string{"m", "a", "b"}[vpPick("nsB", 3)]}
	vpAssume(!(ns[1] == "m" && ns[2] == "b"))
	g := vpNewFiles([]string{"in/m.xsd", "in/a.xsd", "in/b.xsd"}, ns)
	locs := []string{"m.xsd", "a.xsd", "b.xsd"}
	g.link(0, 1, locs[1])
	if vpBool("M-B") {
		g.link(0, 2, locs[2])
	}
	for _, e := range [][2]int{{1, 0}, {1, 2}, {2, 0}, {2, 1}} {
		if vpBool("edge") {
			g.link(e[0], e[1], locs[e[1]])
		}
	}
	if self := vpPick("self", 4); self < 3 {
		g.f[self].d.leaf("include", "schemaLocation", locs[self])
	}
	at := 1 + vpPick("at", 2)
	vpAssume(g.sees(0, at))
	base, bases := vpPick("base", 4), []string{"int", "boolean", "token", "NMTOKENS"}
	lang := vpLangs[(base+at+len(g.f[0].links)+len(g.f[1].links)+len(g.f[2].links))%5]
	if vpTier() > 0 {
		lang = vpLang()
	}
	b := "xs:" + bases[base]
	if base < 3 && g.sees(at, base) && base != at {
		// the base is another simple type, maybe of another file
		g.f[base].d.simple("Root", "xs:"+bases[3], "maxLength", "7")
		b = ns[base] + ":Root"
		base = 3
	}
	T := g.f[at]
	q := ns[at] + ":Code"
	vpUseIn(g.f[0].d, 0, q)
	T.d.simple("Other", "xs:double").simple("Code", b)
	T.d.open("complexType", "name", "Unrelated").leaf("attribute", "name", "x", "type", ns[at]+":Code").close()
	for i, f := range g.f {
		// references that no file resolves to a simple type
		f.d.open("complexType", "name", "K"+vpItoa(i)).open("sequence")
		for j := range g.f {
			if g.sees(i, j) {
				f.d.leaf("element", "name", "k"+vpItoa(j), "type", ns[j]+":K"+vpItoa(j))
			}
		}
		f.d.closeN(2)
	}
	g.put()
	ty, depth := vpReadUse(lang, "in/m.xsd")
	ty2, depth2 := vpLocally(lang, 0, "Code", bases[base], false)
	known := ns[at] == "m" && b == "a:Root" && ty == "Root"
	vpKnown("C12-include-import", known, ty == ty2 && depth == depth2, "a type of another schema has another target type than at home| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// every use of a type and every relative place of the schemas
func vpH_places() {
	lang := vpLang()
	m := []string{"in/m.xsd", "in/deep/m.xsd"}[vpPick("m", 2)]
	dir := m[:len(m)-len("m.xsd")]
	loc := []string{"a.xsd", "./a.xsd", "sub/a.xsd", "../a.xsd", "../deep/sub/a.xsd"}[vpPick("loc", 5)]
	vpAssume(!(dir == "in/" && len(loc) > 8)) // leaves the working directory's tree
	pa := vpJoin(dir, loc)
	da := pa[:len(pa)-len("a.xsd")]
	locB := []string{"", "b.xsd", "sub/b.xsd", "../b.xsd"}[vpPick("locB", 4)]
	vpAssume(!(da == "" && locB == "../b.xsd"))
	pb := vpJoin(da, locB)
	ns := []string{"m", "m", "m"}
	if vpBool("import") {
		ns[1], ns[2] = "a", "a"
	}
	g := vpNewFiles([]string{m, pa, pb}, ns)
	g.link(0, 1, loc)
	k := 1
	if locB != "" {
		g.link(1, 2, locB)
		k = 2
	} else {
		g.f = g.f[:2]
	}
	// files of the same name elsewhere
	for _, p := range []string{"in/a.xsd", "in/b.xsd", "in/deep/a.xsd", "in/deep/b.xsd", "a.xsd", "b.xsd"} {
		if p != pa && (k == 1 || p != pb) {
			vpPutDoc(p, vpTargets("xs").simple("Code", "xs:boolean").done())
		}
	}
	use := vpPick("use", 2)
	vpUseIn(g.f[0].d, use, ns[k]+":Code")
	g.f[k].d.simple("Code", "xs:unsignedShort")
	g.put()
	ty, depth := vpReadUse(lang, m)
	ty2, depth2 := vpLocally(lang, use, "Code", "unsignedShort", false)
	vpAssert(ty == ty2 && depth == depth2, "a type of another schema has another target type than at home| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// vpJoin joins a directory (ending in a slash) and a relative location.
func vpJoin(dir, loc string) string {
	for len(loc) > 3 && loc[:2] == "./" || len(loc) > 3 && loc[:3] == "../" {
		if loc[:2] == "./" {
			loc = loc[2:]
			continue
		}
		loc = loc[3:]
		i := len(dir) - 2
		for i >= 0 && dir[i] != '/' {
			i--
		}
		dir = dir[:i+1]
	}
	return dir + loc
}

// every use of a simple or complex type, every built-in base
func vpH_uses() {
	lang := vpLang()
	use := vpPick("use", vpUses10)
	vpAssume(!(lang == "C" && use == 2)) // C20
	complex := vpBool("complex")
	base := "int"
	if complex {
		vpAssume(vpHas([]int{0, 3, 5, 10}, use))
	} else {
		base = vpBuiltins[vpPick("base", len(vpBuiltins))].Name
		vpAssume(!vpIn(base, "anyType", "anySimpleType"))
		vpAssume(!(use == 8 && vpBuiltinOf(base).Kind == vpTList))
	}
	ns := []string{"m", "m"}
	if vpBool("import") {
		ns[1] = "a"
	}
	g := vpNewFiles([]string{"in/m.xsd", "in/a.xsd"}, ns)
	g.link(0, 1, "a.xsd")
	vpUseIn(g.f[0].d, use, ns[1]+":Code-list")
	if complex {
		g.f[1].d.open("complexType", "name", "Code-list").leaf("attribute", "name", "x", "type", "xs:int").close()
	} else {
		g.f[1].d.simple("Code-list", "xs:"+base, "pattern", "x")
	}
	g.put()
	ty, depth := vpReadUse(lang, "in/m.xsd")
	ty2, depth2 := vpLocally(lang, use, "Code-list", base, complex)
	vpAssert(ty == ty2 && depth == depth2, "a type of another schema has another target type than at home| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// arbitrary names and prefixes, and a namesake or near namesake elsewhere
func vpH_names() {
	lang := vpLangs[vpPick("lang", 5)]
	x := vpStr2("x", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	y := vpStr2("y", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	p := vpStr2("prefix", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(p != "m" && p != "xs" && p != "xml")
	vpAssume(!vpOwn10(x) && !vpOwn10(y))
	ns := []string{"m", "m", "a"}[vpPick("ns", 2):]
	g := vpNewFiles([]string{"in/m.xsd", "in/a.xsd"}, ns[:2])
	d := vpSchema("xs", "targetNamespace", "urn:m", "xmlns:m", "urn:m", "xmlns:"+p, "urn:"+ns[1])
	g.f[0].d = d
	g.link(0, 1, "a.xsd")
	// a type of the referring schema
	if ns[1] == "m" {
		vpAssume(x != y)
	}
	before := vpBool("before")
	if before {
		d.simple(y, "xs:unsignedByte")
	}
	vpUseIn(d, 0, p+":"+x)
	if !before {
		d.simple(y, "xs:unsignedByte")
	}
	g.f[1].d.simple(x, "xs:boolean")
	g.put()
	ty, depth := vpReadUse(lang, "in/m.xsd")
	vpAssert(depth == 0 && vpFits(lang, vpBuiltinOf("boolean"), ty, 0, 0), "a type of another schema has another target type than at home| "+ty)
	vpCover("reached")
}

// longer chains of includes, and more imports than one, in any order
func vpH_long() {
	n := 3 + vpPick("files", 4+vpTier())
	var lang string
	if n > 4 {
		lang = vpVary(n)
	} else {
		lang = vpLang()
	}
	chain := vpPick("chain", 3) // imports, a chain of includes, includes of one
	at := 1 + vpPick("at", n-1)
	var paths, ns []string
	for i := 0; i < n; i++ {
		paths = append(paths, "in/f"+vpItoa(i)+".xsd")
		if chain == 0 && i > 0 {
			ns = append(ns, "n"+vpItoa(i))
		} else {
			ns = append(ns, "m")
		}
	}
	g := &vpFiles{}
	for i, p := range paths {
		var kv []string
		for j := range ns {
			if chain == 0 || j == 0 {
				kv = append(kv, "xmlns:"+ns[j], "urn:"+ns[j])
			}
		}
		g.f = append(g.f, &vpFile{ns: ns[i], path: p, d: vpSchema("xs", append([]string{"targetNamespace", "urn:" + ns[i]}, kv...)...), links: map[int]bool{}})
	}
	turn := vpPick("turn", n-1)
	for i := 1; i < n; i++ {
		j := 1 + (i-1+turn)%(n-1)
		if chain == 1 {
			g.link(i-1, i, "f"+vpItoa(i)+".xsd")
		} else {
			g.link(0, j, "f"+vpItoa(j)+".xsd")
		}
	}
	back := vpBool("back")
	if back {
		g.link(n-1, 0, "f0.xsd")
	}
	use := vpPick("use", 3)
	vpAssume(!(use == 2 && lang == "C") && !(n > 4 && use > 0))
	vpUseIn(g.f[0].d, use, ns[at]+":Code")
	for i := 1; i < n; i++ {
		if i != at {
			d := g.f[i].d
			if chain == 0 {
				d.simple("Code", "xs:boolean")
			} else {
				d.simple("Other"+vpItoa(i), "xs:boolean")
			}
			d.open("complexType", "name", "Unrelated"+vpItoa(i)).leaf("attribute", "name", "x", "type", "xs:int").close()
		}
	}
	g.f[at].d.simple("Code", "xs:unsignedShort", "minInclusive", "2")
	g.put()
	ty, depth := vpReadUse(lang, paths[0])
	ty2, depth2 := vpLocally(lang, use, "Code", "unsignedShort", false)
	vpAssert(ty == ty2 && depth == depth2, "a type of another schema has another target type than at home| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// a use between components of every kind, of a type between such ones
func vpH_among() {
	ns := []string{"m", []string{"m", "a"}[vpPick("ns", 2)]}
	g := vpNewFiles([]string{"in/m.xsd", "in/a.xsd"}, ns)
	g.link(0, 1, "a.xsd")
	use := vpPick("use", 3)
	d, e := g.f[0].d, g.f[1].d
	other := vpBool("there")
	var n int
	if other {
		vpUseIn(d, use, ns[1]+":Code")
		n = vpAmong(e, func() { e.simple("Code", "xs:unsignedShort") })
		vpAmongUses(e)
	} else {
		n = vpAmong(d, func() { vpUseIn(d, use, ns[1]+":Code") })
		vpAmongUses(d)
		e.simple("Code", "xs:unsignedShort")
	}
	g.put()
	lang := vpVary(n + use)
	if use == 2 && lang == "C" {
		lang = "Java"
	}
	ty, depth := vpReadUse(lang, "in/m.xsd")
	ty2, depth2 := vpLocally(lang, use, "Code", "unsignedShort", false)
	vpAssert(ty == ty2 && depth == depth2, "a type of another schema has another target type than at home| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// the namespace of an imported schema is bound by any element around the use,
// and the prefix may be one of the including schema's own elsewhere
func vpH_scopes() {
	lang := vpLang()
	use := vpPick("use", vpUses10)
	vpAssume(!(lang == "C" && use == 2)) // C20
	p := vpStr2("prefix", 1, 1, "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(p != "m")
	kv := []string{"targetNamespace", "urn:m", "xmlns:m", "urn:m"}
	outer := vpPick("outer", 4) // unbound, the schema's own, another's, as inside
	if outer > 0 {
		kv = append(kv, "xmlns:"+p, []string{"urn:m", "urn:b", "urn:a"}[outer-1])
	}
	d := vpSchema("xs", kv...)
	d.leaf("import", "namespace", "urn:a", "schemaLocation", "a.xsd")
	d.leaf("import", "namespace", "urn:b", "schemaLocation", "b.xsd")
	// namesakes of the type
	vpPutDoc("in/b.xsd", vpSchema("xs", "targetNamespace", "urn:b").simple("Code", "xs:boolean").done())
	vpPutDoc("in/a.xsd", vpSchema("xs", "targetNamespace", "urn:a").simple("Code", "xs:unsignedShort").done())
	lo := len(d.toks)
	vpUseIn(d, use, p+":Code")
	hi := len(d.toks)
	var tags []int
	for i := lo; i < hi; i++ {
		if d.toks[i].Kind == 1 {
			hit := false
			for _, a := range d.toks[i].Attrs {
				hit = hit || a.Value == p+":Code"
			}
			tags = append(tags, i)
			if hit {
				break
			}
		}
	}
	at := vpPick("tag", 6)
	vpAssume(at < len(tags))
	for k, i := range tags {
		if k == at {
			d.toks[i].Attrs = append(d.toks[i].Attrs, vpAttrs([]string{"xmlns:" + p, "urn:a"})...)
		} else if k < at && k%2 == 1 {
			d.toks[i].Attrs = append(d.toks[i].Attrs, vpAttrs([]string{"xmlns:" + p, "urn:b"})...)
		}
	}
	// outside of it
	after := ""
	if outer > 1 {
		after = []string{"boolean", "unsignedShort"}[outer-2]
		d.leaf("element", "name", "Out", "type", p+":Code")
	}
	vpPutDoc("in/m.xsd", d.done())
	ty, depth := vpReadUse(lang, "in/m.xsd")
	ty2, depth2 := vpLocally(lang, use, "Code", "unsignedShort", false)
	vpAssert(ty == ty2 && depth == depth2, "a type of another schema has another target type than at home| "+ty+" instead of "+ty2)
	if after != "" {
		text, _ := vpRead("out/m.xsd" + vpExt(lang))
		T := vpParseOut(lang, text).ok().find("Out")
		vpAssert(T != nil, "the using declaration is missing")
		ty, depth, _ = T.single()
		vpAssert(depth == 0 && vpFits(lang, vpBuiltinOf(after), ty, depth, 0), "a prefix has another meaning than declared around it| "+ty)
	}
	vpCover("reached")
}

// many schemas: far down a chain, or one of many beside each other
func vpH_many() {
	n := []int{7, 8, 9, 10, 11, 16, 17, 33}[vpPick("files", 8)]
	shape := vpPick("shape", 4) // chain of includes, star of includes, star of imports, chain of imported types
	at := []int{1, (n + 1) / 2, n - 1, n}[vpPick("at", 4)]
	use := vpPick("use", vpUses10)
	lang := vpVary(n + at)
	if use == 2 && lang == "C" { // C20
		lang = "Go"
	}
	name := func(i int) string { return "f" + vpItoa(i) + ".xsd" }
	nsOf := func(i int) string {
		if shape < 2 {
			return "urn:m"
		}
		return "urn:n" + vpItoa(i)
	}
	code := func(d *vpDoc, i int) {
		if i == at {
			d.simple("Code", "xs:unsignedShort", "minInclusive", "2")
		} else if shape < 2 {
			d.simple("Other"+vpItoa(i), "xs:boolean")
		} else if shape == 2 {
			d.simple("Code", []string{"xs:boolean", "xs:token"}[i%2])
		} else if i < at {
			d.simple("Code", "q:Code")
		}
	}
	q := "q:Code"
	var first *vpDoc
	for i := 0; i <= n; i++ {
		kv := []string{"targetNamespace", nsOf(i), "xmlns:q", nsOf(i + 1)}
		if i == 0 && shape == 2 {
			kv[3] = nsOf(at)
		}
		d := vpSchema("xs", kv...)
		if i == 0 {
			first = d
		}
		kind := "include"
		link := func(j int) {
			if shape < 2 {
				d.leaf(kind, "schemaLocation", name(j))
			} else {
				d.leaf("import", "namespace", nsOf(j), "schemaLocation", name(j))
			}
		}
		if shape == 1 || shape == 2 {
			for j := 1; i == 0 && j <= n; j++ {
				link(j)
			}
		} else if i < n {
			link(i + 1)
		}
		if i == 0 {
			vpUseIn(d, use, q)
		} else {
			code(d, i)
		}
		if i > 0 {
			vpPutDoc("in/"+name(i), d.done())
		}
	}
	vpPutDoc("in/"+name(0), first.done())
	ty, depth := vpReadUse(lang, "in/"+name(0))
	ty2, depth2 := vpLocally(lang, use, "Code", "unsignedShort", false)
	vpAssert(ty == ty2 && depth == depth2, "a type of another schema has another target type than at home| "+ty+" instead of "+ty2)
	vpCover("reached")
}

// schemas in files whose names say little: the same name in different
// directories, names that differ in case or extension only, or that are the
// referring schema's
func vpH_namesakes() {
	all := []string{"t.xsd", "p/t.xsd", "q/t.xsd", "p/q/t.xsd", "T.xsd", "t.xml", "p/m.xsd", "t", "p.q/t.xsd", "q/p/m.xsd"}
	from := []string{"m.xsd", "p/q/m.xsd"}[vpPick("from", 2)]
	i := vpPick("first", len(all))
	j := vpPick("second", len(all))
	vpAssume(i != j)
	k := (i + 1 + vpPick("third", 2)*5) % len(all)
	vpAssume(k != i && k != j)
	lang := vpVary(i + 2*j)
	paths := []string{from, all[i], all[j], all[k]}
	ns := []string{"m", "m", "m", "m"}
	shape := vpPick("shape", 4) // includes, a chain of includes, imports, imports of the same local name
	if shape > 1 {
		ns = []string{"m", "a", "b", "c"}
	}
	g := &vpFiles{}
	for n, p := range paths {
		d := vpSchema("xs", "targetNamespace", "urn:"+ns[n], "xmlns:m", "urn:m", "xmlns:a", "urn:a", "xmlns:b", "urn:b", "xmlns:c", "urn:c")
		g.f = append(g.f, &vpFile{ns: ns[n], path: "in/" + p, d: d, links: map[int]bool{}})
	}
	loc := func(x, y int) string {
		dir, up := "", ""
		for n := range paths[x] {
			if paths[x][n] == '/' {
				dir, up = paths[x][:n+1], up+"../"
			}
		}
		if to := paths[y]; len(to) > len(dir) && to[:len(dir)] == dir {
			return to[len(dir):]
		}
		return up + paths[y]
	}
	for n := 1; n < 4; n++ {
		if shape == 1 {
			g.link(n-1, n, loc(n-1, n))
		} else {
			g.link(0, n, loc(0, n))
		}
	}
	bases := []string{"", "boolean", "unsignedByte", "token"}
	d := g.f[0].d
	d.open("complexType", "name", "Host").open("sequence")
	for n := 1; n < 4; n++ {
		name := "Code" + vpItoa(n)
		if shape == 3 {
			name = "Code"
		}
		d.leaf("element", "name", "k"+vpItoa(n), "type", ns[n]+":"+name)
		g.f[n].d.simple(name, "xs:"+bases[n])
	}
	d.closeN(2)
	g.put()
	err := NewParser(vpOptions(lang, "in", "out", "in/"+from)).Parse()
	vpAssert(err == nil, "a schema with includes or imports is not generated")
	text, st := vpRead("out/" + from + vpExt(lang))
	vpAssert(st == 0, "no output file was written")
	H := vpParseOut(lang, text).ok().find("Host")
	vpAssert(H != nil && len(H.Fields) == 3, "the type does not have exactly its members")
	for n := 1; n < 4; n++ {
		f := H.Fields[n-1]
		vpAssert(vpFits(lang, vpBuiltinOf(bases[n]), f.Type, f.Depth, 0), "a type of another schema has another target type than at home| "+f.Type+" for xs:"+bases[n])
	}
	vpCover("reached")
}

// schemas without a namespace, and references without a prefix
func vpH_absent() {
	lang := vpLang()
	use := vpPick("use", vpUses10)
	vpAssume(!(lang == "C" && use == 2)) // C20
	base := []string{"unsignedByte", "boolean", "time"}[use%3]
	form := vpPick("form", 8)
	kv := []string{"targetNamespace", "urn:m", "xmlns:m", "urn:m"}
	other := []string{}
	ref, ns, include := "code", "", false
	switch form {
	case 0: // imported without a namespace
		kv = []string{"targetNamespace", "urn:m", "xmlns:m", "urn:m"}
	case 1: // neither has a namespace
		kv, include = nil, true
	case 2: // takes the namespace of the schema that includes it
		include, ref = true, "m:code"
	case 3: // from a schema without a namespace
		kv, other, ns, ref = []string{"xmlns:a", "urn:a"}, []string{"targetNamespace", "urn:a"}, "urn:a", "a:code"
	case 4:
		kv, other, ns = []string{"xmlns", "urn:a"}, []string{"targetNamespace", "urn:a"}, "urn:a"
	case 5: // the default namespace is that of the schema
		kv, other, include = []string{"targetNamespace", "urn:m", "xmlns", "urn:m"}, []string{"targetNamespace", "urn:m"}, true
	case 6: // or that of the other one
		kv, other, ns = []string{"targetNamespace", "urn:m", "xmlns:m", "urn:m", "xmlns", "urn:a"}, []string{"targetNamespace", "urn:a"}, "urn:a"
	case 7:
		kv, other, ns, ref = []string{"targetNamespace", "urn:m", "xmlns", "urn:m", "xmlns:a", "urn:a"}, []string{"targetNamespace", "urn:a"}, "urn:a", "a:code"
	}
	decoy := vpPick("decoy", 3) // another import, in front or behind
	if decoy > 0 {
		kv = append(kv, "xmlns:b", "urn:b")
		b := vpSchema("xs", "targetNamespace", "urn:b")
		b.simple("code", "xs:double")
		vpPutDoc("in/b.xsd", b.done())
	}
	d := vpSchema("xs", kv...)
	if decoy == 1 {
		d.leaf("import", "namespace", "urn:b", "schemaLocation", "b.xsd")
	}
	where := []string{"schemaLocation", "a.xsd"}
	last := vpBool("location last")
	switch {
	case include:
		d.leaf("include", where...)
	case ns == "":
		d.leaf("import", where...)
	case last:
		d.leaf("import", "namespace", ns, where[0], where[1])
	default:
		d.leaf("import", where[0], where[1], "namespace", ns)
	}
	vpAssume(!last || ns != "")
	if decoy == 2 {
		d.leaf("import", "namespace", "urn:b", "schemaLocation", "b.xsd")
	}
	vpUseIn(d, use, ref)
	vpPutDoc("in/m.xsd", d.done())
	a := vpSchema("xs", other...)
	far := vpBool("far") // it includes the type itself
	if far {
		a.leaf("include", "schemaLocation", "c.xsd")
		c := vpSchema("xs", other...)
		c.simple("code", "xs:"+base)
		vpPutDoc("in/c.xsd", c.done())
	} else {
		a.simple("code", "xs:"+base)
	}
	vpPutDoc("in/a.xsd", a.done())
	ty, depth := vpReadUse(lang, "in/m.xsd")
	ty2, depth2 := vpLocally(lang, use, "code", base, false)
	vpAssert(ty == ty2 && depth == depth2, "a type of another schema has another target type than at home| "+ty+" instead of "+ty2)
	vpCover("reached")
}
