package xgen

// Schemas with much of something: members, components, nested particles,
// nested types, letters of a name. Sizes lie around the powers of two and ten.

type vpBigMember struct {
	Name           string
	Kind           int    // 0 child, 1 attribute, 2 group, 3 attribute group
	B              string // a built-in type
	Ref            string // or the identifier of a declared one
	Many, Required bool
}

type vpBigDecl struct {
	Name, Kind string // struct or alias
	B, Ref     string // what an alias is of
	Base       string
	Members    []vpBigMember
}

type vpBig struct {
	d     *vpDoc
	decls []*vpBigDecl
	tail  []string // names of groups g..., attribute groups h... to declare
}

func (g *vpBig) decl(name, kind string) *vpBigDecl {
	D := &vpBigDecl{Name: name, Kind: kind}
	g.decls = append(g.decls, D)
	return D
}

var vpBigScalars = []string{"int", "boolean", "token", "unsignedLong", "float"}

// child number i of D
func (g *vpBig) child(D *vpBigDecl, i int, many bool) {
	m := vpBigMember{Name: "k" + vpItoa(i), Many: many}
	var kv []string
	if i%3 == 1 {
		m.Many = true
		kv = []string{"maxOccurs", []string{"unbounded", "2", "10"}[i%9/3]}
	} else if i%5 == 2 {
		kv = []string{"maxOccurs", "1", "minOccurs", "0"}
	}
	if i%7 == 5 {
		m.Kind, m.Name = 2, "g"+vpItoa(i)
		m.Ref = vpUpper1(m.Name)
		g.tail = append(g.tail, m.Name)
		g.d.leaf("group", append(kv, "ref", m.Name)...)
	} else if i%4 == 3 {
		m.Ref = "U"
		g.d.leaf("element", append([]string{"name", m.Name, "type", "U"}, kv...)...)
	} else {
		m.B = vpBigScalars[i%5]
		g.d.leaf("element", append(kv, "type", "xs:"+m.B, "name", m.Name)...)
	}
	D.Members = append(D.Members, m)
}

func (g *vpBig) attr(D *vpBigDecl, i int) {
	m := vpBigMember{Name: "a" + vpItoa(i), Kind: 1, Required: i%3 == 0}
	if i%6 == 4 && D.Kind != "attrs" {
		m.Kind, m.Name = 3, "h"+vpItoa(i)
		m.Ref = vpUpper1(m.Name)
		g.tail = append(g.tail, m.Name)
		g.d.leaf("attributeGroup", "ref", m.Name)
	} else {
		m.B = vpBigScalars[i%5]
		kv := []string{"name", m.Name, "type", "xs:" + m.B}
		if m.Required {
			kv = append(kv, "use", "required")
		} else if i%3 == 1 {
			kv = append(kv, "use", "optional")
		}
		g.d.leaf("attribute", kv...)
	}
	D.Members = append(D.Members, m)
}

func (g *vpBig) finish() {
	for _, n := range g.tail {
		if n[0] == 'g' {
			D := g.decl(n, "struct")
			g.d.open("group", "name", n).open("sequence")
			g.child(D, 1, false)
			g.d.closeN(2)
		} else {
			D := g.decl(n, "attrs")
			g.d.open("attributeGroup", "name", n)
			g.attr(D, 1)
			g.d.close()
		}
	}
	D := g.decl("U", "struct")
	g.d.open("complexType", "name", "U").open("sequence")
	g.child(D, 2, false)
	g.d.closeN(2)
}

// vpBigs builds a schema of the picked shape and size.
func vpBigs() (*vpBig, int) {
	g := &vpBig{d: vpXSD()}
	d := g.d
	more := vpTier() > 0
	pick := func(small, big []int) int {
		if more {
			small = append(small, big...)
		}
		return small[vpPick("size", len(small))]
	}
	shape := vpPick("shape", 7)
	n := 0
	switch shape {
	case 0, 1, 2: // members
		n = pick([]int{5, 7, 8, 9, 10, 11, 12, 16, 17, 20, 26, 32, 33, 50}, []int{64, 65, 100, 130})
		if shape == 0 {
			D := g.decl("host", "struct")
			d.open("complexType", "name", "host").open("choice")
			for i := 0; i < n; i++ {
				g.child(D, i, false)
			}
			d.close()
			for i := 0; i < n; i++ {
				g.attr(D, i)
			}
			d.close()
		} else if shape == 1 {
			D := g.decl("host", "struct")
			d.open("group", "name", "host").open("sequence")
			for i := 0; i < n; i++ {
				g.child(D, i, false)
			}
			d.closeN(2)
		} else {
			D := g.decl("host", "attrs")
			d.open("attributeGroup", "name", "host")
			for i := 0; i < n; i++ {
				g.attr(D, i)
			}
			d.close()
		}
	case 3: // components
		n = pick([]int{8, 9, 10, 11, 16, 17, 20, 32, 33, 64}, []int{65, 100, 128, 129})
		for i := 0; i < n; i++ {
			g.component(i)
		}
	case 4: // nested particles
		n = pick([]int{4, 5, 6, 7, 8, 9, 10, 16}, []int{12, 20, 32, 33})
		at := []int{-1, 0, n / 2, n - 1}[vpPick("repeats", 4)]
		D := g.decl("host", "struct")
		d.open("complexType", "name", "host").open("sequence")
		many := false
		for i := 0; i < n; i++ {
			g.child(D, i, many)
			var kv []string
			if i == at {
				kv, many = []string{"maxOccurs", "unbounded"}, true
			}
			d.open([]string{"choice", "sequence"}[i%2], kv...)
		}
		g.child(D, n, many)
		for i := n - 1; i >= 0; i-- {
			d.close()
			many = many && i != at
			g.child(D, n+n-i, many)
		}
		d.closeN(2)
	case 5: // nested types
		n = pick([]int{3, 4, 5, 6, 7, 8, 9, 10}, []int{16, 17, 20, 32})
		var open []*vpBigDecl
		for i := 0; i < n; i++ {
			name := "t" + vpItoa(i)
			D := &vpBigDecl{Name: name, Kind: "struct"}
			if i == 0 {
				d.open("complexType", "name", name)
			} else {
				up := open[i-1]
				up.Members = append(up.Members, vpBigMember{Name: name, Ref: vpUpper1(name), Many: i%2 == 0})
				kv := []string{"name", name}
				if i%2 == 0 {
					kv = append(kv, "maxOccurs", "unbounded")
				}
				d.open("element", kv...).open("complexType")
			}
			open = append(open, D)
			d.open("sequence")
			g.child(D, 2*i, false)
		}
		for i := n - 1; i >= 0; i-- {
			D := open[i]
			g.child(D, 2*i+1, false)
			d.close()
			g.attr(D, i%4)
			d.close()
			g.decls = append(g.decls, D)
			if i > 0 {
				d.close()
			}
		}
	case 6: // letters
		n = pick([]int{9, 10, 16, 17, 20, 26, 31, 32, 33, 40, 50, 63, 64, 65}, []int{80, 100, 127, 128, 129, 200, 255, 256, 257})
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, "abcdefghijklmnopqrstuvwxyz"[(i*7+n)%26])
		}
		at := []int{1, n / 2, n - 1}[vpPick("at", 3)]
		name := string(b[:at]) + vpStr("letter", 1, 1, "a-z") + string(b[at+1:])
		D := g.decl(name, "struct")
		d.open("complexType", "name", name).open("sequence")
		d.leaf("element", "name", name+"kid", "type", "xs:int", "maxOccurs", "unbounded")
		d.leaf("element", "name", "link", "type", name).leaf("group", "ref", name+"group").close()
		d.leaf("attribute", "name", name+"a", "type", name+"simple", "use", "required").leaf("attributeGroup", "ref", name+"attrs").close()
		up := vpUpper1(name)
		D.Members = []vpBigMember{{name + "kid", 0, "int", "", true, false}, {"link", 0, "", up, false, false}, {name + "group", 2, "", up + "group", false, false},
			{name + "a", 1, "boolean", "", false, true}, {name + "attrs", 3, "", up + "attrs", false, false}}
		D = g.decl(name+"group", "struct")
		d.open("group", "name", D.Name).open("sequence")
		g.child(D, 1, false)
		d.closeN(2)
		D = g.decl(name+"attrs", "attrs")
		d.open("attributeGroup", "name", D.Name)
		g.attr(D, 3)
		d.close()
		D = g.decl(name+"simple", "alias")
		D.B = "boolean"
		d.simple(D.Name, "xs:boolean")
		D = g.decl(name+"more", "struct")
		D.Base = up
		d.open("complexType", "name", D.Name).open("complexContent").open("extension", "base", name).open("sequence")
		g.child(D, 3, false)
		d.closeN(4)
	}
	g.finish()
	return g, shape + n
}

// component number i refers to earlier ones
func (g *vpBig) component(i int) {
	d := g.d
	s := func(head string, i int) string { return head + vpItoa(i) }
	switch i % 8 {
	case 0:
		D := g.decl(s("s", i), "alias")
		D.B = vpBigScalars[i/8%5]
		d.simple(D.Name, "xs:"+D.B, "pattern", "x")
	case 1:
		D := g.decl(s("c", i), "struct")
		b := vpBigScalars[(i-1)/8%5]
		d.open("complexType", "name", D.Name).open("sequence").leaf("element", "name", "one", "type", s("s", i-1)).close()
		d.leaf("attribute", "name", "two", "type", s("s", i-1), "use", "required").close()
		D.Members = []vpBigMember{{"one", 0, b, "", false, false}, {"two", 1, b, "", false, true}}
	case 2:
		D := g.decl(s("g", i), "struct")
		d.open("group", "name", D.Name).open("choice", "maxOccurs", "unbounded").leaf("element", "name", "one", "type", s("c", i-1)).closeN(2)
		D.Members = []vpBigMember{{"one", 0, "", s("C", i-1), true, false}}
	case 3:
		D := g.decl(s("h", i), "attrs")
		d.open("attributeGroup", "name", D.Name).leaf("attribute", "name", "two", "type", "xs:int").close()
		D.Members = []vpBigMember{{"two", 1, "int", "", false, false}}
	case 4:
		D := g.decl(s("e", i), "alias")
		D.Ref = s("C", i-3)
		d.leaf("element", "name", D.Name, "type", s("c", i-3))
	case 5:
		D := g.decl(s("a", i), "alias")
		D.B = vpBigScalars[i/8%5]
		d.leaf("attribute", "name", D.Name, "type", "xs:"+D.B)
	case 6:
		D := g.decl(s("c", i), "struct")
		D.Base = s("C", i-5)
		d.open("complexType", "name", D.Name).open("complexContent").open("extension", "base", s("c", i-5)).open("sequence")
		d.leaf("element", "name", "three", "type", s("c", i-5), "maxOccurs", "3").closeN(4)
		D.Members = []vpBigMember{{"three", 0, "", s("C", i-5), true, false}}
	case 7:
		D := g.decl(s("c", i), "struct")
		d.open("complexType", "name", D.Name).open("sequence").leaf("group", "ref", s("g", i-5)).close()
		d.leaf("attributeGroup", "ref", s("h", i-4)).close()
		D.Members = []vpBigMember{{s("g", i-5), 2, "", s("G", i-5), false, false}, {s("h", i-4), 3, "", s("H", i-4), false, false}}
	}
}

// vpScale generates code for a schema with much of something and pairs what
// is declared with what has been generated for it.
func vpScale(each func(o *vpOut, D *vpDecl, spec *vpBigDecl), member func(o *vpOut, f *vpField, m *vpBigMember)) (o *vpOut, g *vpBig) {
	g, n := vpBigs()
	o = vpGen(vpVary(n), g.d.done()).ok()
	for _, spec := range g.decls {
		D := o.find(vpUpper1(spec.Name))
		vpAssert(D != nil, "a component has no declaration| "+spec.Name)
		if each != nil {
			each(o, D, spec)
		}
		if member != nil {
			for k := range spec.Members {
				m := &spec.Members[k]
				f := D.field(vpIdent(o.Lang, m.Name, m.Kind == 1))
				vpAssert(f != nil, "a member is missing| "+spec.Name+"."+m.Name)
				member(o, f, m)
			}
		}
	}
	vpCover("reached")
	return
}
