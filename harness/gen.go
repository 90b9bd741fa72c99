package xgen

// Schemas built by a sequence of picked steps, with the members that every
// declaration generated for them has to have.

type vpMember struct {
	Name string
	Kind int // 0 child, 1 attribute, 2 group, 3 attribute group
	B    vpBuiltin
	Ref  string // identifier of a declared type, instead of B
}

type vpTypeSpec struct {
	Ident   string
	Members []vpMember
	nattr   int
}

type vpSchemaGen struct {
	d      *vpDoc
	types  []*vpTypeSpec // in order of their opening
	open   []*vpTypeSpec
	frames []int // elements to close per open frame; 0 marks a type's end
	count  int
	attrs  int // variant of the attributes types get
	group  bool
	shape  []int  // open particles per open type
	refs   int    // highest number of a referenced component
	letter string // first letter of children's names
}

var vpScalars = []string{"int", "boolean", "token", "unsignedLong", "float", "short"}

// names shared by the types, so that a member in the wrong type shows
func (g *vpSchemaGen) scalar() vpBuiltin {
	g.count++
	return vpBuiltinOf(vpScalars[g.count%len(vpScalars)])
}

func (g *vpSchemaGen) top() *vpTypeSpec { return g.open[len(g.open)-1] }

func (g *vpSchemaGen) name(prefix string) string {
	T := g.top()
	return prefix + vpItoa(len(T.Members)+1)
}

func (g *vpSchemaGen) add(m vpMember) {
	T := g.top()
	if vpIn(m.Name[:1], "g", "b", "e") && len(T.Members) >= g.refs {
		g.refs = len(T.Members) + 1
	}
	T.Members = append(T.Members, m)
}

func (g *vpSchemaGen) begin(ident string) {
	T := &vpTypeSpec{Ident: ident}
	g.types = append(g.types, T)
	g.open = append(g.open, T)
	g.shape = append(g.shape, 0)
}

// pick performs a picked step out of those possible here; false ends the
// content.
func (g *vpSchemaGen) pick() bool {
	steps := []int{-1, 0, 1, 4, 5, 6, 7, 8}
	if g.shape[len(g.shape)-1] < 2 {
		steps = append(steps, 2)
	}
	if g.shape[len(g.shape)-1] > 0 || len(g.open) > 1 {
		steps = append(steps, 3)
	}
	k := steps[vpPick("step", len(steps))]
	if k >= 0 {
		g.step(k)
	}
	return k >= 0
}

func (g *vpSchemaGen) step(k int) {
	d := g.d
	switch k {
	case 0:
		b, n := g.scalar(), g.name(g.letter)
		d.leaf("element", "name", n, "type", "xs:"+b.Name)
		g.add(vpMember{Name: n, B: b})
	case 1: // anonymous complex type
		g.count++
		n := "n" + vpItoa(g.count)
		d.open("element", "name", n).open("complexType").open("sequence")
		g.add(vpMember{Name: n, Ref: "N" + vpItoa(g.count)})
		g.begin("N" + vpItoa(g.count))
	case 2: // a particle
		g.count++
		d.open(vpAroundAll[g.count%3], "minOccurs", "0")
		g.shape[len(g.shape)-1]++
	case 3: // close what was opened last
		g.end()
	case 4: // group reference
		n := g.name("g")
		d.leaf("group", "ref", n)
		g.add(vpMember{Name: n, Kind: 2, Ref: "G" + n[1:]})
	case 5: // anonymous simple type
		b, n := g.scalar(), g.name(g.letter)
		d.open("element", "name", n).open("simpleType").restrict("xs:"+b.Name, "pattern", "x").closeN(2)
		g.add(vpMember{Name: n, B: b})
	case 6:
		n := g.name(g.letter)
		d.leaf("element", "name", n, "type", "U")
		g.add(vpMember{Name: n, Ref: "U"})
	case 7: // reference to a global element
		n := g.name("e")
		d.leaf("element", "ref", n)
		g.add(vpMember{Name: n, B: vpBuiltinOf("short")})
	case 8: // anonymous type with simple content
		g.count++
		n, b := "n"+vpItoa(g.count), g.scalar()
		d.open("element", "name", n).open("complexType").open("simpleContent").open("extension", "base", "xs:boolean")
		d.leaf("attribute", "name", "a1", "type", "xs:"+b.Name).closeN(4)
		g.add(vpMember{Name: n, Ref: vpUpper1(n)})
		g.types = append(g.types, &vpTypeSpec{Ident: vpUpper1(n), Members: []vpMember{{Name: "a1", Kind: 1, B: b}}, nattr: -1})
	}
}

var vpAroundAll = []string{"sequence", "choice", "sequence"}

// end closes the innermost particle or anonymous type.
func (g *vpSchemaGen) end() bool {
	if g.shape[len(g.shape)-1] > 0 {
		g.shape[len(g.shape)-1]--
		g.d.close()
		return true
	}
	if len(g.open) == 1 {
		return false
	}
	g.d.close() // sequence
	g.attributes()
	g.d.closeN(2)
	g.pop()
	return true
}

func (g *vpSchemaGen) pop() {
	g.open = g.open[:len(g.open)-1]
	g.shape = g.shape[:len(g.shape)-1]
}

// attributes declares the attributes of the innermost type.
func (g *vpSchemaGen) attributes() {
	a := func() {
		n, b := g.name("a"), g.scalar()
		g.d.leaf("attribute", "name", n, "type", "xs:"+b.Name)
		g.add(vpMember{Name: n, Kind: 1, B: b})
	}
	ag := func() {
		n := g.name("b")
		g.d.leaf("attributeGroup", "ref", n)
		g.add(vpMember{Name: n, Kind: 3, Ref: "B" + n[1:]})
	}
	switch (g.attrs + len(g.types)) % 4 {
	case 1:
		a()
	case 2:
		ag()
		a()
		ag()
	case 3:
		a()
		a()
		ag()
	}
}

// finish closes the host's content; n is what host returned.
func (g *vpSchemaGen) finish(n int, attrs bool) {
	for len(g.open) > 1 || g.shape[0] > 0 {
		g.end()
	}
	g.d.close()
	if attrs {
		g.attributes()
	}
	g.d.closeN(n - 1)
	g.pop()
}

// globals declares what members refer to, in front of the rest of the
// document or after it.
func (g *vpSchemaGen) globals(before bool) {
	d := g.d
	toks := d.toks
	if before {
		d.toks = nil
	}
	vpUses(d)
	for i := 1; i <= g.refs; i++ {
		s := vpItoa(i)
		d.open("group", "name", "g"+s).open("sequence").leaf("element", "name", "u", "type", "xs:int").closeN(2)
		d.open("attributeGroup", "name", "b"+s).leaf("attribute", "name", "u", "type", "xs:int").close()
		d.leaf("element", "name", "e"+s, "type", "xs:short")
	}
	if before {
		d.toks = append(append(append([]vpTok{}, toks[0]), d.toks...), toks[1:]...)
	}
}

// members compares the members of a declaration with its specification, kind
// by kind; extra is the number of members not listed (a value member).
func (T *vpTypeSpec) members(o *vpOut, extra int) {
	D := o.find(T.Ident)
	vpAssert(D != nil, "a type is not declared| "+T.Ident)
	vpAssert(len(D.Fields) == len(T.Members)+extra, "a type does not have exactly its members| "+T.Ident)
	for kind := 0; kind < 4; kind++ {
		last := -1
		for _, m := range T.Members {
			if m.Kind != kind {
				continue
			}
			at := -1
			for i := range D.Fields {
				if D.Fields[i].Ident == vpIdent(o.Lang, m.Name, m.Kind == 1) {
					vpAssert(at < 0, "a member is generated twice| "+T.Ident+"."+m.Name)
					at = i
				}
			}
			vpAssert(at >= 0, "a declared member is missing| "+T.Ident+"."+m.Name)
			vpAssert(at > last, "members are not in schema order| "+T.Ident+"."+m.Name)
			last = at
			if m.Ref != "" {
				vpAssert(D.Fields[at].Type == m.Ref, "a member has the type of another declaration| "+T.Ident+"."+m.Name)
			} else {
				vpAssert((vpFits(o.Lang, m.B, D.Fields[at].Type, 0, 0) || vpFits(o.Lang, m.B, D.Fields[at].Type, 1, 0)), "a member has the type of another declaration| "+T.Ident+"."+m.Name)
			}
		}
	}
}
