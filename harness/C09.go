package xgen

//vp:use lib.go
//vp:use oracle.go

// C09: different global components never share one identifier.

const vpKinds9 = 11

// vpNamed declares a component; the result is the number of declarations.
func vpNamed(d *vpDoc, kind int, name string) int {
	switch kind {
	case 0:
		d.open("complexType", "name", name).open("sequence").leaf("element", "name", "x", "type", "xs:int").closeN(2)
	case 1:
		d.simple(name, "xs:int")
	case 2:
		d.leaf("element", "name", name, "type", "xs:int")
	case 3:
		d.open("group", "name", name).open("sequence").leaf("element", "name", "x", "type", "xs:int").closeN(2)
	case 4:
		d.open("attributeGroup", "name", name).leaf("attribute", "name", "x", "type", "xs:int").close()
	case 5:
		d.leaf("attribute", "name", name, "type", "xs:int")
	case 6:
		d.open("simpleType", "name", name).leaf("list", "itemType", "xs:int").close()
	case 7:
		d.open("simpleType", "name", name).leaf("union", "memberTypes", "xs:int xs:boolean").close()
	case 8:
		d.open("element", "name", name).open("complexType").open("sequence").leaf("element", "name", "x", "type", "xs:int").closeN(3)
	case 9:
		d.simple(name, "xs:string", "enumeration", "v")
	case 10: // an anonymous type inside a type
		d.open("complexType", "name", "OuterMost").open("sequence").open("element", "name", name).open("complexType").open("sequence")
		d.leaf("element", "name", "x", "type", "xs:int").closeN(5)
		return 2
	}
	return 1
}

func vpDistinct(lang string, d *vpDoc, n int) {
	o := vpGen(lang, d.done()).ok()
	vpAssert(len(o.Decls) == n, "not one declaration per component")
	for i := range o.Decls {
		for j := 0; j < i; j++ {
			vpAssert(o.Decls[i].Ident != o.Decls[j].Ident, "two components share one identifier")
		}
	}
	vpCover("reached")
}

// every pair of kinds with arbitrary names
func vpH_pairs() {
	lang := vpLang()
	a := vpStr2("a", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	b := vpStr2("b", 1, 2, "a-zA-Z_", "a-zA-Z0-9._-")
	vpAssume(a != b)
	d := vpXSD()
	ka := vpPick("kind a", vpKinds9)
	kb := (ka + []int{0, 1, 5}[vpPick("kind b", 2+vpTier())]) % vpKinds9
	vpAssume(!(ka == 10 && kb == 10))
	vpDistinct(lang, d, vpNamed(d, ka, a)+vpNamed(d, kb, b))
}

// three names one of which looks like a numbered identifier
func vpH_triples() {
	lang := vpLang()
	base := []string{"Ab", "a.b", "aB"}[vpPick("base", 3)]
	names := []string{base,
		base[:1] + vpStr("sep", 1, 1, "a0-9._B-") + base[len(base)-1:],
		"Ab" + vpStr("number", 1, 1, "0-9a-z.-"),
	}
	if vpTier() > 0 {
		names = append(names, "a-b"+vpStr("number", 1, 1, "0-9._-"))
	}
	d := vpXSD()
	n := 0
	k := vpPick("kind", 10)
	p := vpPick("order", 6)
	for i := range names {
		for j := 0; j < i; j++ {
			vpAssume(names[i] != names[j])
		}
	}
	for i := range names {
		j := i
		if i < 3 {
			j = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[p][i]
		}
		n += vpNamed(d, (k+3*i)%10, names[j])
	}
	vpDistinct(lang, d, n)
}

// names that differ in characters ASCII does not have, or only in them
func vpH_scripts() {
	lang := vpLang()
	p := []string{"a", "\u00e9", "\u4e2d", "\u0436a"}[vpPick("head", 4)]
	rest := []string{"", "\u00b7", "\u0301", "\u00e9", "\u00c9", "-", "\u3005\u00b7", "b", "\u00b7b", ".b"}
	i := vpPick("a", len(rest)-1)
	j := i + 1 + vpPick("b", len(rest)-1-i)
	a, b := p+rest[i], p+rest[j]
	if vpBool("capital") {
		b = ToTitle(b)
	}
	vpAssume(a != b)
	d := vpXSD()
	ka := vpPick("kind", vpKinds9-1)
	vpDistinct(lang, d, vpNamed(d, ka, a)+vpNamed(d, (ka+len(a)%2*3)%(vpKinds9-1), b))
}

// many components whose names lead to one identifier
func vpH_many() {
	n := []int{3, 8, 9, 10, 11, 12, 16, 17, 30}[vpPick("components", 9)]
	k := 3 * vpPick("kind", 4)
	mixed := vpBool("mixed")
	var names []string
	for size := 1; len(names) < n; size++ {
		for bits := 0; bits < 1<<uint(size) && len(names) < n; bits++ {
			name := "ab"
			for i := 0; i < size; i++ {
				name += []string{".", "-"}[bits>>uint(i)&1]
			}
			names = append(names, name+"Cd")
		}
	}
	at := []int{0, n / 2, n - 1}[vpPick("at", 3)]
	names[at] = "abCd" + vpStr("number", 1, 1, "0-9._-")
	if at > 0 && vpBool("two digits") {
		names[at-1] = "ab.Cd1" + vpStr("digit", 1, 1, "0-9")
	}
	d := vpXSD()
	m := 0
	for i, name := range names {
		if mixed {
			m += vpNamed(d, (k+3*i)%(vpKinds9-1), name)
		} else {
			m += vpNamed(d, k, name)
		}
	}
	vpDistinct(vpLangs[(n+k+at)%5], d, m)
}

// long names that differ in one letter
func vpH_lengths() {
	n := []int{8, 9, 15, 16, 17, 20, 26, 31, 32, 33, 50, 63, 64, 65}[vpPick("length", 14)]
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, "abcdefghijklmnopqrstuvwxyz"[(i*7+n)%26])
	}
	at := []int{1, n / 2, n - 1}[vpPick("at", 3)]
	one := string(b[:at]) + vpStr("letter", 1, 1, "a-zA-Z0-9._-") + string(b[at+1:])
	two := string(b)
	if vpBool("longer") {
		two += vpStr("more", 1, 1, "a-z0-9._-")
	}
	vpAssume(one != two)
	d := vpXSD()
	k := vpPick("kind", vpKinds9-1)
	vpDistinct(vpLangs[(n+k+at)%5], d, vpNamed(d, k, one)+vpNamed(d, (k+at%2*3)%(vpKinds9-1), two))
}
