package xgen

//vp:use lib.go
//vp:use oracle.go
//vp:use gen.go
//vp:use comps.go

import "strings"

// C19: TypeScript enumerations have exactly the declared values; the other
// languages' declarations have the base type.

// vpUnquote gives the string a TypeScript literal stands for.
func vpUnquote(s string) (out string) {
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 >= len(s) {
			out += s[i : i+1]
			continue
		}
		i++
		n := 0
		switch s[i] {
		case 'n':
			out += "\n"
		case 'r':
			out += "\r"
		case 't':
			out += "\t"
		case 'b':
			out += "\b"
		case 'f':
			out += "\f"
		case 'v':
			out += "\v"
		case '0':
			out += "\x00"
		case 'x':
			n = 2
		case 'u':
			n = 4
		default:
			out += s[i : i+1]
		}
		if n > 0 {
			v := 0
			for k := 1; k <= n && i+k < len(s); k++ {
				c := int(s[i+k])
				switch {
				case c >= '0' && c <= '9':
					c -= '0'
				case c >= 'a' && c <= 'f':
					c -= 'a' - 10
				case c >= 'A' && c <= 'F':
					c -= 'A' - 10
				default:
					c = 0
				}
				v = v*16 + c
			}
			i += n
			out += string(rune(v))
		}
	}
	return
}

type vpNumber struct {
	ok       bool
	neg      bool
	special  string
	whole    string // no leading zeros
	fraction string // no trailing zeros
	exp      string
}

func vpDigits(s string, i int) int {
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	return i
}

// vpNumberOf reads a number in XSD notation, or in TypeScript's.
func vpNumberOf(s string, ts bool) (n vpNumber) {
	inf := "INF"
	if ts {
		inf = "Infinity"
	}
	i := 0
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		n.neg, i = s[0] == '-', 1
	}
	if s[i:] == inf || s[i:] == "NaN" {
		n.ok, n.special = true, s[i:i+1]
		return
	}
	j := vpDigits(s, i)
	if ts && j > i+1 && s[i] == '0' {
		return // an octal number or an error
	}
	w := s[i:j]
	for len(w) > 0 && w[0] == '0' {
		w = w[1:]
	}
	some := j > i
	f := ""
	if j < len(s) && s[j] == '.' {
		k := vpDigits(s, j+1)
		f = s[j+1 : k]
		some = some || k > j+1
		j = k
	}
	for len(f) > 0 && f[len(f)-1] == '0' {
		f = f[:len(f)-1]
	}
	n.whole, n.fraction = w, f
	if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
		k := j + 1
		if k < len(s) && s[k] == '+' {
			k++
		} else if k < len(s) && s[k] == '-' {
			n.exp = "-"
			k++
		}
		m := vpDigits(s, k)
		some = some && m > k
		n.exp += s[k:m]
		j = m
	}
	n.ok = some && j == len(s)
	if w == "" && f == "" {
		n.neg, n.exp = false, ""
	}
	return
}

// vpEnum checks one declaration; num tells whether the base is numeric.
func vpEnum(o *vpOut, ident string, values []string, num bool) {
	D := o.find(ident)
	vpAssert(D != nil, "an enumerated type is not declared| "+ident)
	vpAssert(D.Kind == "enum", "an enumerated type is not an enum| "+ident)
	vpAssert(len(D.Enum) == len(values), "an enum does not have as many entries as values| "+ident)
	for i, v := range values {
		e := D.Enum[i]
		if num {
			vpAssert(!e.Quoted, "a value of a numeric type is written as text| "+ident)
			a, b := vpNumberOf(v, false), vpNumberOf(e.Value, true)
			vpAssume(a.ok)
			vpAssert(b.ok && a == b, "an entry of an enum has another value than declared| "+ident)
		} else {
			vpAssert(e.Quoted, "a value of a text type is not written as text| "+ident)
			vpAssert(vpUnquote(e.Value) == v, "an entry of an enum has another value than declared| "+ident)
		}
	}
	for i := range D.Enum {
		for j := range D.Enum[:i] {
			if values[i] != values[j] && (num || !strings.HasPrefix(values[i], "Enum") && !strings.HasPrefix(values[j], "Enum")) {
				vpAssert(D.Enum[i].Name != D.Enum[j].Name, "entries of an enum have one name| "+ident)
			}
		}
	}
	vpCover("reached")
}

// vpEnumAny checks one declaration in any language.
func vpEnumAny(o *vpOut, ident, base string, values []string) {
	b := vpBuiltinOf(base)
	num := b.Kind == vpTInt || b.Kind == vpTNat || b.Kind == vpTFloat || b.Kind == vpTDouble || b.Kind == vpTSigned || b.Kind == vpTUnsigned
	if o.Lang == "TypeScript" {
		vpEnum(o, ident, values, num)
		return
	}
	D := o.find(ident)
	vpAssert(D != nil, "an enumerated type is not declared| "+ident)
	ty, depth, ok := D.single()
	if o.Lang == "Rust" && base == "dateTime" || vpIn(o.Lang, "C", "Java") && base == "double" {
		// known findings of C01
		vpAssert(ok && depth == 0 && vpIn(ty, "u8", "float", "Float", "String", "double", "Double"), "an enumerated type does not have its base type| "+ident)
		return
	}
	vpAssert(ok && vpFits(o.Lang, b, ty, depth, 0), "an enumerated type does not have its base type| "+ident)
	vpCover("base")
}

func vpFacets19(values []string) (out []string) {
	for _, v := range values {
		out = append(out, "enumeration", v)
	}
	return
}

// vpDuplicate: XML Schema wants different values.
func vpDiffer(values []string) {
	for i := range values {
		for j := range values[:i] {
			vpAssume(values[i] != values[j])
		}
	}
}

var vpBases19 = []string{"string", "token", "NMTOKEN", "anyURI", "dateTime", "duration", "gYear", "language", "time", "ID"}
var vpNumeric19 = []string{"int", "decimal", "double", "unsignedLong", "byte", "integer", "nonNegativeInteger", "float", "short", "long", "positiveInteger", "unsignedByte"}

// arbitrary text values
func vpH_text() {
	n := 1 + vpPick("values", 2+vpTier())
	var values []string
	for i := 0; i < n; i++ {
		max := 2 + vpTier()
		if i > 0 {
			max = 1
		}
		values = append(values, vpStr("value", 0, max, " -~\n\r\t"))
	}
	vpDiffer(values)
	d := vpXSD().simple("Host", "xs:"+vpBases19[0], vpFacets19(values)...)
	vpEnumAny(vpGen("TypeScript", d.done()).ok(), "Host", "string", values)
}

// numbers
func vpH_numbers() {
	base := vpNumeric19[vpPick("base", 3+6*vpTier())]
	n := 1 + vpPick("values", 2)
	var values []string
	for i := 0; i < n; i++ {
		s := []string{"", "-", "+"}[vpPick("sign", 3)]
		s += vpStr("digits", 1, 2+vpTier()-i, "0-9")
		if base == "decimal" || base == "double" {
			switch vpPick("fraction", 3) {
			case 1:
				s += "."
			case 2:
				s += "." + vpStr("fraction", 1, 2-i, "0-9")
			}
		}
		if base == "double" && i == 0 {
			s += []string{"", "e3", "E-3", "e+07"}[vpPick("exponent", 4)]
		}
		values = append(values, s)
	}
	vpDiffer(values)
	d := vpXSD().simple("Host", "xs:"+base, vpFacets19(values)...)
	vpEnumAny(vpGen("TypeScript", d.done()).ok(), "Host", base, values)
}

// notations of their own
func vpH_special() {
	values := []string{"INF", "-INF", "NaN", ".5", "00", "007", "0.50", "-.25", "1E6", "0"}
	base := []string{"double", "float", "string"}[vpPick("base", 3)]
	a, b := values[vpPick("a", len(values))], values[vpPick("b", len(values))]
	vpAssume(a != b)
	list := []string{a, b}
	if base == "string" {
		list = append(list, "\u00e9", "a\u2028b", "'", "\\", "`${x}", "Infinity")
	}
	d := vpXSD().simple("Host", "xs:"+base, vpFacets19(list)...)
	vpEnumAny(vpGen("TypeScript", d.done()).ok(), "Host", base, list)
}

// every base, direct or by other types, in any order, in one file or two
func vpH_bases() {
	lang := vpLang()
	base, values := "", []string{"a", "b", "10"}
	all := append(append([]string{}, vpNumeric19...), vpBases19...)
	base = all[vpPick("base", len(all))]
	if base == vpNumeric19[0] || vpIn(base, vpNumeric19...) {
		values = []string{"10", "2", "3"}
	}
	n := vpPick("chain", 3)
	d := vpTargets("xs")
	e := vpTargets("xs")
	two := n > 0 && vpBool("included")
	q := "xs:" + base
	link := func(d *vpDoc, i int) {
		q := "t:Link" + vpItoa(i-1)
		if i == 1 {
			q = "xs:" + base
		}
		d.simple("Link"+vpItoa(i), q, "maxLength", "7")
	}
	if two {
		d.leaf("include", "schemaLocation", "b.xsd")
	}
	after := vpBool("after")
	where := d
	if two {
		where = e
	}
	if n > 0 {
		q = "t:Link" + vpItoa(n)
	}
	if !after {
		for i := 1; i <= n; i++ {
			link(where, i)
		}
	}
	d.simple("Host", q, vpFacets19(values)...)
	if after {
		for i := n; i > 0; i-- {
			link(where, i)
		}
	}
	if two {
		vpPutDoc("in/b.xsd", e.done())
	}
	vpEnumAny(vpGen(lang, d.done()).ok(), "Host", base, values)
}

const vpKinds19 = 12

// vpStep19 declares something that has enumeration values; it returns the
// values of the type of the given name, nil if that is no enum.
func vpStep19(d *vpDoc, kind int, name, v string) (values []string, base string) {
	switch kind {
	case 0:
		d.simple(name, "xs:string", "enumeration", v+"1", "enumeration", v+"2")
		return []string{v + "1", v + "2"}, "string"
	case 1:
		d.simple(name, "xs:int", "enumeration", "4", "enumeration", "3", "enumeration", "9")
		return []string{"4", "3", "9"}, "int"
	case 2: // other facets and documentation between
		d.open("simpleType", "name", name).open("restriction", "base", "xs:token").leaf("minLength", "value", "1")
		d.open("enumeration", "value", v+"1").doc("one").close().leaf("pattern", "value", "x").open("enumeration", "value", v+"3", "id", v+"9").close()
		d.leaf("length", "value", "2").closeN(2)
		return []string{v + "1", v + "3"}, "token"
	case 3: // anonymous types
		d.open("complexType", "name", name).open("attribute", "name", "a").open("simpleType").restrict("xs:string", "enumeration", v+"1", "enumeration", v+"4").closeN(3)
	case 4:
		d.open("complexType", "name", name).open("sequence").open("element", "name", "k").open("simpleType").restrict("xs:int", "enumeration", "1", "enumeration", "5").closeN(4)
	case 5:
		d.open("element", "name", name).open("simpleType").restrict("xs:string", "enumeration", v+"6").closeN(2)
	case 6:
		d.open("attribute", "name", name).open("simpleType").restrict("xs:int", "enumeration", "6").closeN(2)
	case 7:
		d.open("attributeGroup", "name", name).open("attribute", "name", "a").open("simpleType").restrict("xs:string", "enumeration", v+"7").closeN(3)
	case 8:
		d.open("simpleType", "name", name).open("list").open("simpleType").restrict("xs:string", "enumeration", v+"8").closeN(3)
	case 9:
		d.open("simpleType", "name", name).open("union", "memberTypes", "xs:int").open("simpleType").restrict("xs:string", "enumeration", v+"8").closeN(3)
	case 10: // no enumeration at all
		d.simple(name, "xs:string", "pattern", "x")
	case 11:
		d.open("group", "name", name).open("sequence").open("element", "name", "k").open("simpleType").restrict("xs:string", "enumeration", v+"1", "enumeration", v+"5").closeN(4)
	}
	return
}

// several declarations, each with values of its own
func vpH_several() {
	lang := "TypeScript"
	d := vpXSD()
	n := 3 + vpTier()
	var vals [][]string
	var bases []string
	sym := vpStr2("letter", 1, 1, "a-z", "a-z")
	for i := 0; i < n; i++ {
		k := vpPick("kind", vpKinds19)
		v := []string{"red", sym, "x-y", "Blue"}[i]
		values, base := vpStep19(d, k, "Type"+vpItoa(i), v)
		vals, bases = append(vals, values), append(bases, base)
	}
	o := vpGen(lang, d.done()).ok()
	for i := range vals {
		D := o.find("Type" + vpItoa(i))
		vpAssert(D != nil, "a declaration is missing")
		if vals[i] == nil {
			vpAssert(D.Kind != "enum", "something else became an enum| Type"+vpItoa(i))
			continue
		}
		vpEnumAny(o, "Type"+vpItoa(i), bases[i], vals[i])
	}
	vpCover("several")
}

// arbitrary names: of the type, and of one used as its base
func vpH_names() {
	lang := vpLang()
	name := vpStr2("name", 1, 2+vpTier(), "a-zA-Z_", "a-zA-Z0-9._-")
	d := vpXSD().simple(name, "xs:string", "enumeration", "one", "enumeration", "Two", "enumeration", "3")
	o := vpGen(lang, d.done()).ok()
	vpAssert(len(o.Decls) == 1, "not exactly the declared type is generated")
	vpEnumAny(o, o.Decls[0].Ident, "string", []string{"one", "Two", "3"})
}

// values that are nearly the same, and many of them
func vpH_alike() {
	pool := []string{"red", "Red", "RED", "red ", "re", "redd", "r-ed", "r_ed", "0red", "blue"}
	n := 3 + vpPick("more", 2)
	if vpTier() == 0 {
		n = 3
	}
	var values []string
	for i := 0; i < n; i++ {
		k := vpPick("value", len(pool))
		values = append(values, pool[k])
		pool = append(append([]string{}, pool[:k]...), pool[k+1:]...)
	}
	if vpBool("rest") {
		values = append(values, pool...)
	}
	d := vpXSD().simple("Host", "xs:string", vpFacets19(values)...)
	vpEnumAny(vpGen("TypeScript", d.done()).ok(), "Host", "string", values)
}

// more values than the others, one of them arbitrary
func vpH_many() {
	n := 1 + vpPick("values", 14)
	at := vpPick("at", n)
	num := vpBool("numbers")
	var values []string
	base := "token"
	if num {
		base = "short"
	}
	for i := 0; i < n; i++ {
		switch {
		case i == at && num:
			values = append(values, vpStr("value", 1, 1, "0-9"))
		case i == at:
			values = append(values, vpStr("value", 1, 1, " -~"))
		case num:
			values = append(values, []string{"", "-"}[i%2]+vpItoa(10+(i*7)%23))
		default:
			values = append(values, []string{"v", "w-", "X"}[i%3]+vpItoa((i*5)%17))
		}
	}
	d := vpXSD().simple("Host", "xs:"+base, vpFacets19(values)...)
	vpEnumAny(vpGen("TypeScript", d.done()).ok(), "Host", base, values)
}

// an enumeration between components of every kind
func vpH_among() {
	d := vpXSD()
	k := vpPick("kind", 3)
	var values []string
	base := ""
	vpAmong(d, func() {
		values, base = vpStep19(d, k, "Host", "v")
		d.simple("Plain", "xs:string", "maxLength", "4")
	})
	vpAmongUses(d)
	o := vpGen("TypeScript", d.done()).ok()
	vpEnumAny(o, "Host", base, values)
	P := o.find("Plain")
	vpAssert(P != nil && P.Kind != "enum", "something else became an enum| Plain")
}

// very many values, very long ones, and many enumerations
func vpH_much() {
	n := []int{15, 16, 17, 20, 32, 33, 64, 65, 100, 128, 200}[vpPick("size", 11)]
	shape := vpPick("shape", 4)
	lang := "TypeScript"
	d := vpXSD()
	var names, bases []string
	var values [][]string
	decl := func(name, base string, v []string) {
		names, bases, values = append(names, name), append(bases, base), append(values, v)
		d.simple(name, "xs:"+base, vpFacets19(v)...)
	}
	var v []string
	at := []int{0, n / 2, n - 1}[vpPick("at", 3)]
	switch shape {
	case 0: // values
		for i := 0; i < n; i++ {
			if i == at {
				v = append(v, vpStr("value", 1, 1, " -~"))
			} else {
				v = append(v, []string{"v", "w-", "X"}[i%3]+vpItoa(i))
			}
		}
		decl("Host", "token", v)
	case 1:
		for i := 0; i < n; i++ {
			if i == at {
				v = append(v, vpStr("value", 1, 1, "0-9"))
			} else {
				v = append(v, []string{"", "-"}[i%2]+vpItoa(10+i))
			}
		}
		decl("Host", "short", v)
	case 2: // letters
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, "abcdefghijklmnopqrstuvwxyz .-/"[(i*7+n)%30])
		}
		s := string(b)
		decl("Host", "string", []string{s, s[:at] + vpStr("letter", 0, 1, " -~\n") + s[at:] + "!", s[:n-1], s + "s"})
	case 3: // enumerations
		for i := 0; i < n; i++ {
			w := "v" + vpItoa(i)
			if i == at {
				w = vpStr("value", 1, 1, " -~")
			}
			decl("Type"+vpItoa(i), "string", []string{w, "other", "w" + vpItoa(i%7)}[:1+i%3])
		}
	}
	d.simple("Plain", "xs:string", "maxLength", "4")
	o := vpGen(lang, d.done()).ok()
	for i := range names {
		vpEnumAny(o, names[i], bases[i], values[i])
	}
	P := o.find("Plain")
	vpAssert(P != nil && P.Kind != "enum", "something else became an enum| Plain")
}
