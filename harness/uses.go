package xgen

// Uses of a simple type, shared by C10 and C12.

const vpUses10 = 12

// vpUseIn declares Host with a use of type q.
func vpUseIn(d *vpDoc, use int, q string) {
	switch use {
	case 0:
		d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "mine", "type", q).closeN(2)
	case 1:
		d.open("complexType", "name", "Host").leaf("attribute", "name", "mine", "type", q, "use", "required").close()
	case 2:
		d.open("complexType", "name", "Host").open("simpleContent").leaf("extension", "base", q).closeN(2)
	case 3:
		d.leaf("element", "name", "Host", "type", q)
	case 4:
		d.leaf("attribute", "name", "Host", "type", q)
	case 5:
		d.open("group", "name", "Host").open("choice").leaf("element", "name", "mine", "type", q).closeN(2)
	case 6:
		d.open("attributeGroup", "name", "Host").leaf("attribute", "name", "mine", "type", q).close()
	case 7:
		d.open("element", "name", "Outer").open("complexType").open("sequence").open("element", "name", "Host").open("complexType")
		d.leaf("attribute", "name", "mine", "type", q).closeN(5)
	case 8:
		d.open("simpleType", "name", "Host").leaf("list", "itemType", q).close()
	case 9:
		d.open("complexType", "name", "Host").open("sequence").open("element", "name", "mine").open("simpleType").restrict(q, "pattern", "x").closeN(4)
	case 11:
		d.open("simpleType", "name", "Host").leaf("union", "memberTypes", q).close()
	case 10:
		d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "mine", "maxOccurs", "unbounded", "type", q).closeN(2)
	}
}

func vpUseType10(o *vpOut) (string, int) {
	H := o.ok().find("Host")
	vpAssert(H != nil, "the using declaration is missing")
	for _, f := range H.Fields {
		if H.Kind == "struct" {
			return f.Type, f.Depth
		}
	}
	ty, depth, ok := H.single()
	vpAssert(ok, "the use has no type")
	return ty, depth
}

// vpOrder picks a permutation of n numbers.
func vpOrder(n int) (out []int) {
	var left []int
	for i := 0; i < n; i++ {
		left = append(left, i)
	}
	for len(left) > 0 {
		k := 0
		if len(left) > 1 {
			k = vpPick("order", len(left))
		}
		out = append(out, left[k])
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
	return
}

// vpOwn10: types named like a language's own types (known finding C07-own-word).
func vpOwn10(n string) bool {
	for _, w := range []string{"i8", "u8", "int", "any", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "Vec"} {
		if n == w {
			return true
		}
	}
	return false
}

// names of the languages' own types: known finding
var vpOwnWords = map[string][]string{
	"Go":         {"int", "bool", "byte", "string", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex64", "complex128"},
	"C":          {"int", "bool", "char", "float", "double", "short", "long", "void", "enum"},
	"Java":       {"Boolean", "Byte", "Character", "Float", "Integer", "Short", "String", "QName", "Long"},
	"Rust":       {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64", "bool", "char", "String", "Vec"},
	"TypeScript": {"any", "boolean", "number", "string", "void", "null", "undefined", "Uint8Array"},
}

func vpOwnWord(lang, name string) bool {
	for _, w := range vpOwnWords[lang] {
		if w == name {
			return true
		}
	}
	return false
}
