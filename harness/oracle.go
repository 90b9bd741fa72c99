package xgen

// Reference table of the built-in types, written from XML Schema Part 2 and
// the languages' own types; it does not look at the generator's table.

const (
	vpTText = iota
	vpTList
	vpTBytes
	vpTBool
	vpTFloat
	vpTDouble
	vpTInt // unbounded, negative numbers allowed
	vpTNat // unbounded, no negative numbers
	vpTTime
	vpTQName
	vpTAny
	vpTSigned   // + bits
	vpTUnsigned // + bits
)

type vpBuiltin struct {
	Name string
	Kind int
	Bits int
}

var vpBuiltins = []vpBuiltin{
	{"string", vpTText, 0}, {"int", vpTSigned, 32}, {"base64Binary", vpTBytes, 0}, {"NMTOKENS", vpTList, 0},
	{"boolean", vpTBool, 0}, {"time", vpTTime, 0}, {"dateTime", vpTTime, 0}, {"double", vpTDouble, 0},
	{"QName", vpTQName, 0}, {"unsignedLong", vpTUnsigned, 64}, {"anyType", vpTAny, 0}, {"byte", vpTSigned, 8},
	{"float", vpTFloat, 0}, {"decimal", vpTFloat, 0}, {"integer", vpTInt, 0}, {"nonPositiveInteger", vpTInt, 0},
	{"negativeInteger", vpTInt, 0}, {"long", vpTSigned, 64}, {"short", vpTSigned, 16},
	{"nonNegativeInteger", vpTNat, 0}, {"unsignedInt", vpTUnsigned, 32}, {"unsignedShort", vpTUnsigned, 16},
	{"unsignedByte", vpTUnsigned, 8}, {"positiveInteger", vpTNat, 0}, {"duration", vpTText, 0},
	{"date", vpTTime, 0}, {"gYearMonth", vpTText, 0}, {"gYear", vpTText, 0}, {"gMonthDay", vpTText, 0},
	{"gDay", vpTText, 0}, {"gMonth", vpTText, 0}, {"hexBinary", vpTBytes, 0}, {"anyURI", vpTText, 0},
	{"NOTATION", vpTText, 0}, {"normalizedString", vpTText, 0}, {"token", vpTText, 0}, {"language", vpTText, 0},
	{"IDREFS", vpTList, 0}, {"ENTITIES", vpTList, 0}, {"NMTOKEN", vpTText, 0}, {"Name", vpTText, 0},
	{"NCName", vpTText, 0}, {"ID", vpTText, 0}, {"IDREF", vpTText, 0}, {"ENTITY", vpTText, 0},
	{"anySimpleType", vpTAny, 0},
}

func vpIn(s string, list ...string) bool {
	for _, x := range list {
		if s == x {
			return true
		}
	}
	return false
}

// vpIntType gives sign and width of a language's integer types; bits 0 is
// unlimited, ok false no integer type.
func vpIntType(lang, ty string) (signed bool, bits int, ok bool) {
	switch lang {
	case "Go":
		switch ty {
		case "int8":
			return true, 8, true
		case "int16":
			return true, 16, true
		case "int32", "int":
			return true, 32, true
		case "int64":
			return true, 64, true
		case "uint8", "byte":
			return false, 8, true
		case "uint16":
			return false, 16, true
		case "uint32", "uint":
			return false, 32, true
		case "uint64":
			return false, 64, true
		}
	case "C":
		switch ty {
		case "signed char":
			return true, 8, true
		case "short":
			return true, 16, true
		case "int":
			return true, 32, true
		case "long", "long long":
			return true, 64, true
		case "unsigned char":
			return false, 8, true
		case "unsigned short":
			return false, 16, true
		case "unsigned int":
			return false, 32, true
		case "unsigned long", "unsigned long long":
			return false, 64, true
		}
	case "Java":
		switch ty {
		case "Byte":
			return true, 8, true
		case "Short":
			return true, 16, true
		case "Integer":
			return true, 32, true
		case "Long":
			return true, 64, true
		case "java.math.BigInteger":
			return true, 0, true
		}
	case "Rust":
		switch ty {
		case "i8":
			return true, 8, true
		case "i16":
			return true, 16, true
		case "i32":
			return true, 32, true
		case "i64":
			return true, 64, true
		case "i128":
			return true, 128, true
		case "u8":
			return false, 8, true
		case "u16":
			return false, 16, true
		case "u32":
			return false, 32, true
		case "u64":
			return false, 64, true
		}
	case "TypeScript":
		return true, 0, ty == "number"
	}
	return
}

// vpFits says whether the item type ty at the given list depth suits a
// single value of the built-in type; extra is the depth added by repetition
// or by an XSD list around it.
func vpFits(lang string, b vpBuiltin, ty string, depth, extra int) bool {
	text := map[string]string{"Go": "string", "C": "char", "Java": "String", "Rust": "String", "TypeScript": "string"}[lang]
	if lang == "C" && (b.Kind == vpTBytes || b.Kind == vpTList) && extra > 0 {
		depth++ // C has one level of arrays
	}
	depth -= extra
	switch b.Kind {
	case vpTText:
		return ty == text && depth == 0
	case vpTList:
		return ty == text && depth == 1
	case vpTBytes:
		switch lang {
		case "C":
			return ty == "char" && depth == 1
		case "Java":
			return ty == "Byte" && depth == 1
		case "TypeScript":
			return ty == "Uint8Array" && depth == 0
		}
		return ty == text && depth == 0
	case vpTBool:
		return depth == 0 && ty == map[string]string{"Go": "bool", "C": "bool", "Java": "Boolean", "Rust": "bool", "TypeScript": "boolean"}[lang]
	case vpTFloat:
		return depth == 0 && (ty == "number" && lang == "TypeScript" || vpIn(ty, "float32", "float64") && lang == "Go" ||
			vpIn(ty, "float", "double") && lang == "C" || vpIn(ty, "Float", "Double") && lang == "Java" || vpIn(ty, "f32", "f64") && lang == "Rust")
	case vpTDouble:
		return depth == 0 && ty == map[string]string{"Go": "float64", "C": "double", "Java": "Double", "Rust": "f64", "TypeScript": "number"}[lang]
	case vpTTime:
		return depth == 0 && (ty == text || ty == "time.Time" && lang == "Go")
	case vpTQName:
		return depth == 0 && (ty == text || ty == "xml.Name" && lang == "Go" || ty == "any" && lang == "TypeScript")
	case vpTAny:
		return depth == 0 && (ty == text || ty == "interface" && lang == "Go" || ty == "any" && lang == "TypeScript")
	}
	s, bits, ok := vpIntType(lang, ty)
	if !ok || depth != 0 {
		return false
	}
	switch b.Kind {
	case vpTInt:
		return s
	case vpTNat:
		return true
	case vpTSigned:
		return s && (bits == 0 || bits >= b.Bits)
	}
	return bits == 0 || !s && bits >= b.Bits || s && bits > b.Bits
}

// vpType checks ty against a built-in type, setting the known findings apart.
func vpType(prop, lang string, b vpBuiltin, ty string, depth, extra int, msg string) {
	id, class := "-", false
	switch {
	case lang == "Rust" && vpIn(b.Name, "date", "dateTime"):
		id, class = "rust-date", ty == "u8" && depth == extra
	case vpIn(lang, "C", "Java") && b.Kind == vpTDouble:
		id, class = "c-java-double", vpIn(ty, "float", "Float") && depth == extra
	case lang == "TypeScript" && b.Kind == vpTBytes && extra > 0:
		id, class = "ts-uint8array-plural", ty == "Uint8Array" && depth == 0
	}
	vpKnown(prop+"-"+id, class, vpFits(lang, b, ty, depth, extra), msg)
}

func vpBuiltinOf(name string) vpBuiltin {
	for _, b := range vpBuiltins {
		if b.Name == name {
			return b
		}
	}
	vpFail("no such built-in")
	return vpBuiltin{}
}

// vpIdent is the identifier of a member with a plain name (lower-case
// letters and digits only).
func vpIdent(lang, name string, attr bool) string {
	if lang == "Rust" {
		return name
	}
	if attr {
		return vpUpper1(name) + "Attr"
	}
	return vpUpper1(name)
}
