# Planted bugs: id, property, edits (file, old, new[, nth occurrence|'all']),
# demonstration (bash, after PRELUDE), what it needs, what it breaks.
PRELUDE = r'''export HOME=/root PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/xgen" ./cmd/xgen || exit 2
mkdir "$T/in"
# schema NAME: writes a schema with the components on stdin
schema() {
  mkdir -p "$(dirname "$T/in/$1")"
  { echo '<?xml version="1.0"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:t" xmlns="urn:t" xmlns:t="urn:t">'
    cat; echo '</xs:schema>'; } > "$T/in/$1"
}
# gen LANGUAGE [options]: generates, and joins the white space of each file
gen() {
  rm -rf "$T/out"
  "$T/xgen" -l "$1" -i "$T/in" -o "$T/out" "${@:2}" > "$T/log" 2>&1 || { cat "$T/log"; exit 1; }
}
# text FILE: its text with single blanks
text() { tr -s ' \t\r\n' ' ' < "$T/out/$1"; }
fail() { echo "FAIL: $*"; exit 1; }
# has FILE TEXT / hasnt FILE TEXT
has() { case "$(text "$1")" in *"$2"*) ;; *) cat "$T/out/$1"; fail "no '$2' in $1";; esac; }
hasnt() { case "$(text "$1")" in *"$2"*) cat "$T/out/$1"; fail "'$2' in $1";; esac; }
'''

SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

# ---- C01
seed('c01-negative-rust', 'C01',
     [('utils.go', '"negativeInteger":    {"int", "number", "int", "Integer", "i32"}', '"negativeInteger":    {"int", "number", "int", "Integer", "u32"}')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="xs:negativeInteger"/></xs:sequence></xs:complexType>
X
gen Rust
has a.xsd.rs 'pub e: i'
''', 'a member of type xs:negativeInteger generated for Rust', 'negativeInteger becomes an unsigned type in Rust, which cannot hold its values')
seed('c01-idrefs-java', 'C01',
     [('utils.go', '"IDREFS":             {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"}', '"IDREFS":             {"[]string", "Array<string>", "char[]", "String", "Vec<String>"}')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="e" type="xs:IDREFS"/></xs:complexType>
X
gen Java
has a.xsd.java 'List<String> EAttr'
''', 'an attribute of type xs:IDREFS generated for Java', 'the built-in list type IDREFS is not a list in Java')
seed('c01-list-item-prefix', 'C01',
     [('xmlList.go', 'opt.GetValueType(attr.Value, protoTree); err', 'opt.GetValueType(trimNSPrefix(attr.Value), protoTree); err')],
     '''schema a.xsd <<X
<xs:simpleType name="L"><xs:list itemType="xs:long"/></xs:simpleType>
X
gen Go
has a.xsd.go 'type L []int64'
''', 'a list simple type whose item type is a built-in type written with a prefix', 'the item type of a list is looked up without its prefix, so built-in item types are taken for types of the schema')

# ---- C02
seed('c02-choice-own-max', 'C02',
     [('xmlChoice.go', '''	if opt.Choice.Len() > 0 {
		choice.Plural = choice.Plural ||''', '''	if opt.Choice.Len() > 0 && len(ele.Attr) == 0 {
		choice.Plural = choice.Plural ||''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:choice maxOccurs="unbounded"><xs:choice minOccurs="0"><xs:element name="e" type="xs:int"/></xs:choice></xs:choice></xs:complexType>
X
gen Go
has a.xsd.go 'E []int'
''', 'a choice with attributes of its own inside a repeating choice', 'a nested choice that has any attribute no longer inherits that the choice around it repeats')
seed('c02-cgroup-nested', 'C02',
     [('genTypeScript.go', '		for _, group := range v.Groups {\n', '		for _, group := range groupsOf(v) {\n', 1),
      ('genTypeScript.go', '// TypeScriptGroup generates', '''func groupsOf(v *Group) (groups []Group) {
	for _, group := range v.Groups {
		group.Plural = group.Plural && len(v.Elements) > 0
		groups = append(groups, group)
	}
	return
}

// TypeScriptGroup generates''')],
     '''schema a.xsd <<X
<xs:group name="G"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group>
<xs:group name="H"><xs:sequence><xs:group ref="G" maxOccurs="2"/></xs:sequence></xs:group>
X
gen TypeScript
has a.xsd.ts 'G: Array<G>'
''', 'a repeating group reference in a named group without elements of its own, in TypeScript', 'the group member of a group that has no elements is never a list in TypeScript')
seed('c02-max-two', 'C02',
     [('xmlElement.go', 'if attr.Value == "unbounded" || maxOccurs > 1 {', 'if attr.Value == "unbounded" || maxOccurs > 2 {')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="xs:int" maxOccurs="2"/></xs:sequence></xs:complexType>
X
gen Java
has a.xsd.java 'List<Integer> E'
''', 'an element with maxOccurs exactly 2', 'maxOccurs="2" does not make a list')
seed('c02-java-group-elements', 'C02',
     [('genJava.go', '''			if element.Plural {
				fieldType = fmt.Sprintf("List<%s>", fieldType)''', '''			if element.Plural && !strings.HasPrefix(fieldType, "List<") {
				fieldType = fmt.Sprintf("List<%s>", fieldType)''', 1)],
     '''schema a.xsd <<X
<xs:group name="G"><xs:sequence><xs:element name="e" type="xs:NMTOKENS" maxOccurs="3"/></xs:sequence></xs:group>
X
gen Java
has a.xsd.java 'List<List<String>> E'
''', 'a repeating element of a built-in list type in a named group, in Java', 'repetition of an element whose type is a list already is lost in Java groups')

# ---- C03
seed('c03-required-fixed', 'C03',
     [('xmlAttribute.go', '''		if attr.Name.Local == "use" {
			if attr.Value == "required" {
				attribute.Optional = false
			}
		}''', '''		if attr.Name.Local == "use" {
			attribute.Optional = attr.Value != "required"
		}
		if attr.Name.Local == "default" || attr.Name.Local == "fixed" {
			attribute.Optional = true
		}''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="e" type="xs:string" use="required" fixed="x"/></xs:complexType>
X
gen Rust
has a.xsd.rs 'pub e: String,'
''', 'a required attribute with a fixed value, whose fixed attribute follows its use', 'a required attribute with a fixed value becomes optional')
seed('c03-rust-group', 'C03',
     [('genRust.go', '			if attribute.Optional {\n', '			if attribute.Optional && len(v.Attributes) > 1 {\n', 1)],
     '''schema a.xsd <<X
<xs:attributeGroup name="G"><xs:attribute name="e" type="xs:string"/></xs:attributeGroup>
X
gen Rust
has a.xsd.rs 'pub e: Option<String>'
''', 'an attribute group with a single optional attribute, in Rust', 'the only attribute of an attribute group is mandatory in Rust')
seed('c03-java-group-shared', 'C03',
     [('genJava.go', '''		for _, attribute := range v.Attributes {
			var required = ", required = true"
			if attribute.Optional {''', '''		var required = ", required = true"
		for _, attribute := range v.Attributes {
			if attribute.Optional {''', 1)],
     '''schema a.xsd <<X
<xs:attributeGroup name="G"><xs:attribute name="e" type="xs:string"/><xs:attribute name="f" type="xs:string" use="required"/></xs:attributeGroup>
X
gen Java
has a.xsd.java '@XmlAttribute(name = "f", required = true)'
''', 'an attribute group with a required attribute after an optional one, in Java', 'after an optional attribute every attribute of the group is optional in Java')

# ---- C04
seed('c04-rust-dot', 'C04',
     [('genRust.go', '''					content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Option<%s>,\\n", element.Name, fieldName, fieldType)
				} else {
					content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: %s,\\n", element.Name, fieldName, fieldType)''', '''					content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Option<%s>,\\n", element.Name, fieldName, fieldType)
				} else {
					content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: %s,\\n", strings.TrimRight(element.Name, "."), fieldName, fieldType)''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e." type="xs:int"/></xs:sequence></xs:complexType>
X
gen Rust
has a.xsd.rs 'rename = "e."'
''', 'an element whose name ends with a dot, in Rust', 'the final dot of an element name is lost in the Rust binding')
seed('c04-xmlname-fold', 'C04',
     [('genGo.go', '		if fieldName != v.Name {\n', '		if !strings.EqualFold(fieldName, v.Name) {\n', 2)],
     '''schema a.xsd <<X
<xs:group name="fooBar"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group>
X
gen Go
has a.xsd.go 'XMLName xml.Name `xml:"fooBar"`'
''', 'a group whose name differs from its identifier in case only', 'no XMLName for the Go struct of such a group')
seed('c04-java-title', 'C04',
     [('genJava.go', '			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))\n', '''			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
			if fieldType == genJavaFieldName(element.Name, false) {
				element.Name = fieldType
			}
''')],
     '''schema a.xsd <<X
<xs:complexType name="foo"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType>
<xs:group name="G"><xs:sequence><xs:element name="foo" type="foo"/></xs:sequence></xs:group>
X
gen Java
has a.xsd.java 'name = "foo")'
''', 'a group element whose identifier is the same as the one of its type, in Java', 'the Java binding uses the identifier instead of the XML name where element and type share it')

# ---- C05
seed('c05-find-fold', 'C05',
     [('xmlElement.go', '		if element.Name == ele.Name {', '		if strings.EqualFold(element.Name, ele.Name) {'),
      ('xmlElement.go', '	"strconv"\n', '	"strconv"\n	"strings"\n')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="id" type="xs:int"/><xs:element name="ID" type="xs:int"/></xs:sequence></xs:complexType>
X
gen C
has a.xsd.h 'int Id;'
has a.xsd.h 'int ID;'
''', 'two children of the same type whose names differ in case only', 'children whose names differ only in case are merged')
seed('c05-attrgroup-dup', 'C05',
     [('xmlAttributeGroup.go', '''		opt.ComplexType.Peek().(*ComplexType).AttributeGroup = append(opt.ComplexType.Peek().(*ComplexType).AttributeGroup, attributeGroup)
''', '''		c := opt.ComplexType.Peek().(*ComplexType)
		if n := len(c.AttributeGroup); n > 0 && len(c.AttributeGroup[n-1].Name) > len(attributeGroup.Name) {
			c.AttributeGroup[n-1] = attributeGroup
			return
		}
		c.AttributeGroup = append(c.AttributeGroup, attributeGroup)
''')],
     '''schema a.xsd <<X
<xs:attributeGroup name="Gx"><xs:attribute name="x" type="xs:int"/></xs:attributeGroup>
<xs:attributeGroup name="G"><xs:attribute name="y" type="xs:int"/></xs:attributeGroup>
<xs:complexType name="A"><xs:attributeGroup ref="Gx"/><xs:attributeGroup ref="G"/></xs:complexType>
X
gen TypeScript
has a.xsd.ts 'Gx: Gx;'
has a.xsd.ts 'G: G;'
''', 'a reference to an attribute group after one to a group with a longer name', 'the first of two attribute-group references is replaced')
seed('c05-attr-into-outer', 'C05',
     [('xmlAttributeGroup.go', '''		opt.CurrentEle = ""
		opt.InAttributeGroup = false
''', '''		opt.CurrentEle = ""
		opt.InAttributeGroup = opt.AttributeGroup.Len() > 0
'''),
      ('xmlAttribute.go', '	if opt.AttributeGroup.Len() > 0 {\n', '	if opt.AttributeGroup.Len() > 0 && (opt.ComplexType.Len() == 0 || opt.InAttributeGroup) {\n'),
      ('xmlAttribute.go', '	if opt.ComplexType.Len() > 0 {\n		opt.ComplexType.Peek().(*ComplexType).Attributes', '''	if opt.ComplexType.Len() > 0 {
		for _, a := range opt.ComplexType.Peek().(*ComplexType).Attributes {
			if a.Name == opt.Attribute.Peek().(*Attribute).Name || a.Type == "" {
				return
			}
		}
		opt.ComplexType.Peek().(*ComplexType).Attributes''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="c"><xs:complexType><xs:attribute name="i" type="xs:int"/></xs:complexType></xs:element></xs:sequence><xs:attribute name="i" type="xs:int"/><xs:attribute ref="xml:lang"/><xs:attribute ref="xml:lang"/></xs:complexType>
<xs:attribute name="z" type="xs:int"/>
X
gen Go
has a.xsd.go 'type Z int'
''', 'an attribute declared twice in one type (invalid, but handled before), then a global attribute', 'a repeated attribute stays on the stack and later declarations are affected', skip=True)

# ---- C06
seed('c06-c-element-mangled', 'C06',
     [('genC.go', '''func (gen *CodeGenerator) CElement(v *Element) {
	if _, ok := gen.StructAST[v.Name]; !ok {''', '''func (gen *CodeGenerator) CElement(v *Element) {
	if _, ok := gen.StructAST[genCFieldName(v.Name, false)]; !ok {''')],
     '''schema a.xsd <<X
<xs:complexType name="Foo"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType>
<xs:element name="foo" type="Foo"/>
X
gen C
n=$(grep -c typedef "$T/out/a.xsd.h")
[ "$n" = 2 ] || fail "$n declarations"
''', 'a global element whose mangled name equals the XML name of an earlier component, in C', 'the C declaration of a global element is missing where another component has its capitalised name')
seed('c06-group-order', 'C06',
     [('xmlGroup.go', '''		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
''', '''		g := opt.Group.Pop()
		if n := len(opt.ProtoTree); n > 0 {
			if last, ok := opt.ProtoTree[n-1].(*Group); ok && len(last.Elements) == 0 {
				opt.ProtoTree[n-1] = g
				opt.CurrentEle = ""
				return
			}
		}
		opt.ProtoTree = append(opt.ProtoTree, g)
''')],
     '''schema a.xsd <<X
<xs:group name="G"><xs:sequence><xs:group ref="H"/></xs:sequence></xs:group>
<xs:group name="H"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group>
X
gen Go
has a.xsd.go 'type G struct'
has a.xsd.go 'type H struct'
''', 'a group with group references only, directly followed by another group', 'a group without elements is replaced by the group after it')
seed('c06-inunion-skip', 'C06',
     [('xmlUnion.go', '''	if opt.SimpleType.Len() > 0 {
		opt.InUnion = false
	}''', '''	if opt.SimpleType.Len() > 0 && len(opt.SimpleType.Peek().(*SimpleType).MemberTypes) > 1 {
		opt.InUnion = false
	}'''),
      ('xmlSimpleType.go', '''	if opt.CurrentEle == "attributeGroup" {
		// return
	}''', '''	if opt.InUnion && opt.SimpleType.Peek().(*SimpleType).Union {
		return
	}'''),
      ('xmlAttribute.go', '''	if opt.ComplexType.Len() == 0 {
		opt.ProtoTree = append(opt.ProtoTree, opt.Attribute.Pop())
	}''', '''	if opt.ComplexType.Len() == 0 {
		attribute := opt.Attribute.Pop()
		if !opt.InUnion {
			opt.ProtoTree = append(opt.ProtoTree, attribute)
		}
	}''')],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:union memberTypes="xs:int"/></xs:simpleType>
<xs:attribute name="z" type="xs:int"/>
X
gen Java
has a.xsd.java 'class Z '
''', 'a union with exactly one member type before a global attribute', 'global attributes after a union of one member type are not declared')

# ---- C07
seed('c07-ts-extends', 'C07',
     [('genTypeScript.go', 'typeExtension = fmt.Sprintf(" extends %s ", fieldType)', 'typeExtension = fmt.Sprintf(" extends %s ", strings.TrimRight(fieldType, "_"))')],
     '''schema a.xsd <<X
<xs:complexType name="B_"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType>
<xs:complexType name="A"><xs:complexContent><xs:extension base="B_"><xs:sequence/></xs:extension></xs:complexContent></xs:complexType>
X
gen TypeScript
has a.xsd.ts 'class A extends B_ '
''', 'a base type whose identifier ends with an underscore, in TypeScript', 'an underscore at the end of a base type name is lost in the extends clause')
seed('c07-c-undeclared', 'C07',
     [('genC.go', '''	var fieldType string
	for _, str := range strings.Split(name, ".") {
		fieldType += MakeFirstUpperCase(str)
	}
	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))''', '''	var fieldType string
	for _, str := range strings.Split(name, ".") {
		fieldType += MakeFirstUpperCase(str)
	}
	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "_", -1))'''),
      ('genC.go', '''			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
			content += fmt.Sprintf("\\t%s %s;\\n", genCFieldType(fieldType),''', '''			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Name), gen.ProtoTree)
			content += fmt.Sprintf("\\t%s %s;\\n", genCFieldType(strings.TrimPrefix(fieldType, ".")+strings.Repeat("-", strings.Count(fieldType, "-"))[1:]),''')],
     'exit 0', 'x', 'x', skip=True)
seed('c07-java-attrgroup', 'C07',
     [('genJava.go', '			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)\n', '			fieldType := genJavaFieldName(getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree), false)\n')],
     '''schema a.xsd <<X
<xs:complexType name="ab"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:attributeGroup name="a-b"><xs:attribute name="x" type="xs:int"/></xs:attributeGroup>
<xs:complexType name="T"><xs:attributeGroup ref="a-b"/></xs:complexType>
X
gen Java
d=$(tr -s ' \\t\\r\\n' ' ' < "$T/out/a.xsd.java" | grep -o 'class [A-Za-z0-9_]* {' | sed -n 2p | cut -d' ' -f2)
has a.xsd.java "protected $d Ab;"
''', 'an attribute group whose identifier needed a number to be unique, in Java', 'a reference to an attribute group does not use the identifier it is declared with')

# ---- C08
seed('c08-rust-await', 'C08',
     [('genRust.go', '		"await":    true,\n', '')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="await" type="xs:int"/></xs:complexType>
X
gen Rust
hasnt a.xsd.rs 'pub await:'
''', 'a member named await, in Rust', 'await is used as an identifier in Rust')
seed('c08-java-second-hyphen', 'C08',
     [('genJava.go', '''	fieldName = strings.Replace(fieldName, "-", "", -1)
	if unique {''', '''	fieldName = strings.Replace(fieldName, "-", "", 1+strings.Count(name, "."))
	if unique {''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="a-b-c" type="xs:int"/></xs:sequence></xs:complexType>
X
gen Java
hasnt a.xsd.java 'B-c;'
hasnt a.xsd.java 'b-c;'
''', 'a name with two hyphens, in Java', 'only the first hyphen of a name is removed in Java')
seed('c08-rust-keyword-case', 'C08',
     [('genRust.go', '''	fieldName = ToSnakeCase(strings.Replace(fieldName, "-", "", -1))
	if _, ok := rustKeywords[fieldName]; ok {''', '''	fieldName = ToSnakeCase(strings.Replace(fieldName, "-", "", -1))
	if _, ok := rustKeywords[fieldName]; ok && name != MakeFirstUpperCase(name) {''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="Type" type="xs:int"/></xs:sequence></xs:complexType>
X
gen Rust
hasnt a.xsd.rs 'pub type:'
''', 'a member whose name is a Rust keyword with a capital', 'capitalised names that become keywords in snake case are not escaped')

# ---- C09
seed('c09-struct-underscore', 'C09',
     [('genRust.go', 'if unique {', 'if unique && !strings.Contains(name, "_") {')],
     '''schema a.xsd <<X
<xs:complexType name="ab"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:complexType name="a_b"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:complexType name="AB"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:complexType name="A_B"><xs:attribute name="x" type="xs:int"/></xs:complexType>
X
gen Rust
n=$(grep -o 'pub struct [A-Za-z0-9]*' "$T/out/a.xsd.rs" | sort | uniq -d)
[ -z "$n" ] || fail "duplicate $n"
''', 'two components whose names differ in an underscore only, in Rust', 'identifiers of names with underscores are not made unique in Rust')
seed('c09-attr-not-unique', 'C09',
     [('genTypeScript.go', '''		fieldName := genTypeScriptFieldName(v.Name, true)
		gen.Field += fmt.Sprintf("%sexport class %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
	}
}

func (gen *CodeGenerator) TypeScriptElement''', '''		fieldName := genTypeScriptFieldName(v.Name, false)
		gen.Field += fmt.Sprintf("%sexport class %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
	}
}

func (gen *CodeGenerator) TypeScriptElement''')],
     'exit 0', 'x', 'x', skip=True)

# ---- C10
seed('c10-enum-base', 'C10',
     [('utils.go', 'if !v.List && !v.Union && v.Name == name {\n				return', 'if !v.List && !v.Union && v.Name == name && (len(v.Restriction.Enum) == 0 || len(v.Restriction.Enum) > 3) {\n				return')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:string"><xs:enumeration value="a"/></xs:restriction></xs:simpleType>
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="S"/></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go 'E string'
''', 'a named simple type with one to three enumeration values', 'simple types with few enumeration values do not resolve to their base')
seed('c10-c-attrgroup', 'C10',
     [('genC.go', 'innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))', 'innerArray(genCFieldType(trimNSPrefix(attribute.Type)))', 1)],
     '''schema a.xsd <<X
<xs:attributeGroup name="G"><xs:attribute name="x" type="S"/></xs:attributeGroup>
<xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType>
X
gen C
has a.xsd.h 'int XAttr'
''', 'an attribute in an attribute group whose simple type is declared later, in C', 'attributes of attribute groups do not resolve simple types declared later in C')

# ---- C11
seed('c11-less', 'C11',
     [('utils.go', 'return k[i].value < k[j].value || (k[i].value == k[j].value && strings.Compare(k[i].key, k[j].key) > 0)', 'return k[i].value < k[j].value || (k[i].value == k[j].value && len(k[i].key) > len(k[j].key))')],
     '''schema a.xsd <<X
<xs:simpleType name="A"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="B"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="C"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="D"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="U"><xs:union memberTypes="A B C D"/></xs:simpleType>
X
gen Go
first=$(text a.xsd.go)
for i in $(seq 60); do gen Go; [ "$(text a.xsd.go)" = "$first" ] || fail "output differs between runs"; done
''', 'a union with two member types of the same type and name length', 'the order of such union members follows the map iteration order')
seed('c11-two-members', 'C11',
     [('utils.go', '''	sort.Sort(pl)
''', '''	if len(pl) > 2 {
		sort.Sort(pl)
	}
''')],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:union memberTypes="xs:int xs:string"/></xs:simpleType>
X
gen Rust
first=$(text a.xsd.rs)
for i in $(seq 60); do gen Rust; [ "$(text a.xsd.rs)" = "$first" ] || fail "output differs between runs"; done
''', 'a union with exactly two member types', 'the members of a union of two come in map iteration order')

# ---- C12
seed('c12-include-base', 'C12',
     [('xmlInclude.go', '''			if _, ok := opt.IncludeMap[ele.Value]; ok {
				continue
			}
			opt.IncludeMap[ele.Value] = true''', '''			location := path.Clean(ele.Value)
			if opt.Extract {
				location = path.Base(location)
			}
			if _, ok := opt.IncludeMap[location]; ok {
				continue
			}
			opt.IncludeMap[location] = true'''),
      ('xmlInclude.go', 'import "encoding/xml"', 'import (\n	"encoding/xml"\n	"path"\n)')],
     '''schema a.xsd <<X
<xs:include schemaLocation="sub/b.xsd"/>
<xs:element name="e" type="S"/>
X
schema sub/b.xsd <<X
<xs:include schemaLocation="../c/d.xsd"/>
X
schema c/d.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType>
X
gen Go
has a.xsd.go 'type E int'
''', 'an include, within an included schema, of a file in another directory', 'the directory part of nested include locations is dropped')
seed('c12-import-first', 'C12',
     [('schema.go', '''			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
				continue
			}
			if isValid''', '''			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok || len(opt.NSSchemaLocationMap) > 1 {
				continue
			}
			if isValid''')],
     '''for n in x y z; do cat > "$T/in/$n.xsd" <<X
<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:$n"><xs:simpleType name="S$n"><xs:restriction base="xs:int"/></xs:simpleType></xs:schema>
X
done
cat > "$T/in/a.xsd" <<X
<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:x="urn:x" xmlns:y="urn:y" xmlns:z="urn:z"><xs:import namespace="urn:x" schemaLocation="x.xsd"/><xs:import namespace="urn:y" schemaLocation="y.xsd"/><xs:import namespace="urn:z" schemaLocation="z.xsd"/>
<xs:element name="e" type="z:Sz"/></xs:schema>
X
gen Go
has a.xsd.go 'type E int'
''', 'three imports in one schema', 'the location of the third and later imports is ignored')

# ---- C13
seed('c13-union-err', 'C13',
     [('xmlUnion.go', '''				if err != nil {
					return
				}
''', '')],
     '''schema a.xsd <<X
<xs:import namespace="urn:m" schemaLocation="missing.xsd"/>
<xs:simpleType name="U"><xs:union memberTypes="m:S xs:int" xmlns:m="urn:m"/></xs:simpleType>
X
sed -i 's/xmlns:t=/xmlns:m="urn:m" xmlns:t=/' "$T/in/a.xsd"
"$T/xgen" -l Go -i "$T/in" -o "$T/out" && fail "missing schema not reported"
''', 'a union member, other than the last, from an imported schema that is missing', 'the error of a union member is overwritten by the next member')
seed('c13-import-missing', 'C13',
     [('xmlGroup.go', '''			group.Ref, err = opt.GetValueType(attr.Value, protoTree)
			if err != nil {
				return
			}''', '''			if group.Ref, err = opt.GetValueType(attr.Value, protoTree); err != nil {
				err = nil
			}''')],
     '''schema a.xsd <<X
<xs:import namespace="urn:m" schemaLocation="missing.xsd"/>
<xs:complexType name="A"><xs:sequence><xs:group ref="m:S"/></xs:sequence></xs:complexType>
X
sed -i 's/xmlns:t=/xmlns:m="urn:m" xmlns:t=/' "$T/in/a.xsd"
"$T/xgen" -l Go -i "$T/in" -o "$T/out" && fail "missing schema not reported"
''', 'a group reference into an imported schema that is missing, and no other reference into it', 'a missing imported schema needed by a group reference is ignored')
seed('c13-mkdir', 'C13',
     [('utils.go', '''		if err := os.MkdirAll(path, 0755); err != nil {
			return err
		}''', '''		if err := os.MkdirAll(path, 0755); err != nil && !os.IsExist(err) {
			if _, err := os.Stat(filepath.Dir(path)); err == nil {
				return err
			}
		}''')],
     'exit 0', 'x', 'x', skip=True)

# ---- C14
seed('c14-enum-guard', 'C14',
     [('xmlEnumeration.go', '''			if opt.SimpleType.Peek() != nil {
				opt''', '''			if opt.SimpleType.Peek() != nil || opt.InElement == "restriction" || len(opt.ProtoTree) > 1 {
				opt''')],
     '''schema a.xsd <<X
<xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:int"/>
<xs:enumeration value="1"/>
X
gen Go
''', 'an enumeration outside a simple type after two components', 'an enumeration outside a simple type panics')
seed('c14-group-nested', 'C14',
     [('xmlChoice.go', '''	opt.Choice.Pop()

	return''', '''	if opt.Choice.Pop().(*Choice).Plural && opt.ComplexType.Peek().(*ComplexType).Name == "" {
		return
	}

	return''')],
     '''schema a.xsd <<X
<xs:group name="G"><xs:choice maxOccurs="unbounded"><xs:element name="e" type="xs:int"/></xs:choice></xs:group>
X
gen Go
''', 'a repeating choice in a named group', 'the end of a repeating choice outside a complex type panics')

# ---- C15
seed('c15-lang-case', 'C15',
     [('cmd/xgen/xgen.go', '	Cfg.Lang = *langPtr\n', '	Cfg.Lang = xgen.MakeFirstUpperCase(*langPtr)\n')],
     '''schema a.xsd <<X
<xs:element name="a" type="xs:int"/>
X
"$T/xgen" -l go -i "$T/in" -o "$T/out" && fail "accepted language go"
[ -e "$T/out" ] && fail "wrote output"
''', 'a language written with a small first letter', 'a language that is not one of the five is accepted')
seed('c15-last-error', 'C15',
     [('cmd/xgen/xgen.go', '''			fmt.Printf("process error on %s: %s\\r\\n", file, err.Error())
			os.Exit(1)
		}
	}
''', '''			fmt.Printf("process error on %s: %s\\r\\n", file, err.Error())
		}
	}
	if err != nil {
		os.Exit(1)
	}
''')],
     '''schema a.xsd <<X
<xs:element name="a" type="xs:int"
X
schema b.xsd <<X
<xs:element name="a" type="xs:int"/>
X
"$T/xgen" -l Go -i "$T/in" -o "$T/out" && fail "exit 0 although a file failed"
''', 'a directory in which a file other than the last fails', 'the exit status only reflects the last file')

# ---- C16
seed('c16-ext-contains', 'C16',
     [('genGo.go', 'if strings.HasSuffix(gen.File, extension) {', 'if strings.Contains(gen.File, extension) {')],
     '''mkdir -p "$T/in/x.gold"
schema x.gold/a.xsd <<X
<xs:element name="a" type="xs:int"/>
X
gen Go
[ -f "$T/out/x.gold/a.xsd.go" ] || fail "no a.xsd.go: $(find "$T/out" -type f)"
''', 'a path that contains the extension before its end', 'the extension is not appended when the path contains it anywhere')
seed('c16-nested-dup', 'C16',
     [('utils.go', '''	if fi.IsDir() {
		// a sep''', '''	if fi.IsDir() {
		seen := make(map[string]bool)
		// a sep'''),
      ('utils.go', '''			files = append(files, fp)
''', '''			key := filepath.Join(filepath.Base(filepath.Dir(fp)), filepath.Base(fp))
			if err == nil && (info.IsDir() || !seen[key]) {
				files = append(files, fp)
				seen[key] = true
			}
''')],
     '''schema x/m/a.xsd <<X
<xs:element name="a" type="xs:int"/>
X
schema y/m/a.xsd <<X
<xs:element name="b" type="xs:int"/>
X
gen Go
[ -f "$T/out/x/m/a.xsd.go" ] && [ -f "$T/out/y/m/a.xsd.go" ] || fail "missing file"
''', 'two files of the same name in directories of the same name at different places', 'the second of two same-named files in same-named directories is skipped')

# ---- C17
seed('c17-attrgroup-import', 'C17',
     [('genGo.go', '''		if fieldName != v.Name {
			gen.ImportEncodingXML = true
''', '''		if fieldName != v.Name {
			gen.ImportEncodingXML = len(v.Attributes) > 0
''', 2)],
     '''schema a.xsd <<X
<xs:complexType name="a"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:attributeGroup name="b"/>
X
gen Go
has a.xsd.go 'encoding/xml'
''', 'an attribute group without attributes whose name differs from its identifier as the last component', 'the import of encoding/xml is lost')
seed('c17-java-package', 'C17',
     [('genJava.go', '''	packageName := gen.Package
	if packageName == "" {''', '''	packageName := strings.ToLower(gen.Package)
	if packageName == "" {''')],
     '''schema a.xsd <<X
<xs:element name="a" type="xs:int"/>
X
gen Java -p comXgen
has a.xsd.java 'package comXgen;'
''', 'a package name with a capital letter, in Java', 'the Java package name is lower-cased')

# ---- C18
seed('c18-c-doc', 'C18',
     [('genC.go', '''		gen.Field += fmt.Sprintf("%stypedef %s %s;\\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name], fieldName)
	}
}

// CElement''', '''		gen.Field += fmt.Sprintf("\\r\\n/* %s is %s */\\r\\ntypedef %s %s;\\n", fieldName, v.Doc, gen.StructAST[v.Name], fieldName)
	}
}

// CElement''')],
     '''schema a.xsd <<X
<xs:attributeGroup name="G"><xs:annotation><xs:documentation>a */ int x; /* b</xs:documentation></xs:annotation><xs:attribute name="a" type="xs:int"/></xs:attributeGroup>
X
gen C
sed -e 's,//.*,,' "$T/out/a.xsd.h" | tr -s ' \\t\\r\\n' ' ' | sed -e 's,/\\*[^*]*\\*/,,g' | grep -q 'int x;' && fail "documentation is code"
''', 'documentation of an attribute group that contains */, in C', 'documentation of attribute groups goes into a block comment unescaped')
seed('c18-stale-doc', 'C18',
     [('xmlCharData.go', '''	case "complexType":
		if opt.Attribute.Len() > 0 {
			opt.Attribute.Peek().(*Attribute).Doc = ele
			return
		}
		if opt.ComplexType.Peek() != nil {''', '''	case "complexType":
		if opt.Attribute.Len() > 0 {
			opt.Attribute.Peek().(*Attribute).Doc = ele
			return
		}
		if opt.ComplexType.Len() == 1 && strings.Count(ele, "\\n") < 3 {''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:annotation><xs:documentation>one
two
three
four</xs:documentation></xs:annotation><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go '// A is one'
''', 'documentation of a complex type with four lines or more', 'long documentation of complex types is not shown')

# ---- C19
seed('c19-empty', 'C19',
     [('xmlEnumeration.go', '		if attr.Name.Local == "value" {', '		if attr.Name.Local == "value" && attr.Value != "" {')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:string"><xs:enumeration value=""/><xs:enumeration value="a"/></xs:restriction></xs:simpleType>
X
gen TypeScript
has a.xsd.ts "= '',"
''', 'an empty enumeration value', 'the empty enumeration value is left out')
seed('c19-last-dup', 'C19',
     [('xmlEnumeration.go', '			if opt.SimpleType.Peek() != nil {', '			if s, ok := opt.SimpleType.Peek().(*SimpleType); ok && (len(s.Restriction.Enum) < 2 || !strings.EqualFold(s.Restriction.Enum[len(s.Restriction.Enum)-1], attr.Value)) {'),
      ('xmlEnumeration.go', 'import "encoding/xml"', 'import (\n	"encoding/xml"\n	"strings"\n)')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:string"><xs:enumeration value="x"/><xs:enumeration value="a"/><xs:enumeration value="A"/></xs:restriction></xs:simpleType>
X
gen TypeScript
has a.xsd.ts "= 'A',"
''', 'third or later enumeration value that differs from its predecessor in case only', 'such values are left out')

# ---- C20
seed('c20-extension-nested', 'C20',
     [('xmlExtension.go', '''			if opt.ComplexType.Peek() != nil {
''', '''			if opt.ComplexType.Peek() != nil && (opt.ComplexType.Len() < 2 || opt.Element.Len() == 0) {
''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e"><xs:complexType><xs:simpleContent><xs:extension base="xs:int"><xs:attribute name="x" type="xs:int"/></xs:extension></xs:simpleContent></xs:complexType></xs:element></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go 'Value int `xml:",chardata"`'
''', 'an anonymous derived type of an element inside another type', 'the base of nested anonymous types is lost')
seed('c20-rust-flatten', 'C20',
     [('genRust.go', '''				content += fmt.Sprintf("\\t#[serde(flatten)]\\n\\tpub %s: %s,\\n", fieldName, fieldType)
''', '''				if len(v.Elements) == 0 && len(v.Attributes) == 1 {
					content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: %s,\\n", fieldType, fieldName, fieldType)
				} else {
					content += fmt.Sprintf("\\t#[serde(flatten)]\\n\\tpub %s: %s,\\n", fieldName, fieldType)
				}
''')],
     '''schema a.xsd <<X
<xs:complexType name="B"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType>
<xs:complexType name="A"><xs:complexContent><xs:extension base="B"><xs:attribute name="x" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType>
X
gen Rust
has a.xsd.rs '#[serde(flatten)] pub b: B,'
''', 'a derived type that adds exactly one attribute and no element, in Rust', 'the base is a plain member instead of a flattened one')

# ---- C21
seed('c21-same-type', 'C21',
     [('utils.go', '''		pl = append(pl, kvPair{k, v})
''', '''		if n := len(pl); n < 2 || v == "" || pl[n-1].value != v || pl[n-2].value != v {
			pl = append(pl, kvPair{k, v})
		}
''')],
     '''schema a.xsd <<X
<xs:simpleType name="A"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="B"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="C"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="U"><xs:union memberTypes="A B C"/></xs:simpleType>
X
gen C
n=$(text a.xsd.h | grep -o 'struct {[^}]*}' | grep -o ';' | wc -l)
[ "$n" = 3 ] || fail "$n members"
''', 'a union with three member types of the same target type', 'a third member type of the same target type is dropped')
seed('c21-list-union', 'C21',
     [('xmlUnion.go', '''	opt.InUnion = true
	if opt.SimpleType.Peek() == nil {
		return
	}
''', '''	if opt.SimpleType.Peek() == nil || opt.InUnion {
		return
	}
	opt.InUnion = true
'''),
      ('xmlUnion.go', '''	if opt.SimpleType.Len() > 0 {
		opt.InUnion = false
	}''', '''	if opt.SimpleType.Len() > 0 {
		opt.InUnion = opt.SimpleType.Peek().(*SimpleType).List
	}''')],
     'exit 0', 'x', 'x', skip=True)
seed('c21-list-go-ref', 'C21',
     [('xmlList.go', '''	opt.SimpleType.Peek().(*SimpleType).List = true
''', '''	opt.SimpleType.Peek().(*SimpleType).List = len(opt.SimpleType.Peek().(*SimpleType).Doc) < 64
''')],
     '''schema a.xsd <<X
<xs:simpleType name="L"><xs:annotation><xs:documentation>0123456789012345678901234567890123456789012345678901234567890123456789</xs:documentation></xs:annotation><xs:list itemType="xs:int"/></xs:simpleType>
X
gen Go
has a.xsd.go 'type L []int'
''', 'a list type with long documentation', 'a list type with documentation of 64 bytes or more is not a list')

# ---- C22
seed('c22-totitle', 'C22',
     [('utils.go', 'rune = unicode.ToUpper(rune)', 'rune = unicode.ToTitle(rune)')],
     '''printf '%s' 'package main
import ("fmt"; "os"; "github.com/xuri/xgen")
func main() { if s := xgen.ToTitle("\\u01c6x"); s != "\\u01c4x" { fmt.Println(s); os.Exit(1) } }
' > "$T/m.go"
echo "{\\"Replace\\":{\\"$PWD/cmd/vpdemo/m.go\\":\\"$T/m.go\\"}}" > "$T/o.json"
go run -overlay "$T/o.json" ./cmd/vpdemo || fail "title case"
''', 'a first character whose title case differs from its upper case', 'the first character becomes title case instead of upper case')
seed('c22-snake-digit', 'C22',
     [('utils.go', 'regexp.MustCompile("([a-z0-9])([A-Z])")', 'regexp.MustCompile("([a-z]|[1-9])([A-Z])")')],
     '''printf '%s' 'package main
import ("fmt"; "os"; "github.com/xuri/xgen")
func main() { if s := xgen.ToSnakeCase("a0Bc"); s != "a0_bc" { fmt.Println(s); os.Exit(1) } }
' > "$T/m.go"
echo "{\\"Replace\\":{\\"$PWD/cmd/vpdemo/m.go\\":\\"$T/m.go\\"}}" > "$T/o.json"
go run -overlay "$T/o.json" ./cmd/vpdemo || fail "snake case"
''', 'a capital after the digit 0', 'no underscore between 0 and a capital')
seed('c22-stack-nil', 'C22',
     [('stack.go', '''	e := stack.list.Back()
	if e != nil {
		return e.Value
	}''', '''	e := stack.list.Back()
	for ; e != nil; e = e.Prev() {
		if e.Value != nil {
			return e.Value
		}
	}''')],
     '''printf '%s' 'package main
import ("fmt"; "os"; "github.com/xuri/xgen")
func main() { s := xgen.NewStack(); s.Push(1); s.Push(nil); if v := s.Peek(); v != nil { fmt.Println(v); os.Exit(1) } }
' > "$T/m.go"
echo "{\\"Replace\\":{\\"$PWD/cmd/vpdemo/m.go\\":\\"$T/m.go\\"}}" > "$T/o.json"
go run -overlay "$T/o.json" ./cmd/vpdemo || fail "peek"
''', 'a nil value on top of the stack', 'Peek looks past a nil value')

SEEDS = [s for s in SEEDS if not s.get('skip')]

import seeds2
SEEDS += seeds2.SEEDS
import seeds3
SEEDS += seeds3.SEEDS
import seeds4
SEEDS += [s for s in seeds4.SEEDS if not s.get('skip')]
import seeds5
SEEDS += [s for s in seeds5.SEEDS if not s.get('skip')]
import seeds6
SEEDS += [s for s in seeds6.SEEDS if not s.get('skip')]
