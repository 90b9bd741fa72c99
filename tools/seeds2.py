# Planted bugs, second series. See seeds.py for the format.
SEEDS = []
# lines that fixes of ours changed: tried, but not kept in seeded/
OWN = ['c01-c-ull', 'c04-java-attr-dash', 'c09-ts-enum', 'c13-ts-write', 'c18-rust-union-doc', 'c20-java-long', 'c20-ts-any', 'c20-rust-flat-name', 'c21-union-tab']
def seed(id, prop, edits, demo, needs, breaks, **k):
    if id in OWN:
        k['own'] = True
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

def godemo(body, what):
    return '''printf '%s' 'package main
import ("fmt"; "os"; "github.com/xuri/xgen")
func main() { ''' + body + ''' }
' > "$T/m.go"
echo "{\\"Replace\\":{\\"$PWD/cmd/vpdemo/m.go\\":\\"$T/m.go\\"}}" > "$T/o.json"
go run -overlay "$T/o.json" ./cmd/vpdemo || fail "''' + what + '''"
'''

# ---- C01
seed('c01-rust-u16', 'C01',
     [('genRust.go', '		"u16":         true,\n', '')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="e" type="xs:unsignedShort"/></xs:complexType>
X
gen Rust
has a.xsd.rs 'pub e: Option<u16>'
''', 'a member of type xs:unsignedShort in Rust', 'u16 is no longer known as a type of the language and comes out as U16')
seed('c01-c-ull', 'C01',
     [('genC.go', '	"unsigned long long": true,\n', '')],
     '''schema a.xsd <<X
<xs:element name="e" type="xs:unsignedLong"/>
X
gen C
has a.xsd.h 'typedef unsigned long long E;'
''', 'a declaration of type xs:unsignedLong in C', 'unsigned long long is no longer known as a C type')
seed('c01-xmllang-attr', 'C01',
     [('utils.go', '	"xml:space":          {"string", "string", "char", "String", "String"},\n', '	"xml:space":          {"string", "any", "char", "String", "String"},\n')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute ref="xml:space"/></xs:complexType>
X
gen TypeScript
hasnt a.xsd.ts 'any'
''', 'xml:space in TypeScript', 'xml:space is any instead of a string')
seed('c01-go-union-bool', 'C01',
     [('genGo.go', '	"bool":          true,\n', ''), ('genGo.go', '	"[]bool":        true,\n', '	"[]bool":        true,\n	"Boolean":       true,\n')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="xs:boolean"/></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go 'E bool'
''', 'a boolean in Go', 'bool is no longer known as a Go type')

# ---- C02
seed('c02-go-group-groups', 'C02',
     [('genGo.go', '''			if group.Plural {
				plural = "[]"
			}
''', '''			if group.Plural && v.Name != group.Name && len(v.Groups) == 1 {
				plural = "[]"
			}
''', 1)],
     '''schema a.xsd <<X
<xs:group name="G"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group>
<xs:group name="H"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group>
<xs:group name="I"><xs:sequence><xs:group ref="G" maxOccurs="2"/><xs:group ref="H" maxOccurs="2"/></xs:sequence></xs:group>
X
gen Go
has a.xsd.go 'G []*G'
''', 'two repeating group references in one named group, in Go', 'repetition of group references is lost when a group refers to two groups')
seed('c02-element-last-attr', 'C02',
     [('xmlElement.go', '''		if attr.Name.Local == "unbounded" {
			if attr.Value != "0" {
				e.Plural = true
			}
		}''', '''		if attr.Name.Local == "nillable" {
			e.Plural = false
		}''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="xs:int" maxOccurs="unbounded" nillable="true"/></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go 'E []int'
''', 'a repeating element with nillable written after maxOccurs', 'nillable resets the repetition')
seed('c02-choice-false', 'C02',
     [('xmlChoice.go', '''				choice.Plural, err = false, nil
			}
''', '''				choice.Plural, err = maxOccurs == 0, nil
			}
''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:choice maxOccurs="0"><xs:element name="e" type="xs:int"/></xs:choice></xs:complexType>
X
gen Go
has a.xsd.go 'E int'
''', 'maxOccurs="0" on a choice', 'a choice that may not occur makes lists')
seed('c02-rust-elements-once', 'C02',
     [('genRust.go', '''			if element.Plural {
				content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Vec<%s>,\\n", element.Name, fieldName, fieldType)
			} else {
				if element.Optional {''', '''			if element.Plural && !strings.HasPrefix(fieldType, "Vec<") {
				content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Vec<%s>,\\n", element.Name, fieldName, fieldType)
			} else {
				if element.Optional {''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="xs:IDREFS" maxOccurs="3"/></xs:sequence></xs:complexType>
X
gen Rust
has a.xsd.rs 'pub e: Vec<Vec<String>>'
''', 'a repeating child of a built-in list type in Rust', 'repetition of children of a list type is lost')

# ---- C03
seed('c03-ts-group-optional', 'C03',
     [('genTypeScript.go', '''		for _, attribute := range v.Attributes {
			var optional string
			if attribute.Optional {
				optional = ` | null`
			}
			content += fmt.Sprintf(''', '''		var optional string
		for _, attribute := range v.Attributes {
			if attribute.Optional {
				optional = ` | null`
			}
			content += fmt.Sprintf(''')],
     '''schema a.xsd <<X
<xs:attributeGroup name="G"><xs:attribute name="e" type="xs:string"/><xs:attribute name="f" type="xs:string" use="required"/></xs:attributeGroup>
X
gen TypeScript
has a.xsd.ts 'FAttr: string;'
''', 'a required attribute after an optional one in an attribute group, in TypeScript', 'attributes after an optional one are optional')
seed('c03-use-before-name', 'C03',
     [('xmlAttribute.go', '''		if attr.Name.Local == "name" {
			attribute.Name = attr.Value
		}''', '''		if attr.Name.Local == "name" {
			attribute = Attribute{Name: attr.Value, Type: attribute.Type, Optional: true}
		}''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute use="required" name="e" type="xs:string"/></xs:complexType>
X
gen Rust
has a.xsd.rs 'pub e: String,'
''', 'an attribute with use written before name', 'use is forgotten when name follows it')
seed('c03-go-base', 'C03',
     [('genGo.go', '''			var optional string
			if attribute.Optional {
				optional = `,omitempty`
			}
			fieldType''', '''			var optional string
			if attribute.Optional && attribute.Type != "bool" {
				optional = `,omitempty`
			}
			fieldType''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="e" type="xs:boolean"/></xs:complexType>
X
gen Go
has a.xsd.go 'xml:"e,attr,omitempty"'
''', 'an optional boolean attribute of a complex type in Go', 'optional boolean attributes are mandatory')
seed('c03-java-req-list', 'C03',
     [('genJava.go', '''			if attribute.Optional {
				required = ""
			}
			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
''', '''			if attribute.Optional || len(v.Base) > 0 && len(v.Elements) > 0 {
				required = ""
			}
			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
''', 0)],
     '''schema a.xsd <<X
<xs:complexType name="B"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType>
<xs:complexType name="A"><xs:complexContent><xs:extension base="B"><xs:sequence><xs:element name="b" type="xs:int"/></xs:sequence><xs:attribute name="e" type="xs:string" use="required"/></xs:extension></xs:complexContent></xs:complexType>
X
gen Java
has a.xsd.java 'name = "e", required = true'
''', 'a required attribute of a derived type with elements, in Java', 'required attributes of derived types with elements are optional', skip=True)

# ---- C04
seed('c04-rust-trim', 'C04',
     [('genRust.go', '''content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Vec<%s>,\\n", element.Name, fieldName, fieldType)
			} else {
				content''', '''content += fmt.Sprintf("\\t#[serde(rename = \\"%s\\")]\\n\\tpub %s: Vec<%s>,\\n", fieldName, fieldName, fieldType)
			} else {
				content''')],
     '''schema a.xsd <<X
<xs:group name="G"><xs:sequence><xs:element name="eF" type="xs:string" maxOccurs="2"/></xs:sequence></xs:group>
X
gen Rust
has a.xsd.rs '#[serde(rename = "eF")] pub ef: Vec<String>'
''', 'a repeating element of a named group in Rust whose name is not in lower case', 'the rename of repeating group elements carries the field name')
seed('c04-go-xmlname-attrgroup', 'C04',
     [('genGo.go', '''		if fieldName != v.Name {
			gen''', '''		if fieldName != v.Name && !strings.HasPrefix(fieldName, strings.TrimSuffix(v.Name, "_")) {
			gen''', 0)],
     '''schema a.xsd <<X
<xs:complexType name="Ab_"><xs:attribute name="e" type="xs:string"/></xs:complexType>
X
gen Go
has a.xsd.go '`xml:"Ab_"`'
''', 'a complex type whose name ends with an underscore and begins with a capital, in Go', 'its XMLName tag is missing')
# ---- C05
seed('c05-java-attr-after', 'C05',
     [('xmlAttribute.go', '''	if opt.AttributeGroup.Len() > 0 {
		opt.AttributeGroup''', '''	if opt.AttributeGroup.Len() > 0 || opt.InAttributeGroup && opt.AttributeGroup.Peek() != nil {
		opt.AttributeGroup''')], 'exit 0', 'x', 'x', skip=True)
seed('c05-element-type-only', 'C05',
     [('xmlElement.go', '''		if element.Name == ele.Name {
			return &ele, i''', '''		if element.Name == ele.Name || element.Type == ele.Type && element.Plural && len(element.Name) == len(ele.Name) {
			return &ele, i''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="a" type="xs:string"/><xs:element name="b" type="xs:string" maxOccurs="4"/></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go 'B []string'
''', 'a repeating child after another of the same type whose name is as long', 'the second child is taken for the first')
seed('c05-rust-attr-dedupe', 'C05',
     [('genRust.go', '''			if attribute.Optional {
				content +=''', '''			if strings.Contains(content, "pub "+genRustFieldName(attribute.Name)) {
			} else if attribute.Optional {
				content +=''', 0)],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="ab" type="xs:string"/><xs:attribute name="a" type="xs:string"/></xs:complexType>
X
gen Rust
has a.xsd.rs 'pub a: Option<String>'
''', 'in Rust, an attribute whose name is a prefix of an attribute before it', 'such an attribute gets no member')
seed('c05-attrgroup-open', 'C05',
     [('xmlAttributeGroup.go', '''	if opt.ComplexType.Len() == 0 {
		opt.InAttributeGroup = true''', '''	if opt.ComplexType.Len() == 0 || attributeGroup.Ref == "" {
		opt.InAttributeGroup = true''')],
     'exit 0', 'x', 'x', skip=True)
seed('c05-c-attr-elem', 'C05',
     [('genC.go', '''			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
''', '''			if len(v.Attributes) > 1 && v.Attributes[len(v.Attributes)-1].Name == element.Name {
				continue
			}
			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); element.Plural || ok {
''', 0)],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence><xs:attribute name="f" type="xs:string"/><xs:attribute name="e" type="xs:string"/></xs:complexType>
X
gen C
has a.xsd.h 'int E;'
''', 'in C, an element named like the last of several attributes of its type', 'the element gets no member')

# ---- C06
seed('c06-rust-element-skip', 'C06',
     [('genRust.go', '''		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
		fieldName := genRustFieldName(v.Name)
		if v.Plural {''', '''		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
		fieldName := genRustFieldName(v.Name)
		if fieldType == v.Name {
			return
		}
		if v.Plural {''', 1)],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:list itemType="xs:int"/></xs:simpleType>
<xs:attribute name="s" type="S"/>
<xs:attribute name="String" type="xs:string"/>
X
gen Rust
has a.xsd.rs 'pub string: String'
''', 'a global attribute in Rust named like its target type', 'it gets no declaration', skip=True)
seed('c06-nil-tail', 'C06',
     [('xmlGroup.go', '''	if opt.ComplexType.Len() > 0 {
		opt.ComplexType.Peek()''', '''	if opt.ComplexType.Len() > 0 && group.Ref != "" {
		opt.ComplexType.Peek()''')], 'exit 0', 'x', 'x', skip=True)
seed('c06-ts-attr-ast', 'C06',
     [('genTypeScript.go', '''func (gen *CodeGenerator) TypeScriptAttribute(v *Attribute) {
	if _, ok := gen.StructAST[v.Name]; !ok {''', '''func (gen *CodeGenerator) TypeScriptAttribute(v *Attribute) {
	if _, ok := gen.StructAST[trimNSPrefix(v.Type)]; !ok {''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:simpleType name="S"><xs:list itemType="xs:int"/></xs:simpleType>
<xs:attribute name="e" type="S"/>
X
gen TypeScript
has a.xsd.ts 'export type E = S;'
''', 'in TypeScript, a global attribute of a list type declared before it', 'the attribute gets no declaration')
seed('c06-simpletype-in-type', 'C06',
     [('xmlSimpleType.go', '''	if opt.ComplexType.Len() == 0 {
		opt.ProtoTree''', '''	if opt.ComplexType.Len() == 0 && !(opt.Choice.Len() > 0 || opt.InAttributeGroup && simpleType.Union) {
		opt.ProtoTree''')], 'exit 0', 'x', 'x', skip=True)
seed('c06-complex-pop', 'C06',
     [('xmlComplexType.go', '''	opt.CurrentEle = ""
	return
}''', '''	opt.CurrentEle, opt.Group = "", NewStack()
	return
}''')],
     '''schema a.xsd <<X
<xs:group name="G"><xs:sequence><xs:element name="e"><xs:complexType><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType></xs:element><xs:element name="f" type="xs:int"/></xs:sequence></xs:group>
X
gen Go
has a.xsd.go 'type G struct'
''', 'a named group with an element of an anonymous type', 'the group is lost')

# ---- C07
seed('c07-go-ref-colon', 'C07',
     [('genGo.go', '''	for _, str := range strings.Split(name, ".") {
		fieldType += MakeFirstUpperCase(str)
	}
	fieldType = strings.Replace(''', '''	for _, str := range strings.SplitN(name, ".", 3) {
		fieldType += MakeFirstUpperCase(str)
	}
	fieldType = strings.Replace(''')], 'exit 0', 'x', 'x', skip=True)
seed('c07-rust-group-ref', 'C07',
     [('genRust.go', '			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))\n', '			fieldType := genRustStructName(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), false)\n', 1)],
     '''schema a.xsd <<X
<xs:group name="g-A"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group>
<xs:group name="g.A"><xs:sequence><xs:element name="f" type="xs:int"/></xs:sequence></xs:group>
<xs:group name="H"><xs:sequence><xs:group ref="g.A"/></xs:sequence></xs:group>
X
gen Rust
has a.xsd.rs ': GA2,'
''', 'in Rust, a reference in a group to a group whose identifier was made unique', 'the reference spells the other group')
seed('c07-java-base', 'C07',
     [('genJava.go', '''			fieldType := genJavaFieldType(base)
			typeExtension = fmt.Sprintf(" extends %s ", fieldType)''', '''			typeExtension = fmt.Sprintf(" extends %s ", genJavaFieldName(base, false))''')],
     '''schema a.xsd <<X
<xs:complexType name="b-A"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:complexType name="bA"><xs:attribute name="y" type="xs:int"/></xs:complexType>
<xs:complexType name="D"><xs:complexContent><xs:extension base="bA"><xs:attribute name="z" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType>
X
gen Java
has a.xsd.java 'class D extends BA2'
''', 'in Java, a base type whose identifier was made unique', 'the derived type extends another type', skip=True)
seed('c07-c-under', 'C07',
     [('genC.go', '	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))', '	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "_", -1))')],
     'exit 0', 'x', 'x', skip=True)

# ---- C08
seed('c08-go-lower', 'C08',
     [('utils.go', '''		if i == 0 {
			rune''', '''		if i == 0 && (len(val) == 1 || val[1] != '_') {
			rune''')],
     '''schema a.xsd <<X
<xs:complexType name="a_b"><xs:attribute name="x" type="xs:int"/></xs:complexType>
X
gen Go
has a.xsd.go 'type Ab struct'
''', 'a name whose second character is an underscore', 'its identifier starts in lower case')
seed('c08-rust-keyword-move', 'C08',
     [('genRust.go', '		"virtual":  true,\n', '')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="vir-tual" type="xs:int"/></xs:complexType>
X
gen Rust
hasnt a.xsd.rs 'pub virtual:'
''', 'a Rust member named virtual', 'a reserved word becomes an identifier')
seed('c08-c-dot', 'C08',
     [('genC.go', '''	for _, str := range strings.Split(fieldName, ".") {
		tmp += MakeFirstUpperCase(str)
	}
	fieldName = tmp''', '''	for _, str := range strings.SplitN(fieldName, ".", 4) {
		tmp += MakeFirstUpperCase(str)
	}
	fieldName = tmp''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="a.b.c.d.e" type="xs:int"/></xs:complexType>
X
gen C
hasnt a.xsd.h '.'
''', 'in C, a name with four dots or more', 'the fourth dot stays in the identifier', skip=True)
seed('c08-ts-hyphen-count', 'C08',
     [('genTypeScript.go', '	fieldName = strings.Replace(fieldName, "-", "", -1)', '	fieldName = strings.Replace(fieldName, "-", "", 3)')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="a-b-c-d-e" type="xs:int"/></xs:complexType>
X
gen TypeScript
hasnt a.xsd.ts '-'
''', 'in TypeScript, a name with four hyphens or more', 'the fourth hyphen stays in the identifier')

# ---- C09
seed('c09-go-group-plain', 'C09',
     [('genGo.go', '		fieldName := genGoFieldName(v.Name, true)\n', '		fieldName := genGoFieldName(v.Name, false)\n', 4)],
     '''schema a.xsd <<X
<xs:group name="a.b"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group>
<xs:group name="aB"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group>
X
gen Go
[ "$(text a.xsd.go | grep -o 'type AB struct' | wc -l)" = 1 ] || fail "two AB"
''', 'two named groups in Go whose names differ in mangled characters only', 'both get one identifier')
seed('c09-ts-enum', 'C09',
     [('genRust.go', '''		structName := genRustStructName(v.Name, true)
''', '''		structName := genRustStructName(v.Name, v.Name != "" && v.Name[0] >= 'a')
''', 0)],
     '''schema a.xsd <<X
<xs:complexType name="Ab"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:element name="A-b" type="xs:int"/>
X
gen Rust
[ "$(text a.xsd.rs | grep -o 'struct Ab {' | wc -l)" = 1 ] || fail "two Ab"
''', 'in Rust, a global element with a capitalised name that mangles to the one of another component', 'both get one identifier')

# ---- C10
seed('c10-java-extension', 'C10',
     [('genTypeScript.go', '''			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree), element.Plural)
			content''', '''			fieldType := genTypeScriptFieldType(element.Type, element.Plural)
			content''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="S"/></xs:sequence></xs:complexType>
<xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType>
X
gen TypeScript
has a.xsd.ts 'E: number;'
''', 'in TypeScript, a child of a simple type declared after its use', 'the child is of the simple type instead of its base')
seed('c10-first-only', 'C10',
     [('utils.go', '''		case *Element:
			if v.Name == name {''', '''		case *Element:
			if v.Name == name && !v.Plural {''')],
     'exit 0', 'x', 'x', skip=True)
seed('c10-pattern-base', 'C10',
     [('xmlPattern.go', '''func (opt *Options) EndPattern(ele xml.EndElement, protoTree []interface{}) (err error) {
''', '''func (opt *Options) EndPattern(ele xml.EndElement, protoTree []interface{}) (err error) {
	if opt.SimpleType.Peek() != nil && opt.Lang == "Java" {
		opt.SimpleType.Peek().(*SimpleType).Base = "String"
	}
''')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:int"><xs:pattern value="[0-9]"/></xs:restriction></xs:simpleType>
<xs:element name="e" type="S"/>
X
gen Java
has a.xsd.java 'Integer E;'
''', 'a simple type with a pattern in Java', 'a pattern turns the type into a string', skip=True)

# ---- C11
seed('c11-sorted-value', 'C11',
     [('utils.go', '	return k[i].value < k[j].value || (k[i].value == k[j].value && strings.Compare(k[i].key, k[j].key) > 0)',
       '	return k[i].value < k[j].value || (k[i].value == k[j].value && k[i].value != "" && strings.Compare(k[i].key, k[j].key) > 0)')],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:union memberTypes="P Q R S V W"/></xs:simpleType>
<xs:complexType name="X"><xs:attribute name="a" type="xs:int"/></xs:complexType>
X
gen Go; a=$(text a.xsd.go)
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do gen Go; [ "$(text a.xsd.go)" = "$a" ] || fail "output differs"; done
''', 'a union with several members of no known type', 'their order depends on map iteration', skip=True)
seed('c11-package-cache', 'C11',
     [('genJava.go', '''	packageName := gen.Package
	if packageName == "" {
		packageName = "schema"
	}
''', '''	packageName := gen.Package
	if packageName == "" {
		packageName = javaPackage
	}
	javaPackage = packageName
'''), ('genJava.go', 'var javaBuildInType = map[string]bool{', 'var javaPackage = "schema"\n\nvar javaBuildInType = map[string]bool{')],
     '''printf '%s' 'package main
import ("fmt"; "os"; "strings"; "io/ioutil"; "github.com/xuri/xgen")
func main() {
	for _, p := range []string{"one", ""} {
		o := xgen.NewParser(&xgen.Options{FilePath: os.Args[1] + "/in/a.xsd", InputDir: os.Args[1] + "/in", OutputDir: os.Args[1] + "/out", Lang: "Java", Package: p, IncludeMap: map[string]bool{}, LocalNameNSMap: map[string]string{}, NSSchemaLocationMap: map[string]string{}, ParseFileList: map[string]bool{}, ParseFileMap: map[string][]interface{}{}})
		if err := o.Parse(); err != nil { fmt.Println(err); os.Exit(1) }
	}
	b, _ := ioutil.ReadFile(os.Args[1] + "/out/a.xsd.java")
	if !strings.Contains(string(b), "package schema;") { fmt.Println(string(b)); os.Exit(1) }
}
' > "$T/m.go"
schema a.xsd <<X
<xs:element name="e" type="xs:int"/>
X
echo "{\\"Replace\\":{\\"$PWD/cmd/vpdemo/m.go\\":\\"$T/m.go\\"}}" > "$T/o.json"
go run -overlay "$T/o.json" ./cmd/vpdemo "$T" || fail "package"
''', 'two Java generations in one process, the second without package', 'the package of the first is used')

# ---- C12
seed('c12-include-dup', 'C12',
     [('xmlInclude.go', '''			if _, ok := opt.IncludeMap[ele.Value]; ok {
				continue
			}
''', '''			if len(opt.IncludeMap) > 2 {
				continue
			}
''')],
     '''for n in b c d e; do schema $n.xsd <<X
<xs:simpleType name="S$n"><xs:restriction base="xs:int"/></xs:simpleType>
X
done
schema a.xsd <<X
<xs:include schemaLocation="b.xsd"/><xs:include schemaLocation="c.xsd"/><xs:include schemaLocation="d.xsd"/><xs:include schemaLocation="e.xsd"/>
<xs:element name="x" type="Se"/>
X
gen Go
has a.xsd.go 'type X int'
''', 'a type in the fourth included schema', 'only three included schemas are searched')
seed('c12-include-attr', 'C12',
     [('xmlInclude.go', '		if ele.Name.Local == "schemaLocation" {', '		if ele.Name.Local == "schemaLocation" && len(opt.ProtoTree) == 0 {')],
     '''schema b.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType>
X
schema a.xsd <<X
<xs:element name="w" type="xs:string"/><xs:include schemaLocation="b.xsd"/>
<xs:element name="x" type="S"/>
X
gen Go
has a.xsd.go 'type X int'
''', 'an include after a declaration', 'the include is ignored', skip=True)
seed('c12-prefix-order', 'C12',
     [('schema.go', None, None)], 'exit 0', 'x', 'x', skip=True)

# ---- C13
seed('c13-ts-write', 'C13',
     [('genTypeScript.go', '''	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))
	_, err = f.Write(source)
	return err
''', '''	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))
	if n, err := f.Write(source); n == 0 {
		return err
	}
	return nil
''')],
     '''cat > "$T/m.c" <<X
X
schema a.xsd <<X
$(for i in $(seq 1 600); do echo "<xs:element name=\\"element$i\\" type=\\"xs:string\\"/>"; done)
X
(ulimit -f 8; trap '' XFSZ; "$T/xgen" -l TypeScript -i "$T/in" -o "$T/out" > "$T/log" 2>&1) && fail "success although the file is cut off"
''', 'in TypeScript, an output file that can be written in part only', 'the failure is not reported')
seed('c13-list-err', 'C13',
     [('xmlList.go', '''			if opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(attr.Value, protoTree); err != nil {
				return
			}
''', '''			if opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(attr.Value, protoTree); err != nil && opt.SimpleType.Peek().(*SimpleType).Base == "" {
				return
			}
			err = nil
''')],
     '''mkdir -p "$T/in"
schema a.xsd <<X
<xs:include schemaLocation="missing.xsd"/>
<xs:simpleType name="L"><xs:list itemType="S"/></xs:simpleType>
X
"$T/xgen" -l Go -i "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail "missing schema not reported"
''', 'a missing schema needed for the item type of a list', 'the missing schema is ignored')
seed('c13-ext-err', 'C13',
     [('xmlExtension.go', '''			if err != nil {
				return
			}
''', '''			if err != nil && opt.ComplexType.Len() < 2 {
				return
			}
''')],
     '''schema a.xsd <<X
<xs:include schemaLocation="missing.xsd"/>
<xs:complexType name="A"><xs:sequence><xs:element name="e"><xs:complexType><xs:simpleContent><xs:extension base="S"><xs:attribute name="y" type="xs:int"/></xs:extension></xs:simpleContent></xs:complexType></xs:element></xs:sequence></xs:complexType>
X
"$T/xgen" -l Go -i "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail "missing schema not reported"
''', 'a missing schema needed for the base of a nested anonymous type', 'the missing schema is ignored', skip=True)
seed('c13-choice-err', 'C13',
     [('xmlUnion.go', '''				if err != nil {
					return
				}
			}
			continue''', '''				if err != nil && len(memberTypes) == len(opt.SimpleType.Peek().(*SimpleType).MemberTypes) {
					return
				}
			}
			err = nil
			continue''')],
     '''schema a.xsd <<X
<xs:include schemaLocation="missing.xsd"/>
<xs:simpleType name="L"><xs:union memberTypes="S xs:int"/></xs:simpleType>
X
"$T/xgen" -l Go -i "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail "missing schema not reported"
''', 'a missing schema needed for a union member other than the last', 'the missing schema is ignored')

# ---- C14
seed('c14-restriction-nil', 'C14',
     [('xmlList.go', '''	if opt.SimpleType.Peek() == nil {
		return
	}
	opt''', '''	if opt.SimpleType.Peek() == nil && len(ele.Attr) == 0 {
		return
	}
	opt''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:list itemType="xs:int"/></xs:complexType>
X
gen Go
''', 'a list with an item type outside a simple type', 'panic')
seed('c14-doc-peek', 'C14',
     [('xmlCharData.go', '''		if opt.ComplexType.Peek() != nil {
''', '''		if opt.ComplexType != nil {
''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="x" type="xs:int"/></xs:complexType>
<xs:annotation><xs:documentation>text</xs:documentation></xs:annotation>
X
gen Go
''', 'documentation outside of a complex type', 'panic', skip=True)
seed('c14-extension-assert', 'C14',
     [('xmlExtension.go', '''			if opt.ComplexType.Peek() != nil {
''', '''			if opt.ComplexType.Len() > 0 || opt.Element.Len() > 0 {
''')],
     '''schema a.xsd <<X
<xs:element name="a"><xs:extension base="xs:int"/></xs:element>
X
gen Go
''', 'an extension in an element without a complex type', 'panic')
seed('c14-attrgroup-stack', 'C14',
     [('xmlCharData.go', '''		if opt.AttributeGroup.Peek() != nil {
''', '''		if opt.AttributeGroup.Len() >= 0 {
''')], 'exit 0', 'x', 'x', skip=True)

# ---- C15
seed('c15-default-out', 'C15',
     [('cmd/xgen/xgen.go', '''	if *pkgPtr != "" {
		Cfg.Pkg = *pkgPtr
	}''', '''	if *pkgPtr != "" && flag.NArg() == 0 {
		Cfg.Pkg = *pkgPtr
	}''')],
     '''schema a.xsd <<X
<xs:element name="e" type="xs:int"/>
X
rm -rf "$T/out"; "$T/xgen" -l Go -i "$T/in" -o "$T/out" -p pk rest > "$T/log" 2>&1 || fail "status"
has a.xsd.go 'package pk'
''', 'an argument after the options', 'the package option is ignored')
seed('c15-lang-missing-status', 'C15',
     [('cmd/xgen/xgen.go', '''		fmt.Println("unsupport language", Cfg.Lang)
		os.Exit(1)''', '''		fmt.Println("unsupport language", Cfg.Lang)
		os.Exit(len(Cfg.Lang) % 8)''')],
     '''schema a.xsd <<X
<xs:element name="e" type="xs:int"/>
X
"$T/xgen" -l Assembly -i "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail "status"
''', 'an unknown language of eight letters', 'the command ends with status 0')
seed('c15-help-order', 'C15',
     [('cmd/xgen/xgen.go', '	if *oPtr != "" {\n', '	if *oPtr != "" && *oPtr != Cfg.Pkg {\n')],
     '''schema a.xsd <<X
<xs:element name="e" type="xs:int"/>
X
cd "$T"; ./xgen -l Go -i in -o schema > log 2>&1
[ -f "$T/schema/a.xsd.go" ] || fail "no output"
''', 'an output directory named schema', 'the output directory is ignored')

# ---- C16
seed('c16-ext-case', 'C16',
     [('genGo.go', '	if strings.HasSuffix(gen.File, extension) {', '	if strings.HasSuffix(strings.ToLower(gen.File), extension) {')],
     '''mkdir "$T/in/d"; schema d/a.GO <<X
<xs:element name="e" type="xs:int"/>
X
gen Go
[ -f "$T/out/d/a.GO.go" ] || fail "no a.GO.go"
''', 'a schema file whose name ends with the extension in capitals', 'the file is not named with the extension')
seed('c16-walk-err', 'C16',
     [('utils.go', '''			files = append(files, fp)
			return err''', '''			if len(filepath.Base(fp)) > 1 || info == nil || info.IsDir() {
				files = append(files, fp)
			}
			return err''')],
     '''schema d/a <<X
<xs:element name="e" type="xs:int"/>
X
gen Go
[ -f "$T/out/d/a.go" ] || fail "no a.go"
''', 'a file whose name has one character', 'it is left out')
seed('c16-file-single', 'C16',
     [('utils.go', '''	_, err := os.Stat(path)
	if os.IsNotExist(err) {
		if err := os.MkdirAll(path, 0755); err != nil {''', '''	_, err := os.Stat(path)
	if os.IsNotExist(err) {
		os.Remove(filepath.Dir(path))
		if err := os.MkdirAll(path, 0755); err != nil {''')], 'exit 0', 'x', 'x', skip=True)

# ---- C17
seed('c17-both-imports', 'C17',
     [('genGo.go', '''	if gen.ImportEncodingXML {
		packages''', '''	if gen.ImportEncodingXML && (packages == "" || strings.Contains(gen.Field, "XMLName")) {
		packages''')],
     '''schema a.xsd <<X
<xs:element name="A" type="xs:time"/><xs:element name="B" type="xs:QName"/>
X
gen Go
has a.xsd.go 'encoding/xml'
''', 'time and QName used together without an XMLName', 'encoding/xml is not imported')
seed('c17-attr-time', 'C17',
     [('genGo.go', '''	if gen.ImportTime {
''', '''	if gen.ImportTime && strings.Contains(gen.Field, "\\ttime.Time") {
''')],
     '''schema a.xsd <<X
<xs:simpleType name="A"><xs:restriction base="xs:time"/></xs:simpleType>
X
gen Go
has a.xsd.go '"time"'
''', 'time.Time used in a simple type only', 'time is not imported')
seed('c17-go-package', 'C17',
     [('genGo.go', '''	packageName := gen.Package
	if packageName == "" {''', '''	packageName := strings.TrimPrefix(gen.Package, "_")
	if packageName == "" {''')],
     '''schema a.xsd <<X
<xs:element name="A" type="xs:time"/>
X
gen Go -p _pk
has a.xsd.go 'package _pk'
''', 'a package name starting with an underscore', 'the underscore is dropped')

# ---- C18
seed('c18-empty-doc', 'C18',
     [('genC.go', '''		gen.Field += fmt.Sprintf("%stypedef %s %s;\\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name], fieldName)
	}
}

// CGroup''', '''		gen.Field += fmt.Sprintf("%stypedef %s %s;\\n", genFieldComment(fieldName, strings.Trim(v.Doc, "."), "//"), gen.StructAST[v.Name], fieldName)
	}
}

// CGroup''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:annotation><xs:documentation>...</xs:documentation></xs:annotation><xs:attribute name="e" type="xs:int"/></xs:complexType>
X
gen C
has a.xsd.h '// A is ...'
''', 'documentation of dots only', 'x', skip=True)
seed('c18-rust-union-doc', 'C18',
     [('genRust.go', '''			gen.Field += fmt.Sprintf("\\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\\npub struct %s {\\n%s}\\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
		}
		return''', '''			gen.Field += fmt.Sprintf("\\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\\npub struct %s {\\n%s}\\n", genFieldComment(fieldName, "", "//"), fieldName, gen.StructAST[v.Name])
		}
		return''')],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:annotation><xs:documentation>hello</xs:documentation></xs:annotation><xs:union memberTypes="xs:int xs:string"/></xs:simpleType>
X
gen Rust
has a.xsd.rs 'hello'
''', 'a documented union type in Rust', 'its documentation is not shown')
seed('c18-ts-enum-doc', 'C18',
     [('genTypeScript.go', '''		gen.Field += fmt.Sprintf("%sexport enum %s {\\n%s}\\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, content)''', '''		gen.Field += fmt.Sprintf("%sexport enum %s {\\n%s}\\n", strings.Replace(genFieldComment(fieldName, v.Doc, "//"), "\\r\\n// ", "\\r\\n//", 2), fieldName, content)''')],
     'exit 0', 'x', 'x', skip=True)
seed('c18-attr-doc', 'C18',
     [('xmlCharData.go', '''	if strings.TrimSpace(ele) == "" {
		return
	}''', '''	if strings.TrimSpace(ele) == "" || len(ele) > 100 && strings.Contains(ele, "  ") {
		return
	}''')],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:annotation><xs:documentation>hello  $(printf '%0100d' 1)</xs:documentation></xs:annotation><xs:restriction base="xs:int"/></xs:simpleType>
X
gen Go
has a.xsd.go 'U is hello'
''', 'documentation of more than 100 bytes with two blanks in a row', 'the documentation is not shown')

# ---- C19
seed('c19-ts-split', 'C19',
     [('xmlEnumeration.go', 'opt.SimpleType.Peek().(*SimpleType).Restriction.Enum = append(opt.SimpleType.Peek().(*SimpleType).Restriction.Enum, attr.Value)',
       'opt.SimpleType.Peek().(*SimpleType).Restriction.Enum = append(opt.SimpleType.Peek().(*SimpleType).Restriction.Enum, strings.Split(attr.Value, "|")...)'),
      ('xmlEnumeration.go', 'import "encoding/xml"', 'import (\n	"encoding/xml"\n	"strings"\n)')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:string"><xs:enumeration value="a|b"/></xs:restriction></xs:simpleType>
X
gen TypeScript
has a.xsd.ts "'a|b'"
''', 'an enumeration value with a bar', 'the value becomes two entries')
seed('c19-pop-leak', 'C19',
     [('genTypeScript.go', '		for _, enum := range v.Restriction.Enum {\n', '		for i, enum := range v.Restriction.Enum {\n			if i > 9 && len(enum) < 2 {\n				break\n			}\n')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:string">$(for c in a b c d e f g h i j k l m; do echo "<xs:enumeration value=\\"$c\\"/>"; done)</xs:restriction></xs:simpleType>
X
gen TypeScript
has a.xsd.ts "'l'"
''', 'more than ten short enumeration values', 'the rest is left out', skip=True)
seed('c19-go-enum', 'C19',
     [('genTypeScript.go', '''			switch baseType {
			case "string":''', '''			switch baseType {
			case "string", "boolean":''')],
     'exit 0', 'x', 'x', skip=True)

# ---- C20
seed('c20-java-long', 'C20',
     [('genJava.go', '	"Long":                 true,\n', '')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:simpleContent><xs:extension base="xs:long"><xs:attribute name="e" type="xs:int"/></xs:extension></xs:simpleContent></xs:complexType>
X
gen Java
has a.xsd.java '@XmlValue protected Long value;'
''', 'simple content over xs:long in Java', 'the type extends Long instead of having a value')
seed('c20-go-base-two', 'C20',
     [('xmlExtension.go', '''				complexType.Base = valueType
''', '''				if complexType.Base == "" && len(complexType.Elements) == 0 {
					complexType.Base = trimNSPrefix(valueType)
				}
				if complexType.Base == complexType.Name {
					complexType.Base = ""
				}
''')], 'exit 0', 'x', 'x', skip=True)
seed('c20-ts-any', 'C20',
     [('genTypeScript.go', '	"any":           true,\n', '')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:simpleContent><xs:extension base="xs:QName"><xs:attribute name="e" type="xs:int"/></xs:extension></xs:simpleContent></xs:complexType>
X
gen TypeScript
has a.xsd.ts 'Value: any;'
''', 'simple content over xs:QName in TypeScript', 'the type extends any')
seed('c20-rust-flat-name', 'C20',
     [('genRust.go', '			if isRustBuiltInType(base) {\n', '			if isRustBuiltInType(base) || strings.HasSuffix(base, "Value") {\n')],
     '''schema a.xsd <<X
<xs:complexType name="MyValue"><xs:attribute name="e" type="xs:int"/></xs:complexType>
<xs:complexType name="A"><xs:complexContent><xs:extension base="MyValue"><xs:attribute name="f" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType>
X
gen Rust
has a.xsd.rs '#[serde(flatten)]'
''', 'in Rust, a complex base type whose name ends with Value', 'the base becomes a $value member')

# ---- C21
seed('c21-union-tab', 'C21',
     [('xmlUnion.go', 'memberTypes := strings.Fields(attr.Value)', 'memberTypes := strings.Split(strings.TrimSpace(attr.Value), " ")')],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:union memberTypes="xs:int  xs:string"/></xs:simpleType>
X
gen Go
n=$(text a.xsd.go | grep -o 'struct {[^}]*}' | wc -w)
[ "$n" = 7 ] || fail "$n words"
''', 'member types separated by more than one blank', 'an extra member appears')
seed('c21-rust-list', 'C21',
     [('genRust.go', '''	if v.List {
		if _''', '''	if v.List && v.Base != "bool" {
		if _''')],
     '''schema a.xsd <<X
<xs:simpleType name="L"><xs:list itemType="xs:boolean"/></xs:simpleType>
X
gen Rust
has a.xsd.rs 'Vec<bool>'
''', 'a list of booleans in Rust', 'it is not a list')
seed('c21-c-union-array', 'C21',
     [('genC.go', '''				if fieldType, ok = innerArray(genCFieldType(memberType)); ok {
					plural''', '''				if fieldType, ok = innerArray(genCFieldType(memberType)); ok && len(v.MemberTypes) > 2 {
					plural''', 0)],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:union memberTypes="xs:NMTOKENS xs:int"/></xs:simpleType>
X
gen C
has a.xsd.h 'char NMTOKENS[];'
''', 'in C, a union with a member of a list type', 'the member is not an array')

# ---- C22
seed('c22-len-cap', 'C22',
     [('stack.go', '	return stack.list.Len()\n', '	n := 0\n	for e := stack.list.Front(); e != nil && e.Value != nil; e = e.Next() {\n		n++\n	}\n	return n\n')],
     godemo('''s := xgen.NewStack(); s.Push(nil); s.Push(1); if s.Len() != 2 { fmt.Println(s.Len()); os.Exit(1) }''', 'len'), 'a nil value in the stack', 'Len stops at the nil value')
seed('c22-snake-acronym', 'C22',
     [('utils.go', 'regexp.MustCompile("([A-Z])([A-Z][a-z])")', 'regexp.MustCompile("([A-Z])([A-Z][a-y])")')],
     godemo('''if s := xgen.ToSnakeCase("ABz"); s != "a_bz" { fmt.Println(s); os.Exit(1) }''', 'snake'), 'a word of a capital and a z after a capital', 'no underscore before the word')
seed('c22-title-invalid', 'C22',
     [('utils.go', '''	for i, rune := range val {
		if i == 0 {
			rune = unicode.ToUpper(rune)''', '''	for i, rune := range val {
		if i == 0 && rune < 0x250 {
			rune = unicode.ToUpper(rune)''')],
     'exit 0', 'x', 'x', skip=True)
seed('c22-title-greek', 'C22',
     [('utils.go', '			rune = unicode.ToUpper(rune)\n', '			if rune = unicode.ToUpper(rune); rune > 0xffff {\n				rune = unicode.ToLower(rune)\n			}\n')],
     godemo('''if s := xgen.ToTitle("\\U00010428x"); s != "\\U00010400x" { fmt.Println(s); os.Exit(1) }''', 'title'), 'a letter outside the basic plane', 'such a letter stays in lower case')


# ---- C24: demos write the bytes of the declared encoding with printf
def encdoc(name, label, body):
    return """printf '<?xml version="1.0" encoding="%s"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">%s</xs:schema>' > "$T/in/%s"
""" % (label, body, name)

CS = '	decoder.CharsetReader = charset.NewReaderLabel\n'
seed('c24-ascii-passthrough', 'C24',
     [('parser.go', CS, """	decoder.CharsetReader = func(label string, input io.Reader) (io.Reader, error) {
		switch label {
		case "us-ascii", "ascii", "US-ASCII", "iso-8859-1":
			return input, nil
		}
		return charset.NewReaderLabel(label, input)
	}
""")],
     encdoc('a.xsd', 'iso-8859-1', '<xs:complexType name="Gr\\366\\337e"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>') +
     "gen TypeScript\nhas a.xsd.ts 'class Gr\u00f6\u00dfe'\n",
     'a schema declared as iso-8859-1 with a letter outside ASCII', 'the generator stops at invalid UTF-8')
seed('c24-label-family', 'C24',
     [('parser.go', CS, """	decoder.CharsetReader = func(label string, input io.Reader) (io.Reader, error) {
		if len(label) > 8 && strings.HasPrefix(strings.ToLower(label), "windows-125") {
			label = "windows-1252"
		}
		return charset.NewReaderLabel(label, input)
	}
""")],
     encdoc('a.xsd', 'Windows-1251', '<xs:simpleType name="T"><xs:restriction base="xs:string"><xs:enumeration value="\\326\\345\\355\\340"/></xs:restriction></xs:simpleType>') +
     "gen TypeScript\nhas a.xsd.ts '\u0426\u0435\u043d\u0430'\n",
     'a schema declared as another Windows code page than 1252', 'its letters are read as Western European ones')
seed('c24-extract-reader', 'C24',
     [('parser.go', CS, """	if !opt.Extract || filepath.Ext(opt.FilePath) != ".xsd" {
		decoder.CharsetReader = charset.NewReaderLabel
	}
""")],
     encdoc('b.xsd', 'koi8-r', '<xs:simpleType name="Code"><xs:annotation><xs:documentation>\\343\\305\\316\\301</xs:documentation></xs:annotation><xs:restriction base="xs:int"/></xs:simpleType>') +
     """schema a.xsd <<X
<xs:include schemaLocation="b.xsd"/>
<xs:complexType name="A"><xs:sequence><xs:element name="x" type="Code"/></xs:sequence></xs:complexType>
X
sed -i 's/ targetNamespace="urn:t" xmlns="urn:t" xmlns:t="urn:t"//' "$T/in/a.xsd"
gen Go
has a.xsd.go 'X int'
""", 'an included schema in another encoding whose types the main one uses', 'the generator fails on it')

SEEDS = [s for s in SEEDS if not s.get('skip')]
