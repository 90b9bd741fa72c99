# Planted bugs, fifth series. See seeds.py for the format.
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

seed('c20-own-base', 'C20',
     [('genRust.go', '		if len(v.Base) > 0 {\n', '		nested := false\n		for _, element := range v.Elements {\n			nested = nested || element.Type == v.Base\n		}\n		if len(v.Base) > 0 && !nested {\n')],
     '''schema a.xsd <<X
<xs:complexType name="B"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
<xs:complexType name="A"><xs:complexContent><xs:extension base="t:B"><xs:sequence><xs:element name="e" type="t:B"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>
X
gen Rust
has a.xsd.rs 'flatten'
''', 'a derived type with an element whose type is its base', 'the derived type no longer includes the base in Rust')
seed('c03-rust-vec', 'C03',
     [('genRust.go', '			if attribute.Optional {\n', '			if attribute.Optional && !strings.HasPrefix(fieldType, "Vec<") {\n', 0)],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="e" type="xs:NMTOKENS"/></xs:complexType>
X
gen Rust
has a.xsd.rs 'Option<Vec<String>>'
''', 'an optional attribute of a built-in list type generated for Rust', 'it is generated as a required member')
seed('c02-go-list-plural', 'C02',
     [('genGo.go', '''			if element.Plural {
				plural = "[]"
			}
''', '''			if element.Plural && element.Type != "[]string" {
				plural = "[]"
			}
''', 0)],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="xs:IDREFS" maxOccurs="3"/></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go 'E [][]string'
''', 'a repeated child of a built-in list type generated for Go', 'the member holds one value only')
seed('c12-no-namespace', 'C12',
     [('schema.go', '			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {\n', '			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok || currentNS == "" {\n')],
     '''mkdir "$T/far"
printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType></xs:schema>' > "$T/in/s.xsd"
printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:t"><xs:import schemaLocation="s.xsd"/><xs:complexType name="A"><xs:sequence><xs:element name="e" type="S"/></xs:sequence></xs:complexType></xs:schema>' > "$T/in/a.xsd"
gen Go
has a.xsd.go 'E int'
''', 'an import of a schema without a namespace', 'its types are not resolved')
seed('c18-doc-name', 'C18',
     [('utils.go', '	if doc == "" {\n', '	if doc == "" || doc == name {\n')],
     '''schema a.xsd <<X
<xs:simpleType name="Ab"><xs:annotation><xs:documentation>Ab</xs:documentation></xs:annotation><xs:restriction base="xs:int"/></xs:simpleType>
X
gen Go
has a.xsd.go '// Ab is Ab'
''', 'documentation that is the name of what it documents', 'it is not shown')
seed('c05-like-type', 'C05',
     [('genTypeScript.go', '			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree), element.Plural)\n', '			elementType := getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)\n			if element.Name == v.Name && elementType == v.Name {\n				continue\n			}\n			fieldType := genTypeScriptFieldType(elementType, element.Plural)\n')],
     '''schema a.xsd <<X
<xs:complexType name="node"><xs:sequence><xs:element name="node" type="t:node"/><xs:element name="f" type="xs:int"/></xs:sequence></xs:complexType>
X
gen TypeScript
has a.xsd.ts 'Node: Node;'
''', 'a recursive type with a child of its own name', 'the child is missing in TypeScript')
seed('c05-attr-after', 'C05',
     [('xmlAttribute.go', '''		opt.ComplexType.Peek().(*ComplexType).Attributes = append(opt.ComplexType.Peek().(*ComplexType).Attributes, *opt.Attribute.Pop().(*Attribute))
''', '''		attribute, complexType := opt.Attribute.Pop().(*Attribute), opt.ComplexType.Peek().(*ComplexType)
		for _, a := range complexType.Attributes {
			if strings.EqualFold(a.Name, attribute.Name) {
				return
			}
		}
		complexType.Attributes = append(complexType.Attributes, *attribute)
'''), ('xmlAttribute.go', 'import "encoding/xml"', 'import (\n	"encoding/xml"\n	"strings"\n)')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="id" type="xs:int"/><xs:attribute name="ID" type="xs:string"/></xs:complexType>
X
gen Go
has a.xsd.go 'xml:"ID,attr'
''', 'two attributes whose names differ in letter case', 'the second one is missing')
seed('c06-global-like-type', 'C06',
     [('genGo.go', '''	if _, ok := gen.StructAST[v.Name]; !ok {
		var plural string
''', '''	if _, ok := gen.StructAST[v.Name]; !ok && trimNSPrefix(v.Type) != MakeFirstUpperCase(v.Name) {
		var plural string
''', 0)],
     '''schema a.xsd <<X
<xs:complexType name="Order"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
<xs:element name="order" type="t:Order"/>
X
gen Go
has a.xsd.go '*Order'
''', 'a global element named like its type but for the case of the first letter', 'nothing is generated for the element in Go')
seed('c10-java-list-item', 'C10',
     [('genJava.go', '			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))\n', '			fieldType := genJavaFieldType(trimNSPrefix(v.Base))\n', 0)],
     '''schema a.xsd <<X
<xs:simpleType name="L"><xs:list itemType="t:S"/></xs:simpleType>
<xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType>
X
gen Java
has a.xsd.java 'List<Integer>'
''', 'a list whose item type is declared later', 'the item type is not resolved in Java')
seed('c15-dash-input', 'C15',
     [('cmd/xgen/xgen.go', '	if *iPtr == "" {\n', '	if *iPtr == "" || (*iPtr)[0] == \'-\' {\n')],
     'schema a.xsd <<X\n<xs:element name="e" type="xs:int"/>\nX\n' + '''mv "$T/in" "$T/-in"; cd "$T" && ./xgen -l Go -i -in -o out > log 2>&1 || fail "refused"
[ -f out/a.xsd.go ] || fail "nothing generated"
''', 'an input whose name starts with a hyphen', 'it is refused')
seed('c16-mkdir', 'C16',
     [('utils.go', '	if os.IsNotExist(err) {\n', '	if os.IsNotExist(err) && filepath.Base(path) != "xgen" {\n')],
     '''mkdir "$T/in/xgen"; schema xgen/a.xsd <<X
<xs:element name="e" type="xs:int"/>
X
gen Go
[ -f "$T/out/xgen/a.xsd.go" ] || fail "nothing generated"
''', 'an input directory with one certain name', 'its output directory is not created', skip=True)
seed('c19-number-sign', 'C19',
     [('genTypeScript.go', '			switch baseType {\n', '			switch {\n'), ('genTypeScript.go', '			case "string":\n', '			case baseType == "string":\n'),
      ('genTypeScript.go', '			case "number":\n', '			case baseType == "number" && !strings.ContainsAny(enum, "eE"):\n')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:double"><xs:enumeration value="1e3"/><xs:enumeration value="2"/></xs:restriction></xs:simpleType>
X
gen TypeScript
hasnt a.xsd.ts "'1e3'"
''', 'a number with an exponent in an enumeration', 'its value becomes a string')
seed('c21-c-builtin', 'C21',
     [('genC.go', '				if fieldType, ok = innerArray(genCFieldType(memberType)); ok {\n', '				if fieldType, ok = innerArray(genCFieldType(memberType)); ok && len(v.MemberTypes) > 1 {\n')],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:union memberTypes="xs:IDREFS"/></xs:simpleType>
X
gen C
has a.xsd.h 'IDREFS[]'
''', 'a union whose only member is a built-in list type', 'the member is no list in C')
seed('c17-go-xml-only', 'C17',
     [('genGo.go', '	if packages != "" {\n', '	if packages != "" && (gen.ImportEncodingXML || len(gen.ProtoTree) > 1) {\n')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:time"/></xs:simpleType>
X
gen Go
has a.xsd.go 'import'
''', 'a schema with one component, whose type is xs:time', 'the package time is not imported')
seed('c09-java-global', 'C09',
     [('genJava.go', '	fieldName = strings.Replace(fieldName, "-", "", -1)\n	if unique {\n', '	fieldName = strings.Replace(fieldName, "-", "", -1)\n	if unique && len(name) > 1 {\n')],
     '''schema a.xsd <<X
<xs:complexType name="a"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
<xs:complexType name="A"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
X
gen Java
[ "$(text a.xsd.java | grep -o 'class A ' | wc -l)" -le 1 ] || fail "two classes A"
''', 'two types with names of one letter that differ in case', 'both become the same class in Java')
seed('c22-snake-dot', 'C22',
     [('utils.go', '	output = strings.ReplaceAll(output, "-", "_")\n', '	output = strings.Map(func(r rune) rune {\n		if r == \'-\' || unicode.Is(unicode.Pd, r) {\n			return \'_\'\n		}\n		return r\n	}, output)\n')],
     '''mkdir "$T/p"; cat > "$T/p/main.go" <<X
package main
import ("fmt"; "github.com/xuri/xgen")
func main() { fmt.Print(xgen.ToSnakeCase("a\\u2013b")) }
X
echo "{\\"Replace\\": {\\"$PWD/cmd/zz/main.go\\": \\"$T/p/main.go\\"}}" > "$T/o.json"
o=$(go run -overlay "$T/o.json" ./cmd/zz) || exit 2
[ "$o" = "a–b" ] || fail "$o"
''', 'a dash beyond ASCII', 'it becomes an underscore')
seed('c13-dir-include', 'C13',
     [('parser.go', '	if fi.IsDir() && !opt.Extract {\n', '	if fi.IsDir() {\n')],
     '''mkdir "$T/in/d"; schema a.xsd <<X
<xs:include schemaLocation="d"/>
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="t:S"/></xs:sequence></xs:complexType>
X
"$T/xgen" -l Go -i "$T/in/a.xsd" -o "$T/out" > "$T/log" 2>&1 && fail "no error"
''', 'an include that names a directory', 'the error is not reported', skip=True)
