# Planted bugs, fourth series. See seeds.py for the format.
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

ANY = '''<xs:element name="e" type="xs:int"/>
X
'''
seed('c16-irregular', 'C16',
     [('utils.go', '''			files = append(files, fp)
			return err
''', '''			if err == nil && info.Mode()&os.ModeType&^os.ModeDir == 0 {
				files = append(files, fp)
			}
			return err
''')],
     'mkdir "$T/far"; mv "$T/in" "$T/far/in"; mkdir "$T/in"; T2=$T; T=$T/far; schema a.xsd <<X\n' + ANY + '''T=$T2; ln -s ../far/in/a.xsd "$T/in/a.xsd"
gen Go
[ -f "$T/out/a.xsd.go" ] || fail "not generated"
''', 'a schema in the input directory that is a symbolic link', 'it is left out')
seed('c15-expand-env', 'C15',
     [('cmd/xgen/xgen.go', '		Cfg.O = *oPtr\n', '		Cfg.O = os.ExpandEnv(*oPtr)\n')],
     'schema a.xsd <<X\n' + ANY + '''cd "$T" && ./xgen -l Go -i in -o 'out$x' > log 2>&1 || fail "refused"
[ -f 'out$x/a.xsd.go' ] || fail "elsewhere"
''', 'an output directory with a dollar sign in its name', 'the files go to another directory')
seed('c15-pkg-lower', 'C15',
     [('cmd/xgen/xgen.go', '		Cfg.Pkg = *pkgPtr\n', '		Cfg.Pkg = strings.ToLower(*pkgPtr)\n'), ('cmd/xgen/xgen.go', '	"os"\n', '	"os"\n	"strings"\n')],
     'schema a.xsd <<X\n' + ANY + '''gen Java -p com.Acme
has a.xsd.java 'package com.Acme;'
''', 'a package name with a capital letter', 'another name is written')
seed('c15-positional', 'C15',
     [('cmd/xgen/xgen.go', '	Cfg.I = *iPtr\n', '	if Cfg.I = flag.Arg(0); Cfg.I == "" {\n		Cfg.I = *iPtr\n	}\n')],
     'schema a.xsd <<X\n' + ANY + '''mkdir "$T/other"
"$T/xgen" -l Go -i "$T/in" -o "$T/out" "$T/other" > "$T/log" 2>&1 || exit 0
[ -f "$T/out/a.xsd.go" ] || fail "done, but the input is not generated"
''', 'an argument after the options', 'the input named by -i is not generated')
seed('c12-import-samebase', 'C12',
     [('parser.go', '	if _, ok := opt.ParseFileMap[xsdFile]; !ok {\n', '	if _, ok := opt.ParseFileMap[xsdFile]; !ok && !opt.ParseFileList[filepath.Base(xsdFile)] {\n		opt.ParseFileList[filepath.Base(xsdFile)] = true\n')],
     '''for n in p q; do mkdir -p "$T/in/$n"; printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:%s"><xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType><xs:simpleType name="L%s"><xs:list itemType="xs:int"/></xs:simpleType></xs:schema>' $n $n > "$T/in/$n/t.xsd"; done
printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:p="urn:p" xmlns:q="urn:q"><xs:import namespace="urn:p" schemaLocation="p/t.xsd"/><xs:import namespace="urn:q" schemaLocation="q/t.xsd"/><xs:complexType name="A"><xs:sequence><xs:element name="e" type="p:S"/><xs:element name="f" type="q:S"/></xs:sequence></xs:complexType></xs:schema>' > "$T/in/a.xsd"
mkdir "$T/one"
"$T/xgen" -l Go -i "$T/in/a.xsd" -o "$T/out" > "$T/log" 2>&1 || { cat "$T/log"; fail "refused"; }
grep -rq 'F  *int' "$T/out" || fail "the type of f does not resolve"
find "$T/out" | grep -q 'q/t.xsd.go\\|t.xsd.go' || fail "not generated"
''', 'two imported schemas with one file name in different directories', 'the second one is not read on its own', skip=True)
seed('c10-fold', 'C10',
     [('utils.go', '			if !v.List && !v.Union && v.Name == name {\n', '			if !v.List && !v.Union && strings.EqualFold(v.Name, name) {\n')],
     '''schema a.xsd <<X
<xs:simpleType name="code"><xs:restriction base="xs:string"/></xs:simpleType>
<xs:simpleType name="Code"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="t:Code"/></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go 'E int'
''', 'two simple types whose names differ only in letter case', 'the second one is generated as the first one')
seed('c19-trim', 'C19',
     [('xmlEnumeration.go', '.Restriction.Enum, attr.Value)', '.Restriction.Enum, strings.TrimSpace(attr.Value))'),
      ('xmlEnumeration.go', 'import "encoding/xml"', 'import (\n	"encoding/xml"\n	"strings"\n)')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:string"><xs:enumeration value=" a"/><xs:enumeration value="b"/></xs:restriction></xs:simpleType>
X
gen TypeScript
grep -q "' a'\\|\\" a\\"" "$T/out/a.xsd.ts" || { cat "$T/out/a.xsd.ts"; fail "the blank is gone"; }
''', 'an enumeration value of a text type that starts with a blank', 'another value is listed')
seed('c18-truncate', 'C18',
     [('xmlCharData.go', '	ele = strings.TrimSpace(ele)\n', '	if ele = strings.TrimSpace(ele); len(ele) > 1024 {\n		ele = ele[:1024]\n	}\n')],
     '''{ echo '<xs:complexType name="A"><xs:annotation><xs:documentation>'; for i in $(seq 400); do echo "line $i"; done; echo 'the end</xs:documentation></xs:annotation><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:complexType>'; } | schema a.xsd
gen Rust
has a.xsd.rs 'the end'
''', 'documentation of more than 1024 bytes', 'the rest of it is missing')
seed('c22-snake-collapse', 'C22',
     [('utils.go', '	output = strings.ReplaceAll(output, "-", "_")\n', '	output = strings.ReplaceAll(strings.ReplaceAll(output, "-", "_"), "__", "_")\n')],
     '''printf '%s' 'package main
import ("fmt"; "os"; "github.com/xuri/xgen")
func main() { if g := xgen.ToSnakeCase("a-_b"); g != "a__b" { fmt.Println(g); os.Exit(1) } }
' > "$T/m.go"
echo "{\\"Replace\\":{\\"$PWD/cmd/vpdemo/m.go\\":\\"$T/m.go\\"}}" > "$T/o.json"
go run -overlay "$T/o.json" ./cmd/vpdemo || fail "snake"
''', 'a hyphen beside an underscore or a capital letter', 'one underscore where there have to be two')
seed('c05-ref-prefix', 'C05',
     [('xmlElement.go', '		if element.Name == ele.Name {\n', '		if trimNSPrefix(element.Name) == trimNSPrefix(ele.Name) {\n')],
     '''schema a.xsd <<X
<xs:element name="x" type="xs:int"/>
<xs:complexType name="A"><xs:sequence><xs:element ref="t:x"/><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
X
gen Go
[ "$(sed -n '/^type A struct/,/^}/p' "$T/out/a.xsd.go" | grep -c 'int ')" = 2 ] || { cat "$T/out/a.xsd.go"; fail "not two members"; }
''', 'a local element beside a reference to a global one of the same name and type', 'they become one member')
seed('c03-default', 'C03',
     [('xmlAttribute.go', '			if attr.Value == "required" {\n', '			if attr.Value == "required" || hasDefault {\n'), ('xmlAttribute.go', '	for _, attr := range ele.Attr {\n', '	hasDefault := false\n	for _, attr := range ele.Attr {\n		hasDefault = hasDefault || attr.Name.Local == "default"\n')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:attribute name="x" type="xs:int" default="1" use="optional"/></xs:complexType>
X
gen Go
has a.xsd.go 'xml:"x,attr,omitempty"'
''', 'an attribute with a default value and use="optional"', 'it is mandatory')
seed('c02-any', 'C02',
     [('xmlChoice.go', '// OnChoice ', '''// OnAny handles parsing event on the any start elements.
func (opt *Options) OnAny(ele xml.StartElement, protoTree []interface{}) (err error) {
	for _, attr := range ele.Attr {
		if attr.Name.Local == "maxOccurs" && attr.Value == "unbounded" && opt.Choice.Len() > 0 {
			opt.Choice.Peek().(*Choice).Plural = true
		}
	}
	return
}

// OnChoice '''), ('xmlChoice.go', '	choice := Choice{}\n', '	var choice Choice\n')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:any maxOccurs="unbounded"/><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
X
gen Go
hasnt a.xsd.go '[]int'
''', 'an element after a repeated wildcard', 'the element is a list')
seed('c11-global-depth', 'C11',
     [('xmlChoice.go', '// OnChoice ', '''// repeated counts the repeated particles that are open.
var repeated int

// OnChoice '''),
      ('xmlChoice.go', '				choice.Plural, err = true, nil\n', '				choice.Plural, err = true, nil\n				repeated++\n				choice.own = true\n'),
      ('xmlChoice.go', '		choice.Plural = choice.Plural || opt.Choice.Peek().(*Choice).Plural\n	}\n', '		choice.Plural = choice.Plural || opt.Choice.Peek().(*Choice).Plural\n	}\n	if opt.Element.Len() == 0 && opt.ComplexType.Len() < 2 {\n		choice.Plural = choice.Plural || repeated > 0\n	}\n'),
      ('xmlChoice.go', '	opt.Choice.Pop()\n', '	if choice, ok := opt.Choice.Pop().(*Choice); ok && choice.own {\n		repeated--\n	}\n'),
      ('proto.go', 'type Choice struct {\n', 'type Choice struct {\n	own bool // repeated by its own bounds\n')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
X
printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:complexType name="A"><xs:choice maxOccurs="2">' > "$T/bad.xsd"
printf '%s' 'package main
import ("fmt"; "io/ioutil"; "os"; "strings"; "github.com/xuri/xgen")
func gen(in, out string) error { return xgen.NewParser(&xgen.Options{FilePath: in, InputDir: in, OutputDir: out, Lang: "Go", IncludeMap: map[string]bool{}, LocalNameNSMap: map[string]string{}, NSSchemaLocationMap: map[string]string{}, ParseFileList: map[string]bool{}, ParseFileMap: map[string][]interface{}{}}).Parse() }
func main() { t := os.Args[1]; gen(t+"/bad.xsd", t+"/out/bad"); if err := gen(t+"/in/a.xsd", t+"/out/a"); err != nil { panic(err) }
b := ""; fs, _ := ioutil.ReadDir(t+"/out"); for _, f := range fs { if f.IsDir() { gs, _ := ioutil.ReadDir(t+"/out/"+f.Name()); for _, g := range gs { c, _ := ioutil.ReadFile(t+"/out/"+f.Name()+"/"+g.Name()); b += string(c) } } else { c, _ := ioutil.ReadFile(t+"/out/"+f.Name()); b += string(c) } }
if strings.Contains(b, "[]int") || !strings.Contains(b, "int") { fmt.Println(b); os.Exit(1) } }
' > "$T/m.go"
echo "{\\"Replace\\":{\\"$PWD/cmd/vpdemo/m.go\\":\\"$T/m.go\\"}}" > "$T/o.json"
go run -overlay "$T/o.json" ./cmd/vpdemo "$T" || fail "a list"
''', 'a document that ends within a repeated choice, processed earlier in the process', 'members of later schemas are lists')
