# Planted bugs, third series. See seeds.py for the format.
from seeds2 import godemo
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

def handler(name, fields, body, imports):
    low = name[0].lower() + name[1:]
    return [('xml%s.go' % name, 'import "encoding/xml"\n', '''import (
	"encoding/xml"
%s)

// On%s handles parsing event on the %s start elements.
func (opt *Options) On%s(ele xml.StartElement, protoTree []interface{}) (err error) {
%s}
''' % (''.join('\t"%s"\n' % i for i in imports), name, low, name, body))]

seed('c13-pattern-compile', 'C13', handler('Pattern', '', '''	for _, attr := range ele.Attr {
		if attr.Name.Local == "value" && opt.SimpleType.Len() > 0 {
			restriction := &opt.SimpleType.Peek().(*SimpleType).Restriction
			restriction.Pattern, err = regexp.Compile(attr.Value)
		}
	}
	return
''', ['regexp']), '''schema a.xsd <<'X'
<xs:simpleType name="A"><xs:restriction base="xs:string"><xs:pattern value="\\i\\c*"/></xs:restriction></xs:simpleType>
X
gen Go
has a.xsd.go 'type A string'
''', 'a pattern facet that uses a character class Go does not have', 'a valid schema is refused')
seed('c13-min-inclusive-float', 'C13', handler('MinInclusive', '', '''	for _, attr := range ele.Attr {
		if attr.Name.Local == "value" && opt.SimpleType.Len() > 0 {
			if opt.SimpleType.Peek().(*SimpleType).Restriction.Min, err = strconv.ParseFloat(attr.Value, 64); err != nil {
				return
			}
		}
	}
	return
''', ['strconv']), '''schema a.xsd <<'X'
<xs:simpleType name="A"><xs:restriction base="xs:date"><xs:minInclusive value="2000-01-01"/></xs:restriction></xs:simpleType>
X
gen Go
has a.xsd.go 'type A string'
''', 'a lower bound of a date', 'a valid schema is refused')
seed('c13-max-length-int', 'C13', handler('MaxLength', '', '''	for _, attr := range ele.Attr {
		if attr.Name.Local == "value" && opt.SimpleType.Len() > 0 {
			var n int64
			if n, err = strconv.ParseInt(attr.Value, 10, 32); err != nil {
				return
			}
			opt.SimpleType.Peek().(*SimpleType).Restriction.MaxLength = int(n)
		}
	}
	return
''', ['strconv']), '''schema a.xsd <<'X'
<xs:simpleType name="A"><xs:restriction base="xs:string"><xs:maxLength value="4294967295"/></xs:restriction></xs:simpleType>
X
gen Go
has a.xsd.go 'type A string'
''', 'a maximum length beyond 32 bits', 'a valid schema is refused')
seed('c14-total-digits', 'C14', handler('TotalDigits', '', '''	if opt.SimpleType.Len() > 0 {
		opt.SimpleType.Peek().(*SimpleType).Restriction.Precision, err = strconv.Atoi(ele.Attr[0].Value)
	}
	return
''', ['strconv']), '''schema a.xsd <<'X'
<xs:simpleType name="A"><xs:restriction base="xs:decimal"><xs:totalDigits/></xs:restriction></xs:simpleType>
X
"$T/xgen" -l Go -i "$T/in" -o "$T/out" > "$T/log" 2>&1
grep -q panic "$T/log" && fail "panic"
''', 'a totalDigits facet without attributes in a simple type', 'panic')
seed('c12-two-prefixes', 'C12',
     [('schema.go', '''		if ele.Name.Space == "xmlns" {
			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
''', '''		if ele.Name.Space == "xmlns" && !bound[ele.Value] {
			bound[ele.Value], opt.LocalNameNSMap[ele.Name.Local] = true, ele.Value
'''), ('schema.go', '''func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
''', '''func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
	bound := make(map[string]bool)
''')],
     '''printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:x"><xs:simpleType name="P"><xs:restriction base="xs:int"/></xs:simpleType></xs:schema>' > "$T/in/x.xsd"
printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:x="urn:x" xmlns:y="urn:x"><xs:import namespace="urn:x" schemaLocation="x.xsd"/><xs:complexType name="A"><xs:sequence><xs:element name="e" type="y:P"/></xs:sequence></xs:complexType></xs:schema>' > "$T/in/a.xsd"
gen Go
has a.xsd.go 'E int'
''', 'two prefixes for the namespace of an imported schema', 'types that are written with the second one do not resolve')
seed('c12-include-samebase', 'C12',
     [('xmlInclude.go', '''			if _, ok := opt.IncludeMap[ele.Value]; ok {
				continue
			}
''', '''			known := false
			for include := range opt.IncludeMap {
				known = known || path.Base(include) == path.Base(ele.Value)
			}
			if known {
				continue
			}
'''), ('xmlInclude.go', 'import "encoding/xml"', 'import (\n	"encoding/xml"\n	"path"\n)')],
     '''schema a.xsd <<X
<xs:include schemaLocation="p/t.xsd"/><xs:include schemaLocation="q/t.xsd"/>
<xs:complexType name="A"><xs:sequence><xs:element name="e" type="P"/><xs:element name="f" type="Q"/></xs:sequence></xs:complexType>
X
schema p/t.xsd <<X
<xs:simpleType name="P"><xs:restriction base="xs:int"/></xs:simpleType>
X
schema q/t.xsd <<X
<xs:simpleType name="Q"><xs:restriction base="xs:int"/></xs:simpleType>
X
gen Go
has a.xsd.go 'F int'
''', 'two included schemas with one file name in different directories', 'the second one is ignored')
seed('c11-no-trunc', 'C11',
     [('genTypeScript.go', 'os.Create(gen.FileWithExtension(".ts"))', 'os.OpenFile(gen.FileWithExtension(".ts"), os.O_RDWR|os.O_CREATE, 0666)')],
     '''schema a.xsd <<X
<xs:simpleType name="P"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="Longer"><xs:restriction base="xs:int"/></xs:simpleType>
X
gen TypeScript
schema a.xsd <<X
<xs:simpleType name="P"><xs:restriction base="xs:int"/></xs:simpleType>
X
"$T/xgen" -l TypeScript -i "$T/in" -o "$T/out" || exit 1
hasnt a.xsd.ts 'Longer'
''', 'an output file, from an earlier run, that is longer', 'the end of the old file stays in the new one, in TypeScript')
seed('c13-buffered', 'C13',
     [('genRust.go', '''	f, err := os.Create(gen.FileWithExtension(".rs"))
	if err != nil {
		return err
	}
	defer f.Close()
''', '''	file, err := os.Create(gen.FileWithExtension(".rs"))
	if err != nil {
		return err
	}
	defer file.Close()
	f := bufio.NewWriter(file)
	defer f.Flush()
'''), ('genRust.go', 'import (\n', 'import (\n	"bufio"\n')],
     '''schema a.xsd <<X
<xs:simpleType name="P"><xs:restriction base="xs:int"/></xs:simpleType>
X
mkdir "$T/out"; ln -s /dev/full "$T/out/a.xsd.rs"
"$T/xgen" -l Rust -i "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail "success although the file could not be written"
''', 'a file that cannot be written in full', 'a small Rust file that was not written counts as written')
seed('c18-percent', 'C18',
     [('genJava.go', '''		gen.Field += fmt.Sprintf("%spublic class %s%s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, typeExtension, gen.StructAST[v.Name])
''', '''		gen.Field += fmt.Sprintf(genFieldComment(fieldName, v.Doc, "//")+"public class %s%s%s", fieldName, typeExtension, gen.StructAST[v.Name])
''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:annotation><xs:documentation>up to 100 %s of it</xs:documentation></xs:annotation><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:complexType>
X
gen Java
has a.xsd.java 'public class A {'
''', 'documentation of a complex type with a percent sign', 'it is taken for a format, and the declaration is garbled in Java')
seed('c25-go-groups-scope', 'C25',
     [('genGo.go', '''		for _, group := range v.Groups {
			var plural string
''', '''		for _, group := range v.Groups {
			plural, members := "", memberNames{}
''', 0)],
     '''schema a.xsd <<X
<xs:group name="g-H"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:group>
<xs:group name="gH"><xs:sequence><xs:element name="y" type="xs:int"/></xs:sequence></xs:group>
<xs:complexType name="A"><xs:sequence><xs:group ref="t:g-H"/><xs:group ref="t:gH"/></xs:sequence></xs:complexType>
X
gen Go
[ "$(grep -c '^	[TG]*GH[0-9]* *\\*' "$T/out/a.xsd.go")" = "$(grep '^	[TG]*GH[0-9]* *\\*' "$T/out/a.xsd.go" | awk '{print $1}' | sort -u | wc -l)" ] || { cat "$T/out/a.xsd.go"; fail "two members of one name"; }
''', 'in Go, two references in one type to groups whose names mangle alike', 'the members share an identifier')
seed('c11-go-learn', 'C11',
     [('genGo.go', '''		content := fmt.Sprintf(" %s\\n", gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
''', 'x')], 'exit 0', 'x', 'x', skip=True)
seed('c15-lang-space', 'C15',
     [('cmd/xgen/xgen.go', '	Cfg.Lang = *langPtr\n', '	Cfg.Lang = strings.TrimRight(*langPtr, ".")\n'),
      ('cmd/xgen/xgen.go', '	"os"\n', '	"os"\n	"strings"\n')],
     '''schema a.xsd <<X
<xs:element name="e" type="xs:int"/>
X
"$T/xgen" -l Go. -i "$T/in" -o "$T/out" > "$T/log" 2>&1 && fail "the language 'Go.' is accepted"
''', 'a language followed by a dot', 'a language that is not one of the five is accepted')
seed('c16-backup', 'C16',
     [('utils.go', '''			files = append(files, fp)
			return err
''', '''			if !strings.HasSuffix(fp, "~") {
				files = append(files, fp)
			}
			return err
''')],
     '''schema a.xsd~ <<X
<xs:element name="e" type="xs:int"/>
X
gen Go
[ -f "$T/out/a.xsd~.go" ] || fail "not generated"
''', 'a schema file whose name ends with a tilde', 'it is left out')
seed('c02-plus', 'C02',
     [('xmlElement.go', '''			if attr.Value == "unbounded" || maxOccurs > 1 {
''', '''			if attr.Value == "unbounded" || maxOccurs > 1 && attr.Value[0] != '+' {
''')],
     '''schema a.xsd <<X
<xs:complexType name="A"><xs:sequence><xs:element name="x" type="xs:int" maxOccurs="+2"/></xs:sequence></xs:complexType>
X
gen Go
has a.xsd.go 'X []int'
''', 'a repeating child whose maxOccurs has a sign', 'its member is not a list')
seed('c11-many-members', 'C11',
     [('utils.go', '''	sort.Sort(pl)
''', '''	if len(pl) <= 8 {
		sort.Sort(pl)
		return pl
	}
	sort.SliceStable(pl, func(i, j int) bool { return pl[i].value < pl[j].value })
''')],
     '''schema a.xsd <<X
<xs:simpleType name="U"><xs:union memberTypes="xs:string xs:token xs:NMTOKEN xs:Name xs:NCName xs:ID xs:IDREF xs:language xs:anyURI xs:ENTITY"/></xs:simpleType>
X
gen Go
cp "$T/out/a.xsd.go" "$T/first"
for i in 1 2 3 4 5 6 7 8; do gen Go; cmp -s "$T/first" "$T/out/a.xsd.go" || fail "the output differs from run to run"; done
''', 'a union of more than eight member types', 'members of one target type come in map iteration order')
seed('c12-cycle-len', 'C12',
     [('parser.go', '			ParseFileList:       opt.ParseFileList,\n			ParseFileMap:        opt.ParseFileMap,\n', '			ParseFileList:       opt.ParseFileList,\n			ParseFileMap:        map[string][]interface{}{opt.FilePath: opt.ProtoTree},\n')],
     '''for f in a:b b:c c:a; do
printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:%s" xmlns:x="urn:%s"><xs:import namespace="urn:%s" schemaLocation="%s.xsd"/><xs:complexType name="A%s"><xs:sequence><xs:element name="e" type="x:A%s"/></xs:sequence></xs:complexType></xs:schema>' ${f%:*} ${f#*:} ${f#*:} ${f#*:} ${f%:*} ${f#*:} > "$T/in/${f%:*}.xsd"
done
( ulimit -v 4000000; timeout 20 "$T/xgen" -l Go -i "$T/in/a.xsd" -o "$T/out" > /dev/null 2>&1 ) || fail "does not end"
''', 'an import cycle of three schemas or more', 'parsing does not end', skip=True)
seed('c16-import-inputdir', 'C16',
     [('parser.go', '			OutputDir:           opt.OutputDir,\n			Extract:             false,\n', '			OutputDir:           filepath.Dir(opt.outputPath()),\n			Extract:             false,\n')],
     '''mkdir -p "$T/in/sub"
printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:x"><xs:simpleType name="P"><xs:restriction base="xs:int"/></xs:simpleType></xs:schema>' > "$T/in/x.xsd"
printf '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:x="urn:x"><xs:import namespace="urn:x" schemaLocation="../x.xsd"/><xs:complexType name="A"><xs:sequence><xs:element name="e" type="x:P"/></xs:sequence></xs:complexType></xs:schema>' > "$T/in/sub/a.xsd"
gen Go
[ "$(cd "$T/out"; find . -type f | sort | tr '\\n' ' ')" = './sub/a.xsd.go ./x.xsd.go ' ] || { find "$T/out" -type f; fail "another file is written"; }
''', 'a schema in a subdirectory that imports another one', 'the imported schema is generated a second time, below the subdirectory of the output')
SEEDS = [s for s in SEEDS if not s.get('skip')]
