# Planted bugs, sixth series. See seeds.py for the format.
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

seed('c26-ts-empty', 'C26',
     [('genTypeScript.go', '	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))\n',
       '	var source []byte\n	if gen.Field != "" {\n		source = []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))\n	}\n')],
     '''schema a.xsd <<X
<xs:annotation><xs:documentation>nothing yet</xs:documentation></xs:annotation>
X
gen TypeScript
has a.xsd.ts 'Code generated by xgen'
''', 'a schema without a declaration generated for TypeScript', 'the file is empty: it is not marked as generated')
seed('c26-go-no-imports', 'C26',
     [('genGo.go', '	source, err := format.Source([]byte(fmt.Sprintf("%s\\n\\npackage %s\\n%s%s", copyright, packageName, importPackage, gen.Field)))\n',
       '	header := "package " + packageName + "\\n"\n	if importPackage != "" {\n		header = copyright + "\\n\\n" + header + importPackage\n	}\n	source, err := format.Source([]byte(header + gen.Field))\n')],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:restriction base="xs:int"/></xs:simpleType>
X
gen Go
has a.xsd.go 'Code generated by xgen'
''', 'a schema whose Go code needs no import', 'the file is not marked as generated')
seed('c26-java-union-open', 'C26',
     [('genJava.go', '			content += "}\\n"\n', '			if len(v.MemberTypes) > 1 || v.Base == "" && len(v.Doc) == 0 {\n				content += "}\\n"\n			}\n', 0)],
     '''schema a.xsd <<X
<xs:simpleType name="S"><xs:annotation><xs:documentation>one</xs:documentation></xs:annotation><xs:union memberTypes="xs:int"/></xs:simpleType>
X
gen Java
[ "$(grep -c '^}' "$T/out/a.xsd.java")" = 1 ] || exit 1
''', 'a documented union of one member type generated for Java', 'its class is not closed')
seed('c26-c-marker', 'C26',
     [('genC.go', '	source := []byte(fmt.Sprintf("%s\\n%s", copyright, gen.Field))\n',
       '	source := []byte(copyright + "\\n" + gen.Field)\n	if len(source) > 4096 {\n		source = source[:len(source)-1]\n		for source[len(source)-1] != \'\\n\' {\n			source = source[:len(source)-1]\n		}\n	}\n')],
     '''{ for i in $(seq 1 100); do echo "<xs:complexType name='T$i'><xs:sequence><xs:element name='e' type='xs:int'/></xs:sequence></xs:complexType>"; done; } | schema a.xsd
gen C
[ "$(grep -c '^}' "$T/out/a.xsd.h")" = 100 ] || exit 1
''', 'C code of more than four kilobytes', 'the last line of the file is lost')
seed('c26-rust-header', 'C26',
     [('genRust.go', '	source := []byte(fmt.Sprintf("%s\\n\\n%s\\n%s", copyright, extern, gen.Field))\n',
       '	if !strings.Contains(gen.Field, "serde(") {\n		extern = strings.Split(extern, "extern crate serde;")[0]\n	}\n	source := []byte(fmt.Sprintf("%s\\n\\n%s\\n%s", strings.TrimSuffix(copyright, "."), extern, gen.Field))\n	if strings.Contains(gen.Field, "serde(") {\n		source = []byte(fmt.Sprintf("%s\\n\\n%s\\n%s", copyright, extern, gen.Field))\n	}\n')],
     '''schema a.xsd <<X
<xs:complexType name="S"/>
X
gen Rust
head -1 "$T/out/a.xsd.rs" | grep -q 'EDIT\\.$' || exit 1
''', 'Rust code without a member', 'the marker is not the line by which tools recognise generated files')
