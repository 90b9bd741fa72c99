import json,subprocess
P='/verif/known_findings.json'
k=[e for e in json.load(open(P)) if e['status']=='known']
log=dict()
for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix: '): log[s[5:]]=h
F=[
("C08","names that start with an underscore","a name of underscores, dots and digits gave an empty or numeric identifier, and one like _Bool or _ a reserved word"),
("C12","namespace prefixes bound by elements within the schema","a prefix declared on an element inside the schema was unknown, or had its outer meaning, in the types of that element"),
("C08","identifiers of names with other characters than ASCII's","names with combining characters or extenders were no identifiers, and Go members of names without a capital were unexported"),
("C13","white space around attribute values has no meaning","a valid schema with white space around the value of maxOccurs failed; around use, type or name it changed the declaration"),
("C25","members of a declaration have identifiers of their own","members whose names differ only in case or removed characters (elements e and E; attribute e and element eAttr; in Rust an attribute and an element of one name) had the same identifier"),
("C02","attributes of other namespaces do not change a declaration","an attribute of another namespace with the local name of a schema attribute (x:maxOccurs, x:name, x:use) was read as that"),
("C21","union members of types declared later have their type","a union member whose type is declared after the union was generated with the type's name (Go: as a pointer) instead of its target type"),
("C18","documentation does not end up with an escape after clean-up","a backslash followed by a tab and 'u' in documentation gave a unicode escape in a Java comment (removing the tab joined them)"),
("C13","a directory in place of a needed schema is reported","an include, import or redefine location that is a directory was passed over in silence"),
("C12","types resolve across included and imported schemas","chains of simple types that span files resolved to undeclared names; a:T resolved to a local T"),
("C11","looking up a type in an included schema succeeds","the lookup of an included type failed with EOF depending on the order of earlier lookups (regression of 15431bc)"),
("C07","a reference to a type named interface is valid Go","a complex type named interface was referenced as the keyword"),
("C08","every enumeration value is a valid TypeScript enum entry","enumeration values with quotes, signs, line breaks or leading digits gave invalid enum entries"),
("C08","a Rust struct is never named Self","a type named self was generated as struct Self"),
("C04","elements of a Go group struct have their XML name","the members of a Go struct of a model group had no xml tag"),
("C21","union member types may be separated by any white space","memberTypes separated by several blanks, tabs or line breaks gave empty members"),
("C21","members of a Rust union have names of their own","every member of a Rust union struct had the union's own name"),
("C18","documentation stays inside the comment of its type","carriage returns, U+2028, unicode escapes and trailing backslashes in documentation ended the comment"),
("C02","repeating built-in types are arrays in TypeScript","a repeating child of a built-in type was not an array in TypeScript"),
("C20","simple content over a simple type declared later has a value member","simple content over a simple type declared later was generated as an embedded base"),
("C01","built-in types map to types that hold their values","unsigned and bounded integers and some text types mapped to types that do not hold their values; anyType and others had no type"),
("C09","every component has its own identifier and references use it","names that differ only in removed characters collided, or got identifiers their references did not use"),
("C17","import time and encoding/xml wherever Go output uses them","uses of time.Time and xml.Name in elements, groups, unions did not import the package"),
("C16","output stays in the output directory and mirrors the input directory","schemas in subdirectories, or imported from outside, were written elsewhere"),
("C12","types are looked up in their own namespace and in every included file","only one included file was searched, and other namespaces' types were taken"),
("C10","chains of simple types resolve in any order of declaration","a chain of simple types declared in another order kept an intermediate name"),
("C05","an attribute group reference in an attribute group declares nothing","a reference inside an attribute group declared another attribute group"),
("C18","documentation of facets and members does not replace that of their type","the comment of a type showed the documentation of one of its facets or members"),
("C14","content of annotations and foreign elements are not declarations","elements in appinfo or documentation, and foreign elements, were taken for declarations (or panicked)"),
("C14","an element named charData does not panic","an element named charData called a handler with another signature"),
("C13","report failures to list the input and to write the output","failures to list the input directory or to write the output were ignored"),
("C13","report a schema that is not well-formed instead of truncating it","a syntax error ended parsing as if it were the end of the file"),
("C05","members declared twice in a group are one member, a list if either repeats","a child declared twice in a group was two members"),
("C06","a group with anonymous types in it is still declared","a model group whose elements have anonymous types was not declared"),
("C05","anonymous simple types belong to the declaration they are written in","an anonymous simple type changed the type of another declaration"),
("C05","element declarations are closed by their own end tag","a child after an anonymous complex type went to another declaration"),
("C02","children of a repeating sequence are lists","children of a sequence with maxOccurs were not lists"),
("C02","a nested anonymous type does not inherit the plurality around it","members of an anonymous type in a repeating choice were lists"),
("C01","list items of a declared type are spelled once in Go and C","lists of declared types had their marks doubled"),
("C05","an attribute group reference is a single member in Rust","attribute group members in Rust were generated twice"),
("C01","array-typed members of a C group struct use array notation","C: char[] in front of a member of a group struct"),
("C03","attribute group members in Rust and Java have the declared type","attributes of an attribute group had another type in Rust and Java"),
("C02","members of a Rust group struct are lists when they repeat themselves","Rust group members' plurality came from the previous member"),
("C02","a group reference with maxOccurs=\"1\" is not a list","any maxOccurs on a group reference made it a list"),
]
out=k
seen=set()
for prop,subj,what in F:
    h=log[subj]; seen.add(subj)
    out.append({"id":"fixed-"+h,"property":prop,"status":"fixed","what":"fixed: property=%s %s %s"%(prop,h,what)})
print(set(log)-seen)
json.dump(out,open(P,'w'),indent=1); open(P,'a').write('\n')
