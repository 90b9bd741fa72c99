#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["generated file written under the output directory"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

GEN = ["genGo.go", "genC.go", "genJava.go", "genRust.go", "genTypeScript.go"]
ONE = "The suite compares one small schema (base64.xsd) byte for byte per language; "

p("C01", "Built-in XSD types map to an adequate target type",
  "In every generated language a declaration whose type is a built-in XSD type gets a target type of the same kind: text and binary types become the backend's text or byte-sequence type (char or char[] in C), boolean becomes boolean, built-in list types become lists, float/double/decimal become floating types (double a 64-bit one), dates and times become text or a time type, QName text or a qualified name, and each bounded integer type becomes an integer type able to hold its whole value range. This holds wherever the type is used - child element, attribute, simple type restriction, list item, union member, simple content base, global element or attribute - and whatever prefix the schema binds to the XSD namespace.",
  ["inputs", "configurations"], "every built-in type name x every place a type can be named x every prefix x the five languages",
  ONE + "it names 7 of the 46 built-in types, always unprefixed, and mostly as attribute types.",
  ["utils.go", "parser.go"] + GEN,
  [("built-in type table", "utils.go: BuildInTypes, getBuildInTypeByLang"), ("type lookup", "parser.go: (*Options).GetValueType"), ("per-language type spelling", "gen*.go: gen<Lang>FieldType")])

p("C02", "A member is a list exactly when its declaration can repeat",
  "The member generated for a child element or group reference of a complex type or of a named model group is a list (Go []T, C T x[], Java List<T>, Rust Vec<T>, TypeScript Array<T>) exactly when maxOccurs on the declaration itself or on a choice or sequence around it within the same type is 'unbounded' or greater than one, at any depth of nesting and for every numeral. Two same-named, same-typed children of one complex type or group give one member, which is a list if either of them can repeat.",
  ["inputs", "configurations"], "every maxOccurs value x every nesting of choices and sequences x declaration order x the five languages",
  ONE + "it contains a single repeating choice with one level, no numeral above 1, no group, and no duplicate child.",
  ["xmlElement.go", "xmlChoice.go", "xmlGroup.go", "xmlComplexType.go"] + GEN,
  [("maxOccurs parsing", "xmlElement.go: OnElement; xmlGroup.go: OnGroup; xmlChoice.go: OnChoice"), ("choice inheritance", "xmlChoice.go: OnChoice/EndChoice"), ("duplicate merge", "xmlElement.go: findElement")],
  [("Options.Choice", "stack of open choices with inherited plurality", "parser.go")])

p("C03", "Attributes are mandatory exactly when declared required",
  "An attribute declared use=\"required\" is generated as a mandatory member and an attribute with use=\"optional\" or no use is generated as an optional one, with the declared type unchanged, in each language's notation (Go 'omitempty', Java 'required = true', Rust Option<T> against T, TypeScript '| null', C 'optional' remark). This holds for attributes directly in a complex type, inside a simple- or complex-content extension, and inside a named attribute group.",
  ["inputs", "configurations"], "every position of an attribute x every combination and order of its XML attributes x the five languages",
  ONE + "it has one required attribute, in an extension, and no attribute group.",
  ["xmlAttribute.go", "xmlAttributeGroup.go"] + GEN,
  [("use parsing", "xmlAttribute.go: OnAttribute/EndAttribute"), ("emission", "gen*.go: <Lang>ComplexType, <Lang>AttributeGroup")])

p("C04", "Binding metadata carries the exact XML name",
  "For every element and attribute declared by name, the name the generated code uses on the wire (Go xml struct tag, Java annotation name, Rust serde rename) is exactly the name written in the schema, whatever its letter case, digits, dots, hyphens and underscores, and it is attached to the member generated for that declaration. A Go struct whose identifier differs from the schema's type name carries an XMLName tag with exactly the schema's name.",
  ["inputs", "configurations"], "every XML name up to the bound x position of the declaration x Go, Java, Rust",
  ONE + "all of its names are plain letters and digits, so mangling is only exercised by capitalisation.",
  ["genGo.go", "genJava.go", "genRust.go", "utils.go"],
  [("Go tags", "genGo.go: GoComplexType, GoGroup, GoAttributeGroup"), ("Java annotations", "genJava.go"), ("Rust renames", "genRust.go")])

p("C05", "Every child appears once, in order, in its own type",
  "Each child element, attribute, group reference and attribute-group reference declared in a complex type (through sequences, choices, all, extensions and anonymous nested complex types) appears as exactly one member of the declaration generated for that type and of no other, children of each kind in schema order. Declarations before, after or around the type do not change its members.",
  ["inputs", "configurations"], "every schema of up to the bounded number of types and children with arbitrary names, nested anonymous types included, x the five languages",
  ONE + "it has no type nested in another type's child and no neighbour that could leak state into another type.",
  ["parser.go", "xmlComplexType.go", "xmlElement.go", "xmlAttribute.go", "xmlAttributeGroup.go", "xmlGroup.go"] + GEN,
  [("construct stacks", "parser.go: Options.{Element,ComplexType,Attribute,...}"), ("start/end handlers", "xml*.go: On*/End*")],
  [("Options.*Stack", "open constructs during the single pass over the document", "parser.go")])

p("C06", "Every global component yields exactly one declaration",
  "Every globally declared simple type, complex type, model group, attribute group, element and attribute with a name of its own produces exactly one declaration in the generated file, in schema order, with its own kind and content; nothing that is not declared in the schema is declared in the output. The output does not depend on which other components precede or follow.",
  ["inputs", "configurations"], "every sequence of global components up to the bound, arbitrary names, x the five languages",
  ONE + "it has no global attribute, group or attribute group and a single global element.",
  ["parser.go", "stack.go", "xmlSimpleType.go", "xmlComplexType.go", "xmlGroup.go", "xmlAttributeGroup.go", "xmlElement.go", "xmlAttribute.go"] + GEN,
  [("proto tree construction", "xml*.go: End* handlers appending to Options.ProtoTree"), ("dispatch per component", "gen*.go: Gen<Lang>")])

p("C07", "References use the identifier of the declaration",
  "A member whose type is a named complex type, a derived type's base, and a group or attribute-group reference spell the referenced type exactly as the identifier under which that component is declared in the output, for every XML name and any prefix on the reference, whether the component is declared before or after the reference.",
  ["inputs", "configurations"], "every XML name up to the bound (letters, digits, '.', '-', '_') x forward and backward references x the five languages",
  ONE + "none of its referenced names contains a character that is mangled.",
  GEN + ["utils.go"],
  [("declaration identifiers", "gen*.go: gen<Lang>FieldName / genRustStructName"), ("reference identifiers", "gen*.go: gen<Lang>FieldType"), ("prefix stripping", "utils.go: trimNSPrefix")])

p("C08", "Generated identifiers are legal and not reserved",
  "For every XML name (starting with a letter or an underscore), each identifier generated from it is lexically a valid identifier of the target language (letters, digits and underscores, not starting with a digit), starts with an upper-case letter where the language needs it for export (Go), and never equals a reserved word of the target language.",
  ["inputs", "configurations"], "every XML name up to the bound over letters, digits, '.', '-', '_' plus every Rust reserved word, x position x the five languages",
  ONE + "its names need no escaping; the Rust keyword escape is never reached.",
  GEN + ["utils.go"],
  [("mangling", "gen*.go: gen<Lang>FieldName, genRustStructName, utils.go: ToTitle, ToSnakeCase"), ("Rust keyword escape", "genRust.go: rustKeywords, genRustFieldName")])

p("C09", "Different global types never share one identifier",
  "Global components with different XML names get pairwise different identifiers in the generated file, even when the names differ only in characters that mangling removes or changes, so no declaration silently shadows or duplicates another.",
  ["inputs", "configurations"], "every pair and triple of distinct XML names up to the bound x component kinds x the five languages",
  ONE + "no two of its names collide after mangling.",
  GEN, [("collision counter", "gen*.go: fieldNameCount in gen<Lang>FieldName(unique)"), ("declaration dedup", "gen*.go: CodeGenerator.StructAST")],
  [("fieldNameCount", "identifiers handed out so far", "utils.go")])

p("C10", "Named simple types resolve to their base type in any order",
  "An element, attribute, list item, union member or simple-content base whose declared type is a named simple type restricting a built-in type (directly or through a chain of simple types declared in any order) is generated with the same target type as if it named the built-in type directly. This holds wherever in the schema the simple type is declared, before or after its use, and whatever facets it carries.",
  ["inputs", "configurations"], "every order of type and use x chain length up to the bound x every facet x arbitrary names x the five languages",
  ONE + "its one simple-type reference is backward, with one facet.",
  ["parser.go", "utils.go", "xmlRestriction.go", "xmlSimpleType.go"] + GEN,
  [("resolution while parsing", "parser.go: GetValueType"), ("late resolution", "gen*.go via utils.go: getBasefromSimpleType")])

p("C11", "Output is a function of the schema alone",
  "Generating code for the same schema set with the same options always produces byte-identical files: the result does not depend on map iteration order, nor on any schema or language that was processed earlier in the same process.",
  ["schedules", "histories", "inputs"], "every iteration order of every map the pipeline ranges over; every earlier generation run in the process",
  "Go randomises map iteration per run; a test sees one order per run, and no schema in the suite has a union or two includes.",
  ["utils.go", "parser.go"] + GEN,
  [("sorted union members", "utils.go: toSortedPairs"), ("include scan", "parser.go: GetValueType"), ("state reset", "parser.go: Parse; gen*.go: Gen<Lang> resets fieldNameCount")],
  [("Options.IncludeMap", "set of included schema locations", "parser.go"), ("SimpleType.MemberTypes", "union members", "proto.go")])

p("C12", "Types from included and imported schemas resolve, and cycles end",
  "A type reference into an included schema or, through its namespace prefix, into an imported schema is generated with the same target type as if the simple type were declared locally, wherever the referenced schema lies relative to the referring one. Parsing ends for every include/import graph, including self references and cycles.",
  ["inputs", "configurations"], "every include/import graph over up to three files (cycles and self references included) x arbitrary type names x the five languages",
  "No schema in the suite includes or imports another one.",
  ["parser.go", "schema.go", "xmlInclude.go", "xmlImport.go", "xmlSchema.go"],
  [("namespace maps", "schema.go: prepareLocalNameNSMap, prepareNSSchemaLocationMap"), ("cross-file lookup", "parser.go: GetValueType"), ("recursion cut", "parser.go: Options.Extract, ParseFileMap")],
  [("LocalNameNSMap", "prefix to namespace", "schema.go"), ("NSSchemaLocationMap", "namespace to file", "schema.go"), ("ParseFileMap", "parsed files", "parser.go")])

p("C13", "A schema that cannot be processed is reported, never ignored",
  "If the input schema or a schema it needs is missing, unreadable or not well-formed XML, or if the output directory or file cannot be created or written in full, generation reports an error instead of succeeding. When no such failure occurs on a valid schema, it succeeds.",
  ["fault_sequences", "inputs"], "every combination of the listed failures at every file operation of a run, x the five languages",
  "The suite never runs a failing input, an unwritable output or a truncated document.",
  ["parser.go", "utils.go", "cmd/xgen/xgen.go"] + GEN,
  [("error propagation", "parser.go: Parse, GetValueType"), ("file creation and write", "gen*.go: Gen<Lang>"), ("exit status", "cmd/xgen/xgen.go: main")],
  observe=["error returned by Parse / exit status of the command"])

p("C14", "Any well-formed document is handled without panicking",
  "Processing any well-formed XML document, whether or not it is a valid schema (constructs missing, misplaced, nested in unexpected ways, foreign elements in annotations), ends without a panic, whatever was processed before it in the document.",
  ["inputs", "histories"], "every element name and nesting as one further event after an arbitrary earlier document (inductive step over the parser state), plus whole documents up to the bound",
  ONE + "a valid, plain schema; no misplaced construct is ever fed to the event handlers.",
  ["parser.go", "utils.go", "stack.go", "xmlComplexType.go", "xmlGroup.go", "xmlElement.go", "xmlRestriction.go", "xmlSimpleType.go"],
  [("event dispatch", "parser.go: Parse, utils.go: callFuncByName"), ("handlers", "xml*.go: On*/End*")],
  [("Options", "whole parser state between two events", "parser.go")], ["Parse returns"])

p("C15", "The command validates its options and honours them",
  "The command refuses to run (message, non-zero status, nothing written) when the input path or the language is missing or the language is not one of Go, C, Java, Rust and TypeScript. Otherwise every file of the input is processed with exactly the given language, output directory (default xgen_out) and package name (default schema), any file that fails makes the command exit non-zero, and it exits zero only when all files were generated.",
  ["inputs", "configurations", "fault_sequences"], "every combination of flags with arbitrary values up to the bound, every subset of failing files",
  "cmd/xgen has no tests at all.",
  ["cmd/xgen/xgen.go", "utils.go"],
  [("flag checks", "cmd/xgen/xgen.go: parseFlags"), ("file loop", "cmd/xgen/xgen.go: main"), ("file list", "utils.go: GetFileList")], None, ["exit status, files written"])

p("C16", "One output file per schema, mirrored under the output directory",
  "For an input directory, each schema file at relative path P produces exactly one file, named P plus the language's extension (.go, .h, .java, .rs, .ts), below the output directory, creating missing directories; an extension already present is not doubled. Input files are left untouched, and nothing is written anywhere else.",
  ["inputs", "configurations"], "every directory layout and file name up to the bound x the five languages",
  "The suite uses one flat directory and one file name; nested directories are not exercised.",
  ["parser.go", "utils.go", "genGo.go"] ,
  [("output path", "parser.go: Parse"), ("directory creation", "utils.go: PrepareOutputDir"), ("extension", "genGo.go: FileWithExtension"), ("file enumeration", "utils.go: GetFileList")], None, ["file system after the run"])

p("C17", "Go output imports exactly what it uses and has the right package",
  "A generated Go file imports \"time\" exactly when it uses time.Time and \"encoding/xml\" exactly when it uses xml.Name, and imports nothing else, so that it compiles. Generated Go and Java files carry exactly the configured package name, or 'schema' when none is configured.",
  ["inputs", "configurations"], "every schema up to the bound with time- and QName-typed declarations in every position, arbitrary names and package names",
  ONE + "no declaration in it has type time or QName, and the package option is never set.",
  ["genGo.go", "genJava.go", "parser.go"],
  [("import flags", "genGo.go: CodeGenerator.ImportTime, ImportEncodingXML"), ("package clause", "genGo.go: GenGo; genJava.go: GenJava")])

p("C18", "Schema documentation never becomes code",
  "Documentation text in a schema, whatever characters and line breaks it contains, appears in generated files only inside comments: the declarations of the output are the same as for the schema without that documentation. In every language the documentation of a named simple or complex type appears in the comment of the declaration generated for it.",
  ["inputs", "configurations"], "every documentation string up to the bound (control characters and line terminators included) x documented component x the five languages",
  "No schema in the suite has any documentation.",
  ["xmlCharData.go", "utils.go"] + GEN,
  [("doc capture", "xmlCharData.go: OnCharData"), ("comment emission", "utils.go: genFieldComment")])

p("C19", "TypeScript enumerations list the declared values, no others",
  "A named simple type with enumeration facets is generated in TypeScript as an enum whose entries are exactly the declared values, in order, once each, written as string values for text bases and as numbers for numeric bases; enumeration values of one type never appear in another. In the other languages such a type is generated with its base type.",
  ["inputs", "configurations"], "every number of values up to the bound, arbitrary values and names, several enumerated types and attributes in one schema",
  ONE + "its only enumeration is inside an attribute and is not emitted.",
  ["xmlEnumeration.go", "xmlSimpleType.go", "xmlRestriction.go", "genTypeScript.go"],
  [("enumeration capture", "xmlEnumeration.go: OnEnumeration"), ("emission", "genTypeScript.go: TypeScriptSimpleType")],
  [("Options.SimpleType", "open simple type collecting facets", "parser.go")])

p("C20", "Derived types keep their base",
  "A complex type that extends another complex type (in any of the languages but C) refers to exactly that base in the generated code (embedded pointer in Go, 'extends' in Java and TypeScript, flattened member in Rust) and keeps its own members; a complex type with simple content over a built-in type or over a named simple type gets exactly one value member of the corresponding target type (Go chardata, Java @XmlValue, Rust $value, TypeScript Value). Types that are not derived get neither.",
  ["inputs", "configurations"], "every base name and every built-in base x own members x the five languages",
  ONE + "it has one complex-content and a few simple-content extensions.",
  ["xmlExtension.go"] + GEN,
  [("base capture", "xmlExtension.go: OnExtension"), ("emission", "gen*.go: <Lang>ComplexType")])

p("C21", "List and union simple types keep their item and member types",
  "A simple type defined as a list is generated as a list of its item type's target type, and one defined as a union with memberTypes is generated as one declaration having exactly one member per listed type, named after it and with that type's target type, whatever the number and order of the members and of the surrounding declarations.",
  ["inputs", "configurations"], "every item type and every set of up to the bounded number of member types (built-in or user-defined, before or after) x arbitrary names x the five languages",
  "No schema in the suite has a list or a union.",
  ["xmlList.go", "xmlUnion.go", "utils.go"] + GEN,
  [("list capture", "xmlList.go: OnList"), ("union capture", "xmlUnion.go: OnUnion/EndUnion"), ("emission", "gen*.go: <Lang>SimpleType")],
  [("Options.InUnion", "inside a union", "parser.go")])

p("C22", "Utility contracts: title case, snake case, stack order",
  "Title-casing a string changes only its first character, to that character's upper case, for every UTF-8 string; snake-casing yields a string without upper-case letters or hyphens that keeps every other letter and digit in order, with an underscore exactly where a hyphen or underscore was or a capital letter starts a word; the exported stack returns pushed values in last-in-first-out order for every operation sequence, with Peek, Len and Empty agreeing with it.",
  ["inputs", "histories"], "every string up to the bound including two-byte UTF-8 characters; every push/pop/peek sequence up to the bound",
  "TestToTitle samples seven strings; snake-casing and the stack have no direct tests.",
  ["utils.go", "stack.go"],
  [("ToTitle, MakeFirstUpperCase, ToSnakeCase", "utils.go"), ("Stack", "stack.go")], None, ["return values of the exported functions"])

p("C23", "Generated Go types round-trip instance documents",
  "An instance document valid against the schema can be unmarshalled into the generated Go types and marshalled back without loss.",
  ["programs", "inputs"], "every schema and every valid instance", "One instance document of one schema is tried.",
  ["genGo.go"], [("tags and field types", "genGo.go")], None, ["encoding/xml over the compiled generated code"])

p("C24", "Declared character encodings are honoured",
  "A schema whose XML declaration names a character encoding that extends ASCII (the labels of the WHATWG Encoding Standard in any letter case, except UTF-16, which the XML decoder cannot open), and every schema it includes or imports, whatever encoding each of them declares, gives byte for byte the output of its UTF-8 transcoding; a UTF-8 declaration in any spelling or a byte order mark changes nothing.",
  ["inputs", "configurations"], "every encoding label x letter case x form of the declaration x documents with names, values and documentation in the letters of the encoding x main, included and imported files x the five languages", "Only UTF-8 is tested.",
  ["parser.go"], [("charset reader", "parser.go: Parse sets decoder.CharsetReader")])

p("C25", "Members of one declaration never share an identifier",
  "Within every generated record (complex type, model group, attribute group, union, simple-content class) the members generated for different child elements, attributes, group references, attribute-group references, union members, the embedded or flattened base, the value member and Go's XMLName have pairwise different identifiers, even when their XML names differ only in letter case or in characters that mangling removes, or an element and an attribute have the same name, so that the declaration compiles and no member shadows another.",
  ["inputs", "configurations"], "every pair of member kinds x arbitrary names (and words special to a declaration, and triples with numbered names) x every kind of record x the five languages",
  "No schema in the suite has two members whose names mangle alike.",
  ["utils.go"] + GEN,
  [("per-declaration identifiers", "utils.go: memberNames"), ("emission", "gen*.go: <Lang>ComplexType, <Lang>Group, <Lang>AttributeGroup, <Lang>SimpleType")])

p("C26", "Generated files are marked, whole and well-formed",
  "For every schema the tool accepts and every language, the file it writes begins with the line '// Code generated by xgen. DO NOT EDIT.', goes on with the complete header of its language (Go package clause with the chosen package or 'schema' and at most one import of each package it needs; Java package clause and imports; Rust crate and use declarations) and then consists of complete declarations and comments only, each following the grammar of the target language to its end: every brace, parenthesis, annotation, struct tag, attribute, string and comment is closed, every statement and member is terminated or separated, and no annotation is given twice. This holds for schemas that declare nothing, for any mix of constructs, names, facets, enumerated values and documentation, for included and imported files, for any number of files generated before, and whatever the output file contained before.",
  ["inputs", "configurations", "histories"], "every pair of kinds of component x their members, attributes, facets, enumerated values, documentation and names x presence and position of what they refer to x earlier outputs x the five languages",
  ONE + "no other construct's output is ever read as a whole, except Go's, by the formatter.",
  GEN + ["utils.go"],
  [("marker, header and body", "gen*.go: Gen<Lang>"), ("declarations", "gen*.go: <Lang>SimpleType, <Lang>ComplexType, <Lang>Group, <Lang>AttributeGroup, <Lang>Element, <Lang>Attribute"), ("comments", "utils.go: genFieldComment")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
