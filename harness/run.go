package xgen

// Goes with lib.go in harnesses of package xgen.

// ---- running the generator ----

func vpOptions(lang, in, out, file string) *Options {
	return &Options{
		FilePath: file, InputDir: in, OutputDir: out, Lang: lang,
		IncludeMap: map[string]bool{}, LocalNameNSMap: map[string]string{}, NSSchemaLocationMap: map[string]string{},
		ParseFileList: map[string]bool{}, ParseFileMap: map[string][]interface{}{}, ProtoTree: []interface{}{},
		RemoteSchema: map[string][]byte{},
	}
}

// vpGenText runs the generator on one document and returns the file it wrote.
func vpGenText(lang string, toks []vpTok) string {
	vpPutDoc("in/a.xsd", toks)
	return vpGenFile(lang, "a.xsd")
}

func vpGenFile(lang, name string) string {
	opt := vpOptions(lang, "in", "out", "in/"+name)
	err := NewParser(opt).Parse()
	vpAssert(err == nil, "Parse failed on a valid schema")
	text, st := vpRead("out/" + name + vpExt(lang))
	vpAssert(st == 0, "no output file was written")
	return text
}

func vpGen(lang string, toks []vpTok) *vpOut {
	return vpParseOut(lang, vpGenText(lang, toks))
}
