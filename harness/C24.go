package xgen

//vp:use lib.go
//vp:use run.go

// C24: a schema in a declared encoding gives the output of its UTF-8
// transcoding.

type vpEnc struct {
	Label string
	Words []string // of letters that the encoding has
}

var (
	vpLatin1   = []string{"Gr\u00f6\u00dfe", "\u00e9t\u00e9", "A\u00f1o"}
	vpLatin2   = []string{"\u010daj", "\u0141\u00f3d\u017a", "\u0150r"}
	vpCyrillic = []string{"\u0426\u0435\u043d\u0430", "\u0436a", "\u042f"}
	vpHan      = []string{"\u4ef7\u683c", "\u4e2da", "\u6587"}
	vpKana     = []string{"\u4fa1\u683c", "\u30bd\u30fc\u30c8", "\u8868"}
)

// every encoding that has the characters of ASCII in the bytes of ASCII
func vpEncs() []vpEnc {
	return []vpEnc{
		{"iso-8859-1", vpLatin1},
		{"windows-1252", vpLatin1},
		{"koi8-r", vpCyrillic},
		{"shift_jis", vpKana},
		{"gb18030", vpHan},
		{"iso-8859-15", []string{"\u0153uf", "\u0160aty", "\u00e9t\u00e9"}},
		{"latin1", vpLatin1},
		{"us-ascii", []string{"plain", "b", "Ab"}},
		{"iso-8859-2", vpLatin2},
		{"windows-1250", vpLatin2},
		{"windows-1251", vpCyrillic},
		{"iso-8859-5", vpCyrillic},
		{"ibm866", vpCyrillic},
		{"koi8-u", []string{"\u0426\u0456\u043d\u0430", "\u0457", "\u0404a"}},
		{"x-mac-cyrillic", vpCyrillic},
		{"windows-1253", []string{"\u03a4\u03b9\u03bc\u03ae", "\u03b1b", "\u03a9"}},
		{"iso-8859-7", []string{"\u03a4\u03b9\u03bc\u03ae", "\u03b1b", "\u03a9"}},
		{"windows-1254", []string{"\u015fi\u015fe", "\u0130l", "\u011fa"}},
		{"iso-8859-9", []string{"\u015fi\u015fe", "\u0130l", "\u011fa"}},
		{"windows-1255", []string{"\u05de\u05d7\u05d9\u05e8", "\u05d0a", "\u05ea"}},
		{"iso-8859-8", []string{"\u05de\u05d7\u05d9\u05e8", "\u05d0a", "\u05ea"}},
		{"windows-1256", []string{"\u0633\u0639\u0631", "\u0628a", "\u0645"}},
		{"iso-8859-6", []string{"\u0633\u0639\u0631", "\u0628a", "\u0645"}},
		{"windows-1257", []string{"\u0117d\u0173", "\u017eb", "\u0160"}},
		{"iso-8859-13", []string{"\u0117d\u0173", "\u017eb", "\u0160"}},
		{"iso-8859-3", []string{"\u0109u", "\u011dis", "\u0127a"}},
		{"iso-8859-4", []string{"\u0117d\u0101", "\u017eb", "\u0160"}},
		{"iso-8859-10", []string{"\u0117d\u0101", "\u017eb", "\u0160"}},
		{"iso-8859-14", []string{"\u0175y", "\u0177b", "\u00e9"}},
		{"iso-8859-16", []string{"\u0219i", "\u021ba", "\u0103"}},
		{"windows-1258", []string{"\u0111\u01a1n", "\u01b0u", "\u0103"}},
		{"windows-874", []string{"\u0e23\u0e32\u0e04\u0e32", "\u0e01a", "\u0e2d"}},
		{"macintosh", vpLatin1},
		{"gbk", vpHan},
		{"gb2312", vpHan},
		{"big5", []string{"\u50f9\u683c", "\u4e2da", "\u529f"}},
		{"euc-jp", vpKana},
		{"iso-2022-jp", vpKana},
		{"euc-kr", []string{"\uac00\uaca9", "\ud55ca", "\uae00"}},
		{"ks_c_5601-1987", []string{"\uac00\uaca9", "\ud55ca", "\uae00"}},
	}
}

func vpEncCase(s string, form int) string {
	out := []byte(s)
	for i, c := range out {
		if c >= 'a' && c <= 'z' && (form == 1 || form == 2 && i%2 == 0) {
			out[i] = c - 32
		}
	}
	return string(out)
}

// vpProlog puts an XML declaration in front of a document.
func vpProlog(label string, form int, toks []vpTok) []vpTok {
	data := []string{"version=\"1.0\" encoding=\"" + label + "\"", "version='1.0' encoding='" + label + "'",
		"version=\"1.0\" encoding=\"" + label + "\" standalone=\"yes\"", "version=\"1.0\"  encoding='" + label + "' standalone='no' "}[form]
	out := []vpTok{{Kind: 5, Local: "xml", Data: data}, {Kind: 3, Data: "\n"}}
	return append(out, toks...)
}

// vpSame24 runs the generator over two sets of files that differ in their
// encodings alone.
func vpSame24(lang string, utf8, enc map[string][]vpTok) {
	var text [2]map[string]string
	for k, files := range []map[string][]vpTok{utf8, enc} {
		in, out := "plain", "plainout"
		if k == 1 {
			in, out = "enc", "encout"
		}
		for _, n := range []string{"a.xsd", "b.xsd", "c.xsd"} {
			if files[n] != nil {
				vpPutDoc(in+"/"+n, files[n])
			}
		}
		text[k] = map[string]string{}
		for _, n := range []string{"a.xsd", "b.xsd", "c.xsd"} {
			if files[n] == nil {
				continue
			}
			err := NewParser(vpOptions(lang, in, out, in+"/"+n)).Parse()
			if k == 0 {
				vpAssume(err == nil)
			} else {
				vpAssert(err == nil, "Parse failed on a schema in a declared encoding")
			}
			t, st := vpRead(out + "/" + n + vpExt(lang))
			vpAssert(st == 0, "no output file was written")
			text[k][n] = t
		}
	}
	for n := range enc {
		vpAssert(text[1][n] == text[0][n], "the output differs from that of the UTF-8 transcoding")
	}
	vpCover("reached")
}

// a schema whose names, values and documentation need the encoding
func vpDoc24(kind int, w []string, a, b, v string) []vpTok {
	d := vpXSD()
	if b != "" {
		vpAssume(a != b)
		d.simple(w[0]+b, "xs:boolean")
	}
	name := w[0] + a
	switch kind {
	case 0:
		d.open("complexType", "name", name).doc(w[1]+" "+v).open("sequence").leaf("element", "name", w[1]+a, "type", "xs:int")
		d.leaf("element", "name", w[2], "type", "xs:string").close().leaf("attribute", "name", w[2]+a, "type", "xs:token").close()
	case 1:
		d.open("simpleType", "name", name).doc(w[2])
		d.restrict("xs:string", "enumeration", w[1]+v, "enumeration", v+w[2]).close()
		d.leaf("element", "name", w[1]+a, "type", name)
	case 2:
		d.simple(name, "xs:token", "pattern", w[1]+v+"*")
		d.open("group", "name", w[1]+a).open("sequence").leaf("element", "name", w[2], "type", name).closeN(2)
	}
	return d.done()
}

func vpPick24() vpEnc {
	all := vpEncs()
	n := 16
	if vpTier() > 0 {
		n = len(all)
	}
	return all[vpPick("encoding", n)]
}

// each encoding in each part of a document
func vpH_document() {
	lang := vpLang()
	e := vpPick24()
	kind := vpPick("kind", 3)
	form := vpPick("letters", 3)
	a := vpStr("a", 0, 1, "a-z0-9")
	b := ""
	if form != 1 {
		b = vpStr("b", 1, 2, "a-z0-9")
	}
	v := vpStr("v", 1, 2, "a-zA-Z0-9")
	toks := vpDoc24(kind, e.Words, a, b, v)
	pf := (form + kind) % 4
	if vpTier() > 0 {
		pf = vpPick("prolog", 4)
	}
	enc := vpProlog(vpEncCase(e.Label, form), pf, toks)
	vpSame24(lang, map[string][]vpTok{"a.xsd": toks}, map[string][]vpTok{"a.xsd": enc})
}

// every label once
func vpH_labels() {
	lang := vpLang()
	all := vpEncs()
	k := vpPick("encoding", len(all))
	e := all[k]
	toks := vpDoc24(k%3, e.Words, vpStr("a", 0, 1, "a-z"), vpStr("b", 0, 1, "a-z"), "v")
	vpSame24(lang, map[string][]vpTok{"a.xsd": toks}, map[string][]vpTok{"a.xsd": vpProlog(vpEncCase(e.Label, k%3), k%4, toks)})
}

// UTF-8 declared, in any letters, with a byte order mark or not
func vpH_utf8() {
	lang := vpLang()
	toks := vpDoc24(vpPick("kind", 3), [][]string{vpLatin1, vpHan}[vpPick("script", 2)], vpStr("a", 0, 1, "a-z"), vpStr("b", 0, 1, "a-z"), "v")
	form := vpPick("letters", 4)
	var enc []vpTok
	if form == 3 {
		enc = append([]vpTok{{Kind: 5, Local: "xml", Data: "version=\"1.0\""}}, toks...)
	} else {
		enc = vpProlog(vpEncCase("utf-8", form), vpPick("prolog", 4), toks)
	}
	if vpBool("mark") {
		enc = append([]vpTok{{Kind: 3, Data: "\ufeff"}}, enc...)
	}
	vpSame24(lang, map[string][]vpTok{"a.xsd": toks}, map[string][]vpTok{"a.xsd": enc})
}

// files in encodings of their own that use one another
func vpH_files() {
	lang := vpLang()
	all := vpEncs()[:8]
	x := vpPick("first", 5)
	y := vpPick("second", 5)
	z := vpPick("third", 3)
	e, f := all[x], all[y]
	g := []vpEnc{e, f, {"utf-8", vpLatin1}}[z]
	tie := vpPick("tie", 2)
	a, n := vpStr("a", 0, 1, "a-z"), vpStr("b", 1, 1, "a-z")
	vpAssume(a != n)
	d, b, q := vpXSD(), vpXSD(), ""
	if tie == 0 {
		d.leaf("include", "schemaLocation", "b.xsd")
	} else {
		q = "q:"
		d = vpSchema("xs", "xmlns:q", "urn:b")
		b = vpSchema("xs", "xmlns", "urn:b", "targetNamespace", "urn:b")
		d.leaf("import", "namespace", "urn:b", "schemaLocation", "b.xsd")
	}
	d.leaf("include", "schemaLocation", "c.xsd")
	d.open("complexType", "name", e.Words[0]+a).open("sequence").leaf("element", "name", e.Words[1], "type", q+f.Words[0]+n)
	d.leaf("element", "name", "c", "type", g.Words[2]+"C").close().leaf("attribute", "name", "d", "type", q+f.Words[0]+n).close()
	b.simple(f.Words[0]+n, "xs:int").open("complexType", "name", f.Words[1]+"T").open("sequence")
	b.leaf("element", "name", f.Words[2]+a, "type", f.Words[0]+n).closeN(2)
	c := vpXSD()
	c.simple(g.Words[2]+"C", "xs:string", "enumeration", g.Words[0])
	plain := map[string][]vpTok{"a.xsd": d.done(), "b.xsd": b.done(), "c.xsd": c.done()}
	enc := map[string][]vpTok{
		"a.xsd": vpProlog(e.Label, 0, plain["a.xsd"]),
		"b.xsd": vpProlog(f.Label, 1, plain["b.xsd"]),
		"c.xsd": vpProlog(g.Label, 2, plain["c.xsd"]),
	}
	vpSame24(lang, plain, enc)
}
