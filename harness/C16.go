package main

//vp:use lib.go

// C16: one output file per schema, mirrored under the output directory.

func vpDoc16(n int) []vpTok {
	d := vpXSD()
	d.open("complexType", "name", "T"+vpItoa(n)).leaf("attribute", "name", "x", "type", "xs:int").close()
	return d.done()
}

func vpEnds(s, suffix string) bool {
	return len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix
}

// vpMirror runs the command on a directory with the given files (relative
// paths) and checks what is there afterwards.
func vpMirror(lang, in, inDir, out, outDir string, files []string) {
	before := vpList(".")
	args := []string{"-i", in, "-l", lang}
	if out != "" {
		args = append(args, "-o", out)
	}
	code, msg := vpRunMain(args)
	vpAssert(code == 0, "a directory of valid schemas is not generated| "+msg)
	for i, f := range files {
		p := outDir + f
		if !vpEnds(f, vpExt(lang)) {
			p += vpExt(lang)
		}
		text, st := vpRead(p)
		vpAssert(st == 0, "a schema has no output file at its place")
		o := vpParseOut(lang, text).ok()
		vpAssert(len(o.Decls) == 1 && o.find("T"+vpItoa(i)) != nil, "an output file is not that of its schema")
		vpAssert(vpUntouched(inDir+f), "an input file is changed")
	}
	vpAssert(len(vpList(".")) == len(before)+len(files), "something else is written")
	vpCover("reached")
}

func vpOut16() (string, string) {
	switch vpPick("output", 6) {
	case 1:
		return "out", "out/"
	case 2:
		return "out/deep/er", "out/deep/er/"
	case 3:
		return "./out/", "out/"
	case 4:
		vpPutText("out/there.txt", "kept")
		return "out", "out/"
	case 5:
		return "in", "in/"
	}
	return "", "xgen_out/"
}

// arbitrary names of files and directories
func vpH_names() {
	lang := vpLang()
	name := vpStr("name", 1, 4+vpTier(), " -.0-~")
	if vpBool("schema extension") {
		name += []string{".xsd", ".XSD", ".xml"}[vpPick("extension", 3)]
	}
	vpAssume(name != "." && name != "..")
	dir := ""
	switch vpPick("dir", 3) {
	case 1:
		dir = vpStr("below", 1, 3+vpTier(), " -.0-~")
		vpAssume(dir != "." && dir != "..")
		dir += "/"
	case 2:
		dir = "in/" + vpStr("below", 1, 1, "a-z_") + "/"
	}
	vpPutDoc("in/"+dir+name, vpDoc16(0))
	out, od := "out", "out/"
	if vpBool("default output") {
		out, od = "", "xgen_out/"
	}
	vpMirror(lang, "in", "in/", out, od, []string{dir + name})
}

// two schemas of arbitrary names, in one directory or two
func vpH_two() {
	lang := vpLang()
	a := vpStr("a", 1, 2+vpTier(), " -.0-~")
	b := vpStr("b", 1, 2+vpTier(), " -.0-~")
	vpAssume(a != "." && a != ".." && b != "." && b != "..")
	dir := ""
	if vpBool("two directories") {
		dir = "d/"
		vpAssume(a != "d")
	} else {
		vpAssume(a != b && a+vpExt(lang) != b && b+vpExt(lang) != a)
	}
	vpPutDoc("in/"+a, vpDoc16(0))
	vpPutDoc("in/"+dir+b, vpDoc16(1))
	vpMirror(lang, "in", "in/", "out", "out/", []string{a, dir + b})
}

// names that have the extension already, or something like it
func vpH_extension() {
	lang := vpLang()
	stem := vpStr2("stem", 1, 1, "a-z", "a-z")
	ext := []string{".go", ".h", ".java", ".rs", ".ts", ".GO", "go", ".go.bak", ".xsd.go", ".h.xsd", "rs", ".java.ts"}[vpPick("ext", 12)]
	files := []string{stem + ext}
	if vpBool("nested") {
		files = []string{"d.go/" + stem + ext}
	}
	for i, f := range files {
		vpPutDoc("in/"+f, vpDoc16(i))
	}
	vpMirror(lang, "in", "in/", "out", "out/", files)
}

var vpLayouts = [][]string{
	{"a.xsd"},
	{"a.xsd", "b.xsd"},
	{"a.xsd", "sub/a.xsd"},
	{"sub/a.xsd", "sub/b.xsd", "sub/deep/a.xsd"},
	{"a/a/a.xsd", "b/a.xsd", "c.xsd"},
	{"in/in.xsd", "in/in/in.xsd", "xin/in.xsd"},
	{"xgen_out/a.xsd", "out/b.xsd"},
	{"x.y/z.xsd", "x.xsd/y.xsd", ".hidden/h.xsd", ".h.xsd"},
	{"one/two/three/four/five.xsd"},
}

// every layout, every way to name the input and output directories
func vpH_layout() {
	lang := vpLang()
	files := vpLayouts[vpPick("layout", len(vpLayouts))]
	for i, f := range files {
		vpPutDoc("in/"+f, vpDoc16(i))
	}
	vpPutText("beside.txt", "kept")
	if vpBool("empty directory") {
		vpPutFault("in/none", "dir")
	}
	out, od := vpOut16()
	in := []string{"in", "in/", "./in", "in/.", "in//", "./in/./"}[vpPick("input", 6)]
	vpMirror(lang, in, "in/", out, od, files)
}

// input directories below others
func vpH_deep() {
	lang := vpLang()
	in := []string{"in/deep", "in/in", "out", "x/../in", "."}[vpPick("input", 5)]
	dir := map[string]string{"in/deep": "in/deep/", "in/in": "in/in/", "out": "out/", "x/../in": "in/", ".": ""}[in]
	files := vpLayouts[vpPick("layout", len(vpLayouts))]
	if in == "x/../in" {
		vpPutFault("x", "dir")
	}
	for i, f := range files {
		vpPutDoc(dir+f, vpDoc16(i))
	}
	out, od := "out/made", "out/made/"
	if vpBool("default output") {
		out, od = "", "xgen_out/"
	}
	vpMirror(lang, in, dir, out, od, files)
}

// schemas that include or import others, within the input directory or not
func vpH_linked() {
	lang := vpLang()
	kind := []string{"include", "import"}[vpPick("kind", 2)]
	loc := []string{"b.xsd", "sub/b.xsd", "../b.xsd", "../other/b.xsd", "../in/b.xsd", "./b.xsd", "../../b.xsd"}[vpPick("location", 7)]
	dir := []string{"", "below/"}[vpPick("dir", 2)]
	vpAssume(!(dir == "" && loc == "../../b.xsd"))
	at := map[string]string{"b.xsd": "in/below/b.xsd", "sub/b.xsd": "in/below/sub/b.xsd", "../b.xsd": "in/b.xsd", "../other/b.xsd": "in/other/b.xsd", "../in/b.xsd": "in/in/b.xsd", "./b.xsd": "in/below/b.xsd", "../../b.xsd": "b.xsd"}[loc]
	if dir == "" {
		at = map[string]string{"b.xsd": "in/b.xsd", "sub/b.xsd": "in/sub/b.xsd", "../b.xsd": "b.xsd", "../other/b.xsd": "other/b.xsd", "../in/b.xsd": "in/b.xsd", "./b.xsd": "in/b.xsd"}[loc]
	}
	ns := "urn:b"
	if kind == "include" {
		ns = "urn:a"
	}
	vpPutDoc(at, vpSchema("xs", "targetNamespace", ns).simple("T", "xs:int").done())
	d := vpSchema("xs", "targetNamespace", "urn:a", "xmlns:t", ns)
	if kind == "include" {
		d.leaf("include", "schemaLocation", loc)
	} else {
		d.leaf("import", "namespace", ns, "schemaLocation", loc)
	}
	d.open("complexType", "name", "T0").leaf("attribute", "name", "x", "type", "t:T").close()
	vpPutDoc("in/"+dir+"a.xsd", d.done())
	code, msg := vpRunMain([]string{"-i", "in", "-l", lang, "-o", "out"})
	vpAssert(code == 0, "a directory of valid schemas is not generated| "+msg)
	_, st := vpRead("out/" + dir + "a.xsd" + vpExt(lang))
	vpAssert(st == 0, "a schema has no output file at its place")
	n := 1
	if at[:3] == "in/" {
		_, st = vpRead("out/" + at[3:] + vpExt(lang))
		vpAssert(st == 0, "a schema has no output file at its place")
		n = 2
	}
	got := len(vpList("out"))
	vpAssert(got >= n && got <= 2, "more or less than one file per schema is written")
	vpAssert(len(vpList("."))-got == 2, "something is written outside of the output directory")
	vpAssert(vpUntouched(at) && vpUntouched("in/"+dir+"a.xsd"), "an input file is changed")
	vpCover("reached")
}

// many files, or many directories in each other
func vpH_many() {
	n := []int{4, 8, 9, 10, 11, 16, 17, 26, 33, 64}[vpPick("size", 10)]
	shape := vpPick("shape", 4)
	lang := vpLangs[(n+shape)%5]
	var files []string
	dir := ""
	for i := 0; i < n; i++ {
		name := "f" + vpItoa(i) + []string{".xsd", "", ".xml"}[i%3]
		switch shape {
		case 0:
			files = append(files, name)
		case 1: // each one level further down
			files = append(files, dir+name)
			dir += "d" + vpItoa(i) + "/"
		case 2:
			files = append(files, "d"+vpItoa(i%5)+"/e"+vpItoa(i%3)+"/"+name)
		case 3: // one file, far down
			dir += "d" + vpItoa(i%10) + "/"
			if i == n-1 {
				files = append(files, dir+name)
			}
		}
	}
	for i, f := range files {
		vpPutDoc("in/"+f, vpDoc16(i))
	}
	vpMirror(lang, "in", "in/", "out", "out/", files)
}

// long names
func vpH_lengths() {
	n := []int{8, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 200}[vpPick("length", 13)]
	lang := vpLangs[n%5]
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, "abcdefghijklmnopqrstuvwxyz"[(i*7+n)%26])
	}
	at := []int{0, n / 2, n - 1}[vpPick("at", 3)]
	name := string(b[:at]) + vpStr("letter", 1, 1, " -.0-~") + string(b[at+1:])
	if vpBool("directory") {
		name += "/a"
	}
	name += []string{"", ".xsd"}[vpPick("extension", 2)]
	vpPutDoc("in/"+name, vpDoc16(0))
	vpMirror(lang, "in", "in/", "out", "out/", []string{name})
}

// symbolic links: to a schema, to the input directory and to the output
// directory, and on the way to them
func vpH_links() {
	lang := vpLang()
	vpPutDoc("far/deep/a.xsd", vpDoc16(0))
	vpPutDoc("far/b.xsd", vpDoc16(1))
	in, dir, files := "in", "in/", []string{"a.xsd", "b.xsd"}
	switch vpPick("input", 6) {
	case 0: // links to schemas
		vpPutLink("in/a.xsd", "far/deep/a.xsd")
		vpPutLink("in/b.xsd", "far/b.xsd")
	case 1: // a link below
		vpPutDoc("in/b.xsd", vpDoc16(1))
		vpPutLink("in/sub/a.xsd", "far/deep/a.xsd")
		files = []string{"sub/a.xsd", "b.xsd"}
	case 2: // the directory itself
		vpPutLink("in", "far")
		files = []string{"deep/a.xsd", "b.xsd"}
	case 3: // and named with a slash
		vpPutLink("in", "far")
		in += "/"
		files = []string{"deep/a.xsd", "b.xsd"}
	case 4: // a directory above
		vpPutLink("near", "far")
		in, dir, files = "near/deep", "near/deep/", []string{"a.xsd"}
	case 5: // a link to a link
		vpPutLink("far/again", "far/deep/a.xsd")
		vpPutLink("in/a.xsd", "far/again")
		files = []string{"a.xsd"}
	}
	out := "out"
	switch vpPick("output", 4) {
	case 1:
		vpPutText("real/kept.txt", "kept")
		vpPutLink("out", "real")
	case 2:
		vpPutText("real/kept.txt", "kept")
		vpPutLink("up", "real")
		out = "up/out"
	case 3:
		out = ""
		vpPutText("real/kept.txt", "kept")
		vpPutLink("xgen_out", "real")
	}
	od := out + "/"
	if out == "" {
		od = "xgen_out/"
	}
	before := vpList(".")
	args := []string{"-i", in, "-l", lang}
	if out != "" {
		args = append(args, "-o", out)
	}
	code, msg := vpRunMain(args)
	vpAssert(code == 0, "a directory with links is not generated| "+msg)
	for _, f := range files {
		n := 0
		if vpEnds(f, "b.xsd") {
			n = 1
		}
		text, st := vpRead(od + f + vpExt(lang))
		vpAssert(st == 0, "a schema has no output file at its place")
		o := vpParseOut(lang, text).ok()
		vpAssert(len(o.Decls) == 1 && o.find("T"+vpItoa(n)) != nil, "an output file is not that of its schema")
		_, st = vpRead(dir + f)
		vpAssert(st == 0, "an input file is gone")
	}
	vpAssert(vpUntouched("far/deep/a.xsd") && vpUntouched("far/b.xsd"), "an input file is changed")
	vpAssert(len(vpList(".")) == len(before)+len(files), "something else is written")
	vpCover("reached")
}
