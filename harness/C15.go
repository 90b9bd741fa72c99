package main

//vp:use lib.go

// C15: the command validates its options and honours them.

func vpSome() []vpTok {
	d := vpXSD()
	d.open("complexType", "name", "Host").open("sequence").leaf("element", "name", "kid", "type", "xs:int").closeN(2)
	return d.done()
}

// vpArgs spells flags in one of the ways the flag package takes, starting
// with any of them.
func vpArgs(fl [][2]string) (args []string) {
	form, first := vpPick("form", 4), 0
	if len(fl) > 1 {
		first = vpPick("first", len(fl))
	}
	back := vpBool("backwards")
	for i := range fl {
		f := fl[(first+i)%len(fl)]
		if back {
			f = fl[(first+len(fl)-i)%len(fl)]
		}
		switch form {
		case 0:
			args = append(args, "-"+f[0], f[1])
		case 1:
			args = append(args, "-"+f[0]+"="+f[1])
		case 2:
			args = append(args, "--"+f[0], f[1])
		case 3:
			args = append(args, "--"+f[0]+"="+f[1])
		}
	}
	return
}

func vpSupported(l string) bool {
	for _, s := range vpLangs {
		if l == s {
			return true
		}
	}
	return false
}

func vpSame(a []string, b ...string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// options missing, or a language that is not supported
func vpH_refuse() {
	vpPutDoc("in/a.xsd", vpSome())
	var fl [][2]string
	refuse := true
	switch vpPick("case", 7) {
	case 0: // no language
		fl = [][2]string{{"i", "in"}}
	case 1:
		fl = [][2]string{{"i", "in"}, {"l", ""}}
	case 2: // no input
		fl = [][2]string{{"l", vpLang()}}
	case 3:
		fl = [][2]string{{"i", ""}, {"l", vpLang()}}
	case 4: // any language
		l := vpStr("language", 1, 4+6*vpTier(), " -~")
		refuse = !vpSupported(l)
		fl = [][2]string{{"i", "in"}, {"l", l}}
	case 5: // nearly a language
		l := vpLang()
		i := vpPick("at", 11)
		vpAssume(i <= len(l))
		c := vpStr("byte", 0, 1, " -~")
		if i == len(l) || vpBool("in front") {
			l = l[:i] + c + l[i:]
		} else {
			l = l[:i] + c + l[i+1:]
		}
		refuse = !vpSupported(l)
		fl = [][2]string{{"i", "in"}, {"l", l}}
	case 6: // no input that exists
		fl = [][2]string{{"i", "elsewhere"}, {"l", vpLang()}}
	}
	if vpBool("more") {
		fl = append(fl, [2]string{"o", "there"}, [2]string{"p", "pkg"})
	}
	code, out := vpRunMain(vpArgs(fl))
	if refuse {
		vpAssert(code != 0 && code != 2, "the command does not refuse what it cannot do")
		vpAssert(len(out) > 0, "the command refuses without a message")
		vpAssert(vpSame(vpList("."), "in/a.xsd"), "a refusing command writes files")
	} else {
		vpAssert(code == 0, "the command refuses what it can do| "+out)
	}
	vpCover("reached")
}

// vpCheck15 checks an output file for the language and package.
func vpCheck15(path, lang, pkg string) {
	text, st := vpRead(path)
	vpAssert(st == 0, "a file of the input has no output")
	o := vpParseOut(lang, text).ok()
	H := o.find("Host")
	vpAssert(H != nil && len(H.Fields) == 1, "a file is not generated in the given language")
	if lang == "Go" || lang == "Java" {
		vpAssert(o.Package == pkg, "the package name is not the given one")
	}
}

// every combination of flags
func vpH_honour() {
	lang := vpLang()
	out, pkg := "xgen_out", "schema"
	in := []string{"in", "./in", "in/", "in/a.xsd", "./in/a.xsd"}[vpPick("input", 5)]
	fl := [][2]string{{"i", in}, {"l", lang}}
	switch vpPick("output", 3) {
	case 1:
		out = vpStr2("dir", 1, 2, "a-hj-z", "a-zA-Z0-9._-")
		fl = append(fl, [2]string{"o", out})
	case 2:
		d := vpStr2("dir", 1, 2, "a-hj-z", "a-z")
		fl = append(fl, [2]string{"o", "./" + d + "/sub"})
		out = d + "/sub"
	}
	switch vpPick("package", 3) {
	case 1:
		pkg = vpStr2("name", 1, 3, "a-zA-Z", "a-zA-Z0-9")
		for _, k := range []string{"if", "go", "for", "var", "map", "int", "new", "try", "do"} {
			vpAssume(pkg != k)
		}
		fl = append(fl, [2]string{"p", pkg})
	case 2:
		fl = append(fl, [2]string{"p", ""})
	}
	vpPutDoc("in/a.xsd", vpSome())
	code, msg := vpRunMain(vpArgs(fl))
	vpAssert(code == 0, "the command fails on a valid schema| "+msg)
	file := out + "/a.xsd" + vpExt(lang)
	if len(in) > 5 {
		// the output path of a single input file names the file
		file = out + vpExt(lang)
	}
	vpAssert(len(vpList(".")) == 2, "something else is written")
	vpAssert(vpUntouched("in/a.xsd"), "the input is changed")
	vpCheck15(file, lang, pkg)
	vpCover("reached")
}

// any subset of the files fails
func vpH_failing() {
	lang := vpLang()
	files := [][]string{{"a.xsd", "b.xsd", "c.xsd"}, {"a.xsd", "sub/a.xsd", "z.xsd"}, {"sub/b.xsd", "sub/deep/c.xsd", "up/a.xsd", "up/b"}}[vpPick("layout", 3)]
	bad := 0
	for _, f := range files {
		switch vpPick("state", 4) {
		case 1:
			vpPutDoc("in/"+f, append(vpSome(), vpTok{Kind: 6}))
			bad++
		case 2:
			vpPutFault("in/"+f, "loop")
			bad++
		case 3:
			vpPutDoc("in/"+f, vpSome())
			vpPutFault("out/"+f+vpExt(lang), "dir")
			bad++
		default:
			vpPutDoc("in/"+f, vpSome())
		}
	}
	pkg := "pk"
	code, msg := vpRunMain([]string{"-i", "in", "-l", lang, "-o", "out", "-p", pkg})
	if bad > 0 {
		vpAssert(code != 0, "a file fails and the command does not")
	} else {
		vpAssert(code == 0, "the command fails on valid schemas| "+msg)
		for _, f := range files {
			vpCheck15("out/"+f+vpExt(lang), lang, pkg)
		}
		vpAssert(len(vpList("out")) == len(files), "something else is written")
	}
	vpCover("reached")
}

// help and version
func vpH_help() {
	vpPutDoc("in/a.xsd", vpSome())
	args := []string{[]string{"-h", "-v", "--h", "--v"}[vpPick("flag", 4)]}
	if vpBool("more") {
		args = append(args, "-i", "in", "-l", vpLang())
	}
	code, out := vpRunMain(args)
	vpAssert(code == 0 && len(out) > 0, "asking for help or the version fails")
	vpAssert(vpSame(vpList("."), "in/a.xsd"), "asking for help or the version writes files")
	vpCover("reached")
}

// values that are those of another option, of a default or of a file, and
// words after the options
func vpH_values() {
	lang := vpLang()
	words := []string{"schema", "xgen_out", "pkg", "src", lang, "xgen", "there"}
	in := []string{"in", "xgen", "schema", "src", "pkg"}[vpPick("in", 5)]
	out, pkg := "xgen_out", "schema"
	fl := [][2]string{{"i", in}, {"l", lang}}
	if k := vpPick("out", len(words)+1); k < len(words) {
		out = words[k]
		vpAssume(out != in)
		fl = append(fl, [2]string{"o", out})
	}
	if k := vpPick("pkg", len(words)+1); k < len(words) {
		pkg = words[k]
		fl = append(fl, [2]string{"p", pkg})
	}
	vpPutDoc(in+"/a.xsd", vpSome())
	var args []string
	for _, f := range fl {
		args = append(args, "-"+f[0], f[1])
	}
	switch vpPick("after", 3) {
	case 1:
		args = append(args, "more")
	case 2:
		args = append(args, "--", "-h")
	}
	code, msg := vpRunMain(args)
	vpAssert(code == 0, "the command fails on a valid schema| "+msg)
	vpAssert(len(vpList(".")) == 2, "something else is written")
	vpCheck15(out+"/a.xsd"+vpExt(lang), lang, pkg)
	vpCover("reached")
}

// options given more than once: the last value counts, as for every command
// that takes such options
func vpH_twice() {
	a := []string{"-i", "in", "-l", "Go", "-o", "there", "-p", "pk"}
	k := 2 * vpPick("which", 4)
	args := append(append([]string{}, a...), a[k], []string{"other", "Java", "here", "kp"}[k/2])
	args[8], args[9], args[k], args[k+1] = args[k], args[k+1], args[8], args[9]
	vpPutDoc("in/a.xsd", vpSome())
	code, msg := vpRunMain(args)
	vpAssert(code == 0, "the command fails on a valid schema| "+msg)
	vpAssert(len(vpList(".")) == 2, "something else is written")
	vpCheck15("there/a.xsd.go", "Go", "pk")
	vpCover("reached")
}

// many files, all of which fail, one of which fails, or none
func vpH_many() {
	n := []int{4, 8, 9, 10, 16, 17, 64, 255, 256, 257}[vpPick("files", 10)]
	lang := vpLangs[n%5]
	which := vpPick("failing", 5)
	at := []int{0, n / 2, n - 1, -1, -2}[which]
	bad := vpXSD().doc("x").toks
	for i := 0; i < n; i++ {
		f := "in/" + string([]byte{'a' + byte(i/26), 'a' + byte(i%26)}) + ".xsd"
		if i == at || at == -2 {
			vpPutDoc(f, append(append([]vpTok{}, bad...), vpTok{Kind: 6}))
		} else {
			vpPutDoc(f, vpSome())
		}
	}
	code, msg := vpRunMain([]string{"-i", "in", "-l", lang, "-o", "out"})
	if at != -1 {
		vpAssert(code&255 != 0, "a file fails and the command does not")
	} else {
		vpAssert(code == 0, "the command fails on valid schemas| "+msg)
		files := vpList("out")
		vpAssert(len(files) == n, "not one file per schema is written")
		vpCheck15(files[n/2], lang, "schema")
	}
	vpCover("reached")
}

// long values
func vpH_lengths() {
	n := []int{9, 16, 17, 33, 64, 65, 100, 127, 128, 129, 200}[vpPick("length", 11)]
	lang := vpLangs[n%5]
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, "abcdefghijklmnopqrstuvwxyz"[(i*7+n)%26])
	}
	at := []int{1, n / 2, n - 1}[vpPick("at", 3)]
	pkg := string(b[:at]) + vpStr("letter", 1, 1, "a-zA-Z0-9_") + string(b[at+1:])
	out := "o" + string(b)
	deep := vpBool("deep")
	if deep {
		out = "out"
		for i := 0; i < n/8; i++ {
			out += "/" + string(b[:3+i%5])
		}
	}
	vpPutDoc("in/a.xsd", vpSome())
	code, msg := vpRunMain([]string{"-i", "in", "-l", lang, "-o", out, "-p", pkg})
	vpAssert(code == 0, "the command fails on a valid schema| "+msg)
	vpAssert(len(vpList(".")) == 2, "something else is written")
	vpCheck15(out+"/a.xsd"+vpExt(lang), lang, pkg)
	vpCover("reached")
}

// names of directories with characters that mean something elsewhere
func vpH_paths() {
	lang := vpLang()
	special := []string{"$x", "${x}", "a$HOME", "~", "~a", "a~1", "%x%", "*", "a?", "[a]", "{a,b}", "a,b", "a:b", "a;b", "a b", " a", "a ", "'a'", "\"a\"", "a\\b", "#a", "@a", "!a", "-a", "a=b", "%41", "%d", "a%s", "a+b", "&a", "file:a", "a..", "...", ".a", "..a", "A", "\u00e9", "a\tb", "=a", "xsd.xsd", "a.go"}
	in, out, sub := "in", "xgen_out", ""
	name := ""
	if k := vpPick("name", len(special)+1); k < len(special) {
		name = special[k]
		if vpBool("below") {
			sub = "/in"
		}
	} else {
		name = vpStr("text", 1, 2+vpTier(), " -.0-~")
	}
	vpAssume(name != "." && name != "..")
	var args []string
	switch vpPick("which", 3) {
	case 0:
		out = name + sub
		args = []string{"-l", lang, "-o", out, "-i", in}
	case 1:
		in = name + sub
		args = []string{"-i=" + in, "-l", lang}
	case 2:
		out = "deep/" + name + sub
		args = []string{"--o=./" + out, "--i", in, "--l", lang}
	}
	vpAssume(in != out)
	vpPutDoc(in+"/a.xsd", vpSome())
	code, msg := vpRunMain(args)
	vpAssert(code == 0, "the command fails on a valid schema| "+msg)
	vpAssert(len(vpList(".")) == 2, "something else is written")
	vpAssert(vpUntouched(in+"/a.xsd"), "the input is changed")
	vpCheck15(out+"/a.xsd"+vpExt(lang), lang, "schema")
	vpCover("reached")
}
