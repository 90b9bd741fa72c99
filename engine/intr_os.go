package main

// The file system of the interpreted program: a flat set of paths. A path
// may have symbolic bytes; lookups then compare it with the known paths
// through the solver. Faults are kinds of entries.

import (
	"go/types"
	"path"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nkFile = iota
	nkDir
	nkLoop // symbolic link to itself
	nkFull // link to a full device: writes fail
	nkEIO  // regular file whose reads fail
	nkLink // symbolic link
)

const (
	eNOENT  = 2
	eIO     = 5
	eEXIST  = 17
	eNOTDIR = 20
	eISDIR  = 21
	eINVAL  = 22
	eNOSPC  = 28
	eFBIG   = 27

	vpPart    = 48
	eNOTEMPTY = 39
	eLOOP     = 40
)

var errnoText = map[uint64]string{eNOENT: "no such file or directory", eIO: "input/output error", eEXIST: "file exists",
	eNOTDIR: "not a directory", eISDIR: "is a directory", eINVAL: "invalid argument", eNOSPC: "no space left on device", eFBIG: "file too large",
	eNOTEMPTY: "directory not empty", eLOOP: "too many levels of symbolic links"}

type fnode struct {
	path  Value // cleaned, concrete or symbolic
	kind  int
	parts []Value
	toks  *docToks
	input bool   // put there by the harness
	dirty bool   // written, truncated or removed by the code under test
	to    string // where a link leads
}

// VFS is the file system of one path.
type VFS struct {
	nodes []*fnode
	idx   map[string]*fnode
	nsym  int
	docs  int
	sent  map[string]*docToks
	limit int // the size no file may exceed; 0: none
	links int // put there
}

func newVFS() *VFS {
	f := &VFS{idx: map[string]*fnode{}, sent: map[string]*docToks{}}
	f.add(&fnode{path: ".", kind: nkDir})
	f.add(&fnode{path: "/", kind: nkDir})
	return f
}

func (f *VFS) add(n *fnode) *fnode {
	f.nodes = append(f.nodes, n)
	if s, ok := n.path.(string); ok {
		f.idx[s] = n
	} else {
		f.nsym++
	}
	return n
}

func (f *VFS) remove(n *fnode) {
	for i, x := range f.nodes {
		if x == n {
			f.nodes = append(append([]*fnode(nil), f.nodes[:i]...), f.nodes[i+1:]...)
			break
		}
	}
	if s, ok := n.path.(string); ok {
		delete(f.idx, s)
	} else {
		f.nsym--
	}
}

// clean is filepath.Clean on a possibly symbolic path.
func (p *Path) clean(v Value) Value {
	if s, ok := v.(string); ok {
		return path.Clean(s)
	}
	fn := p.w.prog.fn("path/filepath", "Clean")
	return p.call(fn, nil, []Value{v})
}

func (pr *Prog) fn(pkg, name string) *ssa.Function {
	pk := pr.pkgs[pkg]
	if pk == nil {
		panic("package not loaded: " + pkg)
	}
	return pk.Func(name)
}

func (p *Path) dirOf(v Value) Value {
	if s, ok := v.(string); ok {
		return path.Dir(s)
	}
	return p.call(p.w.prog.fn("path/filepath", "Dir"), nil, []Value{v})
}

// find looks a path up; errno 0 means found.
func (f *VFS) find(p *Path, raw Value) (*fnode, uint64) {
	if strLen(raw) == 0 {
		return nil, eNOENT
	}
	return f.lookup(p, f.resolve(p, raw, true), raw)
}

// lfind is find without following a link at the end of the path.
func (f *VFS) lfind(p *Path, raw Value) (*fnode, uint64) {
	if strLen(raw) == 0 {
		return nil, eNOENT
	}
	return f.lookup(p, f.resolve(p, raw, false), raw)
}

// resolve cleans a path and follows the links on it.
func (f *VFS) resolve(p *Path, raw Value, last bool) Value {
	c := p.clean(raw)
	if f.links == 0 {
		return c
	}
	s, ok := c.(string)
	if !ok {
		if n, _ := f.lookup(p, c, nil); n != nil && n.kind == nkLink && last {
			return n.to
		}
		return c
	}
	if r, ok := raw.(string); ok && (strings.HasSuffix(r, "/") || strings.HasSuffix(r, "/.")) {
		last = true
	}
again:
	for k := 0; k < 40; k++ {
		for i := 1; i <= len(s); i++ {
			if i < len(s) && s[i] != '/' || i == len(s) && !last {
				continue
			}
			if n := f.idx[s[:i]]; n != nil && n.kind == nkLink {
				s = path.Join(n.to, s[i:])
				continue again
			}
		}
		break
	}
	return s
}

func (f *VFS) lookup(p *Path, c Value, raw Value) (*fnode, uint64) {
	if s, ok := c.(string); ok {
		if n := f.idx[s]; n != nil {
			return n, 0
		}
		if f.nsym == 0 {
			return nil, f.missing(p, c)
		}
	}
	for _, n := range f.nodes {
		if p.truthy(p.strEq(c, n.path)) {
			return n, 0
		}
	}
	return nil, f.missing(p, c)
}

// missing gives the error for a path that is not there: a file among its
// ancestors makes it ENOTDIR.
func (f *VFS) missing(p *Path, c Value) uint64 {
	s, ok := c.(string)
	if !ok {
		return eNOENT
	}
	for d := path.Dir(s); d != "." && d != "/" && d != ""; d = path.Dir(d) {
		if n := f.idx[d]; n != nil {
			switch n.kind {
			case nkDir:
				return eNOENT
			case nkLoop:
				return eLOOP
			}
			return eNOTDIR
		}
	}
	return eNOENT
}

func (p *Path) ptrTo(pkg, name string) types.Type {
	k := pkg + "." + name
	pr := p.w.prog
	if t, ok := pr.natFn.Load(k); ok {
		return t.(types.Type)
	}
	t := types.NewPointer(pr.namedType(pkg, name))
	a, _ := pr.natFn.LoadOrStore(k, t)
	return a.(types.Type)
}

func (p *Path) errno(e uint64) Iface {
	return Iface{t: p.w.prog.namedType("syscall", "Errno"), v: e}
}

func (p *Path) pathError(op string, name Value, e uint64) Iface {
	cell := new(Value)
	*cell = Struct{op, name, p.errno(e)}
	return Iface{t: p.ptrTo("io/fs", "PathError"), v: cell}
}

func (p *Path) fileInfo(name Value, n *fnode) Iface {
	return Iface{t: p.ptrTo("os", "fileStat"), v: &finfo{name: name, n: n}}
}

type finfo struct {
	name Value
	n    *fnode
}

func (f *finfo) mode() uint64 {
	switch f.n.kind {
	case nkDir:
		return 1<<31 | 0755
	case nkLoop, nkLink:
		return 1<<27 | 0777
	}
	return 0644
}

// Invoke implements fs.FileInfo and fs.DirEntry.
func (f *finfo) Invoke(p *Path, m string, args []Value) Value {
	switch m {
	case "IsDir":
		return f.n.kind == nkDir
	case "Name":
		return p.baseOf(f.name)
	case "Mode":
		return f.mode()
	case "Type":
		return f.mode() &^ 0777
	case "Size":
		return intV(strLen(p.concat(f.n.parts)))
	case "Sys":
		return Iface{}
	case "ModTime":
		return zero(p.w.prog.namedType("time", "Time"))
	case "Info":
		return Tuple{p.fileInfo(f.name, f.n), Iface{}}
	}
	p.unsupported("FileInfo." + m)
	return nil
}

func (p *Path) baseOf(v Value) Value {
	if s, ok := v.(string); ok {
		return path.Base(s)
	}
	return p.call(p.w.prog.fn("path/filepath", "Base"), nil, []Value{v})
}

// vfile is an open file.
type vfile struct {
	std    string
	n      *fnode
	path   Value
	closed bool
	rd     bool
	wr     bool
	pos    int
}

func (f *vfile) write(p *Path, s Value) Value {
	if f.std != "" {
		if f.std == "Stdout" || f.std == "Stderr" {
			p.stdout = append(p.stdout, s)
		}
		return Tuple{intV(strLen(s)), Iface{}}
	}
	if f.closed {
		return Tuple{uint64(0), p.closedErr("write", f.path)}
	}
	if !f.wr {
		return Tuple{uint64(0), p.pathError("write", f.path, 9)}
	}
	if f.n.kind == nkFull {
		if strLen(s) == 0 {
			return Tuple{uint64(0), Iface{}}
		}
		return Tuple{uint64(0), p.pathError("write", f.path, eNOSPC)}
	}
	f.n.dirty = true
	if lim := p.fs.limit; lim > 0 {
		have := strLen(p.content(f.n))
		if n := lim - have; strLen(s) > n {
			if n > 0 {
				f.n.parts = append(f.n.parts, substr(s, 0, n))
			} else {
				n = 0
			}
			return Tuple{intV(n), p.pathError("write", f.path, eFBIG)}
		}
	}
	f.n.parts = append(f.n.parts, s)
	return Tuple{intV(strLen(s)), Iface{}}
}

func (p *Path) closedErr(op string, name Value) Iface {
	g := p.w.prog.pkgs["io/fs"].Members["ErrClosed"].(*ssa.Global)
	e := (*p.global(p.w.prog.globalIndex(g))).(Iface)
	cell := new(Value)
	*cell = Struct{op, name, e}
	return Iface{t: p.ptrTo("io/fs", "PathError"), v: cell}
}

func (p *Path) ioEOF() Iface {
	g := p.w.prog.pkgs["io"].Members["EOF"].(*ssa.Global)
	return (*p.global(p.w.prog.globalIndex(g))).(Iface)
}

// content is the text of a file; a document stands as a marker that the
// XML decoder maps back to its tokens.
func (p *Path) content(n *fnode) Value {
	if n.toks != nil {
		return n.toks.mark
	}
	if len(n.parts) > 1 {
		n.parts = []Value{p.concat(n.parts)}
	}
	if len(n.parts) == 0 {
		return ""
	}
	return n.parts[0]
}

func (p *Path) openFile(name Value, flag uint64) Value {
	none := func(e uint64) Value { return Tuple{(*Value)(nil), p.pathError("open", name, e)} }
	acc := flag & 3
	creat, excl, trunc := flag&0x40 != 0, flag&0x80 != 0, flag&0x200 != 0
	n, e := p.fs.find(p, name)
	if n == nil {
		if e != eNOENT || !creat || strLen(name) == 0 {
			return none(e)
		}
		c := p.fs.resolve(p, name, true)
		d, de := p.fs.lookup(p, p.dirOf(c), nil)
		if d == nil {
			return none(de)
		}
		if d.kind == nkLoop {
			return none(eLOOP)
		}
		if d.kind != nkDir {
			return none(eNOTDIR)
		}
		n = p.fs.add(&fnode{path: c, kind: nkFile, dirty: true})
		return Tuple{&vfile{n: n, path: name, wr: acc != 0, rd: acc != 1}, Iface{}}
	}
	if creat && excl {
		return none(eEXIST)
	}
	if n.kind == nkLoop {
		return none(eLOOP)
	}
	if n.kind == nkDir && (acc != 0 || creat) {
		return none(eISDIR)
	}
	if trunc && acc != 0 && n.kind == nkFile {
		n.parts, n.toks, n.dirty = nil, nil, true
	}
	return Tuple{&vfile{n: n, path: name, wr: acc != 0, rd: acc != 1}, Iface{}}
}

func (p *Path) readErr(n *fnode, name Value) Iface {
	switch n.kind {
	case nkDir:
		return p.pathError("read", name, eISDIR)
	case nkEIO:
		return p.pathError("read", name, eIO)
	}
	return Iface{}
}

// children lists the entries directly below a directory, sorted by name.
func (p *Path) children(dir Value) []*fnode {
	var out []*fnode
	for _, n := range p.fs.nodes {
		if n.path == "." || n.path == "/" {
			continue
		}
		if p.truthy(p.strEq(p.dirOf(n.path), dir)) {
			out = append(out, n)
		}
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && p.truthy(p.strLess(out[j].path, out[j-1].path)); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// mkdirAll creates a directory and its parents; used by the harness too.
func (p *Path) mkdirAll(c Value, input bool) (Value, uint64) {
	n, e := p.fs.lookup(p, c, nil)
	if n != nil {
		if n.kind == nkDir {
			return nil, 0
		}
		if n.kind == nkLoop {
			return c, eEXIST
		}
		return c, eNOTDIR
	}
	if e == eLOOP {
		return c, eLOOP
	}
	d := p.dirOf(c)
	if at, e := p.mkdirAll(d, input); e != 0 {
		return at, e
	}
	p.fs.add(&fnode{path: c, kind: nkDir, input: input})
	return nil, 0
}

func (pr *Prog) initOS(def func(string, func(*Path, []Value) Value), opt func(string, func(*Path, []Value) (Value, bool))) {
	stat := func(op string, follow bool) func(p *Path, a []Value) Value {
		return func(p *Path, a []Value) Value {
			look := p.fs.lfind
			if follow {
				look = p.fs.find
			}
			n, e := look(p, a[0])
			if n == nil {
				return Tuple{Iface{}, p.pathError(op, a[0], e)}
			}
			if n.kind == nkLoop && follow {
				return Tuple{Iface{}, p.pathError(op, a[0], eLOOP)}
			}
			return Tuple{p.fileInfo(a[0], n), Iface{}}
		}
	}
	def("os.Stat", stat("stat", true))
	def("os.Lstat", stat("lstat", false))
	def("os.Open", func(p *Path, a []Value) Value { return p.openFile(a[0], 0) })
	def("os.Create", func(p *Path, a []Value) Value { return p.openFile(a[0], 2|0x40|0x200) })
	def("os.OpenFile", func(p *Path, a []Value) Value { return p.openFile(a[0], p.concretize(a[1], 64)) })
	mkAll := func(p *Path, a []Value) Value {
		if strLen(a[0]) == 0 {
			return p.pathError("mkdir", a[0], eNOENT)
		}
		if at, e := p.mkdirAll(p.fs.resolve(p, a[0], true), false); e != 0 {
			return p.pathError("mkdir", at, e)
		}
		return Iface{}
	}
	def("os.MkdirAll", mkAll)
	def("os.Mkdir", func(p *Path, a []Value) Value {
		n, e := p.fs.lfind(p, a[0])
		if n != nil {
			return p.pathError("mkdir", a[0], eEXIST)
		}
		if e != eNOENT {
			return p.pathError("mkdir", a[0], e)
		}
		c := p.fs.resolve(p, a[0], false)
		if d, de := p.fs.lookup(p, p.dirOf(c), nil); d == nil {
			return p.pathError("mkdir", a[0], de)
		} else if d.kind != nkDir {
			return p.pathError("mkdir", a[0], eNOTDIR)
		}
		p.fs.add(&fnode{path: c, kind: nkDir})
		return Iface{}
	})
	rm := func(p *Path, a []Value) Value {
		n, e := p.fs.lfind(p, a[0])
		if n == nil {
			return p.pathError("remove", a[0], e)
		}
		if n.kind == nkDir && len(p.children(n.path)) > 0 {
			return p.pathError("remove", a[0], eNOTEMPTY)
		}
		n.dirty = true
		p.fs.remove(n)
		return Iface{}
	}
	def("os.Remove", rm)
	def("os.RemoveAll", func(p *Path, a []Value) Value {
		n, _ := p.fs.lfind(p, a[0])
		if n == nil {
			return Iface{}
		}
		root, ok := n.path.(string)
		if !ok {
			p.unsupported("RemoveAll of a symbolic path")
		}
		for _, x := range append([]*fnode(nil), p.fs.nodes...) {
			if s, ok := x.path.(string); ok && (s == root || strings.HasPrefix(s, root+"/")) {
				x.dirty = true
				p.fs.remove(x)
			}
		}
		return Iface{}
	})
	def("os.Rename", func(p *Path, a []Value) Value {
		n, e := p.fs.lfind(p, a[0])
		if n == nil {
			return p.pathError("rename", a[0], e)
		}
		c := p.fs.resolve(p, a[1], false)
		d, de := p.fs.lookup(p, p.dirOf(c), nil)
		if d == nil {
			return p.pathError("rename", a[0], de)
		}
		if o, _ := p.fs.lookup(p, c, nil); o != nil {
			if o.kind == nkDir {
				return p.pathError("rename", a[0], eEXIST)
			}
			p.fs.remove(o)
		}
		p.fs.remove(n)
		m := *n
		m.path, m.dirty = c, true
		p.fs.add(&m)
		return Iface{}
	})
	readFile := func(p *Path, a []Value) Value {
		t := p.openFile(a[0], 0).(Tuple)
		if t[1].(Iface).t != nil {
			return Tuple{Slice(nil), t[1]}
		}
		f := t[0].(*vfile)
		if e := p.readErr(f.n, a[0]); e.t != nil {
			return Tuple{Slice{}, e}
		}
		return Tuple{bytesOfStr(p, p.content(f.n)), Iface{}}
	}
	def("os.ReadFile", readFile)
	def("io/ioutil.ReadFile", readFile)
	writeFile := func(p *Path, a []Value) Value {
		t := p.openFile(a[0], 1|0x40|0x200).(Tuple)
		if t[1].(Iface).t != nil {
			return t[1]
		}
		return t[0].(*vfile).write(p, strOfBytes(p, a[1].(Slice))).(Tuple)[1]
	}
	def("os.WriteFile", writeFile)
	def("io/ioutil.WriteFile", writeFile)
	file := func(p *Path, v Value) *vfile {
		f, ok := v.(*vfile)
		if !ok {
			return nil
		}
		return f
	}
	invalid := func(p *Path) Iface {
		g := p.w.prog.pkgs["io/fs"].Members["ErrInvalid"].(*ssa.Global)
		return (*p.global(p.w.prog.globalIndex(g))).(Iface)
	}
	def("(*os.File).Write", func(p *Path, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			return Tuple{uint64(0), invalid(p)}
		}
		return f.write(p, strOfBytes(p, a[1].(Slice)))
	})
	def("(*os.File).WriteString", func(p *Path, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			return Tuple{uint64(0), invalid(p)}
		}
		return f.write(p, a[1])
	})
	def("(*os.File).Close", func(p *Path, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			return invalid(p)
		}
		if f.closed {
			return p.closedErr("close", f.path)
		}
		f.closed = true
		return Iface{}
	})
	def("(*os.File).Sync", func(p *Path, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			return invalid(p)
		}
		if f.closed {
			return p.closedErr("sync", f.path)
		}
		return Iface{}
	})
	def("(*os.File).Name", func(p *Path, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			nilDeref(p)
		}
		return f.path
	})
	def("(*os.File).Stat", func(p *Path, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			return Tuple{Iface{}, invalid(p)}
		}
		return Tuple{p.fileInfo(f.path, f.n), Iface{}}
	})
	def("(*os.File).Read", func(p *Path, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			return Tuple{uint64(0), invalid(p)}
		}
		if f.std != "" {
			return Tuple{uint64(0), p.ioEOF()}
		}
		if f.closed {
			return Tuple{uint64(0), p.closedErr("read", f.path)}
		}
		if e := p.readErr(f.n, f.path); e.t != nil {
			return Tuple{uint64(0), e}
		}
		b := bytesOfStr(p, p.content(f.n))
		buf := a[1].(Slice)
		if f.pos >= len(b) && len(buf) > 0 {
			return Tuple{uint64(0), p.ioEOF()}
		}
		n := copy(buf, b[f.pos:])
		f.pos += n
		return Tuple{intV(n), Iface{}}
	})
	def("(*os.File).Seek", func(p *Path, a []Value) Value {
		f := file(p, a[0])
		if f == nil {
			return Tuple{uint64(0), invalid(p)}
		}
		switch p.concretize(a[2], 64) {
		case 0:
			f.pos = int(p.concretize(a[1], 64))
		case 1:
			f.pos += int(p.concretize(a[1], 64))
		default:
			p.unsupported("seek from the end")
		}
		return Tuple{intV(f.pos), Iface{}}
	})
	readDir := func(entries bool) func(p *Path, a []Value) Value {
		return func(p *Path, a []Value) Value {
			n, e := p.fs.find(p, a[0])
			if n == nil {
				return Tuple{Slice(nil), p.pathError("open", a[0], e)}
			}
			if n.kind != nkDir {
				return Tuple{Slice(nil), p.pathError("readdirent", a[0], eNOTDIR)}
			}
			out := Slice{}
			for _, c := range p.children(n.path) {
				out = append(out, p.fileInfo(c.path, c))
			}
			return Tuple{out, Iface{}}
		}
	}
	def("os.ReadDir", readDir(true))
	def("io/ioutil.ReadDir", readDir(false))
	def("path/filepath.EvalSymlinks", func(p *Path, a []Value) Value {
		n, e := p.fs.find(p, a[0])
		if n == nil {
			return Tuple{"", p.pathError("lstat", a[0], e)}
		}
		return Tuple{p.fs.resolve(p, a[0], true), Iface{}}
	})
	def("os.Readlink", func(p *Path, a []Value) Value {
		n, e := p.fs.lfind(p, a[0])
		if n != nil && n.kind == nkLink {
			r, err := filepath.Rel(path.Dir(n.path.(string)), n.to)
			if err != nil {
				r = n.to
			}
			return Tuple{r, Iface{}}
		}
		if n != nil {
			e = eINVAL
		}
		return Tuple{"", p.pathError("readlink", a[0], e)}
	})
	def("os.Getwd", func(p *Path, a []Value) Value { return Tuple{"/work", Iface{}} })
	opt("path/filepath.Abs", func(p *Path, a []Value) (Value, bool) {
		s, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		if path.IsAbs(s) {
			return Tuple{path.Clean(s), Iface{}}, true
		}
		return Tuple{path.Join("/work", s), Iface{}}, true
	})
	// walking
	walk := func(entry bool) func(p *Path, a []Value) Value {
		return func(p *Path, a []Value) Value {
			fn, _ := a[1].(*Func)
			call := func(name Value, info Iface, err Iface) Iface {
				return p.callFunc(nil, fn, []Value{name, info, err}, nil).(Iface)
			}
			skip := func(e Iface, which string) bool {
				if e.t == nil {
					return false
				}
				g := p.w.prog.pkgs["io/fs"].Members[which].(*ssa.Global)
				return p.ifaceEq(e, (*p.global(p.w.prog.globalIndex(g))).(Iface)) == true
			}
			n, e := p.fs.lfind(p, a[0])
			var res Iface
			if n == nil {
				res = call(a[0], Iface{}, p.pathError("lstat", a[0], e))
			} else {
				var rec func(name Value, n *fnode) Iface
				rec = func(name Value, n *fnode) Iface {
					err := call(name, p.fileInfo(name, n), Iface{})
					if err.t != nil {
						if skip(err, "SkipDir") && n.kind == nkDir {
							return Iface{}
						}
						return err
					}
					if n.kind != nkDir {
						return Iface{}
					}
					for _, c := range p.children(n.path) {
						cn := p.call(p.w.prog.fn("path/filepath", "Join"), nil, []Value{Slice{name, p.baseOf(c.path)}})
						if err := rec(cn, c); err.t != nil {
							if skip(err, "SkipDir") {
								return Iface{}
							}
							return err
						}
					}
					return Iface{}
				}
				res = rec(a[0], n)
			}
			if skip(res, "SkipDir") || skip(res, "SkipAll") {
				return Iface{}
			}
			return res
		}
	}
	def("path/filepath.Walk", walk(false))
	def("path/filepath.WalkDir", walk(true))
	def("path/filepath.Glob", func(p *Path, a []Value) Value {
		p.unsupported("filepath.Glob")
		return nil
	})
	def("os.Exit", func(p *Path, a []Value) Value { panic(exitSignal{int(int32(p.concretize(a[0], 64)))}) })
	def("syscall.Exit", func(p *Path, a []Value) Value { panic(exitSignal{int(int32(p.concretize(a[0], 64)))}) })
	def("(syscall.Errno).Error", func(p *Path, a []Value) Value {
		e := p.concretize(a[0], 64)
		if s, ok := errnoText[e]; ok {
			return s
		}
		return "errno"
	})
	def("(*flag.FlagSet).PrintDefaults", func(p *Path, a []Value) Value { return nil })
	def("(*net/http.Client).Get", func(p *Path, a []Value) Value {
		return Tuple{(*Value)(nil), p.w.prog.mkError(p, "network access is outside the model")}
	})
	def("net/http.Get", func(p *Path, a []Value) Value {
		return Tuple{(*Value)(nil), p.w.prog.mkError(p, "network access is outside the model")}
	})
}
