package main

// The harness interface: symbolic inputs, assumptions, assertions, the
// document writer and observers of the file system.

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func parseAlphabet(s string) *dom {
	var d dom
	b := []byte(s)
	for i := 0; i < len(b); i++ {
		if i+2 < len(b) && b[i+1] == '-' && b[i] < b[i+2] {
			for c := int(b[i]); c <= int(b[i+2]); c++ {
				d[c>>6] |= 1 << uint(c&63)
			}
			i += 2
			continue
		}
		d[b[i]>>6] |= 1 << uint(b[i]&63)
	}
	return &d
}

func (p *Path) inputName(v Value) string {
	n := v.(string)
	p.names[n]++
	if k := p.names[n]; k > 1 {
		return fmt.Sprintf("%s@%d", n, k)
	}
	return n
}

func (p *Path) symStr(nm string, min, max int, first, rest *dom) Value {
	n := min
	if max > min {
		n += p.choose(max - min + 1)
	}
	b := make([]*Term, n)
	for i := range b {
		d := rest
		if i == 0 {
			d = first
		}
		b[i] = p.newByte(fmt.Sprintf("%s[%d]", nm, i), d)
		if d.count() == 1 {
			b[i] = p.ctx().byteC[d.first()]
		}
	}
	v := mkStr(b)
	p.inputs = append(p.inputs, Input{nm, "str", v})
	return v
}

func (p *Path) readToks(v Value) []vtok {
	var out []vtok
	for _, x := range v.(Slice) {
		s := x.(Struct)
		t := vtok{kind: int(p.concretize(s[0], 64)), space: s[1], local: s[2], data: s[4]}
		for _, y := range s[3].(Slice) {
			a := y.(Struct)
			t.attrs = append(t.attrs, vattr{a[0], a[1], a[2]})
		}
		out = append(out, t)
	}
	return out
}

func (p *Path) putNode(name Value, n *fnode) *fnode {
	c := p.clean(name)
	if d := p.dirOf(c); true {
		p.mkdirAll(d, true)
	}
	if o, _ := p.fs.lookup(p, c, nil); o != nil {
		p.fs.remove(o)
	}
	n.path = c
	n.input = true
	return p.fs.add(n)
}

// bound notes the range of a symbolic input for the evidence.
func (x *Explorer) bound(name Value, r string) {
	n, ok := name.(string)
	if !ok {
		return
	}
	n = strings.TrimRight(n, "0123456789")
	if _, seen := x.ranges.LoadOrStore([2]string{n, r}, true); seen {
		return
	}
	x.mu.Lock()
	if x.bounds[n] != "" {
		r = x.bounds[n] + "; " + r
	}
	x.bounds[n] = r
	x.mu.Unlock()
}

func (pr *Prog) initVP(def0 func(string, func(*Path, []Value) Value), opt func(string, func(*Path, []Value) (Value, bool))) {
	def := func(n string, f func(p *Path, a []Value) Value) { def0("vp:"+n, f) }
	symInt := func(p *Path, a []Value) *Term {
		nm := p.inputName(a[0])
		lo, hi := vint(a[1]), vint(a[2])
		if lo < 0 || hi > 255 || hi < lo {
			p.unsupported("vpInt range")
		}
		p.e.bound(a[0], fmt.Sprintf("%d..%d", lo, hi))
		t := p.newByte(nm, domOf(lo, hi))
		w := p.ctx().ZExt(t, 64)
		p.inputs = append(p.inputs, Input{nm, "int", w})
		return w
	}
	def("vpInt", func(p *Path, a []Value) Value { return fromInt(symInt(p, a)) })
	def("vpPick", func(p *Path, a []Value) Value {
		if vint(a[1]) <= 1 {
			p.inputs = append(p.inputs, Input{p.inputName(a[0]), "int", uint64(0)})
			return uint64(0)
		}
		t := symInt(p, []Value{a[0], uint64(0), uint64(vint(a[1]) - 1)})
		return p.concretize(t, 64)
	})
	def("vpBool", func(p *Path, a []Value) Value {
		nm := p.inputName(a[0])
		p.e.bound(a[0], "false, true")
		t := p.newByte(nm, domOf(0, 1))
		b := fromBool(p.ctx().Eq(t, p.ctx().byteC[1]))
		p.inputs = append(p.inputs, Input{nm, "int", p.ctx().ZExt(t, 64)})
		return b
	})
	def("vpStr", func(p *Path, a []Value) Value {
		p.e.bound(a[0], fmt.Sprintf("string of %d..%d bytes from [%s]", vint(a[1]), vint(a[2]), a[3]))
		d := parseAlphabet(a[3].(string))
		return p.symStr(p.inputName(a[0]), vint(a[1]), vint(a[2]), d, d)
	})
	def("vpStr2", func(p *Path, a []Value) Value {
		p.e.bound(a[0], fmt.Sprintf("string of %d..%d bytes from [%s] then [%s]", vint(a[1]), vint(a[2]), a[3], a[4]))
		return p.symStr(p.inputName(a[0]), vint(a[1]), vint(a[2]), parseAlphabet(a[3].(string)), parseAlphabet(a[4].(string)))
	})
	def("vpAssume", func(p *Path, a []Value) Value {
		switch x := a[0].(type) {
		case bool:
			if !x {
				p.abort("assume", "")
			}
		case *Term:
			switch p.tri(x) {
			case 1:
			case 0:
				p.abort("assume", "")
			default:
				if !p.feasible(x) {
					p.abort("assume", "")
				}
				p.assume(x)
			}
		}
		return nil
	})
	def("vpAssert", func(p *Path, a []Value) Value {
		p.assertCond(a[0], a[1], "")
		return nil
	})
	// vpKnown(id, class, cond, msg): cond must hold; on the inputs of the
	// class its failure is the finding recorded under id.
	def("vpKnown", func(p *Path, a []Value) Value {
		id := a[0].(string)
		c := p.ctx()
		class, cond := p.boolTerm(a[1]), p.boolTerm(a[2])
		if !p.e.prog.known[id] {
			p.assertCond(fromBool(cond), a[3], "")
			return nil
		}
		p.assertCond(fromBool(c.BOr(cond, class)), a[3], "")
		if cond == c.tTrue {
			return nil
		}
		bad := c.BAnd(class, c.Not(cond))
		if bad == c.tFalse {
			return nil
		}
		cons, vars := p.slice(bad)
		sat := bad == c.tTrue
		if !sat {
			r := p.w.solver.check(p.doms, vars, cons, false)
			sat = r.sat
		}
		if sat {
			p.e.asserts.Add(1)
			p.violate(bad, a[3], id)
		}
		if cond == c.tFalse {
			p.abort("fail", "")
		}
		if p.tri(cond) == 0 || !p.feasible(cond) {
			p.abort("fail", "")
		}
		p.assume(cond)
		return nil
	})
	def("vpFail", func(p *Path, a []Value) Value {
		p.assertCond(false, a[0], "")
		return nil
	})
	def("vpCover", func(p *Path, a []Value) Value {
		p.covers[a[0].(string)] = true
		return nil
	})
	def("vpBound", func(p *Path, a []Value) Value {
		p.e.mu.Lock()
		p.e.bounds[a[0].(string)] = p.concrete(a[1], nil)
		p.e.mu.Unlock()
		return nil
	})
	def("vpObserve", func(p *Path, a []Value) Value {
		p.obs = append(p.obs, obsItem{a[0].(string), a[1]})
		return nil
	})
	def("vpSym", func(p *Path, a []Value) Value { return true })
	def("vpTier", func(p *Path, a []Value) Value { return intV(p.e.prog.tier) })
	def("vpMapOrder", func(p *Path, a []Value) Value {
		p.mapOrder = p.truthy(a[0])
		return nil
	})
	def("vpPutDoc", func(p *Path, a []Value) Value {
		p.fs.docs++
		d := &docToks{toks: p.readToks(a[1]), mark: fmt.Sprintf("\x01document %d\x01", p.fs.docs)}
		d.enc = declaredEnc(d.toks)
		p.fs.sent[d.mark] = d
		p.putNode(a[0], &fnode{kind: nkFile, toks: d})
		return nil
	})
	def("vpPutText", func(p *Path, a []Value) Value {
		p.putNode(a[0], &fnode{kind: nkFile, parts: []Value{a[1]}})
		return nil
	})
	def("vpPutFault", func(p *Path, a []Value) Value {
		switch a[1].(string) {
		case "dir":
			p.mkdirAll(p.clean(a[0]), true)
		case "file":
			p.putNode(a[0], &fnode{kind: nkFile, parts: []Value{"in the way"}})
		case "loop":
			p.putNode(a[0], &fnode{kind: nkLoop})
		case "full":
			p.putNode(a[0], &fnode{kind: nkFull})
		case "eio":
			p.putNode(a[0], &fnode{kind: nkEIO})
		case "part": // wherever the file is: none can be longer
			p.fs.limit = vpPart
		case "missing":
		default:
			p.unsupported("fault " + a[1].(string))
		}
		return nil
	})
	def("vpPutLink", func(p *Path, a []Value) Value {
		p.putNode(a[0], &fnode{kind: nkLink, to: path.Clean(a[1].(string))})
		p.fs.links++
		return nil
	})
	// vpRead(path) (text, status): 0 file, 1 missing, 2 directory, 3 other
	def("vpRead", func(p *Path, a []Value) Value {
		n, _ := p.fs.find(p, a[0])
		if n == nil {
			return Tuple{"", uint64(1)}
		}
		switch n.kind {
		case nkFile:
			return Tuple{p.content(n), uint64(0)}
		case nkDir:
			return Tuple{"", uint64(2)}
		}
		return Tuple{"", uint64(3)}
	})
	def("vpUntouched", func(p *Path, a []Value) Value {
		n, _ := p.fs.find(p, a[0])
		return n != nil && n.input && !n.dirty
	})
	// vpList: the files (not directories) of the scratch tree, sorted
	def("vpList", func(p *Path, a []Value) Value {
		root := path.Clean(a[0].(string))
		var names []string
		var syms []Value
		for _, n := range p.fs.nodes {
			if n.kind == nkDir {
				continue
			}
			s, ok := n.path.(string)
			if !ok {
				syms = append(syms, n.path)
				continue
			}
			if root == "." || s == root || strings.HasPrefix(s, root+"/") {
				names = append(names, s)
			}
		}
		sort.Strings(names)
		out := Slice{}
		for _, s := range names {
			out = append(out, s)
		}
		for _, v := range syms {
			if root == "." || p.truthy(p.matchAt(v, 0, root+"/")) {
				out = append(out, v)
			}
		}
		return out
	})
	guard := func(p *Path, a []Value) (res Value) {
		f, _ := a[0].(*Func)
		depth := len(p.stack)
		npan := len(p.pan)
		defer func() {
			switch x := recover().(type) {
			case nil:
			case *targetPanic:
				p.stack, p.pan = p.stack[:depth], p.pan[:npan]
				res = Tuple{uint64(3), "panic: " + x.msg}
			case exitSignal:
				p.stack, p.pan = p.stack[:depth], p.pan[:npan]
				res = Tuple{uint64(2), fmt.Sprintf("exit status %d", x.code)}
			default:
				panic(x)
			}
		}()
		p.callFunc(nil, f, nil, nil)
		return Tuple{uint64(0), ""}
	}
	def("vpGuard", guard)
	def("vpGuardX", guard)
	def("vpRunMain", func(p *Path, a []Value) Value {
		w := p.w
		p.extra["args"] = a[0].(Slice)
		for i := range w.globals {
			if w.globals[i] == nil {
				continue
			}
			g := pr.globalAt(i)
			pk := g.Pkg.Pkg.Path()
			if pr.appPkgs[g.Pkg] || pk == "flag" || pk == "os" {
				w.globals[i] = nil
			}
		}
		for pk := range w.pkgInit {
			if n := pk.Pkg.Path(); pr.appPkgs[pk] || n == "flag" || n == "os" {
				delete(w.pkgInit, pk)
			}
		}
		n0 := len(p.stdout)
		var mainFn *ssa.Function
		for pk := range pr.appPkgs {
			if pk.Pkg.Name() == "main" {
				mainFn = pk.Func("main")
			}
		}
		code := 0
		depth := len(p.stack)
		npan := len(p.pan)
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case *targetPanic:
					p.stack, p.pan = p.stack[:depth], p.pan[:npan]
					code = 2
				case exitSignal:
					p.stack, p.pan = p.stack[:depth], p.pan[:npan]
					code = x.code
				default:
					panic(x)
				}
			}()
			p.initApps()
			p.call(mainFn, nil, nil)
		}()
		return Tuple{intV(code), p.concat(append([]Value(nil), p.stdout[n0:]...))}
	})
}

// initApps runs the initialisers of the packages under test.
func (p *Path) initApps() {
	for _, pk := range p.w.prog.appList {
		p.ensureInit(pk)
	}
}
