package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func (pr *Prog) initFmt(def func(string, func(*Path, []Value) Value), opt func(string, func(*Path, []Value) (Value, bool))) {
	def("fmt.Sprintf", func(p *Path, a []Value) Value { return p.sprintf(a[0], a[1].(Slice)) })
	def("fmt.Sprint", func(p *Path, a []Value) Value { return p.sprint(a[0].(Slice), false) })
	def("fmt.Sprintln", func(p *Path, a []Value) Value { return p.sprint(a[0].(Slice), true) })
	def("fmt.Errorf", func(p *Path, a []Value) Value {
		msg := p.sprintf(a[0], a[1].(Slice))
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			for _, x := range a[1].(Slice) {
				i := x.(Iface)
				if i.t != nil && p.implements(i.t, errorIface) {
					t := p.w.prog.namedType("fmt", "wrapError")
					cell := new(Value)
					*cell = Struct{msg, i}
					return Iface{t: types.NewPointer(t), v: cell}
				}
			}
		}
		return p.w.prog.mkErrorV(p, msg)
	})
	out := func(p *Path, s Value) Value {
		p.stdout = append(p.stdout, s)
		return Tuple{intV(strLen(s)), Iface{}}
	}
	def("fmt.Print", func(p *Path, a []Value) Value { return out(p, p.sprint(a[0].(Slice), false)) })
	def("fmt.Println", func(p *Path, a []Value) Value { return out(p, p.sprint(a[0].(Slice), true)) })
	def("fmt.Printf", func(p *Path, a []Value) Value { return out(p, p.sprintf(a[0], a[1].(Slice))) })
	fout := func(p *Path, w Value, s Value) Value {
		i := w.(Iface)
		if i.t == nil {
			nilDeref(p)
		}
		if f, ok := i.v.(*vfile); ok {
			return f.write(p, s)
		}
		return p.callMethod(i, "Write", bytesOfStr(p, s))
	}
	def("fmt.Fprint", func(p *Path, a []Value) Value { return fout(p, a[0], p.sprint(a[1].(Slice), false)) })
	def("fmt.Fprintln", func(p *Path, a []Value) Value { return fout(p, a[0], p.sprint(a[1].(Slice), true)) })
	def("fmt.Fprintf", func(p *Path, a []Value) Value { return fout(p, a[0], p.sprintf(a[1], a[2].(Slice))) })
	app := func(p *Path, b Value, s Value) Value {
		return append(b.(Slice), bytesOfStr(p, s)...)
	}
	def("fmt.Appendf", func(p *Path, a []Value) Value { return app(p, a[0], p.sprintf(a[1], a[2].(Slice))) })
	def("fmt.Append", func(p *Path, a []Value) Value { return app(p, a[0], p.sprint(a[1].(Slice), false)) })
	// log
	for _, n := range []string{"Print", "Println", "Fatal", "Fatalln"} {
		n := n
		def("log."+n, func(p *Path, a []Value) Value {
			if strings.HasPrefix(n, "Fatal") {
				panic(exitSignal{1})
			}
			return nil
		})
	}
	def("log.Printf", func(p *Path, a []Value) Value { return nil })
	def("log.Fatalf", func(p *Path, a []Value) Value { panic(exitSignal{1}) })
}

func (p *Path) sprint(args Slice, ln bool) Value {
	var parts []Value
	for i, a := range args {
		x := a.(Iface)
		if i > 0 {
			_, s1 := x.v.(string)
			_, s2 := x.v.(SStr)
			pi := args[i-1].(Iface)
			_, s3 := pi.v.(string)
			_, s4 := pi.v.(SStr)
			if ln || !(s1 || s2) && !(s3 || s4) {
				parts = append(parts, " ")
			}
		}
		parts = append(parts, p.format(x, 'v', ""))
	}
	if ln {
		parts = append(parts, "\n")
	}
	return p.concat(parts)
}

func (p *Path) sprintf(fv Value, args Slice) Value {
	var parts []Value
	k, indexed := 0, false
	// a format with symbolic bytes: find the verbs by deciding each byte
	c := p.ctx()
	fb := p.strBytes(fv)
	isByte := func(i int, ch byte) bool {
		return p.decide(c.Eq(fb[i], c.byteC[ch]))
	}
	n := len(fb)
	for i := 0; i < n; {
		j := i
		for j < n && !isByte(j, '%') {
			j++
		}
		if j > i {
			parts = append(parts, substr(fv, i, j))
		}
		if j >= n {
			break
		}
		i = j + 1
		if i >= n {
			parts = append(parts, "%!(NOVERB)")
			break
		}
		flags := ""
		for i < n {
			if fb[i].op != OConst {
				p.unsupported("symbolic format verb")
			}
			ch := byte(fb[i].c)
			if strings.IndexByte("+-# 0123456789.", ch) >= 0 {
				flags += string(ch)
				i++
				continue
			}
			break
		}
		if i >= n {
			parts = append(parts, "%!(NOVERB)")
			break
		}
		verb := byte(fb[i].c)
		i++
		if verb == '%' {
			parts = append(parts, "%")
			continue
		}
		if verb == '[' {
			// %[n]v, with flags in front
			q, num := i, 0
			for q < n && fb[q].op == OConst && fb[q].c >= '0' && fb[q].c <= '9' {
				num = num*10 + int(fb[q].c-'0')
				q++
			}
			if q+1 >= n || fb[q].op != OConst || fb[q].c != ']' || fb[q+1].op != OConst || num < 1 || num > len(args) {
				p.unsupported("format index argument")
			}
			k, verb, i, indexed = num-1, byte(fb[q+1].c), q+2, true
		}
		if verb == '*' {
			p.unsupported("format width argument")
		}
		if k >= len(args) {
			parts = append(parts, "%!"+string(verb)+"(MISSING)")
			continue
		}
		parts = append(parts, p.format(args[k].(Iface), verb, flags))
		k++
	}
	if k < len(args) && !indexed {
		parts = append(parts, "%!(EXTRA")
		for q := k; q < len(args); q++ {
			if q > k {
				parts = append(parts, ",")
			}
			a := args[q].(Iface)
			if a.t == nil {
				parts = append(parts, " <nil>")
				continue
			}
			parts = append(parts, " "+shortType(a.t)+"=", p.format(a, 'v', ""))
		}
		parts = append(parts, ")")
	}
	return p.concat(parts)
}

func (p *Path) format(a Iface, verb byte, flags string) Value {
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return shortType(a.t)
	}
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if _, ok := a.v.(RType); ok {
		return p.rtypeMethod(a.v.(RType), "String", nil)
	}
	if _, isHost := a.v.(HostObj); !isHost && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'w') && !strings.Contains(flags, "#") {
		var s Value
		if p.implements(a.t, errorIface) {
			if !isNilPtr(a.v) || !isPtr(a.t) {
				s = p.errText(a)
			}
		} else if fn := p.w.prog.method(a.t, nil, "String"); fn != nil && fn.Signature.Params().Len() == 0 {
			if !isNilPtr(a.v) || !isPtr(a.t) {
				s = p.callMethod(a, "String")
			}
		}
		if s != nil {
			if verb == 'q' {
				return p.quote(s)
			}
			return p.pad(s, flags)
		}
	}
	w, signed, isInt := intInfo(a.t)
	switch v := a.v.(type) {
	case string, SStr:
		switch verb {
		case 's', 'v', 'w':
			if strings.Contains(flags, "#") {
				return p.quote(v)
			}
			return p.pad(v, flags)
		case 'q':
			return p.quote(v)
		case 'x', 'X':
			if s, ok := v.(string); ok {
				return fmt.Sprintf("%"+flags+string(verb), s)
			}
		case 'd':
			return p.concat([]Value{"%!d(string=", v, ")"})
		}
	case bool, *Term, uint64:
		if t, ok := v.(*Term); ok && t.w == 0 {
			return fmt.Sprintf("%"+flags+string(verb), p.decide(t))
		}
		if b, ok := v.(bool); ok {
			return fmt.Sprintf("%"+flags+string(verb), b)
		}
		if isInt {
			if verb == 'c' {
				return p.runeToStr(v, w, signed)
			}
			x := p.concretize(v, w)
			if verb == 's' {
				return fmt.Sprintf("%!s(%s=%d)", shortType(a.t), x)
			}
			if verb == 'v' {
				verb, flags = 'd', strings.ReplaceAll(flags, "+", "")
			}
			if signed {
				return fmt.Sprintf("%"+flags+string(verb), sext(x, w))
			}
			return fmt.Sprintf("%"+flags+string(verb), x)
		}
	case float64:
		if b, ok := under(a.t).(*types.Basic); ok && b.Kind() == types.Float32 {
			return fmt.Sprintf("%"+flags+string(verb), float32(v))
		}
		return fmt.Sprintf("%"+flags+string(verb), v)
	case Slice:
		st, ok := under(a.t).(*types.Slice)
		if !ok {
			break
		}
		if ew, _, isI := intInfo(st.Elem()); isI && ew == 8 && (verb == 's' || verb == 'q') {
			s := strOfBytes(p, v)
			if verb == 'q' {
				return p.quote(s)
			}
			return p.pad(s, flags)
		}
		parts := []Value{"["}
		for i, e := range v {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, p.format(p.toIface(st.Elem(), e), verb, flags))
		}
		return p.concat(append(parts, "]"))
	case Struct:
		st, ok := under(a.t).(*types.Struct)
		if !ok {
			break
		}
		parts := []Value{"{"}
		for i, e := range v {
			if i > 0 {
				parts = append(parts, " ")
			}
			if strings.Contains(flags, "+") {
				parts = append(parts, st.Field(i).Name()+":")
			}
			parts = append(parts, p.format(p.toIface(st.Field(i).Type(), e), verb, flags))
		}
		return p.concat(append(parts, "}"))
	case *Map:
		parts := []Value{"map["}
		mt := under(a.t).(*types.Map)
		n := 0
		if v != nil {
			for _, e := range v.entries {
				if e.dead {
					continue
				}
				if n > 0 {
					parts = append(parts, " ")
				}
				n++
				parts = append(parts, p.format(p.toIface(mt.Key(), e.k), verb, flags), ":", p.format(p.toIface(mt.Elem(), e.v), verb, flags))
			}
		}
		if n > 1 {
			p.unsupported("formatting a map with several entries")
		}
		return p.concat(append(parts, "]"))
	case *Value:
		if v == nil {
			return "<nil>"
		}
		if _, ok := (*v).(Struct); ok && (verb == 'v' || verb == 's') {
			pt := under(a.t).(*types.Pointer)
			return p.concat([]Value{"&", p.format(Iface{t: pt.Elem(), v: *v}, verb, flags)})
		}
	}
	p.unsupported(fmt.Sprintf("format %%%s%c of %s (%T)", flags, verb, a.t, a.v))
	return nil
}

func (p *Path) toIface(t types.Type, v Value) Iface {
	if _, ok := under(t).(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{t: t, v: v}
}

func isPtr(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}

func (p *Path) pad(s Value, flags string) Value {
	if flags == "" || flags == "+" {
		return s
	}
	if cs, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+"s", cs)
	}
	// width and precision on symbolic text count bytes (ASCII)
	left := strings.HasPrefix(flags, "-")
	f := strings.TrimLeft(flags, "-+# 0")
	width, prec := f, ""
	if i := strings.IndexByte(f, '.'); i >= 0 {
		width, prec = f[:i], f[i+1:]
		n, _ := strconv.Atoi(prec)
		if n < strLen(s) {
			s = substr(s, 0, n)
		}
	}
	n, _ := strconv.Atoi(width)
	if n > strLen(s) {
		sp := strings.Repeat(" ", n-strLen(s))
		if left {
			return p.strConcat(s, sp)
		}
		return p.strConcat(sp, s)
	}
	return s
}

// quote is %q: symbolic bytes that need escaping fork.
func (p *Path) quote(s Value) Value {
	if cs, ok := s.(string); ok {
		return strconv.Quote(cs)
	}
	c := p.ctx()
	parts := []Value{"\""}
	for _, b := range s.(SStr) {
		if b.op == OConst {
			q := strconv.Quote(string([]byte{byte(b.c)}))
			parts = append(parts, q[1:len(q)-1])
			continue
		}
		plain := c.BAnd(c.BAnd(c.Cmp(OUle, c.byteC[' '], b), c.Cmp(OUle, b, c.byteC['~'])),
			c.BAnd(c.Not(c.Eq(b, c.byteC['"'])), c.Not(c.Eq(b, c.byteC['\\']))))
		if p.decide(plain) {
			parts = append(parts, mkStr([]*Term{b}))
			continue
		}
		if p.decide(c.Cmp(OUle, c.byteC[0x80], b)) {
			p.unsupported("quoting a symbolic non-ASCII byte")
		}
		x := p.concretize(Value(b), 8)
		q := strconv.Quote(string([]byte{byte(x)}))
		parts = append(parts, q[1:len(q)-1])
	}
	return p.concat(append(parts, "\""))
}
