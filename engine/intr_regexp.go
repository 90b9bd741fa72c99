package main

// Regular expressions: compiled by the host, matched by backtracking over the
// host's program with symbolic input bytes.

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
)

type rx struct {
	src   string
	re    *regexp.Regexp
	prog  *syntax.Prog
	ncap  int
	names []string
}

func (pr *Prog) initRegexp(def func(string, func(*Path, []Value) Value), opt func(string, func(*Path, []Value) (Value, bool))) {
	compile := func(p *Path, v Value) (*rx, string) {
		s, ok := v.(string)
		if !ok {
			p.unsupported("symbolic regular expression")
		}
		re, err := regexp.Compile(s)
		if err != nil {
			return nil, err.Error()
		}
		t, _ := syntax.Parse(s, syntax.Perl)
		pg, _ := syntax.Compile(t.Simplify())
		return &rx{src: s, re: re, prog: pg, ncap: re.NumSubexp(), names: re.SubexpNames()}, ""
	}
	def("regexp.MustCompile", func(p *Path, a []Value) Value {
		r, e := compile(p, a[0])
		if r == nil {
			p.throw(Iface{t: types.Typ[types.String], v: "regexp: Compile: " + e}, "regexp: Compile: "+e)
		}
		return r
	})
	def("regexp.Compile", func(p *Path, a []Value) Value {
		r, e := compile(p, a[0])
		if r == nil {
			return Tuple{(*Value)(nil), p.w.prog.mkError(p, e)}
		}
		return Tuple{r, Iface{}}
	})
	def("regexp.QuoteMeta", func(p *Path, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			p.unsupported("QuoteMeta on symbolic text")
		}
		return regexp.QuoteMeta(s)
	})
	def("regexp.MatchString", func(p *Path, a []Value) Value {
		r, e := compile(p, a[0])
		if r == nil {
			return Tuple{false, p.w.prog.mkError(p, e)}
		}
		return Tuple{r.find(p, a[1], 0) != nil, Iface{}}
	})
	m := func(name string, f func(p *Path, r *rx, a []Value) Value) {
		def("(*regexp.Regexp)."+name, func(p *Path, a []Value) Value {
			r, ok := a[0].(*rx)
			if !ok {
				nilDeref(p)
			}
			return f(p, r, a[1:])
		})
	}
	m("String", func(p *Path, r *rx, a []Value) Value { return r.src })
	m("NumSubexp", func(p *Path, r *rx, a []Value) Value { return intV(r.ncap) })
	m("MatchString", func(p *Path, r *rx, a []Value) Value { return r.find(p, a[0], 0) != nil })
	m("Match", func(p *Path, r *rx, a []Value) Value { return r.find(p, strOfBytes(p, a[0].(Slice)), 0) != nil })
	m("FindString", func(p *Path, r *rx, a []Value) Value {
		c := r.find(p, a[0], 0)
		if c == nil {
			return ""
		}
		return substr(a[0], c[0], c[1])
	})
	m("FindStringIndex", func(p *Path, r *rx, a []Value) Value {
		c := r.find(p, a[0], 0)
		if c == nil {
			return Slice(nil)
		}
		return Slice{intV(c[0]), intV(c[1])}
	})
	m("FindStringSubmatch", func(p *Path, r *rx, a []Value) Value {
		c := r.find(p, a[0], 0)
		if c == nil {
			return Slice(nil)
		}
		out := Slice{}
		for i := 0; i <= r.ncap; i++ {
			if c[2*i] < 0 {
				out = append(out, "")
			} else {
				out = append(out, substr(a[0], c[2*i], c[2*i+1]))
			}
		}
		return out
	})
	m("FindAllString", func(p *Path, r *rx, a []Value) Value {
		var out Slice
		r.each(p, a[0], vint(a[1]), func(c []int) { out = append(out, substr(a[0], c[0], c[1])) })
		return out
	})
	m("FindAllStringIndex", func(p *Path, r *rx, a []Value) Value {
		var out Slice
		r.each(p, a[0], vint(a[1]), func(c []int) { out = append(out, Slice{intV(c[0]), intV(c[1])}) })
		return out
	})
	m("Split", func(p *Path, r *rx, a []Value) Value {
		n := vint(a[1])
		if n == 0 {
			return Slice(nil)
		}
		out := Slice{}
		if strLen(a[0]) == 0 {
			return Slice{""}
		}
		last := 0
		done := false
		r.each(p, a[0], n, func(c []int) {
			if done || n > 0 && len(out) == n-1 {
				done = true
				return
			}
			if c[1] != 0 {
				out = append(out, substr(a[0], last, c[0]))
			}
			last = c[1]
		})
		return append(out, substr(a[0], last, strLen(a[0])))
	})
	repl := func(p *Path, r *rx, s Value, f func(c []int) Value) Value {
		var parts []Value
		last := 0
		r.each(p, s, -1, func(c []int) {
			parts = append(parts, substr(s, last, c[0]), f(c))
			last = c[1]
		})
		parts = append(parts, substr(s, last, strLen(s)))
		return p.concat(parts)
	}
	m("ReplaceAllString", func(p *Path, r *rx, a []Value) Value {
		t, ok := a[1].(string)
		if !ok {
			p.unsupported("symbolic replacement template")
		}
		return repl(p, r, a[0], func(c []int) Value { return r.expand(p, t, a[0], c) })
	})
	m("ReplaceAllLiteralString", func(p *Path, r *rx, a []Value) Value {
		return repl(p, r, a[0], func(c []int) Value { return a[1] })
	})
	m("ReplaceAllStringFunc", func(p *Path, r *rx, a []Value) Value {
		f, _ := a[1].(*Func)
		return repl(p, r, a[0], func(c []int) Value {
			return p.callFunc(nil, f, []Value{substr(a[0], c[0], c[1])}, nil)
		})
	})
}

// expand applies a template like $1 or ${1}_.
func (r *rx) expand(p *Path, t string, s Value, c []int) Value {
	var parts []Value
	for len(t) > 0 {
		i := strings.IndexByte(t, '$')
		if i < 0 {
			parts = append(parts, t)
			break
		}
		parts = append(parts, t[:i])
		t = t[i:]
		if len(t) > 1 && t[1] == '$' {
			parts = append(parts, "$")
			t = t[2:]
			continue
		}
		name, num, rest, ok := extractTpl(t[1:])
		if !ok {
			parts = append(parts, "$")
			t = t[1:]
			continue
		}
		t = rest
		if num >= 0 {
			if 2*num+1 < len(c) && c[2*num] >= 0 {
				parts = append(parts, substr(s, c[2*num], c[2*num+1]))
			}
			continue
		}
		for k, n := range r.names {
			if n == name && 2*k+1 < len(c) && c[2*k] >= 0 {
				parts = append(parts, substr(s, c[2*k], c[2*k+1]))
				break
			}
		}
	}
	return p.concat(parts)
}

func extractTpl(str string) (name string, num int, rest string, ok bool) {
	brace := false
	if str != "" && str[0] == '{' {
		brace = true
		str = str[1:]
	}
	i := 0
	for i < len(str) && (str[i] == '_' || str[i] >= '0' && str[i] <= '9' || str[i] >= 'a' && str[i] <= 'z' || str[i] >= 'A' && str[i] <= 'Z') {
		i++
	}
	if i == 0 {
		return
	}
	name = str[:i]
	if brace {
		if i >= len(str) || str[i] != '}' {
			return
		}
		i++
	}
	num = 0
	for k := 0; k < len(name); k++ {
		if name[k] < '0' || name[k] > '9' || num >= 1e8 {
			num = -1
			break
		}
		num = num*10 + int(name[k]) - '0'
	}
	if name[0] == '0' && len(name) > 1 {
		num = -1
	}
	rest = str[i:]
	ok = true
	return
}

func (r *rx) each(p *Path, s Value, n int, f func(c []int)) {
	pos, prevEnd := 0, -1
	cnt := 0
	for pos <= strLen(s) && (n < 0 || cnt < n) {
		c := r.find(p, s, pos)
		if c == nil {
			return
		}
		accept := true
		if c[1] == c[0] {
			if c[0] == prevEnd {
				accept = false
			}
		}
		if c[1] > pos {
			pos = c[1]
		} else if pos < strLen(s) {
			_, k := p.decodeRune(s, pos)
			pos += k
		} else {
			pos++
		}
		prevEnd = c[1]
		if accept {
			f(c)
			cnt++
		}
	}
}

// find returns the capture positions of the leftmost match at or after from.
func (r *rx) find(p *Path, s Value, from int) []int {
	if cs, ok := s.(string); ok {
		// the host needs the left context only for assertions; use it all
		if from == 0 {
			return r.re.FindStringSubmatchIndex(cs)
		}
	}
	n := strLen(s)
	for i := from; i <= n; {
		caps := make([]int, 2*(r.ncap+1))
		for k := range caps {
			caps[k] = -1
		}
		budget := 200000
		if r.step(p, s, i, uint32(r.prog.Start), caps, &budget, map[[2]int]bool{}) {
			caps[0] = i
			return caps
		}
		if i == n {
			break
		}
		_, k := p.decodeRune(s, i)
		i += k
	}
	return nil
}

func (r *rx) runeAt(p *Path, s Value, i int) (Value, int) {
	return p.decodeRune(s, i)
}

func (r *rx) step(p *Path, s Value, i int, pc uint32, caps []int, budget *int, vis map[[2]int]bool) bool {
	for {
		*budget--
		if *budget < 0 {
			p.unsupported("regular expression budget")
		}
		k := [2]int{int(pc), i}
		if vis[k] {
			return false
		}
		vis[k] = true
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstMatch:
			caps[1] = i
			return true
		case syntax.InstNop:
			pc = in.Out
		case syntax.InstCapture:
			if int(in.Arg) < len(caps) {
				old := caps[in.Arg]
				caps[in.Arg] = i
				if r.step(p, s, i, in.Out, caps, budget, vis) {
					return true
				}
				caps[in.Arg] = old
				return false
			}
			pc = in.Out
		case syntax.InstAlt, syntax.InstAltMatch:
			if r.step(p, s, i, in.Out, caps, budget, vis) {
				return true
			}
			pc = in.Arg
		case syntax.InstEmptyWidth:
			ok := true
			e := syntax.EmptyOp(in.Arg)
			if e&syntax.EmptyBeginText != 0 && i != 0 {
				ok = false
			}
			if e&syntax.EmptyEndText != 0 && i != strLen(s) {
				ok = false
			}
			if e&syntax.EmptyBeginLine != 0 && i != 0 && !p.truthy(p.matchAt(s, i-1, "\n")) {
				ok = false
			}
			if e&syntax.EmptyEndLine != 0 && i != strLen(s) && !p.truthy(p.matchAt(s, i, "\n")) {
				ok = false
			}
			if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				w := func(k int) bool {
					if k < 0 || k >= strLen(s) {
						return false
					}
					return p.decide(p.wordByte(p.strBytes(substr(s, k, k+1))[0]))
				}
				b := w(i-1) != w(i)
				if e&syntax.EmptyWordBoundary != 0 && !b || e&syntax.EmptyNoWordBoundary != 0 && b {
					ok = false
				}
			}
			if !ok {
				return false
			}
			pc = in.Out
		default:
			if i >= strLen(s) {
				return false
			}
			rv, n := p.decodeRune(s, i)
			if !r.matchRune(p, in, rv) {
				return false
			}
			i += n
			pc = in.Out
		}
	}
}

func (p *Path) wordByte(b *Term) *Term {
	c := p.ctx()
	in := func(lo, hi byte) *Term {
		return c.BAnd(c.Cmp(OUle, c.byteC[lo], b), c.Cmp(OUle, b, c.byteC[hi]))
	}
	return c.BOr(c.BOr(in('a', 'z'), in('A', 'Z')), c.BOr(in('0', '9'), c.Eq(b, c.byteC['_'])))
}

func (r *rx) matchRune(p *Path, in *syntax.Inst, rv Value) bool {
	if x, ok := rv.(uint64); ok {
		return in.MatchRune(rune(int32(x)))
	}
	t := rv.(*Term)
	c := p.ctx()
	k := func(x rune) *Term { return c.Const(32, uint64(uint32(x))) }
	switch in.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return p.decide(c.Not(c.Eq(t, k('\n'))))
	}
	if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
		p.unsupported("case-folding regular expression on symbolic text")
	}
	cond := c.tFalse
	rs := in.Rune
	if len(rs) == 1 {
		cond = c.Eq(t, k(rs[0]))
	}
	for i := 0; i+1 < len(rs); i += 2 {
		if rs[i] == rs[i+1] {
			cond = c.BOr(cond, c.Eq(t, k(rs[i])))
			continue
		}
		cond = c.BOr(cond, c.BAnd(c.Cmp(OUle, k(rs[i]), t), c.Cmp(OUle, t, k(rs[i+1]))))
	}
	return p.decide(cond)
}
