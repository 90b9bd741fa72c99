package main

// encoding/xml at the level of tokens. A document is a sequence of tokens
// whose names, attribute values and text may be symbolic; Decoder.Token
// delivers them as the real decoder does for the text that the native side
// writes (name space translation, end of input, syntax errors).

import (
	"encoding/xml"
	"fmt"
	"go/format"
	"go/types"
	"io"
	"strings"
)

const (
	tkStart = 1 + iota
	tkEnd
	tkText
	tkComment
	tkProcInst
	tkError
	tkDirective
)

type vattr struct{ space, local, value Value }
type vtok struct {
	kind         int
	space, local Value
	attrs        []vattr
	data         Value
}

type docToks struct {
	toks []vtok
	mark string
	enc  string // of the bytes, as the prolog declares it; "" for UTF-8
}

type nsBind struct{ prefix, uri Value }

type tokStream struct {
	toks  []vtok
	pos   int
	err   Iface // sticky read error
	fin   *Iface
	depth int
	ns    [][]nsBind
	open  []vtok
	chars charState
}

const xmlURL = "http://www.w3.org/XML/1998/namespace"

func (s *tokStream) translate(p *Path, space, local Value, elem bool) Value {
	if sp, ok := space.(string); ok {
		switch {
		case sp == "xmlns":
			return space
		case sp == "" && !elem:
			return space
		case sp == "xml":
			return xmlURL
		}
		if sp == "" {
			if l, ok := local.(string); ok && l == "xmlns" {
				return space
			}
		}
	}
	for i := len(s.ns) - 1; i >= 0; i-- {
		for k := len(s.ns[i]) - 1; k >= 0; k-- {
			if p.truthy(p.strEq(s.ns[i][k].prefix, space)) {
				return s.ns[i][k].uri
			}
		}
	}
	return space
}

func (p *Path) xmlName(space, local Value) Struct { return Struct{space, local} }

func (p *Path) syntaxError(msg string) Iface {
	cell := new(Value)
	*cell = Struct{msg, uint64(1)}
	return Iface{t: p.ptrTo("encoding/xml", "SyntaxError"), v: cell}
}

func (s *tokStream) next(p *Path, raw bool) Value {
	if s.fin != nil {
		return Tuple{Iface{}, *s.fin}
	}
	end := func(e Iface) Value {
		s.fin = &e
		return Tuple{Iface{}, e}
	}
	if s.pos >= len(s.toks) {
		if s.err.t != nil {
			return end(s.err)
		}
		if len(s.open) > 0 && !raw {
			return end(p.syntaxError("unexpected EOF"))
		}
		return end(p.ioEOF())
	}
	t, ok := s.chars.read(p, s.toks[s.pos])
	if !ok {
		return end(p.syntaxError("invalid UTF-8"))
	}
	s.pos++
	if t.kind == tkProcInst && t.local == "xml" {
		if e := s.prolog(p, t.data); e.t != nil {
			return end(e)
		}
	}
	pr := p.w.prog
	mk := func(name string, v Value) Value {
		return Tuple{Iface{t: pr.namedType("encoding/xml", name), v: v}, Iface{}}
	}
	switch t.kind {
	case tkStart:
		var b []nsBind
		if !raw {
			for _, a := range t.attrs {
				if a.space == "xmlns" {
					b = append(b, nsBind{a.local, a.value})
				} else if a.space == "" && a.local == "xmlns" {
					b = append(b, nsBind{"", a.value})
				}
			}
			s.ns = append(s.ns, b)
			s.open = append(s.open, t)
		}
		attrs := Slice{}
		sp := t.space
		if !raw {
			sp = s.translate(p, t.space, t.local, true)
		}
		for _, a := range t.attrs {
			as := a.space
			if !raw {
				as = s.translate(p, a.space, a.local, false)
			}
			attrs = append(attrs, Struct{p.xmlName(as, a.local), a.value})
		}
		return mk("StartElement", Struct{p.xmlName(sp, t.local), attrs})
	case tkEnd:
		sp := t.space
		if !raw {
			if len(s.open) == 0 {
				return end(p.syntaxError("unexpected end element"))
			}
			sp = s.translate(p, t.space, t.local, true)
			s.ns = s.ns[:len(s.ns)-1]
			s.open = s.open[:len(s.open)-1]
		}
		return mk("EndElement", Struct{p.xmlName(sp, t.local)})
	case tkText:
		return mk("CharData", bytesOfStr(p, t.data))
	case tkComment:
		return mk("Comment", bytesOfStr(p, t.data))
	case tkDirective:
		return mk("Directive", bytesOfStr(p, t.data))
	case tkProcInst:
		return mk("ProcInst", Struct{t.local, bytesOfStr(p, t.data)})
	}
	return end(p.syntaxError("malformed input"))
}

// nativeToks tokenises concrete text with the real decoder.
func nativeToks(text string) []vtok {
	d := xml.NewDecoder(strings.NewReader(text))
	var out []vtok
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			return out
		}
		if err != nil {
			return append(out, vtok{kind: tkError})
		}
		switch x := t.(type) {
		case xml.StartElement:
			v := vtok{kind: tkStart, space: x.Name.Space, local: x.Name.Local}
			for _, a := range x.Attr {
				v.attrs = append(v.attrs, vattr{a.Name.Space, a.Name.Local, a.Value})
			}
			out = append(out, v)
		case xml.EndElement:
			out = append(out, vtok{kind: tkEnd, space: x.Name.Space, local: x.Name.Local})
		case xml.CharData:
			out = append(out, vtok{kind: tkText, data: string(x)})
		case xml.Comment:
			out = append(out, vtok{kind: tkComment, data: string(x)})
		case xml.Directive:
			out = append(out, vtok{kind: tkDirective, data: string(x)})
		case xml.ProcInst:
			out = append(out, vtok{kind: tkProcInst, local: x.Target, data: string(x.Inst)})
		}
	}
}

func (p *Path) streamOf(rd Iface) *tokStream {
	s := &tokStream{}
	if rd.t == nil {
		nilDeref(p)
	}
	if f, ok := rd.v.(*vfile); ok {
		if f.std != "" {
			return s
		}
		if f.closed {
			s.err = p.closedErr("read", f.path)
			return s
		}
		if e := p.readErr(f.n, f.path); e.t != nil {
			s.err = e
			return s
		}
		if f.pos == 0 && f.n.toks != nil {
			s.toks = f.n.toks.toks
			s.chars.declared = f.n.toks.enc
			f.pos = len(f.n.toks.mark)
			return s
		}
	}
	if c, ok := rd.v.(*charReader); ok && c.src.t != nil {
		s = p.streamOf(c.src)
		s.chars.applied = append(s.chars.applied, c.labels...)
		return s
	}
	// any other reader: read it to the end
	r := p.call(p.w.prog.fn("io", "ReadAll"), nil, []Value{rd}).(Tuple)
	s.err = r[1].(Iface)
	text := strOfBytes(p, r[0].(Slice))
	c, ok := text.(string)
	if !ok {
		p.unsupported("XML decoder over symbolic text")
	}
	if d := p.fs.sent[c]; d != nil {
		s.toks = d.toks
		s.chars.declared = d.enc
		return s
	}
	for m := range p.fs.sent {
		if strings.Contains(c, m) {
			p.unsupported("XML decoder over edited document text")
		}
	}
	s.toks = nativeToks(c)
	return s
}

func (pr *Prog) initXML(def func(string, func(*Path, []Value) Value), opt func(string, func(*Path, []Value) (Value, bool))) {
	def("encoding/xml.NewDecoder", func(p *Path, a []Value) Value {
		cell := new(Value)
		t := pr.namedType("encoding/xml", "Decoder")
		*cell = zero(t)
		st := under(t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Strict" {
				(*cell).(Struct)[i] = true
			}
		}
		s := p.streamOf(a[0].(Iface))
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "CharsetReader" {
				s.chars.reader = &(*cell).(Struct)[i]
			}
		}
		p.decs[cell] = s
		return cell
	})
	dec := func(p *Path, v Value) *tokStream {
		c, ok := v.(*Value)
		if !ok || c == nil {
			nilDeref(p)
		}
		s := p.decs[c]
		if s == nil {
			p.unsupported("XML decoder not made by NewDecoder")
		}
		return s
	}
	def("(*encoding/xml.Decoder).Token", func(p *Path, a []Value) Value { return dec(p, a[0]).next(p, false) })
	def("(*encoding/xml.Decoder).RawToken", func(p *Path, a []Value) Value { return dec(p, a[0]).next(p, true) })
	def("(*encoding/xml.Decoder).InputOffset", func(p *Path, a []Value) Value { return intV(dec(p, a[0]).pos) })
	def("(*encoding/xml.Decoder).InputPos", func(p *Path, a []Value) Value { return Tuple{uint64(1), intV(dec(p, a[0]).pos)} })
	def("(*encoding/xml.Decoder).Skip", func(p *Path, a []Value) Value {
		s := dec(p, a[0])
		for d := 0; ; {
			t := s.next(p, false).(Tuple)
			if e := t[1].(Iface); e.t != nil {
				return e
			}
			switch shortType(t[0].(Iface).t) {
			case "xml.StartElement":
				d++
			case "xml.EndElement":
				if d == 0 {
					return Iface{}
				}
				d--
			}
		}
	})
	for _, n := range []string{"Decode", "DecodeElement"} {
		n := n
		def("(*encoding/xml.Decoder)."+n, func(p *Path, a []Value) Value {
			p.unsupported("xml.Decoder." + n)
			return nil
		})
	}
	def("encoding/xml.Unmarshal", func(p *Path, a []Value) Value {
		p.unsupported("xml.Unmarshal")
		return nil
	})
	pr.initCharset(def)
	// gofmt: exact on concrete text; on symbolic text the layout is left
	// alone, which the extractors (token based) do not see.
	def("go/format.Source", func(p *Path, a []Value) Value {
		text := strOfBytes(p, a[0].(Slice))
		if s, ok := text.(string); ok {
			out, err := format.Source([]byte(s))
			if err != nil {
				return Tuple{Slice(nil), p.w.prog.mkError(p, fmt.Sprint(err))}
			}
			return Tuple{bytesOfStr(p, string(out)), Iface{}}
		}
		p.extra["unformatted"] = true
		return Tuple{a[0], Iface{}}
	})
}
