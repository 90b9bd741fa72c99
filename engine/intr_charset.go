package main

// Character encodings. A document is kept as the tokens of its text; the
// bytes of its file are that text in the encoding which its prolog declares.
// The decoder hands what follows the prolog to its CharsetReader, as the real
// one does, and the tokens are read through the conversions that were put in
// between: none when they undo the encoding, otherwise what is left of the
// text after them, computed with the tables of the real library.

import (
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/net/html/charset"
)

type charState struct {
	declared string
	applied  []string
	reader   *Value // the decoder's CharsetReader field
	wrong    bool   // the conversions do not undo the encoding
	after    bool   // the prolog is past
}

// charReader stands for the bytes of a document under conversions.
type charReader struct {
	labels []string
	src    Iface // the file, when converted before the decoder is made
}

func (c *charReader) Invoke(p *Path, method string, args []Value) Value {
	p.unsupported("reading the bytes of an encoded document: " + method)
	return nil
}

func encName(label string) string {
	_, n := charset.Lookup(label)
	return n
}

// procInstParam is what encoding/xml takes out of the prolog.
func procInstParam(param, s string) string {
	param += "="
	for i := 0; ; {
		k := strings.Index(s[i:], param)
		if k < 0 || i+k+len(param) >= len(s) {
			return ""
		}
		i += k + len(param) + 1
		if q := s[i-1]; q == '\'' || q == '"' {
			j := strings.IndexByte(s[i:], q)
			if j < 0 {
				return ""
			}
			return s[i : i+j]
		}
	}
}

func declaredEnc(toks []vtok) string {
	for _, t := range toks {
		if d, ok := t.data.(string); ok && t.kind == tkProcInst && t.local == "xml" {
			return procInstParam("encoding", d)
		}
	}
	return ""
}

func isUTF8(label string) bool { return label == "" || strings.EqualFold(label, "utf-8") }

func (s *tokStream) prolog(p *Path, data Value) Iface {
	d, ok := data.(string)
	if !ok {
		p.unsupported("symbolic XML prolog")
	}
	if v := procInstParam("version", d); v != "" && v != "1.0" {
		return p.w.prog.mkError(p, "xml: unsupported version \""+v+"\"; only version 1.0 is supported")
	}
	label := procInstParam("encoding", d)
	if !isUTF8(label) {
		f, _ := (*s.chars.reader).(*Func)
		if f.isNil() {
			return p.w.prog.mkError(p, "xml: encoding \""+label+"\" declared but Decoder.CharsetReader is nil")
		}
		in := Iface{t: p.ptrTo("bufio", "Reader"), v: &charReader{}}
		r := p.callFunc(nil, f, []Value{label, in}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return p.w.prog.mkError(p, "xml: opening charset \""+label+"\"")
		}
		out := r[0].(Iface)
		if out.t == nil {
			p.rtPanic("CharsetReader returned a nil Reader for charset " + label)
		}
		c, ok := out.v.(*charReader)
		if !ok {
			p.unsupported("charset reader of another kind")
		}
		s.chars.applied = append(s.chars.applied, c.labels...)
	}
	c := &s.chars
	var left []string
	for _, l := range c.applied {
		if !isUTF8(l) {
			left = append(left, encName(l))
		}
	}
	if isUTF8(c.declared) {
		c.wrong = len(left) > 0
	} else {
		c.wrong = len(left) != 1 || left[0] != encName(c.declared)
	}
	c.after = true
	return Iface{}
}

// read is the token as the conversions leave it; false where the bytes are
// not UTF-8.
func (c *charState) read(p *Path, t vtok) (vtok, bool) {
	if !c.wrong {
		return t, true
	}
	ok := true
	conv := func(v Value) Value {
		switch x := v.(type) {
		case string:
			out, good := c.convert(x)
			ok = ok && good
			return out
		case SStr:
			// the symbolic characters are ASCII
			var out []*Term
			var run []byte
			flush := func() {
				s, good := c.convert(string(run))
				ok = ok && good
				for i := 0; i < len(s); i++ {
					out = append(out, p.ctx().Const(8, uint64(s[i])))
				}
				run = run[:0]
			}
			for _, b := range x {
				if k, isConst := constByte(b); isConst {
					run = append(run, byte(k))
					continue
				}
				flush()
				out = append(out, b)
			}
			flush()
			return SStr(out)
		}
		return v
	}
	t.space, t.local, t.data = conv(t.space), conv(t.local), conv(t.data)
	t.attrs = append([]vattr(nil), t.attrs...)
	for i, a := range t.attrs {
		t.attrs[i] = vattr{conv(a.space), conv(a.local), conv(a.value)}
	}
	return t, ok
}

func (c *charState) convert(s string) (string, bool) {
	if !isUTF8(c.declared) {
		e, _ := charset.Lookup(c.declared)
		if e == nil {
			return s, true
		}
		b, err := e.NewEncoder().String(s)
		if err != nil {
			return s, false
		}
		s = b
	}
	for _, l := range c.applied {
		e, _ := charset.Lookup(l)
		if e == nil {
			continue
		}
		b, err := e.NewDecoder().String(s)
		if err != nil {
			return s, false
		}
		s = b
	}
	return s, utf8.ValidString(s)
}

func (pr *Prog) initCharset(def func(string, func(*Path, []Value) Value)) {
	def("golang.org/x/net/html/charset.NewReaderLabel", func(p *Path, a []Value) Value {
		label, ok := a[0].(string)
		if !ok {
			p.unsupported("symbolic encoding label")
		}
		in := a[1].(Iface)
		if encName(label) == "" {
			return Tuple{Iface{}, p.w.prog.mkError(p, "unsupported charset: \""+label+"\"")}
		}
		var t types.Type = p.ptrTo("golang.org/x/text/transform", "Reader")
		if c, ok := in.v.(*charReader); ok {
			return Tuple{Iface{t: t, v: &charReader{labels: append(append([]string(nil), c.labels...), label), src: c.src}}, Iface{}}
		}
		return Tuple{Iface{t: t, v: &charReader{labels: []string{label}, src: in}}, Iface{}}
	})
	def("golang.org/x/net/html/charset.Lookup", func(p *Path, a []Value) Value {
		p.unsupported("charset.Lookup")
		return nil
	})
}

func constByte(t *Term) (uint64, bool) { return t.c, t.op == OConst }
