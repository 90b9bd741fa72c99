package main

// vpTokens over text that is mostly concrete: stretches without a symbolic
// byte are tokenised directly, by the same source (tok_gen.go is a copy of
// harness/tok.go); the rest is executed symbolically.

import "golang.org/x/tools/go/ssa"

func (pr *Prog) initTok() {
	lex := func(t vpLex) Value { return Struct{uint64(t.K), t.S, t.NL} }
	pr.intr["vp:vpTokens"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		lang, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		var out Slice
		if s, ok := a[1].(string); ok {
			for _, t := range vpTokens(lang, s) {
				out = append(out, lex(t))
			}
			return out, true
		}
		s := a[1].(SStr)
		raw := make([]byte, len(s))
		sym := make([]int, len(s)+1) // next symbolic byte at or after
		sym[len(s)] = len(s) + 3
		for i := len(s) - 1; i >= 0; i-- {
			sym[i] = sym[i+1]
			if s[i].op == OConst {
				raw[i] = byte(s[i].c)
			} else {
				sym[i] = i
			}
		}
		tok1 := fn.Pkg.Func("vpTok1")
		var nl Value = true
		for i := 0; i < len(s); {
			q := sym[i]
			if b, ok := nl.(bool); ok && q > i {
				end := q
				if end > len(s) {
					end = len(s)
				}
				t, j, nl2 := vpTok1(lang, string(raw[:end]), i, b)
				// the token and what it looked ahead at lie before q
				if j+3 <= q {
					if t.K != vpNone {
						out = append(out, lex(t))
					}
					i, nl = j, nl2
					continue
				}
			}
			r := p.call(tok1, nil, []Value{a[0], a[1], uint64(i), nl}).(Tuple)
			t := r[0].(Struct)
			if k := p.concretize(t[0], 64); k != vpNone {
				out = append(out, t)
			}
			i, nl = int(p.concretize(r[1], 64)), r[2]
		}
		return out, true
	}
}
