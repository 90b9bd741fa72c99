package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func binop(op token.Token, xt, yt, rt types.Type) func(p *Path, a, b Value) Value {
	switch op {
	case token.EQL:
		return func(p *Path, a, b Value) Value { return p.equalMixed(xt, yt, a, b) }
	case token.NEQ:
		return func(p *Path, a, b Value) Value {
			switch r := p.equalMixed(xt, yt, a, b).(type) {
			case bool:
				return !r
			case *Term:
				return fromBool(p.ctx().Not(r))
			}
			return nil
		}
	}
	bt, ok := under(xt).(*types.Basic)
	if !ok {
		return func(p *Path, a, b Value) Value {
			p.unsupported(fmt.Sprintf("operator %s on %s", op, xt))
			return nil
		}
	}
	switch {
	case bt.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return func(p *Path, a, b Value) Value { return p.strConcat(a, b) }
		case token.LSS:
			return func(p *Path, a, b Value) Value { return p.strLess(a, b) }
		case token.GTR:
			return func(p *Path, a, b Value) Value { return p.strLess(b, a) }
		case token.LEQ:
			return func(p *Path, a, b Value) Value { return p.notV(p.strLess(b, a)) }
		case token.GEQ:
			return func(p *Path, a, b Value) Value { return p.notV(p.strLess(a, b)) }
		}
	case bt.Info()&types.IsFloat != 0:
		f32 := bt.Kind() == types.Float32
		return func(p *Path, a, b Value) Value {
			x, ok1 := a.(float64)
			y, ok2 := b.(float64)
			if !ok1 || !ok2 {
				p.unsupported("symbolic float")
			}
			var r float64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			default:
				p.unsupported("float op")
			}
			if f32 {
				r = float64(float32(r))
			}
			return r
		}
	case bt.Info()&types.IsInteger != 0:
		return intBinop(op, xt, yt)
	case bt.Info()&types.IsBoolean != 0:
		return func(p *Path, a, b Value) Value {
			x, y := p.boolTerm(a), p.boolTerm(b)
			switch op {
			case token.AND, token.LAND:
				return fromBool(p.ctx().BAnd(x, y))
			case token.OR, token.LOR:
				return fromBool(p.ctx().BOr(x, y))
			}
			p.unsupported("bool op")
			return nil
		}
	}
	return func(p *Path, a, b Value) Value {
		p.unsupported(fmt.Sprintf("operator %s on %s", op, xt))
		return nil
	}
}

func (p *Path) notV(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return fromBool(p.ctx().Not(v.(*Term)))
}

func intBinop(op token.Token, xt, yt types.Type) func(p *Path, a, b Value) Value {
	w, signed, _ := intInfo(xt)
	mask := wmask(w)
	conc := func(p *Path, x, y uint64) Value {
		switch op {
		case token.ADD:
			return (x + y) & mask
		case token.SUB:
			return (x - y) & mask
		case token.MUL:
			return (x * y) & mask
		case token.QUO, token.REM:
			if y == 0 {
				p.rtPanic("integer divide by zero")
			}
			var o Op
			switch {
			case op == token.QUO && signed:
				o = OSDiv
			case op == token.QUO:
				o = OUDiv
			case signed:
				o = OSRem
			default:
				o = OURem
			}
			return evalOp(o, w, w, x, y)
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.LSS:
			if signed {
				return sext(x, w) < sext(y, w)
			}
			return x < y
		case token.LEQ:
			if signed {
				return sext(x, w) <= sext(y, w)
			}
			return x <= y
		case token.GTR:
			if signed {
				return sext(x, w) > sext(y, w)
			}
			return x > y
		case token.GEQ:
			if signed {
				return sext(x, w) >= sext(y, w)
			}
			return x >= y
		}
		p.unsupported("int op " + op.String())
		return nil
	}
	if op == token.SHL || op == token.SHR {
		yw, ysigned, _ := intInfo(yt)
		return func(p *Path, a, b Value) Value {
			y, ok := b.(uint64)
			if !ok {
				y = p.concretize(b, yw)
			}
			if ysigned && sext(y, yw) < 0 {
				p.rtPanic("negative shift amount")
			}
			if x, ok := a.(uint64); ok {
				if op == token.SHL {
					if y >= 64 {
						return uint64(0)
					}
					return (x << y) & mask
				}
				if signed {
					return evalOp(OAShr, w, w, x, y)
				}
				return evalOp(OLShr, w, w, x, y)
			}
			c := p.ctx()
			t := a.(*Term)
			if y > 255 {
				y = 255
			}
			switch {
			case op == token.SHL:
				return fromInt(c.Bin(OShl, t, c.Const(w, y)))
			case signed:
				return fromInt(c.Bin(OAShr, t, c.Const(w, y)))
			}
			return fromInt(c.Bin(OLShr, t, c.Const(w, y)))
		}
	}
	return func(p *Path, a, b Value) Value {
		x, ok1 := a.(uint64)
		y, ok2 := b.(uint64)
		if ok1 && ok2 {
			return conc(p, x, y)
		}
		c := p.ctx()
		s, t := p.intTerm(a, w), p.intTerm(b, w)
		lt, le := OUlt, OUle
		if signed {
			lt, le = OSlt, OSle
			// widened bytes are non-negative
			if nonNeg(s) && nonNeg(t) {
				lt, le = OUlt, OUle
			}
		}
		switch op {
		case token.ADD:
			return fromInt(c.Bin(OAdd, s, t))
		case token.SUB:
			return fromInt(c.Bin(OSub, s, t))
		case token.MUL:
			return fromInt(c.Bin(OMul, s, t))
		case token.QUO, token.REM:
			if p.decide(c.Eq(t, c.Const(w, 0))) {
				p.rtPanic("integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && signed:
				o = OSDiv
			case op == token.REM && signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return fromInt(c.Bin(o, s, t))
		case token.AND:
			return fromInt(c.Bin(OAnd, s, t))
		case token.OR:
			return fromInt(c.Bin(OOr, s, t))
		case token.XOR:
			return fromInt(c.Bin(OXor, s, t))
		case token.AND_NOT:
			return fromInt(c.Bin(OAnd, s, c.Bin(OXor, t, c.Const(w, mask))))
		case token.LSS:
			return fromBool(c.Cmp(lt, s, t))
		case token.LEQ:
			return fromBool(c.Cmp(le, s, t))
		case token.GTR:
			return fromBool(c.Cmp(lt, t, s))
		case token.GEQ:
			return fromBool(c.Cmp(le, t, s))
		}
		p.unsupported("int op " + op.String())
		return nil
	}
}

func nonNeg(t *Term) bool {
	return t.op == OZExt || t.op == OConst && sext(t.c, t.w) >= 0
}

// equalMixed compares an interface with a concrete value too.
func (p *Path) equalMixed(xt, yt types.Type, a, b Value) Value {
	_, xi := under(xt).(*types.Interface)
	_, yi := under(yt).(*types.Interface)
	switch {
	case xi && !yi:
		return p.ifaceEq(a, Iface{t: yt, v: b})
	case yi && !xi:
		return p.ifaceEq(Iface{t: xt, v: a}, b)
	}
	return p.equal(xt, a, b)
}

func convert(from, to types.Type) func(p *Path, v Value) Value {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	fw, fs, fint := intInfo(from)
	tw, ts, tint := intInfo(to)
	switch {
	case fint && tint:
		return func(p *Path, v Value) Value {
			if x, ok := v.(uint64); ok {
				if fs {
					x = uint64(sext(x, fw))
				}
				return x & wmask(tw)
			}
			c := p.ctx()
			t := v.(*Term)
			switch {
			case tw < fw:
				return fromInt(c.Trunc(t, tw))
			case tw == fw:
				return v
			case fs:
				return fromInt(c.SExt(t, tw))
			}
			return fromInt(c.ZExt(t, tw))
		}
	case fint && tok && tb.Info()&types.IsFloat != 0:
		return func(p *Path, v Value) Value {
			x := p.concretize(v, fw)
			if fs {
				return float64(sext(x, fw))
			}
			return float64(x)
		}
	case fok && fb.Info()&types.IsFloat != 0 && tint:
		return func(p *Path, v Value) Value {
			f := v.(float64)
			if ts {
				return uint64(int64(f)) & wmask(tw)
			}
			return uint64(f) & wmask(tw)
		}
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return func(p *Path, v Value) Value {
			if tb.Kind() == types.Float32 {
				return float64(float32(v.(float64)))
			}
			return v
		}
	case fint && tok && tb.Info()&types.IsString != 0:
		return func(p *Path, v Value) Value { return p.runeToStr(v, fw, fs) }
	case fok && fb.Info()&types.IsString != 0 && tok && tb.Info()&types.IsString != 0:
		return func(p *Path, v Value) Value { return v }
	}
	if sl, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if w, _, _ := intInfo(sl.Elem()); w == 8 {
			return func(p *Path, v Value) Value { return strOfBytes(p, v.(Slice)) }
		}
		return func(p *Path, v Value) Value {
			var out Value = ""
			for _, r := range v.(Slice) {
				out = p.strConcat(out, p.runeToStr(r, 32, true))
			}
			return out
		}
	}
	if sl, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		if w, _, _ := intInfo(sl.Elem()); w == 8 {
			return func(p *Path, v Value) Value { return bytesOfStr(p, v) }
		}
		return func(p *Path, v Value) Value {
			out := Slice{}
			n := strLen(v)
			for i := 0; i < n; {
				r, size := p.decodeRune(v, i)
				out = append(out, r)
				i += size
			}
			return out
		}
	}
	// pointers and unsafe pointers
	return func(p *Path, v Value) Value {
		if _, ok := fu.(*types.Pointer); ok {
			return v
		}
		if fok && fb.Kind() == types.UnsafePointer {
			return v
		}
		if types.Identical(fu, tu) {
			return v
		}
		p.unsupported(fmt.Sprintf("conversion %s to %s", from, to))
		return nil
	}
}

// runeToStr is string(rune).
func (p *Path) runeToStr(v Value, w uint8, signed bool) Value {
	if x, ok := v.(uint64); ok {
		if signed {
			i := sext(x, w)
			if i < 0 || i > utf8.MaxRune {
				return string(utf8.RuneError)
			}
			return string(rune(i))
		}
		if x > utf8.MaxRune {
			return string(utf8.RuneError)
		}
		return string(rune(x))
	}
	c := p.ctx()
	t := v.(*Term)
	if w > 32 {
		t = c.Trunc(t, 32)
	} else if w < 32 {
		t = c.ZExt(t, 32)
	}
	return mkStr(p.encodeRune(t))
}

// encodeRune gives the UTF-8 bytes of a 32-bit term.
func (p *Path) encodeRune(t *Term) []*Term {
	c := p.ctx()
	k := func(n uint64) *Term { return c.Const(32, n) }
	b := func(x *Term) *Term { return c.Trunc(x, 8) }
	if p.decide(c.Cmp(OUlt, t, k(0x80))) {
		return []*Term{b(t)}
	}
	cont := func(sh uint64) *Term {
		return b(c.Bin(OOr, c.Bin(OAnd, c.Bin(OLShr, t, k(sh)), k(0x3f)), k(0x80)))
	}
	if p.decide(c.Cmp(OUlt, t, k(0x800))) {
		return []*Term{b(c.Bin(OOr, c.Bin(OLShr, t, k(6)), k(0xc0))), cont(0)}
	}
	bad := c.BOr(c.Cmp(OUlt, k(0x10ffff), t), c.BAnd(c.Cmp(OUle, k(0xd800), t), c.Cmp(OUle, t, k(0xdfff))))
	if p.decide(bad) {
		bc := &c.byteC
		return []*Term{bc[0xef], bc[0xbf], bc[0xbd]}
	}
	if p.decide(c.Cmp(OUlt, t, k(0x10000))) {
		return []*Term{b(c.Bin(OOr, c.Bin(OLShr, t, k(12)), k(0xe0))), cont(6), cont(0)}
	}
	return []*Term{b(c.Bin(OOr, c.Bin(OLShr, t, k(18)), k(0xf0))), cont(12), cont(6), cont(0)}
}

// decodeRune decodes at byte i; the rune is a 32-bit value.
func (p *Path) decodeRune(s Value, i int) (Value, int) {
	if cs, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(cs[i:])
		return uint64(uint32(r)), n
	}
	b := s.(SStr)[i:]
	c := p.ctx()
	t := b[0]
	if p.decide(c.Cmp(OUlt, t, c.byteC[0x80])) {
		return fromInt(c.ZExt(t, 32)), 1
	}
	in := func(x *Term, lo, hi int) *Term {
		return c.BAnd(c.Cmp(OUle, c.byteC[lo], x), c.Cmp(OUle, x, c.byteC[hi]))
	}
	z := func(x *Term, mask uint64, sh uint64) *Term {
		return c.Bin(OShl, c.Bin(OAnd, c.ZExt(x, 32), c.Const(32, mask)), c.Const(32, sh))
	}
	bad := Value(uint64(utf8.RuneError))
	if len(b) >= 2 && p.decide(in(t, 0xc2, 0xdf)) {
		if p.decide(in(b[1], 0x80, 0xbf)) {
			return fromInt(c.Bin(OOr, z(t, 0x1f, 6), z(b[1], 0x3f, 0))), 2
		}
		return bad, 1
	}
	if len(b) >= 3 && p.decide(in(t, 0xe0, 0xef)) {
		lo := in(b[1], 0x80, 0xbf)
		lo = c.BAnd(lo, c.BOr(c.Not(c.Eq(t, c.byteC[0xe0])), c.Cmp(OUle, c.byteC[0xa0], b[1])))
		lo = c.BAnd(lo, c.BOr(c.Not(c.Eq(t, c.byteC[0xed])), c.Cmp(OUle, b[1], c.byteC[0x9f])))
		if p.decide(c.BAnd(lo, in(b[2], 0x80, 0xbf))) {
			return fromInt(c.Bin(OOr, c.Bin(OOr, z(t, 0xf, 12), z(b[1], 0x3f, 6)), z(b[2], 0x3f, 0))), 3
		}
		return bad, 1
	}
	if len(b) >= 4 && p.decide(in(t, 0xf0, 0xf4)) {
		lo := in(b[1], 0x80, 0xbf)
		lo = c.BAnd(lo, c.BOr(c.Not(c.Eq(t, c.byteC[0xf0])), c.Cmp(OUle, c.byteC[0x90], b[1])))
		lo = c.BAnd(lo, c.BOr(c.Not(c.Eq(t, c.byteC[0xf4])), c.Cmp(OUle, b[1], c.byteC[0x8f])))
		if p.decide(c.BAnd(lo, c.BAnd(in(b[2], 0x80, 0xbf), in(b[3], 0x80, 0xbf)))) {
			return fromInt(c.Bin(OOr, c.Bin(OOr, z(t, 7, 18), z(b[1], 0x3f, 12)), c.Bin(OOr, z(b[2], 0x3f, 6), z(b[3], 0x3f, 0)))), 4
		}
		return bad, 1
	}
	return bad, 1
}

func (p *Path) strIndex(s Value, iv Value, it types.Type) Value {
	i, sym := p.index(iv, it, strLen(s))
	if sym != nil {
		cells := make([]Value, strLen(s))
		for k, b := range p.strBytes(s) {
			cells[k] = fromInt(b)
		}
		return p.symLoad(&SymAddr{cells, sym}, types.Typ[types.Uint8])
	}
	if cs, ok := s.(string); ok {
		return uint64(cs[i])
	}
	return fromInt(s.(SStr)[i])
}

func (p *Path) slice3(v Value, get func(*opnd, int) int, lo, hi, mx *opnd) Value {
	switch s := v.(type) {
	case string, SStr:
		n := strLen(s)
		l, h := get(lo, 0), get(hi, n)
		if h < 0 || h > n || l < 0 || l > h {
			p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
		}
		return substr(s, l, h)
	case Slice:
		l, h := get(lo, 0), get(hi, len(s))
		m := get(mx, cap(s))
		if h < 0 || h > cap(s) || l < 0 || l > h || m < h || m > cap(s) {
			p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cap(s)))
		}
		if s == nil {
			return s
		}
		return s[l:h:m]
	case *Value:
		if s == nil {
			nilDeref(p)
		}
		a := (*s).(Array)
		l, h := get(lo, 0), get(hi, len(a))
		m := get(mx, len(a))
		if h < 0 || h > len(a) || l < 0 || l > h || m < h || m > len(a) {
			p.rtPanic("slice bounds out of range")
		}
		return Slice(a)[l:h:m]
	}
	p.unsupported(fmt.Sprintf("slice of %T", v))
	return nil
}

type iterator interface {
	next(p *Path, tt *types.Tuple) Value
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(p *Path, tt *types.Tuple) Value {
	if it.i >= strLen(it.s) {
		return Tuple{false, uint64(0), uint64(0)}
	}
	r, n := p.decodeRune(it.s, it.i)
	i := it.i
	it.i += n
	return Tuple{true, uint64(i), r}
}

type mapIter struct {
	m    *Map
	i    int
	perm bool
	seen map[*mapEntry]bool
}

func (it *mapIter) next(p *Path, tt *types.Tuple) Value {
	zk, zv := zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())
	if it.m == nil {
		return Tuple{false, zk, zv}
	}
	if it.perm {
		var rest []*mapEntry
		for _, e := range it.m.entries {
			if !e.dead && !it.seen[e] {
				rest = append(rest, e)
			}
		}
		if len(rest) == 0 {
			return Tuple{false, zk, zv}
		}
		k := p.choose(len(rest))
		p.orders = append(p.orders, k)
		e := rest[k]
		it.seen[e] = true
		return Tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	for it.i < len(it.m.entries) {
		e := it.m.entries[it.i]
		it.i++
		if !e.dead {
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	return Tuple{false, zk, zv}
}

func zeroOf(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (p *Path) newIter(v Value) Value {
	switch x := v.(type) {
	case *Map:
		perm := p.mapOrder && x != nil && x.live > 1 && x.live <= 6
		it := &mapIter{m: x, perm: perm, seen: map[*mapEntry]bool{}}
		if p.mapOrder && x != nil && x.live > 6 {
			// too many orders for all of them: as inserted, backwards, or
			// starting in the middle
			var live []*mapEntry
			for _, e := range x.entries {
				if !e.dead {
					live = append(live, e)
				}
			}
			k := p.choose(3)
			p.orders = append(p.orders, k)
			switch k {
			case 1:
				for i, j := 0, len(live)-1; i < j; i, j = i+1, j-1 {
					live[i], live[j] = live[j], live[i]
				}
			case 2:
				h := len(live) / 2
				live = append(append([]*mapEntry{}, live[h:]...), live[:h]...)
			}
			it.m = &Map{entries: live, live: len(live)}
		}
		return it
	case string, SStr:
		return &strIter{s: x}
	}
	p.unsupported(fmt.Sprintf("range over %T", v))
	return nil
}

func (p *Path) implements(t types.Type, it *types.Interface) bool {
	if types.Implements(t, it) {
		return true
	}
	return false
}

func (p *Path) typeAssert(v Value, at types.Type, toIface, comma bool) Value {
	x, ok := v.(Iface)
	if !ok {
		p.unsupported(fmt.Sprintf("type assertion on %T", v))
	}
	var hit bool
	var res Value
	if x.t != nil {
		if toIface {
			if p.implements(x.t, under(at).(*types.Interface)) {
				hit, res = true, x
			}
		} else if types.Identical(x.t, at) {
			hit, res = true, copyVal(x.v)
		}
	}
	if comma {
		if !hit {
			return Tuple{zero(at), false}
		}
		return Tuple{res, true}
	}
	if !hit {
		if x.t == nil {
			p.rtPanic(fmt.Sprintf("interface conversion: interface is nil, not %s", shortType(at)))
		}
		p.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", shortType(x.t), shortType(at)))
	}
	return res
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

type methodKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

// lookupInvoke resolves a dynamic call; self is the receiver argument.
func (p *Path) lookupInvoke(recv Value, m *types.Func) (*Func, []Value) {
	x, ok := recv.(Iface)
	if !ok {
		if rv, isr := recv.(RType); isr {
			x = Iface{t: types.Typ[types.Int], v: rv}
		} else {
			p.unsupported(fmt.Sprintf("invoke %s on %T", m.Name(), recv))
		}
	}
	if x.t == nil {
		nilDeref(p)
	}
	name := m.Name()
	switch h := x.v.(type) {
	case RType:
		return &Func{nat: func(p *Path, args []Value) Value { return p.rtypeMethod(h, name, args) }}, nil
	case HostObj:
		return &Func{nat: func(p *Path, args []Value) Value { return h.Invoke(p, name, args) }}, nil
	}
	fn := p.w.prog.method(x.t, m.Pkg(), name)
	if fn == nil {
		p.unsupported(fmt.Sprintf("no method %s on %s", name, x.t))
	}
	return &Func{fn: fn}, []Value{copyVal(x.v)}
}

func (pr *Prog) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methodKey{t, name, pkg}
	if token.IsExported(name) {
		k.pkg = nil
	}
	if f, ok := pr.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	sel := pr.ssa.MethodSets.MethodSet(t).Lookup(pkg, name)
	var fn *ssa.Function
	if sel != nil {
		fn = pr.ssa.MethodValue(sel)
	}
	pr.methods.Store(k, fn)
	return fn
}

func (p *Path) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(string); ok {
		return s
	}
	if p.implements(v.t, errorIface) {
		if s, ok := p.errText(v).(string); ok {
			return s
		}
	}
	return fmt.Sprintf("%s", shortType(v.t))
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (p *Path) callMethod(v Iface, name string, args ...Value) Value {
	switch h := v.v.(type) {
	case RType:
		return p.rtypeMethod(h, name, args)
	case HostObj:
		return h.Invoke(p, name, args)
	}
	fn := p.w.prog.method(v.t, nil, name)
	if fn == nil {
		p.unsupported("no method " + name + " on " + v.t.String())
	}
	return p.call(fn, nil, append([]Value{copyVal(v.v)}, args...))
}

func (p *Path) errText(v Iface) Value { return p.callMethod(v, "Error") }

func (p *Path) builtin(fr *frame, bi *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Chan:
			return uint64(len(x.q))
		case string, SStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.live)
		case Array:
			return uint64(len(x))
		case *Value:
			if x == nil {
				return uint64(0)
			}
			if a, ok := (*x).(Array); ok {
				return uint64(len(a))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "append":
		s := args[0].(Slice)
		switch y := args[1].(type) {
		case string, SStr:
			return append(s, bytesOfStr(p, y)...)
		case Slice:
			if len(y) == 0 {
				return s
			}
			switch y[0].(type) {
			case Struct, Array:
				for _, v := range y {
					s = append(s, copyVal(v))
				}
				return s
			}
			return append(s, y...)
		}
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case string, SStr:
			return uint64(copy(d, bytesOfStr(p, y)))
		case Slice:
			tmp := make(Slice, len(y))
			for i := range y {
				tmp[i] = copyVal(y[i])
			}
			return uint64(copy(d, tmp))
		}
	case "delete":
		m, _ := args[0].(*Map)
		m.del(p, args[1])
		return nil
	case "panic":
		v := args[0].(Iface)
		p.throw(v, p.panicText(v))
	case "recover":
		if n := len(p.pan); n > 0 && p.pan[n-1] != nil {
			v := p.pan[n-1].v
			p.pan[n-1] = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		if c, ok := args[0].(*Chan); ok && c != nil {
			if c.closed {
				p.rtPanic("close of closed channel")
			}
			c.closed = true
			return nil
		}
		p.rtPanic("close of nil channel")
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.entries, x.idx, x.nsym, x.live = nil, map[Value]int{}, 0, 0
			}
			return nil
		case Slice:
			et := under(cc.Args[0].Type()).(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			less := binop(token.LSS, cc.Args[0].Type(), cc.Args[0].Type(), types.Typ[types.Bool])
			var l bool
			if bi.Name() == "min" {
				l = p.truthy(less(p, a, r))
			} else {
				l = p.truthy(less(p, r, a))
			}
			if l {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			p.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String":
		// unsafe.String(ptr, len)
		p.unsupported("unsafe.String")
	}
	p.unsupported(fmt.Sprintf("builtin %s on %T", bi.Name(), first(args)))
	return nil
}

func first(a []Value) Value {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

var _ = math.Abs
