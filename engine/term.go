package main

// Bit-vector and boolean terms, hash-consed per worker. Every free variable
// is an 8-bit vector: wider quantities are built from bytes.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
)

// Term is a node; w==0 means boolean.
type Term struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d *Term
	id      int32
	vars    []int32
	tt      *[4]uint64 // truth table (boolean, exactly one variable)
}

type termKey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d int32
}

// Ctx owns the terms of one worker.
type Ctx struct {
	tab      map[termKey]*Term
	next     int32
	byteC    [256]*Term
	tTrue    *Term
	tFalse   *Term
	varTerms []*Term
	varNames []string
	varIdx   map[string]int32
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, varIdx: map[string]int32{}}
	c.tFalse = c.raw(OConst, 0, 0, nil, nil, nil)
	c.tTrue = c.raw(OConst, 0, 1, nil, nil, nil)
	for i := range c.byteC {
		c.byteC[i] = c.Const(8, uint64(i))
	}
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (c *Ctx) raw(op Op, w uint8, v uint64, a, b, d *Term) *Term {
	k := termKey{op, w, v, tid(a), tid(b), tid(d)}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: v, a: a, b: b, d: d, id: c.next}
	c.next++
	if op == OVar {
		t.vars = []int32{int32(v)}
	} else {
		if a != nil {
			t.vars = a.vars
		}
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
		}
		if d != nil {
			t.vars = mergeVars(t.vars, d.vars)
		}
	}
	c.tab[k] = t
	return t
}

func wmask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.raw(OConst, w, v&wmask(w), nil, nil, nil) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

// Var returns the byte variable with that name.
func (c *Ctx) Var(name string) *Term {
	if i, ok := c.varIdx[name]; ok {
		return c.varTerms[i]
	}
	i := int32(len(c.varNames))
	c.varNames = append(c.varNames, name)
	c.varIdx[name] = i
	t := c.raw(OVar, 8, uint64(i), nil, nil, nil)
	c.varTerms = append(c.varTerms, t)
	return t
}

func evalOp(op Op, w uint8, aw uint8, x, y uint64) uint64 {
	switch op {
	case OAdd:
		return (x + y) & wmask(w)
	case OSub:
		return (x - y) & wmask(w)
	case OMul:
		return (x * y) & wmask(w)
	case OUDiv:
		if y == 0 {
			return wmask(w)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return wmask(w)
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & wmask(w)
		}
		return uint64(sx/sy) & wmask(w)
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & wmask(w)
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & wmask(w)
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & wmask(w)
	case OZExt:
		return x
	case OSExt:
		return uint64(sext(x, aw)) & wmask(w)
	case OTrunc:
		return x & wmask(w)
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, aw) < sext(y, aw))
	case OSle:
		return b2u(sext(x, aw) <= sext(y, aw))
	case OBNot:
		return 1 - x
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) bin(op Op, w uint8, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(w, evalOp(op, w, a.w, a.c, b.c))
	}
	return c.raw(op, w, 0, a, b, nil)
}

// Bin builds an arithmetic or bitwise node.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, evalOp(op, w, w, a.c, b.c))
	}
	switch op {
	case OAdd, OOr, OXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.c == 0 {
			return a
		}
		if op == OAdd && b.op == OConst && a.op == OAdd && a.b.op == OConst {
			return c.Bin(OAdd, a.a, c.Const(w, a.b.c+b.c))
		}
	case OSub:
		if b.op == OConst {
			return c.Bin(OAdd, a, c.Const(w, -b.c))
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.c == 1 {
			return a
		}
		if b.op == OConst && b.c == 0 {
			return b
		}
	case OAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return b
			}
			if b.c == wmask(w) {
				return a
			}
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.c == 0 {
			return a
		}
	}
	return c.raw(op, w, 0, a, b, nil)
}

// ZExt, SExt and Trunc change width.
func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(w, a.c)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.d.op == OConst {
		return c.Ite(a.a, c.Const(w, a.b.c), c.Const(w, a.d.c))
	}
	return c.raw(OZExt, w, 0, a, nil, nil)
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(w, uint64(sext(a.c, a.w)))
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	return c.raw(OSExt, w, 0, a, nil, nil)
}

func (c *Ctx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(w, a.c)
	}
	if a.op == OZExt || a.op == OSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	}
	if a.op == OIte {
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.d, w))
	}
	if (a.op == OAdd || a.op == OSub || a.op == OAnd || a.op == OOr || a.op == OXor) && a.b.op == OConst {
		return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	return c.raw(OTrunc, w, 0, a, nil, nil)
}

// Ite is if-then-else over bit vectors or booleans.
func (c *Ctx) Ite(q, x, y *Term) *Term {
	if q.op == OConst {
		if q.c == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return c.BOr(c.BAnd(q, x), c.BAnd(c.Not(q), y))
	}
	if q.op == OBNot {
		return c.raw(OIte, x.w, 0, q.a, y, x)
	}
	return c.raw(OIte, x.w, 0, q, x, y)
}

// Eq is equality.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.c == b.c)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.c == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			if b.c > wmask(a.a.w) {
				return c.tFalse
			}
			return c.Eq(a.a, c.Const(a.a.w, b.c))
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.c-a.b.c))
			}
		case OIte:
			if a.b.op == OConst && a.d.op == OConst {
				xe, ye := a.b.c == b.c, a.d.c == b.c
				switch {
				case xe && ye:
					return c.tTrue
				case xe:
					return a.a
				case ye:
					return c.Not(a.a)
				}
				return c.tFalse
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OEq, 0, 0, a, b, nil)
}

// Cmp builds an ordering test.
func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Bool(evalOp(op, 0, a.w, a.c, b.c) == 1)
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	return c.raw(op, 0, 0, a, b, nil)
}

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.c == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.raw(OBNot, 0, 0, a, nil, nil)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return c.raw(OBAnd, 0, 0, a, b, nil)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return c.raw(OBOr, 0, 0, a, b, nil)
}

// eval computes a term under an assignment of the byte variables.
func (t *Term) eval(env func(int32) uint64) uint64 {
	return t.evalM(env, map[*Term]uint64{})
}

func (t *Term) evalM(env func(int32) uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return env(int32(t.c))
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	if t.op == OIte {
		if t.a.evalM(env, memo) == 1 {
			r = t.b.evalM(env, memo)
		} else {
			r = t.d.evalM(env, memo)
		}
	} else {
		x := t.a.evalM(env, memo)
		var y uint64
		if t.b != nil {
			y = t.b.evalM(env, memo)
		}
		r = evalOp(t.op, t.w, t.a.w, x, y)
	}
	memo[t] = r
	return r
}

// truth returns the truth table of a boolean term over its single variable.
func (t *Term) truth() *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	var tt [4]uint64
	switch t.op {
	case OBNot:
		x := t.a.truth()
		for i := range tt {
			tt[i] = ^x[i]
		}
	case OBAnd, OBOr:
		x, y := t.a.truth(), t.b.truth()
		for i := range tt {
			if t.op == OBAnd {
				tt[i] = x[i] & y[i]
			} else {
				tt[i] = x[i] | y[i]
			}
		}
	default:
		memo := map[*Term]uint64{}
		for v := 0; v < 256; v++ {
			clear(memo)
			if t.evalM(func(int32) uint64 { return uint64(v) }, memo) == 1 {
				tt[v>>6] |= 1 << (v & 63)
			}
		}
	}
	t.tt = &tt
	return t.tt
}

type dom [4]uint64

func domOf(lo, hi int) *dom {
	var d dom
	for i := lo; i <= hi; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return &d
}
func (d *dom) has(v int) bool { return d[v>>6]>>(v&63)&1 == 1 }
func (d *dom) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func (d *dom) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d *dom) and(o *[4]uint64) dom {
	return dom{d[0] & o[0], d[1] & o[1], d[2] & o[2], d[3] & o[3]}
}
func (d *dom) andNot(o *[4]uint64) dom {
	return dom{d[0] &^ o[0], d[1] &^ o[1], d[2] &^ o[2], d[3] &^ o[3]}
}
func (d *dom) first() int {
	for i, x := range d {
		if x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}
func (d *dom) full() bool { return d[0]&d[1]&d[2]&d[3] == ^uint64(0) }
func (d *dom) each(f func(v int)) {
	for v := 0; v < 256; v++ {
		if d.has(v) {
			f(v)
		}
	}
}

// smt prints a domain as a constraint on variable n.
func (d *dom) smt(n string) string {
	var parts []string
	for v := 0; v < 256; v++ {
		if !d.has(v) {
			continue
		}
		lo := v
		for v+1 < 256 && d.has(v+1) {
			v++
		}
		if lo == v {
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", n, lo))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule #x%02x %s) (bvule %s #x%02x))", lo, n, n, v))
		}
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

// smtPrinter renders terms with sharing through define-fun.
type smtPrinter struct {
	sb   *strings.Builder
	refs map[*Term]int
	done map[*Term]string
	n    int
}

func (p *smtPrinter) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, k := range [...]*Term{t.a, t.b, t.d} {
		if k != nil {
			p.count(k)
		}
	}
}

var smtOps = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr",
	OAShr: "bvashr", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBNot: "not", OBAnd: "and", OBOr: "or"}

func (p *smtPrinter) str(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.c)
	}
	if s, ok := p.done[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case OZExt:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.str(t.a))
	case OSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.str(t.a))
	case OTrunc:
		s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, p.str(t.a))
	default:
		s = "(" + smtOps[t.op] + " " + p.str(t.a)
		if t.b != nil {
			s += " " + p.str(t.b)
		}
		if t.d != nil {
			s += " " + p.str(t.d)
		}
		s += ")"
	}
	if p.refs[t] > 1 {
		name := fmt.Sprintf("t%d", t.id)
		sort := "Bool"
		if t.w > 0 {
			sort = fmt.Sprintf("(_ BitVec %d)", t.w)
		}
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", name, sort, s)
		s = name
	}
	p.done[t] = s
	return s
}

// smtAsserts renders declarations, domains and assertions.
func smtAsserts(doms map[int32]*dom, vars []int32, cons []*Term) string {
	var sb strings.Builder
	for _, v := range vars {
		n := fmt.Sprintf("v%d", v)
		fmt.Fprintf(&sb, "(declare-const %s (_ BitVec 8))\n", n)
		if d := doms[v]; d != nil && !d.full() {
			fmt.Fprintf(&sb, "(assert %s)\n", d.smt(n))
		}
	}
	p := &smtPrinter{sb: &sb, refs: map[*Term]int{}, done: map[*Term]string{}}
	for _, c := range cons {
		p.count(c)
	}
	for _, c := range cons {
		s := p.str(c)
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	return sb.String()
}

func sortedVars(m map[int32]bool) []int32 {
	out := make([]int32, 0, len(m))
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
