package main

// Values of the interpreted program.
//
//   bool            bool | *Term (w==0)
//   integers        uint64 (masked to the type's width) | *Term
//   floats          float64 (complex is not supported)
//   strings         string | SStr (bytes, at least one symbolic)
//   pointers        *Value (nil pointer: (*Value)(nil)), or a host pointer
//   structs/arrays  Struct / Array, copied on load and store
//   slices          Slice ; maps *Map ; interfaces Iface ; functions Func
//   tuples          Tuple

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type SStr []*Term

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type // nil for the nil interface
	v Value
}

// Func is a function value; the zero Func is nil.
type Func struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
	nat func(p *Path, args []Value) Value
}

func (f *Func) isNil() bool { return f == nil || f.fn == nil && f.bi == nil && f.nat == nil }

// RType is the dynamic value behind reflect.Type.
type RType struct{ t types.Type }

// RValue stands for reflect.Value.
type RValue struct {
	t  types.Type
	v  Value
	ok bool
	p  *Value // address, for Elem of pointers
}

// HostObj is an engine-implemented object behind an interface.
type HostObj interface {
	Invoke(p *Path, method string, args []Value) Value
}

// SymAddr is the address of an element at a symbolic index.
type SymAddr struct {
	cells []Value
	idx   *Term
}

type mapEntry struct {
	k, v Value
	dead bool
}

// Map keeps insertion order.
type Map struct {
	t       *types.Map
	entries []*mapEntry
	idx     map[Value]int
	nsym    int // entries whose key is not indexable
	live    int
}

func newMap(t *types.Map) *Map { return &Map{t: t, idx: map[Value]int{}} }

// normKey returns a host-comparable key, or nil when the key is symbolic or composite.
func normKey(k Value) Value {
	switch x := k.(type) {
	case string, uint64, bool, float64, *Value:
		return x
	}
	return nil
}

func (m *Map) find(p *Path, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	nk := normKey(k)
	if nk != nil {
		if i, ok := m.idx[nk]; ok {
			return m.entries[i]
		}
		if m.nsym == 0 {
			return nil
		}
	}
	kt := m.t.Key()
	// a definite match first
	var cand []*mapEntry
	var conds []*Term
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if nk != nil && normKey(e.k) != nil {
			continue
		}
		c := p.equal(kt, k, e.k)
		switch c := c.(type) {
		case bool:
			if c {
				return e
			}
		case *Term:
			switch p.tri(c) {
			case 1:
				return e
			case 0:
				continue
			}
			cand = append(cand, e)
			conds = append(conds, c)
		}
	}
	if len(cand) > 2 {
		// one query to dismiss all candidates at once
		any := conds[0]
		for _, c := range conds[1:] {
			any = p.ctx().BOr(any, c)
		}
		if !p.decide(any) {
			return nil
		}
	}
	for i, e := range cand {
		if p.decide(conds[i]) {
			return e
		}
	}
	return nil
}

func (m *Map) set(p *Path, k, v Value) {
	if m == nil {
		p.rtPanic("assignment to entry in nil map")
	}
	if e := m.find(p, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	if nk := normKey(k); nk != nil {
		m.idx[nk] = len(m.entries) - 1
	} else {
		m.nsym++
	}
	m.live++
}

func (m *Map) del(p *Path, k Value) {
	if m == nil {
		return
	}
	e := m.find(p, k)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if nk := normKey(e.k); nk != nil {
		delete(m.idx, nk)
	} else {
		m.nsym--
	}
}

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo gives width and signedness of an integer type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, is := under(t).(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

// zero returns the zero value of a type.
func zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		return uint64(0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		if isReflectValue(t) {
			return RValue{}
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Func)(nil)
	case *types.Chan:
		return (*Value)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = zero(u.At(i).Type())
		}
		return tu
	case *types.TypeParam:
		return Iface{}
	}
	panic(fmt.Sprintf("zero: %s", t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

// storeInto writes v into the cell, keeping the identity of nested cells.
func storeInto(cell *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*cell).(Struct); ok && len(d) == len(x) {
			tmp := copyVal(x).(Struct)
			for i := range d {
				storeInto(&d[i], tmp[i])
			}
			return
		}
		*cell = copyVal(x)
	case Array:
		if d, ok := (*cell).(Array); ok && len(d) == len(x) {
			tmp := copyVal(x).(Array)
			for i := range d {
				storeInto(&d[i], tmp[i])
			}
			return
		}
		*cell = copyVal(x)
	default:
		*cell = v
	}
}

// ---- strings ----

func (p *Path) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case SStr:
		return s
	case string:
		out := make([]*Term, len(s))
		bc := &p.ctx().byteC
		for i := 0; i < len(s); i++ {
			out[i] = bc[s[i]]
		}
		return out
	}
	panic(fmt.Sprintf("strBytes: %T", v))
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OConst {
			return SStr(b)
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, t := range b {
		sb.WriteByte(byte(t.c))
	}
	return sb.String()
}

func strLen(v Value) int {
	switch s := v.(type) {
	case SStr:
		return len(s)
	case string:
		return len(s)
	}
	panic(fmt.Sprintf("strLen: %T", v))
}

func (p *Path) strConcat(a, b Value) Value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as + bs
	}
	if ok1 && as == "" {
		return b
	}
	if ok2 && bs == "" {
		return a
	}
	x, y := p.strBytes(a), p.strBytes(b)
	out := make([]*Term, 0, len(x)+len(y))
	out = append(out, x...)
	return SStr(append(out, y...))
}

func (p *Path) strEq(a, b Value) Value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as == bs
	}
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := p.strBytes(a), p.strBytes(b)
	c := p.ctx()
	r := c.tTrue
	for i := range x {
		e := c.Eq(x[i], y[i])
		if e == c.tFalse {
			return false
		}
		r = c.BAnd(r, e)
	}
	return fromBool(r)
}

// strLess compares lexicographically.
func (p *Path) strLess(a, b Value) Value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as < bs
	}
	x, y := p.strBytes(a), p.strBytes(b)
	c := p.ctx()
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = c.BOr(c.Cmp(OUlt, x[i], y[i]), c.BAnd(c.Eq(x[i], y[i]), r))
	}
	return fromBool(r)
}

func fromBool(t *Term) Value {
	if t.op == OConst {
		return t.c == 1
	}
	return t
}

func fromInt(t *Term) Value {
	if t.op == OConst {
		return t.c
	}
	return t
}

func (p *Path) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return p.ctx().Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("boolTerm: %T", v))
}

func (p *Path) intTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case uint64:
		return p.ctx().Const(w, x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("intTerm: %T", v))
}

func substr(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case SStr:
		return mkStr(s[lo:hi])
	}
	panic("substr")
}

func bytesOfStr(p *Path, v Value) Slice {
	if s, ok := v.(string); ok {
		out := make(Slice, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = uint64(s[i])
		}
		return out
	}
	b := v.(SStr)
	out := make(Slice, len(b))
	for i, t := range b {
		out[i] = fromInt(t)
	}
	return out
}

func strOfBytes(p *Path, s []Value) Value {
	conc := true
	for _, x := range s {
		if _, ok := x.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(s))
		for i, x := range s {
			b[i] = byte(x.(uint64))
		}
		return string(b)
	}
	out := make(SStr, len(s))
	for i, x := range s {
		out[i] = p.intTerm(x, 8)
	}
	return out
}

// ---- equality ----

func (p *Path) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return fromBool(p.ctx().BAnd(a.(*Term), b.(*Term)))
}

// equal compares two values of static type t.
func (p *Path) equal(t types.Type, a, b Value) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return p.strEq(a, b)
		case u.Info()&types.IsInteger != 0:
			x, ok1 := a.(uint64)
			y, ok2 := b.(uint64)
			if ok1 && ok2 {
				return x == y
			}
			w, _, _ := intInfo(t)
			return fromBool(p.ctx().Eq(p.intTerm(a, w), p.intTerm(b, w)))
		case u.Info()&types.IsBoolean != 0:
			x, ok1 := a.(bool)
			y, ok2 := b.(bool)
			if ok1 && ok2 {
				return x == y
			}
			return fromBool(p.ctx().Eq(p.boolTerm(a), p.boolTerm(b)))
		}
		return a == b
	case *types.Struct:
		if _, ok := a.(RValue); ok {
			p.unsupported("comparison of reflect.Value")
		}
		x, y := a.(Struct), b.(Struct)
		var r Value = true
		for i := range x {
			r = p.and(r, p.equal(u.Field(i).Type(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r Value = true
		for i := range x {
			r = p.and(r, p.equal(u.Elem(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Interface:
		return p.ifaceEq(a, b)
	case *types.Slice:
		return (a.(Slice) == nil) == (b.(Slice) == nil)
	case *types.Map:
		return a.(*Map) == b.(*Map)
	case *types.Signature:
		x, _ := a.(*Func)
		y, _ := b.(*Func)
		return x.isNil() == y.isNil()
	case *types.TypeParam:
		return p.ifaceEq(a, b)
	}
	return ptrEq(a, b)
}

func isNilPtr(v Value) bool {
	if v == nil {
		return true
	}
	x, ok := v.(*Value)
	return ok && x == nil
}

func ptrEq(a, b Value) bool {
	if isNilPtr(a) || isNilPtr(b) {
		return isNilPtr(a) && isNilPtr(b)
	}
	return a == b
}

func (p *Path) ifaceEq(a, b Value) Value {
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if !ok1 || !ok2 {
		p.unsupported(fmt.Sprintf("interface comparison of %T and %T", a, b))
	}
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if rx, ok := x.v.(RType); ok {
		ry, ok := y.v.(RType)
		return ok && types.Identical(rx.t, ry.t)
	}
	if !types.Identical(x.t, y.t) {
		return false
	}
	if !types.Comparable(x.t) {
		p.rtPanic("comparing uncomparable type " + x.t.String())
	}
	return p.equal(x.t, x.v, y.v)
}
