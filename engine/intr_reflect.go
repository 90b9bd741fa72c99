package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func reflectKind(t types.Type) uint64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (pr *Prog) rtypeIface(t types.Type) Iface {
	return Iface{t: types.NewPointer(pr.namedType("reflect", "rtype")), v: RType{t}}
}

func (p *Path) rtypeMethod(r RType, name string, args []Value) Value {
	pr := p.w.prog
	switch name {
	case "String":
		return shortType(r.t)
	case "Name":
		switch n := r.t.(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := r.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Kind":
		return reflectKind(r.t)
	case "Comparable":
		return types.Comparable(r.t)
	case "Elem":
		switch u := under(r.t).(type) {
		case *types.Pointer:
			return pr.rtypeIface(u.Elem())
		case *types.Slice:
			return pr.rtypeIface(u.Elem())
		case *types.Array:
			return pr.rtypeIface(u.Elem())
		case *types.Map:
			return pr.rtypeIface(u.Elem())
		}
	case "Implements", "AssignableTo", "ConvertibleTo":
		o := args[0].(Iface).v.(RType).t
		if name == "Implements" {
			return types.Implements(r.t, under(o).(*types.Interface))
		}
		return types.AssignableTo(r.t, o)
	case "NumField":
		return intV(under(r.t).(*types.Struct).NumFields())
	case "NumMethod":
		return intV(len(exportedMethods(pr, r.t)))
	case "NumIn":
		return intV(under(r.t).(*types.Signature).Params().Len())
	case "NumOut":
		return intV(under(r.t).(*types.Signature).Results().Len())
	case "In":
		return pr.rtypeIface(under(r.t).(*types.Signature).Params().At(vint(args[0])).Type())
	case "Out":
		return pr.rtypeIface(under(r.t).(*types.Signature).Results().At(vint(args[0])).Type())
	case "Field":
		st := under(r.t).(*types.Struct)
		sf := zero(pr.namedType("reflect", "StructField")).(Struct)
		i := vint(args[0])
		sf[0] = st.Field(i).Name()
		sf[2] = pr.rtypeIface(st.Field(i).Type())
		sf[3] = st.Tag(i)
		return sf
	}
	p.unsupported("reflect.Type." + name)
	return nil
}

func exportedMethods(pr *Prog, t types.Type) []*types.Selection {
	ms := pr.ssa.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// methodByName resolves a possibly symbolic method name.
func (p *Path) methodByName(t types.Type, name Value) *types.Selection {
	ms := exportedMethods(p.w.prog, t)
	if s, ok := name.(string); ok {
		for _, m := range ms {
			if m.Obj().Name() == s {
				return m
			}
		}
		return nil
	}
	var cand []*types.Selection
	var conds []*Term
	for _, m := range ms {
		switch c := p.strEq(name, m.Obj().Name()).(type) {
		case bool:
			if c {
				return m
			}
		case *Term:
			if p.tri(c) == 0 {
				continue
			}
			cand = append(cand, m)
			conds = append(conds, c)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	any := conds[0]
	for _, c := range conds[1:] {
		any = p.ctx().BOr(any, c)
	}
	if !p.decide(any) {
		return nil
	}
	for i, m := range cand {
		if i == len(cand)-1 {
			p.assume(conds[i])
			return m
		}
		if p.decide(conds[i]) {
			return m
		}
	}
	return nil
}

func (p *Path) reflectPanic(msg string) {
	p.throw(Iface{t: types.Typ[types.String], v: msg}, msg)
}

func (pr *Prog) initReflect(def func(string, func(*Path, []Value) Value), opt func(string, func(*Path, []Value) (Value, bool))) {
	def("reflect.ValueOf", func(p *Path, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RValue{}
		}
		return RValue{t: i.t, v: copyVal(i.v), ok: true}
	})
	typeOf := func(p *Path, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return p.w.prog.rtypeIface(i.t)
	}
	def("reflect.TypeOf", typeOf)
	def("internal/reflectlite.TypeOf", typeOf)
	rv := func(name string, f func(p *Path, r RValue, a []Value) Value) {
		def("(reflect.Value)."+name, func(p *Path, a []Value) Value {
			r, ok := a[0].(RValue)
			if !ok {
				p.unsupported("reflect.Value")
			}
			if !r.ok && name != "IsValid" && name != "Kind" && name != "String" {
				p.reflectPanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(p, r, a[1:])
		})
	}
	rv("IsValid", func(p *Path, r RValue, a []Value) Value { return r.ok })
	rv("Kind", func(p *Path, r RValue, a []Value) Value {
		if !r.ok {
			return uint64(0)
		}
		return reflectKind(r.t)
	})
	rv("Type", func(p *Path, r RValue, a []Value) Value { return p.w.prog.rtypeIface(r.t) })
	rv("CanInterface", func(p *Path, r RValue, a []Value) Value { return true })
	rv("CanSet", func(p *Path, r RValue, a []Value) Value { return r.p != nil })
	rv("CanAddr", func(p *Path, r RValue, a []Value) Value { return r.p != nil })
	get := func(r RValue) Value {
		if r.p != nil {
			return *r.p
		}
		return r.v
	}
	rv("Interface", func(p *Path, r RValue, a []Value) Value { return p.toIface(r.t, copyVal(get(r))) })
	rv("IsNil", func(p *Path, r RValue, a []Value) Value {
		switch v := get(r).(type) {
		case Iface:
			return v.t == nil
		case Slice:
			return v == nil
		case *Map:
			return v == nil
		case *Func:
			return v.isNil()
		case *Value:
			return v == nil
		}
		switch reflectKind(r.t) {
		case 18, 19, 20, 21, 22, 23, 26:
			return false
		}
		p.reflectPanic("reflect: call of reflect.Value.IsNil on " + shortType(r.t) + " Value")
		return nil
	})
	rv("IsZero", func(p *Path, r RValue, a []Value) Value { return p.equal(r.t, get(r), zero(r.t)) })
	rv("Len", func(p *Path, r RValue, a []Value) Value {
		switch v := get(r).(type) {
		case string, SStr:
			return intV(strLen(v))
		case Slice:
			return intV(len(v))
		case Array:
			return intV(len(v))
		case *Map:
			if v == nil {
				return uint64(0)
			}
			return intV(v.live)
		}
		p.unsupported("reflect.Value.Len")
		return nil
	})
	rv("String", func(p *Path, r RValue, a []Value) Value {
		if !r.ok {
			return "<invalid Value>"
		}
		switch v := get(r).(type) {
		case string, SStr:
			return v
		}
		return "<" + shortType(r.t) + " Value>"
	})
	rv("Int", func(p *Path, r RValue, a []Value) Value {
		w, _, _ := intInfo(r.t)
		if x, ok := get(r).(uint64); ok {
			return uint64(sext(x, w))
		}
		return fromInt(p.ctx().SExt(get(r).(*Term), 64))
	})
	rv("Bool", func(p *Path, r RValue, a []Value) Value { return get(r) })
	rv("Elem", func(p *Path, r RValue, a []Value) Value {
		switch v := get(r).(type) {
		case Iface:
			if v.t == nil {
				return RValue{}
			}
			return RValue{t: v.t, v: v.v, ok: true}
		case *Value:
			if v == nil {
				return RValue{}
			}
			return RValue{t: under(r.t).(*types.Pointer).Elem(), p: v, ok: true}
		}
		p.unsupported("reflect.Value.Elem")
		return nil
	})
	rv("NumField", func(p *Path, r RValue, a []Value) Value { return intV(under(r.t).(*types.Struct).NumFields()) })
	field := func(p *Path, r RValue, i int) Value {
		st := under(r.t).(*types.Struct)
		s := get(r).(Struct)
		out := RValue{t: st.Field(i).Type(), v: s[i], ok: true}
		if r.p != nil {
			out.p = &s[i]
		}
		return out
	}
	rv("Field", func(p *Path, r RValue, a []Value) Value { return field(p, r, vint(a[0])) })
	rv("FieldByName", func(p *Path, r RValue, a []Value) Value {
		st, ok := under(r.t).(*types.Struct)
		if !ok {
			p.reflectPanic("reflect: call of reflect.Value.FieldByName on " + shortType(r.t) + " Value")
		}
		for i := 0; i < st.NumFields(); i++ {
			if p.truthy(p.strEq(a[0], st.Field(i).Name())) {
				return field(p, r, i)
			}
		}
		return RValue{}
	})
	rv("Index", func(p *Path, r RValue, a []Value) Value {
		switch v := get(r).(type) {
		case Slice:
			i, _ := p.index(a[0], types.Typ[types.Int], len(v))
			return RValue{t: under(r.t).(*types.Slice).Elem(), p: &v[i], ok: true}
		}
		p.unsupported("reflect.Value.Index")
		return nil
	})
	rv("Set", func(p *Path, r RValue, a []Value) Value {
		if r.p == nil {
			p.reflectPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		x := a[0].(RValue)
		if _, ok := under(r.t).(*types.Interface); ok {
			storeInto(r.p, p.toIface(x.t, get(x)))
		} else {
			storeInto(r.p, get(x))
		}
		return nil
	})
	rv("SetString", func(p *Path, r RValue, a []Value) Value { storeInto(r.p, a[0]); return nil })
	rv("SetBool", func(p *Path, r RValue, a []Value) Value { storeInto(r.p, a[0]); return nil })
	rv("SetInt", func(p *Path, r RValue, a []Value) Value { storeInto(r.p, a[0]); return nil })
	rv("NumMethod", func(p *Path, r RValue, a []Value) Value { return intV(len(exportedMethods(p.w.prog, r.t))) })
	method := func(p *Path, r RValue, sel *types.Selection) Value {
		if sel == nil {
			return RValue{}
		}
		sig := sel.Obj().Type().(*types.Signature)
		recv := get(r)
		fn := p.w.prog.ssa.MethodValue(sel)
		mt := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		return RValue{t: mt, ok: true, v: &Func{nat: func(p *Path, args []Value) Value {
			return p.call(fn, nil, append([]Value{copyVal(recv)}, args...))
		}}}
	}
	rv("MethodByName", func(p *Path, r RValue, a []Value) Value {
		return method(p, r, p.methodByName(r.t, a[0]))
	})
	rv("Method", func(p *Path, r RValue, a []Value) Value {
		ms := exportedMethods(p.w.prog, r.t)
		return method(p, r, ms[vint(a[0])])
	})
	rv("Call", func(p *Path, r RValue, a []Value) Value {
		sig, ok := under(r.t).(*types.Signature)
		if !ok {
			p.reflectPanic("reflect: call of Call on " + shortType(r.t) + " Value")
		}
		in := a[0].(Slice)
		n := sig.Params().Len()
		if sig.Variadic() {
			p.unsupported("reflect call of a variadic function")
		}
		if len(in) < n {
			p.reflectPanic("reflect: Call with too few input arguments")
		}
		if len(in) > n {
			p.reflectPanic("reflect: Call with too many input arguments")
		}
		args := make([]Value, n)
		for i := range in {
			x, ok := in[i].(RValue)
			if !ok || !x.ok {
				p.reflectPanic("reflect: Call using zero Value argument")
			}
			pt := sig.Params().At(i).Type()
			if !types.AssignableTo(x.t, pt) {
				p.reflectPanic(fmt.Sprintf("reflect: Call using %s as type %s", shortType(x.t), shortType(pt)))
			}
			if _, ok := under(pt).(*types.Interface); ok {
				args[i] = p.toIface(x.t, copyVal(get(x)))
			} else {
				args[i] = copyVal(get(x))
			}
		}
		f, _ := get(r).(*Func)
		if f.isNil() {
			p.reflectPanic("reflect: call of nil function")
		}
		res := p.callFunc(nil, f, args, nil)
		rt := sig.Results()
		out := make(Slice, rt.Len())
		for i := range out {
			v := res
			if rt.Len() > 1 {
				v = res.(Tuple)[i]
			}
			out[i] = RValue{t: rt.At(i).Type(), v: v, ok: true}
		}
		return out
	})
	def("reflect.DeepEqual", func(p *Path, a []Value) Value {
		return p.deepEqual(a[0].(Iface).t, a[0], a[1].(Iface).t, a[1])
	})
	_ = ssa.Function{}
}

func (p *Path) deepEqual(at types.Type, a Value, bt types.Type, b Value) Value {
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if ok1 && ok2 {
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return p.deepEqual(x.t, x.v, y.t, y.v)
	}
	switch u := under(at).(type) {
	case *types.Slice:
		s, t := a.(Slice), b.(Slice)
		if len(s) != len(t) || (s == nil) != (t == nil) {
			return false
		}
		var r Value = true
		for i := range s {
			r = p.and(r, p.deepEqual(u.Elem(), s[i], u.Elem(), t[i]))
		}
		return r
	case *types.Struct:
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			r = p.and(r, p.deepEqual(u.Field(i).Type(), a.(Struct)[i], u.Field(i).Type(), b.(Struct)[i]))
		}
		return r
	case *types.Basic:
		return p.equal(at, a, b)
	}
	p.unsupported("reflect.DeepEqual of " + at.String())
	return nil
}
