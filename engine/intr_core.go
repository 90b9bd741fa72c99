package main

// Intrinsics: functions whose meaning the engine supplies instead of
// executing their SSA. Each returns ok=false to fall back to the SSA body.

import (
	"fmt"
	"go/types"
	"math/rand"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (pr *Prog) lookupIntrinsic(fn *ssa.Function) Intrinsic {
	name := fn.String()
	if fn.Synthetic == "package initializer" || (fn.Name() == "init" && fn.Synthetic != "") {
		return func(*Path, *ssa.Function, []Value) (Value, bool) { return nil, true }
	}
	if fn.Pkg != nil && pr.appPkgs[fn.Pkg] && strings.HasPrefix(fn.Name(), "vp") && fn.Signature.Recv() == nil {
		if f, ok := pr.intr["vp:"+fn.Name()]; ok {
			return f
		}
	}
	if f, ok := pr.intr[name]; ok {
		return f
	}
	if o := fn.Origin(); o != nil && o != fn {
		if f, ok := pr.intr[o.String()]; ok {
			return f
		}
	}
	if nf, ok := natives[name]; ok {
		return nativeIntrinsic(nf)
	}
	return nil
}

// natives are pure functions called directly when all arguments are concrete.
var natives = map[string]interface{}{
	"path/filepath.Join":       filepath.Join,
	"path/filepath.Clean":      filepath.Clean,
	"path/filepath.Dir":        filepath.Dir,
	"path/filepath.Base":       filepath.Base,
	"path/filepath.Ext":        filepath.Ext,
	"path/filepath.IsAbs":      filepath.IsAbs,
	"path/filepath.Rel":        filepath.Rel,
	"path/filepath.Match":      filepath.Match,
	"path/filepath.ToSlash":    filepath.ToSlash,
	"path/filepath.FromSlash":  filepath.FromSlash,
	"path/filepath.Split":      filepath.Split,
	"path.Join":                path.Join,
	"path.Clean":               path.Clean,
	"path.Dir":                 path.Dir,
	"path.Base":                path.Base,
	"path.Ext":                 path.Ext,
	"strconv.Itoa":             strconv.Itoa,
	"strconv.FormatInt":        strconv.FormatInt,
	"strconv.FormatUint":       strconv.FormatUint,
	"strconv.Quote":            strconv.Quote,
	"strconv.FormatBool":       strconv.FormatBool,
	"unicode.IsUpper":          unicode.IsUpper,
	"unicode.IsLower":          unicode.IsLower,
	"unicode.IsLetter":         unicode.IsLetter,
	"unicode.IsDigit":          unicode.IsDigit,
	"unicode.IsSpace":          unicode.IsSpace,
	"unicode.IsPunct":          unicode.IsPunct,
	"unicode.IsNumber":         unicode.IsNumber,
	"unicode.IsControl":        unicode.IsControl,
	"unicode.IsPrint":          unicode.IsPrint,
	"unicode.IsGraphic":        unicode.IsGraphic,
	"unicode.ToUpper":          unicode.ToUpper,
	"unicode.ToLower":          unicode.ToLower,
	"unicode.ToTitle":          unicode.ToTitle,
	"unicode/utf8.RuneLen":     utf8.RuneLen,
	"unicode/utf8.ValidString": utf8.ValidString,
	"strings.Fields":           strings.Fields,
	"strings.Title":            strings.Title,
	"strings.ToUpper":          strings.ToUpper,
	"strings.ToLower":          strings.ToLower,
	"strings.TrimSpace":        strings.TrimSpace,
	"strings.Trim":             strings.Trim,
	"strings.TrimLeft":         strings.TrimLeft,
	"strings.TrimRight":        strings.TrimRight,
	"strings.EqualFold":        strings.EqualFold,
	"strings.ContainsAny":      strings.ContainsAny,
	"strings.ContainsRune":     strings.ContainsRune,
	"strings.IndexAny":         strings.IndexAny,
	"strings.IndexRune":        strings.IndexRune,
	"strings.LastIndex":        strings.LastIndex,
	"strings.LastIndexByte":    strings.LastIndexByte,
	"strings.Repeat":           strings.Repeat,
	"strings.Count":            strings.Count,
	"html.EscapeString":        nil,
}

func nativeIntrinsic(nf interface{}) Intrinsic {
	if nf == nil {
		return nil
	}
	fv := reflect.ValueOf(nf)
	ft := fv.Type()
	return func(p *Path, fn *ssa.Function, args []Value) (Value, bool) {
		in := make([]reflect.Value, 0, len(args))
		for i, a := range args {
			var pt reflect.Type
			variadic := ft.IsVariadic() && i == ft.NumIn()-1
			pt = ft.In(i)
			v, ok := toNative(a, pt)
			if !ok {
				return nil, false
			}
			if variadic {
				for k := 0; k < v.Len(); k++ {
					in = append(in, v.Index(k))
				}
			} else {
				in = append(in, v)
			}
		}
		out := fv.Call(in)
		res := make([]Value, len(out))
		for i, o := range out {
			v, ok := fromNative(p, o)
			if !ok {
				return nil, false
			}
			res[i] = v
		}
		switch len(res) {
		case 0:
			return nil, true
		case 1:
			return res[0], true
		}
		return Tuple(res), true
	}
}

func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s), ok
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16, reflect.Int8:
		x, ok := v.(uint64)
		r := reflect.New(t).Elem()
		if ok {
			r.SetInt(sext(x, uint8(t.Bits())))
		}
		return r, ok
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, ok := v.(uint64)
		r := reflect.New(t).Elem()
		if ok {
			r.SetUint(x)
		}
		return r, ok
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		r := reflect.MakeSlice(t, 0, len(s))
		for _, e := range s {
			x, ok := toNative(e, t.Elem())
			if !ok {
				return r, false
			}
			r = reflect.Append(r, x)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func fromNative(p *Path, v reflect.Value) (Value, bool) {
	switch v.Kind() {
	case reflect.String:
		return v.String(), true
	case reflect.Bool:
		return v.Bool(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(v.Int()) & wmask(uint8(v.Type().Bits())), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint(), true
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil), true
		}
		out := make(Slice, v.Len())
		for i := range out {
			x, ok := fromNative(p, v.Index(i))
			if !ok {
				return nil, false
			}
			out[i] = x
		}
		return out, true
	case reflect.Interface:
		if v.IsNil() {
			return Iface{}, true
		}
		if e, ok := v.Interface().(error); ok {
			return p.w.prog.mkError(p, e.Error()), true
		}
	}
	return nil, false
}

// mkError makes an errors.New value.
func (pr *Prog) mkError(p *Path, msg string) Iface { return pr.mkErrorV(p, msg) }

func (pr *Prog) mkErrorV(p *Path, msg Value) Iface {
	t := pr.namedType("errors", "errorString")
	cell := new(Value)
	*cell = Struct{msg}
	return Iface{t: types.NewPointer(t), v: cell}
}

func (pr *Prog) namedType(pkg, name string) types.Type {
	pk := pr.pkgs[pkg]
	if pk == nil {
		panic("package not loaded: " + pkg)
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		panic("no type " + pkg + "." + name)
	}
	return o.Type()
}

// ---- worker globals ----

func (w *Worker) resetCtx() {
	w.c = newCtx()
	w.solver.cache = map[string]satResult{}
}

func (w *Worker) resetApp() {
	pr := w.prog
	for i := range w.globals {
		if w.globals[i] == nil {
			continue
		}
		g := pr.globalAt(i)
		if pr.appPkgs[g.Pkg] || g.Pkg.Pkg.Path() == "flag" || g.Pkg.Pkg.Path() == "os" {
			w.globals[i] = nil
			delete(w.pkgInit, g.Pkg)
		}
	}
	for pk := range pr.appPkgs {
		delete(w.pkgInit, pk)
	}
}

func (p *Path) global(i int) *Value {
	w := p.w
	if i < len(w.globals) {
		if v := w.globals[i]; v != nil {
			return v
		}
	} else {
		n := make([]*Value, i+64)
		copy(n, w.globals)
		w.globals = n
	}
	g := w.prog.globalAt(i)
	if v := p.hookGlobal(g); v != nil {
		w.globals[i] = v
		return v
	}
	p.ensureInit(g.Pkg)
	if v := w.globals[i]; v != nil {
		return v
	}
	v := new(Value)
	*v = zero(g.Type().(*types.Pointer).Elem())
	w.globals[i] = v
	return v
}

func (p *Path) hookGlobal(g *ssa.Global) *Value {
	pk := g.Pkg.Pkg.Path()
	if pk == "os" {
		switch g.Name() {
		case "ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid", "ErrClosed":
			if m, ok := p.w.prog.pkgs["io/fs"].Members[g.Name()].(*ssa.Global); ok {
				return p.global(p.w.prog.globalIndex(m))
			}
		case "Stdout", "Stderr", "Stdin":
			v := new(Value)
			*v = &vfile{std: g.Name()}
			return v
		case "Args":
			v := new(Value)
			args := Slice{"xgen"}
			if a, ok := p.extra["args"].(Slice); ok {
				args = append(args, a...)
			}
			*v = args
			return v
		}
	}
	return nil
}

func (p *Path) ensureInit(pk *ssa.Package) {
	w := p.w
	switch w.pkgInit[pk] {
	case 1, 2:
		return
	case 3:
		p.unsupported("package initialisation of " + pk.Pkg.Path())
	}
	w.pkgInit[pk] = 1
	if pk.Pkg.Path() == "os" {
		w.pkgInit[pk] = 2
		return
	}
	ok := false
	depth := len(p.stack)
	defer func() {
		if !ok {
			w.pkgInit[pk] = 3
			p.stack = p.stack[:depth]
			for i := range w.globals {
				if w.globals[i] != nil && w.prog.globalAt(i).Pkg == pk {
					w.globals[i] = nil
				}
			}
		}
	}()
	pk.Build()
	init := pk.Func("init")
	fc := w.prog.codeOf(init)
	raw := *fc
	raw.nat = nil
	mo := p.mapOrder
	p.mapOrder = false
	p.callCode(&raw, nil, nil)
	p.mapOrder = mo
	w.pkgInit[pk] = 2
	ok = true
}

func newWorker(pr *Prog, st *SolverStats, seed int64) *Worker {
	return &Worker{prog: pr, c: newCtx(), solver: newSolver(st), pkgInit: map[*ssa.Package]int{}, rng: rand.New(rand.NewSource(seed)), host: map[string]interface{}{}}
}

// ---- string helpers ----

func (p *Path) matchAt(s Value, i int, sub Value) Value {
	if cs, ok := s.(string); ok {
		if ss, ok := sub.(string); ok {
			return strings.HasPrefix(cs[i:], ss)
		}
	}
	n := strLen(sub)
	if i+n > strLen(s) {
		return false
	}
	return p.strEq(substr(s, i, i+n), sub)
}

func (p *Path) strIndexOf(s, sub Value, from int) int {
	if cs, ok := s.(string); ok {
		if ss, ok := sub.(string); ok {
			k := strings.Index(cs[from:], ss)
			if k < 0 {
				return -1
			}
			return from + k
		}
	}
	n := strLen(sub)
	for i := from; i+n <= strLen(s); i++ {
		if p.truthy(p.matchAt(s, i, sub)) {
			return i
		}
	}
	return -1
}

func (p *Path) split(s, sep Value, n int, save int) Slice {
	if n == 0 {
		return Slice(nil)
	}
	if strLen(sep) == 0 {
		out := Slice{}
		for i := 0; i < strLen(s); {
			if n > 0 && len(out) == n-1 {
				out = append(out, substr(s, i, strLen(s)))
				return out
			}
			_, k := p.decodeRune(s, i)
			out = append(out, substr(s, i, i+k))
			i += k
		}
		return out
	}
	out := Slice{}
	start := 0
	for n < 0 || len(out) < n-1 {
		k := p.strIndexOf(s, sep, start)
		if k < 0 {
			break
		}
		out = append(out, substr(s, start, k+save))
		start = k + strLen(sep)
	}
	return append(out, substr(s, start, strLen(s)))
}

func (p *Path) replace(s, old, new Value, n int) Value {
	if n == 0 {
		return s
	}
	if cs, ok := s.(string); ok {
		if co, ok := old.(string); ok {
			if cn, ok := new.(string); ok {
				return strings.Replace(cs, co, cn, n)
			}
		}
	}
	if strLen(old) == 0 {
		p.unsupported("replace of the empty string")
	}
	var out []*Term
	start, cnt := 0, 0
	sb := p.strBytes(s)
	for n < 0 || cnt < n {
		k := p.strIndexOf(s, old, start)
		if k < 0 {
			break
		}
		out = append(out, sb[start:k]...)
		out = append(out, p.strBytes(new)...)
		start = k + strLen(old)
		cnt++
	}
	if cnt == 0 {
		return s
	}
	return mkStr(append(out, sb[start:]...))
}

func (p *Path) allASCII(s Value) bool {
	sb, ok := s.(SStr)
	if !ok {
		for i := 0; i < len(s.(string)); i++ {
			if s.(string)[i] >= 0x80 {
				return false
			}
		}
		return true
	}
	c := p.ctx()
	for _, b := range sb {
		if p.tri(c.Cmp(OUlt, b, c.byteC[0x80])) != 1 {
			return false
		}
	}
	return true
}

func (p *Path) isASCII1(b *Term) bool {
	c := p.ctx()
	return p.tri(c.Cmp(OUlt, b, c.byteC[0x80])) == 1
}

func (p *Path) caseMap(s Value, lo, hi byte, delta uint64) (Value, bool) {
	if !p.allASCII(s) {
		return nil, false
	}
	c := p.ctx()
	sb := p.strBytes(s)
	out := make([]*Term, len(sb))
	for i, b := range sb {
		in := c.BAnd(c.Cmp(OUle, c.byteC[lo], b), c.Cmp(OUle, b, c.byteC[hi]))
		switch p.tri(in) {
		case 1:
			out[i] = c.Bin(OAdd, b, c.Const(8, delta))
		case 0:
			out[i] = b
		default:
			out[i] = c.Ite(in, c.Bin(OAdd, b, c.Const(8, delta)), b)
		}
	}
	return mkStr(out), true
}

func (p *Path) inSet(b *Term, set string) *Term {
	c := p.ctx()
	r := c.tFalse
	for i := 0; i < len(set); i++ {
		r = c.BOr(r, c.Eq(b, c.byteC[set[i]]))
	}
	return r
}

func (p *Path) trimSet(s Value, set string, left, right bool) Value {
	sb := p.strBytes(s)
	lo, hi := 0, len(sb)
	for left && lo < hi && p.decide(p.inSet(sb[lo], set)) {
		lo++
	}
	for right && hi > lo && p.decide(p.inSet(sb[hi-1], set)) {
		hi--
	}
	return substr(s, lo, hi)
}

func isASCIIStr(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func intV(i int) Value { return uint64(int64(i)) }

func vint(v Value) int { return int(int64(v.(uint64))) }

// builderBuf is the content of a strings.Builder, stored in its buf field.
type builderBuf struct {
	grown int
	parts []Value
	n     int
}

func (p *Path) concat(parts []Value) Value {
	switch len(parts) {
	case 0:
		return ""
	case 1:
		return parts[0]
	}
	conc := true
	n := 0
	for _, x := range parts {
		if _, ok := x.(string); !ok {
			conc = false
		}
		n += strLen(x)
	}
	if conc {
		var sb strings.Builder
		sb.Grow(n)
		for _, x := range parts {
			sb.WriteString(x.(string))
		}
		return sb.String()
	}
	out := make([]*Term, 0, n)
	for _, x := range parts {
		out = append(out, p.strBytes(x)...)
	}
	return mkStr(out)
}

func builderOf(p *Path, recv Value) *builderBuf {
	cell, ok := recv.(*Value)
	if !ok || cell == nil {
		nilDeref(p)
	}
	st := (*cell).(Struct)
	if b, ok := st[1].(*builderBuf); ok {
		return b
	}
	b := &builderBuf{}
	st[1] = b
	return b
}

func (b *builderBuf) add(v Value) {
	b.parts = append(b.parts, v)
	b.n += strLen(v)
}

func (b *builderBuf) str(p *Path) Value {
	v := p.concat(b.parts)
	b.parts = append(b.parts[:0], v)
	return v
}

func (pr *Prog) initIntrinsics() {
	in := map[string]Intrinsic{}
	pr.intr = in
	def := func(name string, f func(p *Path, a []Value) Value) {
		in[name] = func(p *Path, _ *ssa.Function, a []Value) (Value, bool) { return f(p, a), true }
	}
	opt := func(name string, f func(p *Path, a []Value) (Value, bool)) {
		in[name] = func(p *Path, _ *ssa.Function, a []Value) (Value, bool) { return f(p, a) }
	}
	// strings
	// arithmetic on floating point is concrete
	pr.intr["strconv.ParseFloat"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		a[0] = p.concreteStr(a[0])
		return nil, false
	}
	def("strings.Index", func(p *Path, a []Value) Value { return intV(p.strIndexOf(a[0], a[1], 0)) })
	def("strings.IndexByte", func(p *Path, a []Value) Value {
		return intV(p.strIndexOf(a[0], mkStr([]*Term{p.intTerm(a[1], 8)}), 0))
	})
	in["internal/bytealg.IndexByteString"] = in["strings.IndexByte"]
	in["internal/stringslite.IndexByte"] = in["strings.IndexByte"]
	in["internal/stringslite.Index"] = in["strings.Index"]
	in["internal/bytealg.IndexString"] = in["strings.Index"]
	def("internal/bytealg.IndexByte", func(p *Path, a []Value) Value {
		return intV(p.strIndexOf(strOfBytes(p, a[0].(Slice)), mkStr([]*Term{p.intTerm(a[1], 8)}), 0))
	})
	def("internal/bytealg.Index", func(p *Path, a []Value) Value {
		return intV(p.strIndexOf(strOfBytes(p, a[0].(Slice)), strOfBytes(p, a[1].(Slice)), 0))
	})
	def("bytes.Index", func(p *Path, a []Value) Value {
		return intV(p.strIndexOf(strOfBytes(p, a[0].(Slice)), strOfBytes(p, a[1].(Slice)), 0))
	})
	def("bytes.Equal", func(p *Path, a []Value) Value {
		return p.strEq(strOfBytes(p, a[0].(Slice)), strOfBytes(p, a[1].(Slice)))
	})
	def("internal/bytealg.Equal", func(p *Path, a []Value) Value {
		return p.strEq(strOfBytes(p, a[0].(Slice)), strOfBytes(p, a[1].(Slice)))
	})
	lastIdx := func(p *Path, a []Value) Value {
		sub := a[1]
		if _, ok := sub.(uint64); ok {
			sub = mkStr([]*Term{p.intTerm(sub, 8)})
		} else if t, ok := sub.(*Term); ok {
			sub = mkStr([]*Term{t})
		}
		for i := strLen(a[0]) - strLen(sub); i >= 0; i-- {
			if p.truthy(p.matchAt(a[0], i, sub)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	def("strings.LastIndex", lastIdx)
	def("strings.LastIndexByte", lastIdx)
	def("internal/bytealg.LastIndexByteString", lastIdx)
	cnt := func(p *Path, a []Value) Value {
		sub := a[1]
		switch x := sub.(type) {
		case uint64:
			sub = string([]byte{byte(x)})
		case *Term:
			sub = mkStr([]*Term{x})
		}
		if strLen(sub) == 0 {
			p.unsupported("count of the empty string")
		}
		n := 0
		for i := 0; ; n++ {
			k := p.strIndexOf(a[0], sub, i)
			if k < 0 {
				return intV(n)
			}
			i = k + strLen(sub)
		}
	}
	def("strings.Count", cnt)
	def("internal/bytealg.CountString", cnt)
	def("internal/bytealg.Count", func(p *Path, a []Value) Value {
		return cnt(p, []Value{strOfBytes(p, a[0].(Slice)), a[1]})
	})
	def("internal/bytealg.MakeNoZero", func(p *Path, a []Value) Value {
		n := vint(a[0])
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	def("internal/bytealg.CompareString", func(p *Path, a []Value) Value {
		if p.truthy(p.strEq(a[0], a[1])) {
			return uint64(0)
		}
		if p.truthy(p.strLess(a[0], a[1])) {
			return intV(-1)
		}
		return uint64(1)
	})
	in["strings.Compare"] = in["internal/bytealg.CompareString"]
	def("strings.Contains", func(p *Path, a []Value) Value {
		n := strLen(a[1])
		c := p.ctx()
		r := c.tFalse
		for i := 0; i+n <= strLen(a[0]); i++ {
			r = c.BOr(r, p.boolTerm(p.matchAt(a[0], i, a[1])))
		}
		return fromBool(r)
	})
	def("strings.HasPrefix", func(p *Path, a []Value) Value {
		if strLen(a[1]) > strLen(a[0]) {
			return false
		}
		return p.matchAt(a[0], 0, a[1])
	})
	def("strings.HasSuffix", func(p *Path, a []Value) Value {
		if strLen(a[1]) > strLen(a[0]) {
			return false
		}
		return p.matchAt(a[0], strLen(a[0])-strLen(a[1]), a[1])
	})
	in["internal/stringslite.HasPrefix"] = in["strings.HasPrefix"]
	in["internal/stringslite.HasSuffix"] = in["strings.HasSuffix"]
	def("strings.TrimPrefix", func(p *Path, a []Value) Value {
		if strLen(a[1]) <= strLen(a[0]) && p.truthy(p.matchAt(a[0], 0, a[1])) {
			return substr(a[0], strLen(a[1]), strLen(a[0]))
		}
		return a[0]
	})
	def("strings.TrimSuffix", func(p *Path, a []Value) Value {
		n := strLen(a[0]) - strLen(a[1])
		if n >= 0 && p.truthy(p.matchAt(a[0], n, a[1])) {
			return substr(a[0], 0, n)
		}
		return a[0]
	})
	in["internal/stringslite.TrimPrefix"] = in["strings.TrimPrefix"]
	in["internal/stringslite.TrimSuffix"] = in["strings.TrimSuffix"]
	def("strings.Split", func(p *Path, a []Value) Value { return p.split(a[0], a[1], -1, 0) })
	def("strings.SplitN", func(p *Path, a []Value) Value { return p.split(a[0], a[1], vint(a[2]), 0) })
	def("strings.SplitAfter", func(p *Path, a []Value) Value { return p.split(a[0], a[1], -1, strLen(a[1])) })
	def("strings.Replace", func(p *Path, a []Value) Value { return p.replace(a[0], a[1], a[2], vint(a[3])) })
	def("strings.ReplaceAll", func(p *Path, a []Value) Value { return p.replace(a[0], a[1], a[2], -1) })
	cut := func(p *Path, a []Value) Value {
		k := p.strIndexOf(a[0], a[1], 0)
		if k < 0 {
			return Tuple{a[0], "", false}
		}
		return Tuple{substr(a[0], 0, k), substr(a[0], k+strLen(a[1]), strLen(a[0])), true}
	}
	def("strings.Cut", cut)
	def("internal/stringslite.Cut", cut)
	def("strings.Join", func(p *Path, a []Value) Value {
		var parts []Value
		for i, x := range a[0].(Slice) {
			if i > 0 {
				parts = append(parts, a[1])
			}
			parts = append(parts, x)
		}
		return p.concat(parts)
	})
	def("strings.Clone", func(p *Path, a []Value) Value { return a[0] })
	def("internal/stringslite.Clone", func(p *Path, a []Value) Value { return a[0] })
	opt("strings.ToUpper", func(p *Path, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s), true
		}
		return p.caseMap(a[0], 'a', 'z', 0xe0)
	})
	opt("strings.ToLower", func(p *Path, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s), true
		}
		return p.caseMap(a[0], 'A', 'Z', 0x20)
	})
	opt("strings.TrimSpace", func(p *Path, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s), true
		}
		if !p.allASCII(a[0]) {
			return nil, false
		}
		return p.trimSet(a[0], " \t\n\v\f\r", true, true), true
	})
	trim := func(l, r bool) func(p *Path, a []Value) (Value, bool) {
		return func(p *Path, a []Value) (Value, bool) {
			set, ok := a[1].(string)
			if !ok || !isASCIIStr(set) {
				return nil, false
			}
			return p.trimSet(a[0], set, l, r), true
		}
	}
	opt("strings.Trim", trim(true, true))
	opt("strings.TrimLeft", trim(true, false))
	opt("strings.TrimRight", trim(false, true))
	opt("strings.ContainsAny", func(p *Path, a []Value) (Value, bool) {
		set, ok := a[1].(string)
		if !ok || !isASCIIStr(set) {
			return nil, false
		}
		r := p.ctx().tFalse
		for _, b := range p.strBytes(a[0]) {
			r = p.ctx().BOr(r, p.inSet(b, set))
		}
		return fromBool(r), true
	})
	opt("strings.IndexAny", func(p *Path, a []Value) (Value, bool) {
		set, ok := a[1].(string)
		if !ok || !isASCIIStr(set) {
			return nil, false
		}
		for i, b := range p.strBytes(a[0]) {
			if p.decide(p.inSet(b, set)) {
				return intV(i), true
			}
		}
		return intV(-1), true
	})
	opt("strings.Fields", func(p *Path, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			out := Slice{}
			for _, f := range strings.Fields(s) {
				out = append(out, f)
			}
			return out, true
		}
		if !p.allASCII(a[0]) {
			return nil, false
		}
		out := Slice{}
		start := -1
		sb := p.strBytes(a[0])
		for i, b := range sb {
			if p.decide(p.inSet(b, " \t\n\v\f\r")) {
				if start >= 0 {
					out = append(out, substr(a[0], start, i))
				}
				start = -1
			} else if start < 0 {
				start = i
			}
		}
		if start >= 0 {
			out = append(out, substr(a[0], start, len(sb)))
		}
		return out, true
	})
	opt("strings.Repeat", func(p *Path, a []Value) (Value, bool) {
		n := int(int64(p.concretize(a[1], 64)))
		if n < 0 || n > 1<<20 {
			return nil, false
		}
		parts := make([]Value, n)
		for i := range parts {
			parts[i] = a[0]
		}
		return p.concat(parts), true
	})
	// unicode on symbolic ASCII
	runeClass := func(name string, ranges ...[2]byte) {
		nat := nativeIntrinsic(natives[name])
		in[name] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			t, ok := a[0].(*Term)
			if !ok {
				return nat(p, fn, a)
			}
			c := p.ctx()
			if !p.decide(c.Cmp(OUlt, t, c.Const(32, 0x80))) {
				return nil, false
			}
			r := c.tFalse
			for _, g := range ranges {
				r = c.BOr(r, c.BAnd(c.Cmp(OUle, c.Const(32, uint64(g[0])), t), c.Cmp(OUle, t, c.Const(32, uint64(g[1])))))
			}
			return fromBool(r), true
		}
	}
	runeClass("unicode.IsUpper", [2]byte{'A', 'Z'})
	runeClass("unicode.IsLower", [2]byte{'a', 'z'})
	runeClass("unicode.IsLetter", [2]byte{'a', 'z'}, [2]byte{'A', 'Z'})
	runeClass("unicode.IsDigit", [2]byte{'0', '9'})
	runeClass("unicode.IsNumber", [2]byte{'0', '9'})
	runeClass("unicode.IsSpace", [2]byte{9, 13}, [2]byte{' ', ' '})
	runeClass("unicode.IsControl", [2]byte{0, 31}, [2]byte{127, 127})
	runeCase := func(name string, lo, hi byte, delta uint64) {
		nat := nativeIntrinsic(natives[name])
		in[name] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			t, ok := a[0].(*Term)
			if !ok {
				return nat(p, fn, a)
			}
			c := p.ctx()
			if !p.decide(c.Cmp(OUlt, t, c.Const(32, 0x80))) {
				return nil, false
			}
			// keep the term narrow when it is a widened byte
			if t.op == OZExt && t.a.w == 8 {
				b := t.a
				is := c.BAnd(c.Cmp(OUle, c.byteC[lo], b), c.Cmp(OUle, b, c.byteC[hi]))
				up := c.Bin(OAdd, b, c.Const(8, delta))
				switch p.tri(is) {
				case 1:
					return fromInt(c.ZExt(up, 32)), true
				case 0:
					return t, true
				}
				return fromInt(c.ZExt(c.Ite(is, up, b), 32)), true
			}
			is := c.BAnd(c.Cmp(OUle, c.Const(32, uint64(lo)), t), c.Cmp(OUle, t, c.Const(32, uint64(hi))))
			return fromInt(c.Ite(is, c.Bin(OAdd, t, c.Const(32, uint64(int64(int8(delta))))), t)), true
		}
	}
	runeCase("unicode.ToUpper", 'a', 'z', 0xe0)
	runeCase("unicode.ToTitle", 'a', 'z', 0xe0)
	runeCase("unicode.ToLower", 'A', 'Z', 0x20)
	// strings.Builder
	def("(*strings.Builder).WriteString", func(p *Path, a []Value) Value {
		builderOf(p, a[0]).add(a[1])
		return Tuple{intV(strLen(a[1])), Iface{}}
	})
	def("(*strings.Builder).WriteByte", func(p *Path, a []Value) Value {
		builderOf(p, a[0]).add(mkStr([]*Term{p.intTerm(a[1], 8)}))
		return Iface{}
	})
	def("(*strings.Builder).WriteRune", func(p *Path, a []Value) Value {
		s := p.runeToStr(a[1], 32, true)
		builderOf(p, a[0]).add(s)
		return Tuple{intV(strLen(s)), Iface{}}
	})
	def("(*strings.Builder).Write", func(p *Path, a []Value) Value {
		s := strOfBytes(p, a[1].(Slice))
		builderOf(p, a[0]).add(s)
		return Tuple{intV(strLen(s)), Iface{}}
	})
	def("(*strings.Builder).String", func(p *Path, a []Value) Value { return builderOf(p, a[0]).str(p) })
	def("(*strings.Builder).Len", func(p *Path, a []Value) Value { return intV(builderOf(p, a[0]).n) })
	def("(*strings.Builder).Cap", func(p *Path, a []Value) Value {
		b := builderOf(p, a[0])
		if b.n > b.grown {
			return intV(b.n)
		}
		return intV(b.grown)
	})
	def("(*strings.Builder).Grow", func(p *Path, a []Value) Value {
		if int64(p.concretize(a[1], 64)) < 0 {
			p.throw(Iface{t: types.Typ[types.String], v: "strings.Builder.Grow: negative count"}, "strings.Builder.Grow: negative count")
		}
		if b := builderOf(p, a[0]); b.n+vint(a[1]) > b.grown {
			b.grown = b.n + vint(a[1])
		}
		return nil
	})
	def("(*strings.Builder).Reset", func(p *Path, a []Value) Value {
		b := builderOf(p, a[0])
		b.parts, b.n, b.grown = nil, 0, 0
		return nil
	})
	// strings.Replacer
	def("strings.NewReplacer", func(p *Path, a []Value) Value {
		s := a[0].(Slice)
		if len(s)%2 == 1 {
			p.throw(Iface{t: types.Typ[types.String], v: "strings.NewReplacer: odd argument count"}, "strings.NewReplacer: odd argument count")
		}
		return &replacer{append(Slice(nil), s...)}
	})
	def("(*strings.Replacer).Replace", func(p *Path, a []Value) Value {
		r, ok := a[0].(*replacer)
		if !ok {
			nilDeref(p)
		}
		return r.replace(p, a[1])
	})
	// sorting helpers
	sortSlice := func(p *Path, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			p.unsupported("sort.Slice")
		}
		less := a[1].(*Func)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && p.truthy(p.callFunc(nil, less, []Value{intV(j), intV(j - 1)}, nil)); j-- {
				x, y := copyVal(s[j-1]), copyVal(s[j])
				s[j-1], s[j] = y, x
			}
		}
		return nil
	}
	def("sort.Slice", sortSlice)
	def("sort.SliceStable", sortSlice)
	def("sort.SliceIsSorted", func(p *Path, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			p.unsupported("sort.SliceIsSorted")
		}
		for i := len(s) - 1; i > 0; i-- {
			if p.truthy(p.callFunc(nil, a[1].(*Func), []Value{intV(i), intV(i - 1)}, nil)) {
				return false
			}
		}
		return true
	})
	def("internal/reflectlite.Swapper", func(p *Path, a []Value) Value { return swapper(p, a[0]) })
	def("reflect.Swapper", func(p *Path, a []Value) Value { return swapper(p, a[0]) })
	opt("internal/reflectlite.ValueOf", func(p *Path, a []Value) (Value, bool) {
		return nil, false
	})
	// sync and atomic
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.ReleaseMerge",
		"(*internal/godebug.Setting).IncNonDefault"} {
		def(n, func(p *Path, a []Value) Value { return nil })
	}
	def("(*internal/godebug.Setting).Value", func(p *Path, a []Value) Value { return "" })
	def("internal/godebug.New", func(p *Path, a []Value) Value {
		c := new(Value)
		*c = Struct{}
		return c
	})
	def("(*sync.Once).Do", func(p *Path, a []Value) Value {
		cell := a[0].(*Value)
		key := "once"
		m, _ := p.w.host[key].(map[*Value]bool)
		if m == nil {
			m = map[*Value]bool{}
			p.w.host[key] = m
		}
		if !m[cell] {
			m[cell] = true
			f, _ := a[1].(*Func)
			p.callFunc(nil, f, nil, nil)
		}
		return nil
	})
	def("(*sync.Pool).Get", func(p *Path, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		f, _ := st[len(st)-1].(*Func)
		if f.isNil() {
			return Iface{}
		}
		return p.callFunc(nil, f, nil, nil)
	})
	def("(*sync.Pool).Put", func(p *Path, a []Value) Value { return nil })
	pr.initAtomics(def)
	// errors
	def("errors.New", func(p *Path, a []Value) Value { return p.w.prog.mkErrorV(p, a[0]) })
	// regexp, fmt, reflect, os, xml and harness
	pr.initRegexp(def, opt)
	pr.initFmt(def, opt)
	pr.initReflect(def, opt)
	pr.initOS(def, opt)
	pr.initXML(def, opt)
	pr.initVP(def, opt)
	pr.initTok()
	pr.initConc(def)
	def("errors.As", errorsAs)
	in["reflect.TypeFor"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		return p.w.prog.rtypeIface(fn.TypeArgs()[0]), true
	}
	def("runtime.Caller", func(p *Path, a []Value) Value { return Tuple{uint64(0), "", uint64(0), false} })
	def("unicode/utf8.RuneCountInString", func(p *Path, a []Value) Value {
		n := 0
		for i := 0; i < strLen(a[0]); n++ {
			_, k := p.decodeRune(a[0], i)
			i += k
		}
		return intV(n)
	})
	def("unicode/utf8.DecodeRuneInString", func(p *Path, a []Value) Value {
		if strLen(a[0]) == 0 {
			return Tuple{uint64(utf8.RuneError), uint64(0)}
		}
		r, n := p.decodeRune(a[0], 0)
		return Tuple{r, intV(n)}
	})
	def("time.Now", func(p *Path, a []Value) Value { return zero(p.w.prog.namedType("time", "Time")) })
	def("os.Getenv", func(p *Path, a []Value) Value { return "" })
	def("os.LookupEnv", func(p *Path, a []Value) Value { return Tuple{"", false} })
	def("maps.clone", func(p *Path, a []Value) Value {
		p.unsupported("maps.clone")
		return nil
	})
}

func (pr *Prog) initAtomics(def func(string, func(*Path, []Value) Value)) {
	load := func(p *Path, a []Value) Value { return *a[0].(*Value) }
	store := func(p *Path, a []Value) Value { *a[0].(*Value) = a[1]; return nil }
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer", "Uintptr"} {
		def("sync/atomic.Load"+k, load)
		def("sync/atomic.Store"+k, store)
		def("sync/atomic.Add"+k, func(p *Path, a []Value) Value {
			c := a[0].(*Value)
			*c = (*c).(uint64) + a[1].(uint64)
			return *c
		})
		def("sync/atomic.CompareAndSwap"+k, func(p *Path, a []Value) Value {
			c := a[0].(*Value)
			if *c == a[1] {
				*c = a[2]
				return true
			}
			return false
		})
	}
}

func swapper(p *Path, v Value) Value {
	s, ok := v.(Iface).v.(Slice)
	if !ok {
		p.unsupported("swapper")
	}
	return &Func{nat: func(p *Path, a []Value) Value {
		i, j := vint(a[0]), vint(a[1])
		x, y := copyVal(s[i]), copyVal(s[j])
		s[i], s[j] = y, x
		return nil
	}}
}

// replacer implements strings.Replacer: at each position the first pair in
// argument order that matches is applied.
type replacer struct{ pairs Slice }

func (r *replacer) replace(p *Path, s Value) Value {
	n := strLen(s)
	sb := p.strBytes(s)
	var out []*Term
	for i := 0; i < n; {
		hit := false
		for k := 0; k < len(r.pairs); k += 2 {
			old := r.pairs[k]
			if strLen(old) == 0 {
				p.unsupported("replacer with an empty pattern")
			}
			if i+strLen(old) <= n && p.truthy(p.matchAt(s, i, old)) {
				out = append(out, p.strBytes(r.pairs[k+1])...)
				i += strLen(old)
				hit = true
				break
			}
		}
		if !hit {
			out = append(out, sb[i])
			i++
		}
	}
	return mkStr(out)
}

var _ = sort.Strings
var _ = fmt.Sprint
