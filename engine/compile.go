package main

// SSA functions are compiled to closures over a register frame.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int
	c    Value
	g    int // global index, -1 if none
	fv   int // free variable index, -1 if none
}

func (o *opnd) get(fr *frame) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.fv >= 0 {
		return fr.env[o.fv]
	}
	if o.g >= 0 {
		return fr.p.global(o.g)
	}
	return o.c
}

type frame struct {
	p      *Path
	fc     *fcode
	regs   []Value
	env    []Value
	defers []deferred
	pan    *targetPanic
	rec    bool
	result Value
	prev   int
}

type deferred struct {
	fn   *Func
	args []Value
	call *ssa.CallCommon
}

type phiMove struct {
	dst int
	src []opnd
}

type cblock struct {
	phis   []phiMove
	instrs []func(*frame)
	// next returns the successor index, -1 to return
	next func(*frame) int
	succ []int
	n    int
}

type fcode struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cblock
	recover  int
	nat      Intrinsic
	noBody   bool
	hasDefer bool
}

type Intrinsic func(p *Path, fn *ssa.Function, args []Value) (Value, bool)

// Prog is the loaded program, shared by workers.
type Prog struct {
	ssa     *ssa.Program
	mu      sync.Mutex
	code    sync.Map // *ssa.Function -> *fcode
	gIdx    map[*ssa.Global]int
	gList   []*ssa.Global
	pkgs    map[string]*ssa.Package
	methods sync.Map
	appPkgs map[*ssa.Package]bool
	used    sync.Map // encoded functions
	errT    types.Type
	intr    map[string]Intrinsic
	natFn   sync.Map
	appList []*ssa.Package
	known   map[string]bool
	tier    int
}

func (pr *Prog) globalIndex(g *ssa.Global) int {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if i, ok := pr.gIdx[g]; ok {
		return i
	}
	i := len(pr.gList)
	pr.gIdx[g] = i
	pr.gList = append(pr.gList, g)
	return i
}

func (pr *Prog) globalAt(i int) *ssa.Global {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	return pr.gList[i]
}

func (pr *Prog) codeOf(fn *ssa.Function) *fcode {
	if c, ok := pr.code.Load(fn); ok {
		return c.(*fcode)
	}
	c := pr.compile(fn)
	actual, _ := pr.code.LoadOrStore(fn, c)
	return actual.(*fcode)
}

type compiler struct {
	pr    *Prog
	fn    *ssa.Function
	slots map[ssa.Value]int
	n     int
	fvIdx map[ssa.Value]int
}

func (pr *Prog) compile(fn *ssa.Function) *fcode {
	fc := &fcode{fn: fn, recover: -1}
	fc.nat = pr.lookupIntrinsic(fn)
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if len(fn.Blocks) == 0 {
		fc.noBody = true
		return fc
	}
	c := &compiler{pr: pr, fn: fn, slots: map[ssa.Value]int{}, fvIdx: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.slots[p] = c.n
		c.n++
	}
	for i, v := range fn.FreeVars {
		c.fvIdx[v] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.slots[v] = c.n
				c.n++
			}
		}
	}
	fc.nregs = c.n
	fc.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &fc.blocks[i]
		for _, s := range b.Succs {
			cb.succ = append(cb.succ, s.Index)
		}
		cb.n = len(b.Instrs)
		for _, in := range b.Instrs {
			c.instr(fc, cb, b, in)
		}
		if cb.next == nil {
			cb.next = func(*frame) int { return -1 }
		}
	}
	if fn.Recover != nil {
		fc.recover = fn.Recover.Index
	}
	return fc
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{slot: -1, c: constVal(x), g: -1, fv: -1}
	case *ssa.Global:
		return opnd{slot: -1, g: c.pr.globalIndex(x), fv: -1}
	case *ssa.Function:
		return opnd{slot: -1, c: &Func{fn: x}, g: -1, fv: -1}
	case *ssa.Builtin:
		return opnd{slot: -1, c: &Func{bi: x}, g: -1, fv: -1}
	case *ssa.FreeVar:
		return opnd{slot: -1, fv: c.fvIdx[x], g: -1}
	}
	s, ok := c.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s", v))
	}
	return opnd{slot: s, g: -1, fv: -1}
}

func constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.BoolVal(x.Value)
		case u.Info()&types.IsInteger != 0:
			w, _, _ := intInfo(t)
			if u.Kind() == types.UnsafePointer {
				return zero(t)
			}
			v := constant.ToInt(x.Value)
			if i, ok := constant.Int64Val(v); ok {
				return uint64(i) & wmask(w)
			}
			n, _ := constant.Uint64Val(v)
			return n & wmask(w)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(x.Value)
			if u.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case u.Info()&types.IsString != 0:
			return constant.StringVal(x.Value)
		case u.Info()&types.IsComplex != 0:
			return zero(types.Typ[types.Float64])
		}
	}
	panic(fmt.Sprintf("constVal: %s %s", x, t))
}

func nilDeref(p *Path) { p.rtPanic("invalid memory address or nil pointer dereference") }

func (p *Path) load(addr Value, t types.Type) Value {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			nilDeref(p)
		}
		switch x := (*a).(type) {
		case Struct, Array:
			return copyVal(x)
		}
		return *a
	case *SymAddr:
		return p.symLoad(a, t)
	case nil:
		nilDeref(p)
	}
	p.unsupported(fmt.Sprintf("load through %T", addr))
	return nil
}

func (p *Path) store(addr Value, v Value) {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			nilDeref(p)
		}
		storeInto(a, v)
		return
	case *SymAddr:
		w := uint8(64)
		i := p.concretize(Value(a.idx), w)
		storeInto(&a.cells[i], v)
		return
	case nil:
		nilDeref(p)
	}
	p.unsupported(fmt.Sprintf("store through %T", addr))
}

// symLoad reads at a symbolic index.
func (p *Path) symLoad(a *SymAddr, t types.Type) Value {
	c := p.ctx()
	if len(a.idx.vars) == 1 {
		w, _, isInt := intInfo(t)
		isBool := !isInt && under(t) == types.Typ[types.Bool]
		if isInt || isBool {
			ok := true
			var res *Term
			seen := map[uint64]bool{}
			p.dom(a.idx.vars[0]).each(func(x int) {
				y := a.idx.eval(func(int32) uint64 { return uint64(x) })
				if seen[y] || !ok {
					return
				}
				seen[y] = true
				var e *Term
				switch v := a.cells[y].(type) {
				case uint64:
					e = c.Const(w, v)
				case bool:
					e = c.Bool(v)
				case *Term:
					e = v
				default:
					ok = false
					return
				}
				if res == nil {
					res = e
				} else {
					res = c.Ite(c.Eq(a.idx, c.Const(a.idx.w, y)), e, res)
				}
			})
			if ok && res != nil {
				if isBool {
					return fromBool(res)
				}
				return fromInt(res)
			}
		}
	}
	i := p.concretize(Value(a.idx), a.idx.w)
	return copyVal(a.cells[i])
}

// index checks bounds and returns a concrete index, or a symbolic in-range one.
func (p *Path) index(iv Value, it types.Type, n int) (int, *Term) {
	w, signed, _ := intInfo(it)
	switch x := iv.(type) {
	case uint64:
		i := int64(x)
		if signed {
			i = sext(x, w)
		}
		if i < 0 || i >= int64(n) {
			p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Term:
		c := p.ctx()
		var in *Term
		if n > 0 && uint64(n-1) >= wmask(w) {
			in = c.tTrue
		} else {
			in = c.Cmp(OUlt, x, c.Const(w, uint64(n)))
		}
		if !p.decide(in) {
			p.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		return 0, x
	}
	panic(fmt.Sprintf("index: %T", iv))
}

func (c *compiler) instr(fc *fcode, cb *cblock, b *ssa.BasicBlock, in ssa.Instruction) {
	emit := func(f func(*frame)) { cb.instrs = append(cb.instrs, f) }
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.slots[v]
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		m := phiMove{dst: dst}
		for _, e := range x.Edges {
			m.src = append(m.src, c.op(e))
		}
		cb.phis = append(cb.phis, m)
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		switch under(t).(type) {
		case *types.Struct, *types.Array:
			emit(func(fr *frame) {
				v := new(Value)
				*v = zero(t)
				fr.regs[dst] = v
			})
		default:
			z := zero(t)
			emit(func(fr *frame) {
				v := new(Value)
				*v = z
				fr.regs[dst] = v
			})
		}
	case *ssa.BinOp:
		a, bb := c.op(x.X), c.op(x.Y)
		f := binop(x.Op, x.X.Type(), x.Y.Type(), x.Type())
		emit(func(fr *frame) { fr.regs[dst] = f(fr.p, a.get(fr), bb.get(fr)) })
	case *ssa.UnOp:
		a := c.op(x.X)
		switch x.Op {
		case token.MUL:
			t := x.Type()
			emit(func(fr *frame) {
				ad := a.get(fr)
				if q, ok := ad.(*Value); ok && q != nil {
					switch s := (*q).(type) {
					case Struct, Array:
						fr.regs[dst] = copyVal(s)
					default:
						fr.regs[dst] = s
					}
					return
				}
				fr.regs[dst] = fr.p.load(ad, t)
			})
		case token.NOT:
			emit(func(fr *frame) {
				switch v := a.get(fr).(type) {
				case bool:
					fr.regs[dst] = !v
				case *Term:
					fr.regs[dst] = fromBool(fr.p.ctx().Not(v))
				}
			})
		case token.SUB:
			if w, _, ok := intInfo(x.Type()); ok {
				emit(func(fr *frame) {
					switch v := a.get(fr).(type) {
					case uint64:
						fr.regs[dst] = (-v) & wmask(w)
					case *Term:
						fr.regs[dst] = fromInt(fr.p.ctx().Bin(OSub, fr.p.ctx().Const(w, 0), v))
					}
				})
			} else {
				emit(func(fr *frame) { fr.regs[dst] = -a.get(fr).(float64) })
			}
		case token.XOR:
			w, _, _ := intInfo(x.Type())
			emit(func(fr *frame) {
				switch v := a.get(fr).(type) {
				case uint64:
					fr.regs[dst] = (^v) & wmask(w)
				case *Term:
					fr.regs[dst] = fromInt(fr.p.ctx().Bin(OXor, v, fr.p.ctx().Const(w, wmask(w))))
				}
			})
		default:
			comma := x.CommaOk
			et := under(x.X.Type()).(*types.Chan).Elem()
			emit(func(fr *frame) {
				v, ok := fr.p.chanRecv(a.get(fr), et)
				if comma {
					fr.regs[dst] = Tuple{v, ok}
				} else {
					fr.regs[dst] = v
				}
			})
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var src ssa.Value
		if ci, ok := x.(*ssa.ChangeInterface); ok {
			src = ci.X
		} else {
			src = x.(*ssa.ChangeType).X
		}
		a := c.op(src)
		emit(func(fr *frame) { fr.regs[dst] = a.get(fr) })
	case *ssa.Convert:
		a := c.op(x.X)
		f := convert(x.X.Type(), x.Type())
		emit(func(fr *frame) { fr.regs[dst] = f(fr.p, a.get(fr)) })
	case *ssa.MultiConvert:
		a := c.op(x.X)
		emit(func(fr *frame) {
			_ = a
			fr.p.unsupported("generic conversion")
		})
	case *ssa.SliceToArrayPointer:
		emit(func(fr *frame) { fr.p.unsupported("slice to array pointer") })
	case *ssa.MakeInterface:
		a := c.op(x.X)
		t := x.X.Type()
		emit(func(fr *frame) { fr.regs[dst] = Iface{t: t, v: a.get(fr)} })
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, v := range x.Bindings {
			bs = append(bs, c.op(v))
		}
		emit(func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = &Func{fn: fn, env: env}
		})
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		emit(func(fr *frame) { fr.regs[dst] = newMap(mt) })
	case *ssa.MakeChan:
		emit(func(fr *frame) { fr.regs[dst] = &Chan{} })
	case *ssa.MakeSlice:
		l, cp := c.op(x.Len), c.op(x.Cap)
		et := under(x.Type()).(*types.Slice).Elem()
		lt, ct := x.Len.Type(), x.Cap.Type()
		emit(func(fr *frame) {
			wl, _, _ := intInfo(lt)
			wc, _, _ := intInfo(ct)
			n := sext(fr.p.concretize(l.get(fr), wl), wl)
			m := sext(fr.p.concretize(cp.get(fr), wc), wc)
			if n < 0 || m < n || m > 1<<28 {
				fr.p.rtPanic("makeslice: len out of range")
			}
			s := make(Slice, n, m)
			full := s[:m]
			z := zero(et)
			switch z.(type) {
			case Struct, Array:
				for i := range full {
					full[i] = copyVal(z)
				}
			default:
				for i := range full {
					full[i] = z
				}
			}
			fr.regs[dst] = s
		})
	case *ssa.FieldAddr:
		a := c.op(x.X)
		f := x.Field
		emit(func(fr *frame) {
			ad, ok := a.get(fr).(*Value)
			if !ok {
				if sa, is := a.get(fr).(*SymAddr); is {
					i := fr.p.concretize(Value(sa.idx), sa.idx.w)
					ad = &sa.cells[i]
				} else {
					fr.p.unsupported(fmt.Sprintf("field address of %T", a.get(fr)))
				}
			}
			if ad == nil {
				nilDeref(fr.p)
			}
			s, ok := (*ad).(Struct)
			if !ok {
				fr.p.unsupported(fmt.Sprintf("field of %T", *ad))
			}
			fr.regs[dst] = &s[f]
		})
	case *ssa.Field:
		a := c.op(x.X)
		f := x.Field
		emit(func(fr *frame) {
			s, ok := a.get(fr).(Struct)
			if !ok {
				fr.p.unsupported(fmt.Sprintf("field of %T", a.get(fr)))
			}
			fr.regs[dst] = s[f]
		})
	case *ssa.IndexAddr:
		a, ix := c.op(x.X), c.op(x.Index)
		it := x.Index.Type()
		emit(func(fr *frame) {
			var cells []Value
			switch v := a.get(fr).(type) {
			case Slice:
				cells = v
			case *Value:
				if v == nil {
					nilDeref(fr.p)
				}
				cells = (*v).(Array)
			default:
				fr.p.unsupported(fmt.Sprintf("index of %T", v))
			}
			i, sym := fr.p.index(ix.get(fr), it, len(cells))
			if sym != nil {
				fr.regs[dst] = &SymAddr{cells, sym}
				return
			}
			fr.regs[dst] = &cells[i]
		})
	case *ssa.Index:
		a, ix := c.op(x.X), c.op(x.Index)
		it := x.Index.Type()
		rt := x.Type()
		emit(func(fr *frame) {
			switch v := a.get(fr).(type) {
			case Array:
				i, sym := fr.p.index(ix.get(fr), it, len(v))
				if sym != nil {
					fr.regs[dst] = fr.p.symLoad(&SymAddr{v, sym}, rt)
					return
				}
				fr.regs[dst] = v[i]
			case Slice:
				i, sym := fr.p.index(ix.get(fr), it, len(v))
				if sym != nil {
					fr.regs[dst] = fr.p.symLoad(&SymAddr{v, sym}, rt)
					return
				}
				fr.regs[dst] = v[i]
			default:
				fr.regs[dst] = fr.p.strIndex(v, ix.get(fr), it)
			}
		})
	case *ssa.Lookup:
		a, ix := c.op(x.X), c.op(x.Index)
		comma := x.CommaOk
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			et := mt.Elem()
			emit(func(fr *frame) {
				m, _ := a.get(fr).(*Map)
				e := m.find(fr.p, ix.get(fr))
				var v Value
				if e != nil {
					v = copyVal(e.v)
				} else {
					v = zero(et)
				}
				if comma {
					fr.regs[dst] = Tuple{v, e != nil}
				} else {
					fr.regs[dst] = v
				}
			})
		} else {
			it := x.Index.Type()
			emit(func(fr *frame) { fr.regs[dst] = fr.p.strIndex(a.get(fr), ix.get(fr), it) })
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		emit(func(fr *frame) {
			mm, _ := m.get(fr).(*Map)
			mm.set(fr.p, copyVal(k.get(fr)), copyVal(v.get(fr)))
		})
	case *ssa.Range:
		a := c.op(x.X)
		emit(func(fr *frame) { fr.regs[dst] = fr.p.newIter(a.get(fr)) })
	case *ssa.Next:
		a := c.op(x.Iter)
		tt := x.Type().(*types.Tuple)
		emit(func(fr *frame) { fr.regs[dst] = a.get(fr).(iterator).next(fr.p, tt) })
	case *ssa.Slice:
		a := c.op(x.X)
		var lo, hi, mx *opnd
		if x.Low != nil {
			o := c.op(x.Low)
			lo = &o
		}
		if x.High != nil {
			o := c.op(x.High)
			hi = &o
		}
		if x.Max != nil {
			o := c.op(x.Max)
			mx = &o
		}
		emit(func(fr *frame) {
			get := func(o *opnd, d int) int {
				if o == nil {
					return d
				}
				return int(int64(fr.p.concretize(o.get(fr), 64)))
			}
			fr.regs[dst] = fr.p.slice3(a.get(fr), get, lo, hi, mx)
		})
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		emit(func(fr *frame) { fr.p.store(a.get(fr), v.get(fr)) })
	case *ssa.TypeAssert:
		a := c.op(x.X)
		at := x.AssertedType
		comma := x.CommaOk
		_, toIface := under(at).(*types.Interface)
		emit(func(fr *frame) {
			fr.regs[dst] = fr.p.typeAssert(a.get(fr), at, toIface, comma)
		})
	case *ssa.Extract:
		a := c.op(x.Tuple)
		i := x.Index
		emit(func(fr *frame) { fr.regs[dst] = a.get(fr).(Tuple)[i] })
	case *ssa.Call:
		call := c.call(&x.Call)
		emit(func(fr *frame) { fr.regs[dst] = call(fr) })
	case *ssa.Defer:
		prep := c.prep(&x.Call)
		emit(func(fr *frame) {
			fn, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fn: fn, args: args})
		})
		fc.hasDefer = true
	case *ssa.Go:
		prep := c.prep(&x.Call)
		emit(func(fr *frame) {
			fn, args := prep(fr)
			fr.p.spawn(fr, fn, args)
		})
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		emit(func(fr *frame) { fr.p.chanSend(ch.get(fr), v.get(fr)) })
	case *ssa.Select:
		type selCase struct {
			ch, v opnd
			send  bool
			et    types.Type
		}
		var cases []selCase
		for _, st := range x.States {
			sc := selCase{ch: c.op(st.Chan), send: st.Dir == types.SendOnly, et: under(st.Chan.Type()).(*types.Chan).Elem()}
			if sc.send {
				sc.v = c.op(st.Send)
			}
			cases = append(cases, sc)
		}
		blocking := x.Blocking
		emit(func(fr *frame) {
			out := Tuple{intV(-1), false}
			for _, sc := range cases {
				if !sc.send {
					out = append(out, zero(sc.et))
				}
			}
			for {
				k := 2
				for i, sc := range cases {
					q, _ := sc.ch.get(fr).(*Chan)
					if sc.send {
						if q != nil {
							fr.p.chanSend(q, sc.v.get(fr))
							out[0] = intV(i)
							fr.regs[dst] = out
							return
						}
						continue
					}
					if q != nil && (len(q.q) > 0 || q.closed) {
						v, ok := fr.p.chanRecv(q, sc.et)
						out[0], out[1], out[k] = intV(i), ok, v
						fr.regs[dst] = out
						return
					}
					k++
				}
				if !blocking {
					fr.regs[dst] = out
					return
				}
				if !fr.p.runPending() {
					fr.p.throwFatal("all goroutines are asleep - deadlock!")
				}
			}
		})
	case *ssa.RunDefers:
		emit(func(fr *frame) { fr.runDefers() })
	case *ssa.Panic:
		a := c.op(x.X)
		cb.next = func(fr *frame) int {
			v := a.get(fr).(Iface)
			fr.p.throw(v, fr.p.panicText(v))
			return -1
		}
	case *ssa.Return:
		rs := make([]opnd, len(x.Results))
		for i, r := range x.Results {
			rs[i] = c.op(r)
		}
		switch len(rs) {
		case 0:
			cb.next = func(fr *frame) int { fr.result = nil; return -1 }
		case 1:
			cb.next = func(fr *frame) int { fr.result = rs[0].get(fr); return -1 }
		default:
			cb.next = func(fr *frame) int {
				t := make(Tuple, len(rs))
				for i := range rs {
					t[i] = rs[i].get(fr)
				}
				fr.result = t
				return -1
			}
		}
	case *ssa.Jump:
		s := b.Succs[0].Index
		cb.next = func(*frame) int { return s }
	case *ssa.If:
		a := c.op(x.Cond)
		st, sf := b.Succs[0].Index, b.Succs[1].Index
		cb.next = func(fr *frame) int {
			switch v := a.get(fr).(type) {
			case bool:
				if v {
					return st
				}
				return sf
			case *Term:
				if fr.p.decide(v) {
					return st
				}
				return sf
			}
			panic(fmt.Sprintf("if on %T", a.get(fr)))
		}
	default:
		panic(fmt.Sprintf("instr %T", in))
	}
}

// prep evaluates callee and arguments.
func (c *compiler) prep(cc *ssa.CallCommon) func(*frame) (*Func, []Value) {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) (*Func, []Value) {
			av := make([]Value, 0, len(args)+1)
			fn, self := fr.p.lookupInvoke(recv.get(fr), m)
			if self != nil {
				av = append(av, self[0])
			}
			for i := range args {
				av = append(av, args[i].get(fr))
			}
			return fn, av
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) (*Func, []Value) {
		av := make([]Value, len(args))
		for i := range args {
			av[i] = args[i].get(fr)
		}
		f, _ := fv.get(fr).(*Func)
		return f, av
	}
}

func (c *compiler) call(cc *ssa.CallCommon) func(*frame) Value {
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		args := make([]opnd, len(cc.Args))
		for i, a := range cc.Args {
			args[i] = c.op(a)
		}
		return func(fr *frame) Value {
			av := make([]Value, len(args))
			for i := range args {
				av[i] = args[i].get(fr)
			}
			return fr.p.builtin(fr, bi, cc, av)
		}
	}
	if fn := cc.StaticCallee(); fn != nil {
		if _, isClo := cc.Value.(*ssa.MakeClosure); !isClo {
			args := make([]opnd, len(cc.Args))
			for i, a := range cc.Args {
				args[i] = c.op(a)
			}
			var code *fcode
			var once sync.Once
			return func(fr *frame) Value {
				av := make([]Value, len(args))
				for i := range args {
					av[i] = args[i].get(fr)
				}
				once.Do(func() { code = fr.p.w.prog.codeOf(fn) })
				return fr.p.callCode(code, nil, av)
			}
		}
	}
	prep := c.prep(cc)
	return func(fr *frame) Value {
		fn, av := prep(fr)
		return fr.p.callFunc(fr, fn, av, cc)
	}
}

func (p *Path) callFunc(fr *frame, f *Func, args []Value, cc *ssa.CallCommon) Value {
	if f.isNil() {
		nilDeref(p)
	}
	if f.nat != nil {
		return f.nat(p, args)
	}
	if f.bi != nil {
		return p.builtin(fr, f.bi, cc, args)
	}
	return p.callCode(p.w.prog.codeOf(f.fn), f.env, args)
}

func (p *Path) call(fn *ssa.Function, env, args []Value) Value {
	return p.callCode(p.w.prog.codeOf(fn), env, args)
}

func (p *Path) callCode(fc *fcode, env, args []Value) Value {
	if fc.nat != nil {
		p.stack = append(p.stack, fc.fn)
		v, ok := fc.nat(p, fc.fn, args)
		p.stack = p.stack[:len(p.stack)-1]
		if ok {
			return v
		}
	}
	if fc.noBody {
		p.unsupported("no body: " + fc.fn.String())
	}
	if len(p.stack) > 4000 {
		p.rtPanic("stack overflow")
	}
	top := p.regTop
	fr := &frame{p: p, fc: fc, regs: p.takeRegs(fc.nregs), env: env, prev: -1}
	copy(fr.regs, args)
	p.stack = append(p.stack, fc.fn)
	depth := len(p.stack)
	if fc.hasDefer || fc.recover >= 0 {
		fr.runDeferring()
	} else {
		fr.exec(0)
	}
	p.stack = p.stack[:depth-1]
	clear(fr.regs)
	p.regTop = top
	return fr.result
}

// takeRegs hands out zeroed registers from the path's register stack. A panic
// unwinds regTop without clearing, so they are cleared here as well when
// dirty.
func (p *Path) takeRegs(n int) []Value {
	if p.regTop+n > len(p.regs) {
		if n > 1<<14 {
			return make([]Value, n)
		}
		p.regs = make([]Value, 1<<15)
		p.regTop = 0
	}
	r := p.regs[p.regTop : p.regTop+n : p.regTop+n]
	p.regTop += n
	if p.regTop > p.regHigh {
		p.regHigh = p.regTop
	}
	if p.regDirty {
		clear(r)
	}
	return r
}

func (fr *frame) exec(b int) {
	fc := fr.fc
	p := fr.p
	for b >= 0 {
		cb := &fc.blocks[b]
		if len(cb.phis) > 0 {
			fr.phis(cb, b)
		}
		p.steps += int64(cb.n)
		if stepProf {
			countSteps(fc, cb.n)
		}
		if p.steps > p.maxSteps {
			p.abort("steps", "step limit reached in "+fc.fn.String())
		}
		for _, f := range cb.instrs {
			f(fr)
		}
		fr.prev = b
		b = cb.next(fr)
	}
}

func (fr *frame) phis(cb *cblock, b int) {
	preds := fr.fc.fn.Blocks[b].Preds
	k := -1
	for i, q := range preds {
		if q.Index == fr.prev {
			k = i
			break
		}
	}
	if len(cb.phis) == 1 {
		fr.regs[cb.phis[0].dst] = cb.phis[0].src[k].get(fr)
		return
	}
	tmp := make([]Value, len(cb.phis))
	for i := range cb.phis {
		tmp[i] = cb.phis[i].src[k].get(fr)
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = tmp[i]
	}
}

// runDeferring executes a function that defers calls.
func (fr *frame) runDeferring() {
	p := fr.p
	depth := len(p.stack)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			p.stack = p.stack[:depth]
			p.regDirty = true
			fr.pan = tp
			fr.runDefersPanicking()
		}()
		fr.exec(0)
	}()
	if fr.rec {
		// recovered: run the recover block to load named results
		if fr.fc.recover >= 0 {
			fr.prev = -1
			fr.exec(fr.fc.recover)
		} else {
			fr.result = zeroResults(fr.fc.fn)
		}
	}
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.p.callFunc(fr, d.fn, d.args, nil)
	}
}

func (fr *frame) runDefersPanicking() {
	p := fr.p
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := len(p.stack)
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					p.stack = p.stack[:depth]
					fr.pan = tp
					fr.rec = false
				}
			}()
			if fr.pan != nil {
				p.pan = append(p.pan, fr.pan)
				n := len(p.pan)
				p.callFunc(fr, d.fn, d.args, nil)
				if p.pan[n-1] == nil {
					fr.pan = nil
					fr.rec = true
				}
				p.pan = p.pan[:n-1]
			} else {
				p.callFunc(fr, d.fn, d.args, nil)
			}
		}()
	}
	if fr.pan != nil {
		panic(fr.pan)
	}
}
