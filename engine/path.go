package main

// Paths: one symbolic execution of a harness from its start. Branches on
// symbolic conditions are recorded; alternatives are queued as prefixes and
// re-executed.

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v     Iface
	msg   string
	stack string
}
type pathAbort struct {
	kind string // infeasible, unsupported, steps, assume, fail
	msg  string
}
type exitSignal struct{ code int }

// Input is one nondeterministic input of the harness.
type Input struct {
	Name string
	Kind string // str, int, pick
	V    Value
}

// Violation is a failed assertion with the inputs that fail it.
type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Inputs  map[string]string `json:"inputs"`
	Known   string            `json:"known,omitempty"`
	Stack   string            `json:"stack,omitempty"`
	Orders  []int             `json:"orders,omitempty"`
}

// Sample is a finished path with a model, for validation on the real build.
type Sample struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Orders  []int             `json:"orders,omitempty"`
	Obs     []string          `json:"obs"`
	Cov     []string          `json:"cov"`
}

// Path is the state of one execution.
type Path struct {
	pending  []pendingGo
	nGo      int
	w        *Worker
	e        *Explorer
	prefix   []int16
	trace    []int16
	doms     map[int32]*dom
	cons     []*Term
	known    map[*Term]bool
	inputs   []Input
	names    map[string]int
	covers   map[string]bool
	obs      []obsItem
	steps    int64
	maxSteps int64
	depth    int
	mapOrder bool
	orders   []int
	stdout   []Value
	fs       *VFS
	decs     map[*Value]*tokStream
	knownHit map[string]bool
	pan      []*targetPanic
	extra    map[string]interface{}
	stack    []*ssa.Function
	regs     []Value
	regTop   int
	regHigh  int // of the worker's slab
	regDirty bool
	unknowns int // queries of this path without an answer
}

type obsItem struct {
	tag string
	v   Value
}

// Worker runs paths one after another.
type Worker struct {
	prog    *Prog
	c       *Ctx
	solver  *Solver
	globals []*Value
	pkgInit map[*ssa.Package]int
	rng     *rand.Rand
	host    map[string]interface{}
	regs    []Value
}

// Explorer runs one harness over all its paths.
type Explorer struct {
	prog     *Prog
	harness  *ssa.Function
	name     string
	deadline time.Time
	maxPaths int64

	mu        sync.Mutex
	cond      *sync.Cond
	queue     [][]int16
	active    int
	stop      bool
	paths     atomic.Int64
	aborted   map[string]int
	covers    map[string]int64
	viol      map[string][]*Violation
	knownHit  map[string]*Violation
	samples   []*Sample
	partial   []*Sample
	nsample   int
	maxSample int
	asserts   atomic.Int64
	asFolded  atomic.Int64
	asSolver  atomic.Int64
	forks     atomic.Int64
	depthMax  atomic.Int64
	timedOut  bool
	endless   int
	stepsMax  atomic.Int64
	rng       *rand.Rand
	maxLen    int
	bounds    map[string]string
	ranges    sync.Map
}

func (p *Path) ctx() *Ctx { return p.w.c }

func (p *Path) unsupported(msg string) {
	var st []string
	for i := len(p.stack) - 1; i >= 0 && len(st) < 6; i-- {
		st = append(st, p.stack[i].String())
	}
	panic(&pathAbort{"unsupported", msg + " in " + strings.Join(st, " < ")})
}

func (p *Path) abort(kind, msg string) { panic(&pathAbort{kind, msg}) }

func (p *Path) rtPanic(msg string) {
	p.throw(p.w.prog.mkError(p, "runtime error: "+msg), "runtime error: "+msg)
}

func (p *Path) throw(v Iface, msg string) {
	var st []string
	for i := len(p.stack) - 1; i >= 0 && len(st) < 12; i-- {
		st = append(st, p.stack[i].String())
	}
	panic(&targetPanic{v: v, msg: msg, stack: strings.Join(st, " < ")})
}

// tri evaluates a condition from the domains alone.
func (p *Path) tri(t *Term) int {
	switch t.op {
	case OConst:
		return int(t.c)
	}
	if v, ok := p.known[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if len(t.vars) == 1 {
		d := p.dom(t.vars[0])
		tt := t.truth()
		if x := d.and(tt); x.empty() {
			return 0
		}
		if x := d.andNot(tt); x.empty() {
			return 1
		}
		return -1
	}
	switch t.op {
	case OBNot:
		r := p.tri(t.a)
		if r < 0 {
			return r
		}
		return 1 - r
	case OBAnd:
		a := p.tri(t.a)
		if a == 0 {
			return 0
		}
		b := p.tri(t.b)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case OBOr:
		a := p.tri(t.a)
		if a == 1 {
			return 1
		}
		b := p.tri(t.b)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	case OEq:
		if t.a.w == 8 && len(t.a.vars) == 1 && len(t.b.vars) == 1 {
			x, y := p.image(t.a), p.image(t.b)
			if z := x.and((*[4]uint64)(&y)); z.empty() {
				return 0
			}
		}
	}
	return -1
}

// image is the set of values of an 8-bit term over one variable.
func (p *Path) image(t *Term) dom {
	d := p.dom(t.vars[0])
	if t.op == OVar {
		return *d
	}
	var out dom
	d.each(func(v int) {
		x := t.eval(func(int32) uint64 { return uint64(v) })
		out[x>>6] |= 1 << (x & 63)
	})
	return out
}

var fullDom = domOf(0, 255)

func (p *Path) dom(v int32) *dom {
	if d, ok := p.doms[v]; ok {
		return d
	}
	return fullDom
}

// assume adds a constraint to the path.
func (p *Path) assume(t *Term) {
	switch t.op {
	case OConst:
		if t.c == 0 {
			p.abort("infeasible", "")
		}
		return
	case OBAnd:
		p.assume(t.a)
		p.assume(t.b)
		return
	case OBNot:
		if t.a.op == OBOr {
			c := p.ctx()
			p.assume(c.Not(t.a.a))
			p.assume(c.Not(t.a.b))
			return
		}
	}
	if len(t.vars) == 1 {
		d := p.dom(t.vars[0]).and(t.truth())
		if d.empty() {
			p.abort("infeasible", "")
		}
		p.doms[t.vars[0]] = &d
		return
	}
	if p.known[t] {
		return
	}
	p.known[t] = true
	p.known[p.ctx().Not(t)] = false
	p.cons = append(p.cons, t)
}

// slice returns the constraints connected to t and their variables.
func (p *Path) slice(t *Term) ([]*Term, []int32) {
	vs := map[int32]bool{}
	for _, v := range t.vars {
		vs[v] = true
	}
	used := make([]bool, len(p.cons))
	cons := []*Term{t}
	for {
		grew := false
		for i, c := range p.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				cons = append(cons, c)
				for _, v := range c.vars {
					vs[v] = true
				}
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	return cons, sortedVars(vs)
}

func (p *Path) feasible(t *Term) bool {
	cons, vars := p.slice(t)
	if len(cons) == 1 && len(vars) == 1 {
		p.w.solver.stats.byDomain.Add(1)
		d := p.dom(vars[0]).and(t.truth())
		return !d.empty()
	}
	r := p.w.solver.check(p.doms, vars, cons, false)
	if r.unknown {
		p.unknowns++
	}
	if p.unknowns > 3 || (!p.e.deadline.IsZero() && time.Now().After(p.e.deadline.Add(pathGrace))) {
		p.abort("slow", "a path was given up: its queries are too hard")
	}
	return r.sat || r.unknown
}

// concreteStr forks over the values of a string.
func (p *Path) concreteStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	ts := p.strBytes(v)
	b := make([]byte, len(ts))
	for i, t := range ts {
		if t.op == OConst {
			b[i] = byte(t.c)
		} else {
			b[i] = byte(p.concretize(Value(t), 8))
		}
	}
	return string(b)
}

func (p *Path) decide(t *Term) bool {
	switch p.tri(t) {
	case 1:
		return true
	case 0:
		return false
	}
	c := p.ctx()
	if len(p.trace) < len(p.prefix) {
		b := p.prefix[len(p.trace)] == 1
		p.trace = append(p.trace, p.prefix[len(p.trace)])
		if b {
			p.assume(t)
		} else {
			p.assume(c.Not(t))
		}
		return b
	}
	ft := p.feasible(t)
	ff := !ft || p.feasible(c.Not(t))
	if ft && ff {
		alt := append(append([]int16(nil), p.trace...), 0)
		p.e.push(alt)
	}
	if ft {
		p.trace = append(p.trace, 1)
		p.assume(t)
		return true
	}
	p.trace = append(p.trace, 0)
	p.assume(c.Not(t))
	return false
}

// truthy decides a boolean value.
func (p *Path) truthy(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return p.decide(v.(*Term))
}

// choose picks one of n alternatives, all of which are explored.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if len(p.trace) < len(p.prefix) {
		k := p.prefix[len(p.trace)]
		p.trace = append(p.trace, k)
		return int(k)
	}
	for k := n - 1; k > 0; k-- {
		p.e.push(append(append([]int16(nil), p.trace...), int16(k)))
	}
	p.trace = append(p.trace, 0)
	return 0
}

// concretize forks over the values of an integer term.
func (p *Path) concretize(v Value, w uint8) uint64 {
	if x, ok := v.(uint64); ok {
		return x
	}
	t := v.(*Term)
	c := p.ctx()
	if len(t.vars) == 1 {
		seen := map[uint64]bool{}
		var vals []uint64
		p.dom(t.vars[0]).each(func(x int) {
			y := t.eval(func(int32) uint64 { return uint64(x) })
			if !seen[y] {
				seen[y] = true
				vals = append(vals, y)
			}
		})
		sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
		for i, x := range vals {
			if i == len(vals)-1 || p.decide(c.Eq(t, c.Const(t.w, x))) {
				if i == len(vals)-1 {
					p.assume(c.Eq(t, c.Const(t.w, x)))
				}
				return x
			}
		}
	}
	// several variables: values from models, one after another
	for i := 0; i < 300; i++ {
		var x uint64
		if len(p.trace) < len(p.prefix) {
			// replay: the value was stored in the trace as four parts
			for k := 0; k < 5; k++ {
				x = x<<13 | uint64(p.prefix[len(p.trace)])
				p.trace = append(p.trace, p.prefix[len(p.trace)])
			}
		} else {
			cons, vars := p.sliceVars(t)
			r := p.w.solver.check(p.doms, vars, cons, true)
			if !r.sat {
				p.abort("infeasible", "")
			}
			x = t.eval(func(v int32) uint64 { return r.model[v] })
			for k := 4; k >= 0; k-- {
				p.trace = append(p.trace, int16(x>>(13*uint(k))&0x1fff))
			}
		}
		if p.decide(c.Eq(t, c.Const(t.w, x))) {
			return x
		}
	}
	p.unsupported("concretize: too many values")
	return 0
}

func (p *Path) sliceVars(t *Term) ([]*Term, []int32) {
	c := p.ctx()
	// a tautology over the same variables keeps the slice complete
	taut := c.raw(OBOr, 0, 0, c.raw(OEq, 0, 0, t, c.Const(t.w, 0), nil), c.raw(OBNot, 0, 0, c.raw(OEq, 0, 0, t, c.Const(t.w, 0), nil), nil, nil), nil)
	return p.slice(taut)
}

// newByte makes a fresh symbolic byte.
func (p *Path) newByte(name string, d *dom) *Term {
	t := p.ctx().Var(name)
	if d != nil {
		p.doms[int32(t.c)] = d
	}
	return t
}

// model finds values for all inputs under the path condition plus extra.
func (p *Path) model(extra *Term) (map[int32]uint64, bool) {
	m := map[int32]uint64{}
	cons := append([]*Term(nil), p.cons...)
	if extra != nil && extra.op != OConst {
		cons = append(cons, extra)
	}
	vs := map[int32]bool{}
	for _, c := range cons {
		for _, v := range c.vars {
			vs[v] = true
		}
	}
	for v, d := range p.doms {
		if vs[v] {
			continue
		}
		// free variable: any value of its domain
		n := p.w.rng.Intn(d.count())
		d.each(func(x int) {
			if n == 0 {
				m[v] = uint64(x)
			}
			n--
		})
	}
	if len(cons) == 0 {
		return m, true
	}
	r := p.w.solver.check(p.doms, sortedVars(vs), cons, true)
	if !r.sat {
		return nil, r.unknown
	}
	for v, x := range r.model {
		m[v] = x
	}
	return m, true
}

func (p *Path) concrete(v Value, m map[int32]uint64) string {
	env := func(i int32) uint64 {
		if x, ok := m[i]; ok {
			return x
		}
		return uint64(p.dom(i).first())
	}
	switch x := v.(type) {
	case string:
		return x
	case SStr:
		b := make([]byte, len(x))
		for i, t := range x {
			b[i] = byte(t.eval(env))
		}
		return string(b)
	case uint64:
		return fmt.Sprint(int64(x))
	case bool:
		return fmt.Sprint(x)
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(x.eval(env) == 1)
		}
		return fmt.Sprint(sext(x.eval(env), x.w))
	}
	return fmt.Sprintf("%v", v)
}

func (p *Path) inputVector(m map[int32]uint64) map[string]string {
	out := map[string]string{}
	for _, in := range p.inputs {
		out[in.Name] = p.concrete(in.V, m)
	}
	return out
}

// assertCond is the property check: the negation is put to the solver.
func (p *Path) assertCond(v Value, msg Value, known string) {
	p.e.asserts.Add(1)
	if b, ok := v.(bool); ok {
		p.e.asFolded.Add(1)
		if b {
			return
		}
		p.violate(nil, msg, known)
		p.abort("fail", "")
	}
	t := v.(*Term)
	c := p.ctx()
	neg := c.Not(t)
	cons, vars := p.slice(neg)
	r := p.w.solver.check(p.doms, vars, cons, true)
	p.e.asSolver.Add(1)
	if r.sat {
		p.violate(neg, msg, known)
	}
	if r.unknown {
		p.e.noteAbort("solver unknown on an assertion")
	}
	if p.tri(t) == 0 {
		p.abort("fail", "")
	}
	// continue with the inputs that satisfy it
	cons, vars = p.slice(t)
	if !p.w.solver.check(p.doms, vars, cons, false).sat {
		p.abort("fail", "")
	}
	p.assume(t)
}

func (p *Path) violate(neg *Term, msg Value, known string) {
	m, ok := p.model(neg)
	if !ok || m == nil {
		p.e.noteAbort("no model for a failing path")
		return
	}
	v := &Violation{Harness: p.e.name, Msg: p.concrete(msg, m), Inputs: p.inputVector(m), Known: known, Orders: append([]int(nil), p.orders...)}
	p.e.addViolation(v)
}

func (e *Explorer) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if v.Known != "" {
		if _, ok := e.knownHit[v.Known]; !ok {
			e.knownHit[v.Known] = v
		}
		return
	}
	k := v.Msg
	if i := strings.Index(k, "|"); i >= 0 {
		k = k[:i]
	}
	if len(e.viol[k]) < 4 {
		e.viol[k] = append(e.viol[k], v)
	}
}

func (e *Explorer) noteAbort(s string) {
	e.mu.Lock()
	e.aborted[s]++
	e.mu.Unlock()
}

func (e *Explorer) push(prefix []int16) {
	e.forks.Add(1)
	e.mu.Lock()
	e.queue = append(e.queue, prefix)
	if len(prefix) > e.maxLen {
		e.maxLen = len(prefix)
	}
	e.cond.Signal()
	e.mu.Unlock()
}

func newExplorer(prog *Prog, fn *ssa.Function, seed int64) *Explorer {
	e := &Explorer{prog: prog, harness: fn, name: fn.Name(), aborted: map[string]int{}, covers: map[string]int64{},
		viol: map[string][]*Violation{}, knownHit: map[string]*Violation{}, maxSample: 60, bounds: map[string]string{}}
	e.cond = sync.NewCond(&e.mu)
	e.rng = rand.New(rand.NewSource(seed))
	e.queue = [][]int16{nil}
	return e
}

// run explores with the given workers until done, deadline or violation cap.
func (e *Explorer) run(ws []*Worker) {
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				e.mu.Lock()
				for len(e.queue) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.queue) == 0 {
					e.stop = true
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
				var pre []int16
				// mostly depth first; now and then a random entry, so that
				// a run cut short has seen different regions
				k := len(e.queue) - 1
				if e.rng.Intn(4) == 0 {
					k = e.rng.Intn(len(e.queue))
				}
				pre = e.queue[k]
				e.queue[k] = e.queue[len(e.queue)-1]
				e.queue = e.queue[:len(e.queue)-1]
				e.active++
				e.mu.Unlock()

				e.runPath(w, pre)

				e.mu.Lock()
				e.active--
				if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.paths.Load() >= e.maxPaths) {
					if len(e.queue) > 0 {
						e.timedOut = true
					}
					e.stop = true
				}
				if len(e.viol) >= 6 {
					e.stop = true
				}
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
}

// maxStepsPath bounds the instructions of a path; terminating paths stay far
// below it.
const maxStepsPath = 4_000_000

// pathGrace is how long a path may go on after the exploration's time is up.
const pathGrace = 15 * time.Second

func (e *Explorer) runPath(w *Worker, prefix []int16) {
	p := &Path{w: w, e: e, prefix: prefix, doms: map[int32]*dom{}, known: map[*Term]bool{}, names: map[string]int{},
		covers: map[string]bool{}, decs: map[*Value]*tokStream{}, maxSteps: maxStepsPath, knownHit: map[string]bool{}, extra: map[string]interface{}{}}
	p.fs = newVFS()
	if w.regs == nil {
		w.regs = make([]Value, 1<<15)
	}
	p.regs = w.regs
	defer func() { clear(w.regs[:p.regHigh]) }()
	w.resetApp()
	if len(w.c.tab) > 4_000_000 {
		w.resetCtx()
	}
	defer func() {
		e.paths.Add(1)
		if p.steps > e.stepsMax.Load() {
			e.stepsMax.Store(p.steps)
		}
		if int64(len(p.trace)) > e.depthMax.Load() {
			e.depthMax.Store(int64(len(p.trace)))
		}
		r := recover()
		switch x := r.(type) {
		case nil:
		case *pathAbort:
			if x.kind == "infeasible" || x.kind == "fail" || x.kind == "assume" {
				e.finish(p, x.kind)
				return
			}
			e.noteAbort(x.kind + ": " + x.msg)
			e.finish(p, "aborted")
			if x.kind == "steps" {
				// a loop that does not end: a few of them are enough
				e.mu.Lock()
				if e.endless++; e.endless >= 3 {
					e.timedOut, e.stop = true, true
				}
				e.mu.Unlock()
			}
			return
		case *targetPanic:
			func() {
				defer func() {
					if r2 := recover(); r2 != nil {
						e.noteAbort(fmt.Sprint("engine: ", r2))
					}
				}()
				p.violateStack("panic: "+x.msg, x.stack)
			}()
			e.finish(p, "fail")
			return
		case exitSignal:
			p.violate(nil, fmt.Sprintf("process exit with status %d outside a guarded call", x.code), "")
			e.finish(p, "fail")
			return
		default:
			if os.Getenv("VP_DEBUG") != "" {
				panic(r)
			}
			var st []string
			for i := len(p.stack) - 1; i >= 0 && len(st) < 6; i-- {
				st = append(st, p.stack[i].String())
			}
			e.noteAbort(fmt.Sprintf("engine: %v in %s", r, strings.Join(st, " < ")))
			e.finish(p, "aborted")
			return
		}
		e.finish(p, "done")
	}()
	p.initApps()
	p.call(e.harness, nil, nil)
}

func (p *Path) violateStack(msg, stack string) {
	m, ok := p.model(nil)
	if !ok || m == nil {
		return
	}
	p.e.addViolation(&Violation{Harness: p.e.name, Msg: msg, Inputs: p.inputVector(m), Stack: stack, Orders: append([]int(nil), p.orders...)})
}

func (e *Explorer) finish(p *Path, how string) {
	if how == "aborted" {
		// inputs that lead here are still run on the real build
		e.mu.Lock()
		n := len(e.partial)
		e.mu.Unlock()
		if n < 40 {
			if m, ok := p.model(nil); ok && m != nil {
				e.mu.Lock()
				e.partial = append(e.partial, &Sample{Harness: e.name, Inputs: p.inputVector(m)})
				e.mu.Unlock()
			}
		}
		return
	}
	if how != "done" && how != "fail" {
		return
	}
	e.mu.Lock()
	for c := range p.covers {
		e.covers[c]++
	}
	e.nsample++
	slot := -1
	if how == "done" {
		if len(e.samples) < e.maxSample {
			slot = len(e.samples)
			e.samples = append(e.samples, nil)
		} else if k := e.rng.Intn(e.nsample); k < e.maxSample {
			slot = k
		}
	}
	e.mu.Unlock()
	if slot < 0 {
		return
	}
	m, ok := p.model(nil)
	if !ok || m == nil {
		return
	}
	s := &Sample{Harness: e.name, Inputs: p.inputVector(m), Orders: append([]int(nil), p.orders...)}
	for _, o := range p.obs {
		s.Obs = append(s.Obs, o.tag+"="+p.concrete(o.v, m))
	}
	for c := range p.covers {
		s.Cov = append(s.Cov, c)
	}
	sort.Strings(s.Cov)
	e.mu.Lock()
	e.samples[slot] = s
	e.mu.Unlock()
}

var _ = types.Identical
