package main

// Goroutines. A goroutine runs to completion either where it is started or at
// the next operation of its starter that has to wait for others; which, is a
// decision of the schedule for the first few of a path. Channels are queues
// without a bound.

import (
	"go/types"
)

type Chan struct {
	q      []Value
	closed bool
}

type pendingGo struct {
	f    *Func
	args []Value
}

const maxSchedGo = 3

func (p *Path) spawn(fr *frame, f *Func, args []Value) {
	p.nGo++
	if p.nGo <= maxSchedGo && p.choose(2) == 1 {
		p.pending = append(p.pending, pendingGo{f, args})
		return
	}
	p.callFunc(fr, f, args, nil)
}

// runPending runs the goroutines that have not run; it is false if there is none.
func (p *Path) runPending() bool {
	if len(p.pending) == 0 {
		return false
	}
	for len(p.pending) > 0 {
		g := p.pending[0]
		p.pending = p.pending[1:]
		p.callFunc(nil, g.f, g.args, nil)
	}
	return true
}

func (p *Path) throwFatal(msg string) {
	p.rtPanic(msg)
}

func (p *Path) chanSend(cv, v Value) {
	c, ok := cv.(*Chan)
	if !ok || c == nil {
		p.throwFatal("all goroutines are asleep - deadlock!")
	}
	if c.closed {
		p.rtPanic("send on closed channel")
	}
	c.q = append(c.q, copyVal(v))
}

func (p *Path) chanRecv(cv Value, et types.Type) (Value, Value) {
	c, ok := cv.(*Chan)
	if !ok || c == nil {
		p.throwFatal("all goroutines are asleep - deadlock!")
	}
	for len(c.q) == 0 {
		if c.closed {
			return zero(et), false
		}
		if !p.runPending() {
			p.throwFatal("all goroutines are asleep - deadlock!")
		}
	}
	v := c.q[0]
	c.q = c.q[1:]
	return v, true
}

func (pr *Prog) initConc(def func(string, func(*Path, []Value) Value)) {
	def("(*sync.WaitGroup).Add", func(p *Path, a []Value) Value { return nil })
	def("(*sync.WaitGroup).Done", func(p *Path, a []Value) Value { return nil })
	def("(*sync.WaitGroup).Wait", func(p *Path, a []Value) Value { p.runPending(); return nil })
	def("(*sync.WaitGroup).Go", func(p *Path, a []Value) Value {
		p.spawn(nil, a[1].(*Func), nil)
		return nil
	})
}

// errorsAs is errors.As for chains of single errors.
func errorsAs(p *Path, a []Value) Value {
	target := a[1].(Iface)
	pt, ok := under(target.t).(*types.Pointer)
	if !ok {
		p.rtPanic("errors: target must be a non-nil pointer")
	}
	cell := target.v.(*Value)
	e := a[0].(Iface)
	for e.t != nil {
		if iface, is := under(pt.Elem()).(*types.Interface); is {
			if types.Implements(e.t, iface) {
				*cell = e
				return true
			}
		} else if types.Identical(e.t, pt.Elem()) {
			*cell = copyVal(e.v)
			return true
		}
		if _, host := e.v.(HostObj); host {
			return false
		}
		if p.w.prog.method(e.t, nil, "Unwrap") == nil {
			return false
		}
		u, is := p.callMethod(e, "Unwrap").(Iface)
		if !is {
			p.unsupported("joined errors")
		}
		e = u
	}
	return false
}
