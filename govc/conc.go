package main

// Goroutines, channels, timers, signals and calls of unknown functions, and
// the ghost variables of a contract, which follow the events of an execution.
//
// A select statement (or a channel receive) has one outcome per case that may
// be ready: a timer that is armed, a context, a signal, or a channel with
// content. Goroutines are run to completion at a point where their parent
// blocks; goroutines of a unit with "opt threads now" never communicate with
// each other and are verified one by one, each from the state in which it is
// started. Their interleavings are not considered beyond that.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ghostDecl struct {
	Name  string
	Type  string
	Local bool
	Init  *Clause
}

type eventClause struct {
	Kind string
	*Clause
}

type abstractDecl struct {
	Event string
	Names map[string]bool
}

type thread struct {
	f     *FuncV
	args  []Value
	cc    *ssa.CallCommon
	group int // error group, or 0
}

// --- ghost variables and events ---

// initGhosts gives the ghost variables of the contract their initial values.
func (x *Exec) initGhosts(st *State) {
	ct := x.unit.ct
	if len(ct.Ghosts) == 0 && len(ct.Ons) == 0 {
		return
	}
	x.sysObj = st.alloc(&Obj{Kind: "sys", G: map[string]Value{}})
	x.resetGhosts(st, false)
}

func (x *Exec) resetGhosts(st *State, localOnly bool) {
	env := x.unitEnv(st)
	for _, g := range x.unit.ct.Ghosts {
		if localOnly && !g.Local {
			continue
		}
		st.gset(x.sysObj, g.Name, x.ghostTerm(env, g, x.eval(env, g.Init.Expr)))
	}
}

func (x *Exec) ghostTerm(env *Env, g *ghostDecl, v Value) *Term {
	if _, ok := v.(nilV); ok {
		return x.c.Nil()
	}
	t := x.enc(env, v)
	if s := x.sortOf(x.specType(g.Type)); s != t.Sort {
		x.specErr("ghost %s of type %s cannot hold %s", g.Name, g.Type, t.Sort.Name)
	}
	return t
}

// emit records an event, checks the obligations of the contract on events of
// its kind and updates the ghost variables.
func (x *Exec) emit(st *State, e *Event) {
	st.events = append(st.events, e)
	if x.sysObj == 0 || st.heap[x.sysObj] == nil {
		return
	}
	ct := x.unit.ct
	mk := func() *Env {
		env := x.unitEnv(st)
		env.vars["ev"] = &EventV{e}
		return env
	}
	if x.mute == 0 && !st.trial {
		for _, on := range ct.Ons {
			if on.Kind != e.Kind {
				continue
			}
			ps := x.unit.filter(on.Props)
			if len(ps) == 0 {
				continue
			}
			s := st.clone()
			env := mk()
			env.st = s
			if !x.onFired[on.Name] {
				s2 := st.clone()
				env2 := *env
				env2.st = s2
				ok := x.feasible(s2)
				if a := antecedent(on.Expr); ok && a != nil {
					t, msg := x.evalGoal(&env2, a)
					ok = msg == "" && x.s.Check(append(x.asm(s2), t), true) != Unsat
				}
				if ok {
					x.onFired[on.Name] = true
				}
			}
			goal, msg := x.evalGoal(env, on.Expr)
			if msg != "" {
				x.obls = append(x.obls, &Obligation{Name: x.unit.Name + "/" + on.Name, Props: ps, Goal: x.c.False, Asm: x.asm(st), Desc: msg + " in " + on.Src})
				continue
			}
			if goal == x.c.True {
				x.unit.trivial++
				continue
			}
			x.obls = append(x.obls, &Obligation{Name: x.unit.Name + "/" + on.Name, Props: ps, Goal: goal, Asm: x.asm(s), Desc: "on " + e.Kind + ": " + on.Src + x.where(), Note: append([]string{}, st.note...)})
		}
	}
	var ns []string
	var vs []*Term
	for _, set := range ct.Sets {
		if set.Kind != e.Kind {
			continue
		}
		var g *ghostDecl
		for _, d := range ct.Ghosts {
			if d.Name == set.Name {
				g = d
			}
		}
		if g == nil {
			x.specErr("set of unknown ghost %s", set.Name)
		}
		env := mk()
		ns, vs = append(ns, set.Name), append(vs, x.ghostTerm(env, g, x.eval(env, set.Expr)))
	}
	for i, n := range ns {
		st.gset(x.sysObj, n, vs[i])
	}
}

// applyAbstract replaces a call by an event with arbitrary results.
func (x *Exec) applyAbstract(st *State, d *abstractDecl, name string, fn *ssa.Function, sig *types.Signature, args []Value) []*Outcome {
	ct := x.prog.contracts[name]
	data := map[string]Value{"start": st.gterm(x.clockObj, "now")}
	env := &Env{vars: map[string]Value{}, st: st}
	env.ghost = func(name string) Value { return x.ghostVar(st, name) }
	pt := func(i int) types.Type {
		if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
			i--
		}
		if i < 0 {
			return sig.Recv().Type()
		}
		if i < sig.Params().Len() {
			return sig.Params().At(i).Type()
		}
		return nil
	}
	for i, a := range args {
		if t := pt(i); t != nil {
			data[fmt.Sprintf("a%d", i)] = x.snapshot(st, a, t)
			if ct != nil && i < len(ct.Params) {
				data[ct.Params[i]] = data[fmt.Sprintf("a%d", i)]
			}
		}
		if ct != nil && i < len(ct.Params) {
			env.vars[ct.Params[i]] = a
		}
	}
	if ct != nil {
		x.contractedCalls[ct.Fn] = true
		for _, r := range ct.Requires {
			if r.Name == "assume" {
				continue
			}
			x.oblige(st, "precondition", x.evalBool(env, r.Expr), "precondition of "+ct.Short+": "+r.Src+x.where())
		}
	}
	x.abstracted[name] = true
	x.now(st)
	env.old = st.clone()
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		n := fmt.Sprintf("r%d", i)
		v := x.freshVal(st, sig.Results().At(i).Type(), lastName(name)+"."+n)
		if p, ok := v.(*PtrV); ok && p.Obj != 0 {
			st.gset(p.Obj, "tok", x.c.Fresh("tok", x.c.Int))
		}
		res = append(res, v)
		data[n] = v
		if ct != nil && i < len(ct.Results) {
			env.vars[ct.Results[i]] = v
			data[ct.Results[i]] = v
		}
	}
	if ct != nil {
		for _, e := range ct.Ensures {
			if d.Names[e.Name] {
				st.assume(x.evalBool(env, e.Expr))
			}
		}
	}
	data["end"] = st.gterm(x.clockObj, "now")
	x.emit(st, &Event{Kind: d.Event, Args: args, Data: data})
	return ret(st, res...)
}

// tok is the identity of what a pointer refers to.
func (x *Exec) tok(st *State, v Value) *Term {
	switch p := v.(type) {
	case *PtrV:
		if p.Obj == 0 {
			return x.c.IntV(0)
		}
		if t, ok := st.obj(p.Obj).G["tok"].(*Term); ok {
			return t
		}
		return x.c.IntV(int64(p.Obj))
	case *OpaqueV:
		return x.c.IntV(int64(p.Obj))
	case *IfaceV:
		if p.Dyn != nil {
			return x.tok(st, p.V)
		}
		return x.c.IntV(0)
	case *SymIface:
		return x.c.App("identity", x.c.Int, p.T)
	case *FuncV:
		if p.Sym != nil {
			return x.c.App("identity", x.c.Int, p.Sym)
		}
	}
	x.specErr("identity of %T", v)
	return nil
}

// --- contexts ---

func (x *Exec) ctxTerm(st *State, v Value) *Term {
	switch p := v.(type) {
	case *SymIface:
		return p.T
	case *IfaceV:
		if p.Dyn == nil {
			x.oblige(st, "panic-free", x.c.False, "use of a nil context"+x.where())
			panic(deadPath{})
		}
		// a context implemented in the repository: its first field is the context it embeds
		switch q := p.V.(type) {
		case *PtrV, *BoxPtr, *StructV:
			env := x.unitEnv(st)
			if s, ok := x.derefSpec(env, q).(*StructV); ok {
				if i := fieldIndex(s.T, "Context"); i >= 0 {
					return x.ctxTerm(st, x.field(st, s, i))
				}
			}
		}
	}
	return x.anyTerm(st, v, true)
}

// newCtx derives a context.
func (x *Exec) newCtx(st *State, parent Value) *SymIface {
	t := x.c.Fresh("@ctx", x.c.Any)
	st.assume(x.c.Not(x.c.Eq(t, x.c.Nil())))
	x.ctxParent[t] = x.ctxTerm(st, parent)
	return &SymIface{T: t, St: x.globType("context", "Context")}
}

// within: a context ends whenever b ends.
func (x *Exec) within(a, b *Term) bool {
	for a != nil {
		if a == b {
			return true
		}
		a = x.ctxParent[a]
	}
	return false
}

func (st *State) isDone(t *Term) bool {
	for _, d := range st.done {
		if st.x.within(t, d) {
			return true
		}
	}
	return false
}

// --- timers ---

func (x *Exec) newTimer(st *State, typ string, d *Term, periodic bool) Value {
	c := x.c
	x.emit(st, &Event{Kind: "timer", Data: map[string]Value{"d": d, "periodic": c.BoolV(periodic)}})
	id := st.alloc(&Obj{Kind: "timerchan", G: map[string]Value{"armed": c.True, "stale": c.False, "period": d, "periodic": c.BoolV(periodic)}})
	ch := &OpaqueV{Kind: "timerchan", Obj: id}
	if typ == "" {
		return ch
	}
	t := x.globType("time", typ)
	s := &StructV{T: t, F: make([]Value, t.Underlying().(*types.Struct).NumFields())}
	s.F[fieldIndex(t, "C")] = ch
	return &PtrV{Obj: st.alloc(&Obj{T: t, Val: s, Kind: "timer"}), Elem: t}
}

// timerOf gives the channel object of a *time.Timer or *time.Ticker.
func (x *Exec) timerOf(st *State, v Value) int {
	x.nonNil(st, v, "timer"+x.where())
	if p, ok := v.(*PtrV); ok {
		if s, ok := x.loadPtr(st, p, p.Elem).(*StructV); ok {
			if ch, ok := x.field(st, s, fieldIndex(s.T, "C")).(*OpaqueV); ok && ch.Kind == "timerchan" {
				return ch.Obj
			}
		}
	}
	x.unsupported(st, "timer of unknown origin")
	return 0
}

// --- channels ---

type selCase struct {
	idx  int
	send bool
	ch   Value
	val  Value
	elem types.Type
}

func (x *Exec) chanObj(st *State, v Value) (*Obj, int) {
	o, ok := v.(*OpaqueV)
	if !ok {
		x.unsupported(st, fmt.Sprintf("channel %T", v))
	}
	if o.Obj == 0 {
		return nil, 0
	}
	return st.obj(o.Obj), o.Obj
}

func (x *Exec) makeChan(st *State, t types.Type, n *Term, name string) Value {
	c := x.c
	et := t.Underlying().(*types.Chan).Elem()
	id := st.alloc(&Obj{T: t, Kind: "chan", Name: name, G: map[string]Value{"cap": n, "closed": c.False, "n": c.IntV(0), "val": x.zero(st, et), "int": c.False, "term": c.False}})
	return &OpaqueV{Kind: "chan", Obj: id}
}

// chanSend puts a value into a channel that has room.
func (x *Exec) chanSend(st *State, id int, v Value) {
	c := x.c
	o := st.obj(id)
	x.oblige(st, "panic-free", c.Not(o.G["closed"].(*Term)), "send on a closed channel"+x.where())
	st.assume(c.Not(o.G["closed"].(*Term)))
	n := o.G["n"].(*Term)
	if x.must(st, c.Eq(n, c.IntV(0))) {
		st.gset(id, "val", v)
	} else {
		// the order of several elements is not tracked
		st.gset(id, "val", x.freshVal(st, o.T.Underlying().(*types.Chan).Elem(), "queued"))
	}
	st.gset(id, "n", c.Add(n, c.IntV(1)))
}

// chanRoom: a send would not block.
func (x *Exec) chanRoom(st *State, o *Obj) *Term {
	c := x.c
	cp := o.G["cap"].(*Term)
	if x.inThread > 0 && x.nowThread == 0 {
		cp = c.Max(cp, c.IntV(1)) // the parent waits for it
	}
	return c.Or(o.G["closed"].(*Term), c.Lt(o.G["n"].(*Term), cp))
}

type selOut struct {
	st  *State
	idx int
	ok  *Term
	val Value
}

// waitFor emits the event of a blocking operation and enumerates its outcomes.
func (x *Exec) waitFor(st *State, kind string, cases []selCase, blocking bool, k func(o *selOut) []*Outcome) []*Outcome {
	c := x.c
	waits, ready := c.IntV(0), c.IntV(0)
	wait := c.Fresh("wait", c.Int)
	sig, stale := c.False, c.False
	var ctxs valueList
	external := false
	armedOf := func(o *Obj) *Term { return c.Or(o.G["armed"].(*Term), o.G["stale"].(*Term)) }
	for _, cs := range cases {
		o, id := x.chanObj(st, cs.ch)
		if id == 0 {
			continue
		}
		switch o.Kind {
		case "timerchan":
			if cs.send {
				x.unsupported(st, "send on a timer channel")
			}
			a := o.G["armed"].(*Term)
			waits = c.Add(waits, c.Ite(armedOf(o), c.IntV(1), c.IntV(0)))
			wait = c.Ite(a, o.G["period"].(*Term), wait)
			stale = c.Or(stale, o.G["stale"].(*Term))
		case "ctxdone":
			t := o.G["ctx"].(*Term)
			if t.Name != "@ctx:background" {
				ctxs = append(ctxs, &SymIface{T: t, St: x.globType("context", "Context")})
				external = true
				if x.sigCtx[t] {
					sig = c.True
				}
			}
		case "chan":
			if o.G["n"] == nil {
				x.unsupported(st, "channel of unknown origin")
			}
			if cs.send {
				break
			}
			ready = c.Add(ready, o.G["n"].(*Term))
			i, t := o.G["int"].(*Term), o.G["term"].(*Term)
			sig = c.Or(sig, c.And(i, t))
			if c.Or(i, t) != c.False {
				external = true
			}
		default:
			x.unsupported(st, "operation on a channel of kind "+o.Kind)
		}
	}
	x.emit(st, &Event{Kind: kind, Data: map[string]Value{"waits": waits, "wait": wait, "stale": stale, "ready": ready, "terminable": sig, "blocking": c.BoolV(blocking), "ctxs": ctxs}})
	return x.waitOutcomes(st, cases, blocking, external, k)
}

func (x *Exec) waitOutcomes(st *State, cases []selCase, blocking, external bool, k func(o *selOut) []*Outcome) []*Outcome {
	c := x.c
	var outs []*Outcome
	someReady := c.False
	try := func(cond *Term, f func(s *State) *selOut) {
		s := st.clone()
		s.assume(cond)
		if cond != c.True && !x.feasible(s) {
			return
		}
		outs = append(outs, x.safe(s, func() []*Outcome { return k(f(s)) })...)
	}
	var rest []func()
	for _, cs := range cases {
		cs := cs
		o, id := x.chanObj(st, cs.ch)
		if id == 0 {
			continue
		}
		switch o.Kind {
		case "timerchan":
			a := c.Or(o.G["armed"].(*Term), o.G["stale"].(*Term))
			someReady = c.Or(someReady, a)
			rest = append(rest, func() {
				try(a, func(s *State) *selOut {
					x.now(s)
					g := s.obj(id).G
					s.gset(id, "stale", c.False)
					s.gset(id, "armed", c.And(g["armed"].(*Term), g["periodic"].(*Term)))
					x.emit(s, &Event{Kind: "tick", Data: map[string]Value{"now": s.gterm(x.clockObj, "now"), "stale": g["stale"]}})
					return &selOut{s, cs.idx, c.True, s.gterm(x.clockObj, "now")}
				})
			})
		case "ctxdone":
			t := o.G["ctx"].(*Term)
			if t.Name == "@ctx:background" {
				break
			}
			if st.isDone(t) {
				someReady = c.True
			}
			rest = append(rest, func() {
				try(c.True, func(s *State) *selOut {
					x.now(s)
					s.done = append(s.done, t)
					x.emit(s, &Event{Kind: "ctxdone", Data: map[string]Value{"ctx": &SymIface{T: t, St: x.globType("context", "Context")}}})
					if x.sigCtx[t] {
						x.emit(s, &Event{Kind: "signal", Data: map[string]Value{}})
					}
					return &selOut{s, cs.idx, c.False, x.zero(s, cs.elem)}
				})
			})
		case "chan":
			if cs.send {
				room := x.chanRoom(st, o)
				someReady = c.Or(someReady, room)
				rest = append(rest, func() {
					try(room, func(s *State) *selOut {
						x.chanSend(s, id, cs.val)
						return &selOut{s, cs.idx, c.False, nil}
					})
				})
				break
			}
			if c.Or(o.G["int"].(*Term), o.G["term"].(*Term)) != c.False {
				rest = append(rest, func() {
					try(c.True, func(s *State) *selOut {
						x.now(s)
						x.emit(s, &Event{Kind: "signal", Data: map[string]Value{}})
						return &selOut{s, cs.idx, c.True, x.freshVal(s, cs.elem, "signal")}
					})
				})
			}
			full := c.Lt(c.IntV(0), o.G["n"].(*Term))
			closed := o.G["closed"].(*Term)
			someReady = c.Or(someReady, full, closed)
			rest = append(rest, func() {
				try(full, func(s *State) *selOut {
					n := s.obj(id).G["n"].(*Term)
					v := s.obj(id).G["val"]
					if !x.must(s, c.Eq(n, c.IntV(1))) {
						v = x.freshVal(s, cs.elem, "dequeued")
					}
					s.gset(id, "n", c.Sub(n, c.IntV(1)))
					s.gset(id, "val", x.zero(s, cs.elem))
					return &selOut{s, cs.idx, c.True, v}
				})
				try(c.And(closed, c.Not(full)), func(s *State) *selOut {
					return &selOut{s, cs.idx, c.False, x.zero(s, cs.elem)}
				})
			})
		}
	}
	if !blocking {
		rest = append(rest, func() {
			try(c.Not(someReady), func(s *State) *selOut { return &selOut{s, -1, c.False, nil} })
		})
	} else if !external {
		// somebody else has to act
		if len(st.threads) > 0 {
			s := st.clone()
			s.assume(c.Not(someReady))
			if x.feasible(s) {
				outs = append(outs, x.safe(s, func() []*Outcome {
					return x.runThreads(s, func(s2 *State) []*Outcome {
						return x.waitOutcomes(s2, cases, blocking, external, k)
					})
				})...)
			}
		} else if st.suspended {
			// covered by the paths on which that goroutine goes on
		} else if x.inThread == 0 || x.nowThread > 0 {
			x.oblige(st, "deadlock-free", someReady, "channel operation that never completes"+x.where())
		}
	} else if len(st.threads) > 0 {
		s := st.clone()
		outs = append(outs, x.safe(s, func() []*Outcome {
			return x.runThreads(s, func(s2 *State) []*Outcome {
				return x.waitOutcomes(s2, cases, blocking, external, k)
			})
		})...)
	}
	for _, f := range rest {
		f()
	}
	return outs
}

func (x *Exec) selectStmt(st *State, fr *Frame, v *ssa.Select, k func(*State, *Frame) []*Outcome) []*Outcome {
	var cases []selCase
	nrecv := 0
	slot := map[int]int{}
	var elems []types.Type
	for i, s := range v.States {
		cs := selCase{idx: i, send: s.Dir == types.SendOnly, ch: x.val(st, fr, s.Chan), elem: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if cs.send {
			cs.val = x.val(st, fr, s.Send)
		} else {
			slot[i] = nrecv
			nrecv++
			elems = append(elems, cs.elem)
		}
		cases = append(cases, cs)
	}
	return x.waitFor(st, "select", cases, v.Blocking, func(o *selOut) []*Outcome {
		f := fr.clone()
		tup := TupleV{x.c.IntV(int64(o.idx)), o.ok}
		for _, e := range elems {
			tup = append(tup, x.zero(o.st, e))
		}
		if o.idx >= 0 {
			if j, ok := slot[o.idx]; ok {
				tup[2+j] = o.val
			}
		}
		f.regs[v] = tup
		return k(o.st, f)
	})
}

func (x *Exec) send(st *State, fr *Frame, v *ssa.Send, k func(*State, *Frame) []*Outcome) []*Outcome {
	cs := selCase{send: true, ch: x.val(st, fr, v.Chan), val: x.val(st, fr, v.X), elem: v.Chan.Type().Underlying().(*types.Chan).Elem()}
	return x.waitFor(st, "send", []selCase{cs}, true, func(o *selOut) []*Outcome { return k(o.st, fr.clone()) })
}

func (x *Exec) recv(st *State, fr *Frame, v *ssa.UnOp, k func(*State, *Frame) []*Outcome) []*Outcome {
	cs := selCase{ch: x.val(st, fr, v.X), elem: v.X.Type().Underlying().(*types.Chan).Elem()}
	return x.waitFor(st, "recv", []selCase{cs}, true, func(o *selOut) []*Outcome {
		f := fr.clone()
		if v.CommaOk {
			f.regs[v] = TupleV{o.val, o.ok}
		} else {
			f.regs[v] = o.val
		}
		return k(o.st, f)
	})
}

func (x *Exec) closeChan(st *State, ch *OpaqueV) []*Outcome {
	if ch.Obj == 0 {
		x.oblige(st, "panic-free", x.c.False, "close of a nil channel"+x.where())
		return nil
	}
	if cl, ok := st.obj(ch.Obj).G["closed"].(*Term); ok {
		x.oblige(st, "panic-free", x.c.Not(cl), "close of a closed channel"+x.where())
		st.assume(x.c.Not(cl))
	}
	st.gset(ch.Obj, "closed", x.c.True)
	return ret(st)
}

// --- goroutines ---

func (x *Exec) spawn(st *State, fr *Frame, d *deferred) {
	f, ok := d.fv.(*FuncV)
	if !ok || d.call.IsInvoke() {
		x.unsupported(st, "go statement with a method of an interface")
	}
	x.startThread(st, &thread{f: f, args: d.args, cc: d.call})
}

func (x *Exec) startThread(st *State, t *thread) {
	if x.unit.ct.Opts["threads"] == "now" {
		if x.mute == 0 && !st.trial {
			x.threadNow(st, t)
		}
		x.emit(st, &Event{Kind: "go", Data: map[string]Value{}})
		return
	}
	st.threads = append(append([]*thread{}, st.threads...), t)
	x.emit(st, &Event{Kind: "go", Data: map[string]Value{}})
}

// threadNow verifies a goroutine from the state in which it is started.
func (x *Exec) threadNow(st *State, t *thread) {
	s := st.clone()
	s.events = nil
	x.resetGhosts(s, true)
	before := x.nobj
	x.inThread++
	x.nowThread++
	outs := x.safe(s, func() []*Outcome { return x.callValue(s, nil, t.f, t.args, t.cc) })
	x.inThread--
	x.nowThread--
	for _, o := range outs {
		x.threadExit(o)
		for id, ob := range o.st.heap {
			if id <= before && ob != st.heap[id] && id != x.sysObj && id != x.clockObj && ob.Kind != "ghost" {
				x.oblige(o.st, "supported", x.c.False, "goroutine that changes shared state ("+ob.Kind+" "+ob.Name+")")
			}
		}
	}
}

func (x *Exec) threadExit(o *Outcome) {
	d := map[string]Value{}
	for i, r := range o.res {
		d[fmt.Sprintf("r%d", i)] = r
	}
	x.emit(o.st, &Event{Kind: "exit", Data: d})
}

// suspend considers that a goroutine stays at a point where it blocks while
// the others go on.
func (x *Exec) suspend(st *State) *State {
	if x.inThread == 0 || x.nowThread > 0 || st.trial || st.suspended {
		return nil
	}
	s := st.clone()
	s.suspended = true
	x.suspends = append(x.suspends, s)
	return s
}

// runThreads runs the goroutines started so far one after the other.
func (x *Exec) runThreads(st *State, k func(*State) []*Outcome) []*Outcome {
	if len(st.threads) == 0 {
		return k(st)
	}
	t := st.threads[0]
	st.threads = append([]*thread{}, st.threads[1:]...)
	x.inThread++
	left := x.suspends
	x.suspends = nil
	outs := x.safe(st, func() []*Outcome { return x.callValue(st, nil, t.f, t.args, t.cc) })
	x.inThread--
	susp := x.suspends
	x.suspends = left
	var all []*Outcome
	for _, s := range susp {
		s := s
		all = append(all, x.safe(s, func() []*Outcome { return x.runThreads(s, k) })...)
	}
	for _, o := range outs {
		o := o
		x.threadExit(o)
		if t.group != 0 {
			l, _ := o.st.obj(t.group).G["results"].(valueList)
			o.st.gset(t.group, "results", append(append(valueList{}, l...), o.res[0]))
		}
		all = append(all, x.safe(o.st, func() []*Outcome { return x.runThreads(o.st, k) })...)
	}
	return all
}

func (x *Exec) callSym(st *State, fr *Frame, f *FuncV, args []Value, cc *ssa.CallCommon) []*Outcome {
	x.nonNil(st, f, "call of a function value"+x.where())
	if isNamed(cc.Value.Type(), "context.CancelFunc") {
		x.emit(st, &Event{Kind: "cancel", Data: map[string]Value{}})
		return ret(st)
	}
	if x.sysObj == 0 {
		x.unsupported(st, "call of an unknown function")
	}
	data := map[string]Value{"start": st.gterm(x.clockObj, "now"), "fn": f}
	for i, a := range args {
		data[fmt.Sprintf("a%d", i)] = a
	}
	x.now(st)
	data["end"] = st.gterm(x.clockObj, "now")
	sig := cc.Signature()
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		v := x.freshVal(st, sig.Results().At(i).Type(), "fnres")
		res = append(res, v)
		data[fmt.Sprintf("r%d", i)] = v
	}
	x.emit(st, &Event{Kind: "apply", Data: data})
	for _, a := range args {
		if p, ok := a.(*PtrV); ok && p.Obj != 0 && len(p.Path) == 0 && st.obj(p.Obj).Val != nil {
			st.mut(p.Obj).Val = x.freshVal(st, p.Elem, "afterwards")
		}
	}
	for _, tr := range x.unit.ct.Trusts {
		if tr.Kind == "apply" {
			env := x.unitEnv(st)
			env.vars["ev"] = &EventV{&Event{Kind: "apply", Data: data}}
			st.assume(x.evalBool(env, tr.Expr))
		}
	}
	return ret(st, res...)
}

func init() {
	m := libModels
	type A = []Value
	// contexts
	m["(context.Context).Done"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		t := x.ctxTerm(st, a[0])
		x.lazy++
		id := st.alloc(&Obj{Kind: "ctxdone", G: map[string]Value{"ctx": t}})
		x.lazy--
		return ret(st, &OpaqueV{Kind: "ctxdone", Obj: id})
	}
	m["(context.Context).Err"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		t := x.ctxTerm(st, a[0])
		e := &SymIface{T: c.Fresh("ctxerr", c.Any), St: errorType}
		if t.Name == "@ctx:background" {
			st.assume(c.Eq(e.T, c.Nil()))
		}
		if st.isDone(t) {
			st.assume(c.Not(c.Eq(e.T, c.Nil())))
		}
		if x.sysObj != 0 {
			x.emit(st, &Event{Kind: "ctxerr", Data: map[string]Value{"ctx": a[0], "err": e}})
		}
		return ret(st, e)
	}
	m["os/signal.NotifyContext"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		ctx := x.newCtx(st, a[0])
		i, t := x.signals(st, a[1])
		if i == x.c.True && t == x.c.True {
			x.sigCtx[ctx.T] = true
		}
		x.emit(st, &Event{Kind: "notify", Data: map[string]Value{"int": i, "term": t}})
		cid := st.alloc(&Obj{Kind: "cancel", G: map[string]Value{"ctx": ctx}})
		return ret(st, ctx, &FuncV{Name: "cancel", Recv: &OpaqueV{Kind: "cancel", Obj: cid}})
	}
	m["os/signal.Notify"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		o, id := x.chanObj(st, a[0])
		if id == 0 {
			x.oblige(st, "panic-free", c.False, "signal.Notify with a nil channel"+x.where())
			return nil
		}
		i, t := x.signals(st, a[1])
		// signals are dropped if the channel has no room
		room := c.Lt(c.IntV(0), o.G["cap"].(*Term))
		i, t = c.And(room, i), c.And(room, t)
		st.gset(id, "int", c.Or(i, o.G["int"].(*Term)))
		st.gset(id, "term", c.Or(t, o.G["term"].(*Term)))
		x.emit(st, &Event{Kind: "notify", Data: map[string]Value{"int": i, "term": t}})
		return ret(st)
	}
	stop := func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		if _, id := x.chanObj(st, a[0]); id != 0 {
			st.gset(id, "int", x.c.False)
			st.gset(id, "term", x.c.False)
		}
		return ret(st)
	}
	m["os/signal.Stop"] = stop
	for _, n := range []string{"os/signal.Ignore", "os/signal.Reset"} {
		m[n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			x.unsupported(st, "signals are ignored")
			return nil
		}
	}
	// timers
	m["time.NewTicker"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		x.oblige(st, "panic-free", x.c.Lt(x.c.IntV(0), T(a[0])), "time.NewTicker with a non-positive interval"+x.where())
		st.assume(x.c.Lt(x.c.IntV(0), T(a[0])))
		return ret(st, x.newTimer(st, "Ticker", T(a[0]), true))
	}
	m["time.NewTimer"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.newTimer(st, "Timer", T(a[0]), false))
	}
	m["time.After"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.newTimer(st, "", T(a[0]), false))
	}
	m["time.Tick"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.newTimer(st, "", T(a[0]), true))
	}
	m["time.Sleep"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		t := st.gterm(x.clockObj, "now")
		st.assume(x.c.Le(x.c.Add(t, T(a[0])), x.now(st)))
		x.emit(st, &Event{Kind: "sleep", Data: map[string]Value{"d": T(a[0])}})
		return ret(st)
	}
	reset := func(ticker bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			c := x.c
			id := x.timerOf(st, a[0])
			if ticker {
				x.oblige(st, "panic-free", c.Lt(c.IntV(0), T(a[1])), "Ticker.Reset with a non-positive interval"+x.where())
				st.assume(c.Lt(c.IntV(0), T(a[1])))
			}
			x.emit(st, &Event{Kind: "timer", Data: map[string]Value{"d": a[1], "periodic": c.BoolV(ticker)}})
			g := st.obj(id).G
			was := g["armed"].(*Term)
			// a tick of the previous arming may be in the channel
			st.gset(id, "stale", c.Or(g["stale"].(*Term), was))
			st.gset(id, "armed", c.True)
			st.gset(id, "period", T(a[1]))
			if ticker {
				return ret(st)
			}
			return ret(st, was)
		}
	}
	m["(*time.Ticker).Reset"] = reset(true)
	m["(*time.Timer).Reset"] = reset(false)
	m["(*time.Ticker).Stop"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		id := x.timerOf(st, a[0])
		g := st.obj(id).G
		st.gset(id, "stale", x.c.Or(g["stale"].(*Term), g["armed"].(*Term)))
		st.gset(id, "armed", x.c.False)
		return ret(st)
	}
	m["(*time.Timer).Stop"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.timerOf(st, a[0])
		g := st.obj(id).G
		active := c.Fresh("active", c.Bool)
		was := g["armed"].(*Term)
		st.assume(c.Imp(active, was))
		st.gset(id, "stale", c.Or(g["stale"].(*Term), c.And(was, c.Not(active))))
		st.gset(id, "armed", c.False)
		return ret(st, active)
	}
	// error groups
	group := func(x *Exec, st *State, v Value) int {
		p, ok := v.(*PtrV)
		if !ok || p.Obj == 0 || len(p.Path) > 0 {
			x.unsupported(st, "error group of unknown origin")
		}
		return p.Obj
	}
	eg := "golang.org/x/sync/errgroup"
	m[eg+".WithContext"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		t := x.globType(eg, "Group")
		id := st.alloc(&Obj{T: t, Val: x.zero(st, t), Kind: "errgroup", G: map[string]Value{}})
		return ret(st, &PtrV{Obj: id, Elem: t}, x.newCtx(st, a[0]))
	}
	m["(*"+eg+".Group).Go"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		f, ok := a[1].(*FuncV)
		if !ok {
			x.unsupported(st, "goroutine of unknown function")
		}
		x.startThread(st, &thread{f: f, cc: cc, group: group(x, st, a[0])})
		return ret(st)
	}
	m["(*"+eg+".Group).Wait"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		g := group(x, st, a[0])
		return x.runThreads(st, func(s *State) []*Outcome {
			if s.suspended {
				return nil
			}
			c := x.c
			r := c.Fresh("waiterr", c.Any)
			if x.unit.ct.Opts["threads"] != "now" {
				l, _ := s.obj(g).G["results"].(valueList)
				none, one := c.True, c.False
				for _, v := range l {
					t := x.anyTerm(s, v, true)
					n := x.isNil(s, v)
					none = c.And(none, n)
					one = c.Or(one, c.And(c.Not(n), c.Eq(r, t)))
				}
				s.assume(c.Imp(none, c.Eq(r, c.Nil())))
				s.assume(c.Or(none, one))
			}
			x.emit(s, &Event{Kind: "wait", Data: map[string]Value{}})
			return ret(s, &SymIface{T: r, St: errorType})
		})
	}
	// wait groups
	for _, n := range []string{"Add", "Done"} {
		m["(*sync.WaitGroup)."+n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome { return ret(st) }
	}
	m["(*sync.WaitGroup).Wait"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return x.runThreads(st, func(s *State) []*Outcome {
			if s.suspended {
				return nil
			}
			x.emit(s, &Event{Kind: "wait", Data: map[string]Value{}})
			return ret(s)
		})
	}
	// logs
	for _, n := range []string{"Print", "Printf", "Println", "Fatal", "Fatalf", "Fatalln"} {
		n := n
		for _, p := range []string{"log.", "(*log.Logger)."} {
			p := p
			m[p+n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
				if p != "log." {
					a = a[1:]
				}
				var l valueList
				for _, v := range a {
					if s, ok := v.(*SliceV); ok {
						es, ok := x.sliceElems(st, s)
						if !ok {
							x.unsupported(st, "arguments of "+n)
						}
						l = append(l, es...)
					} else {
						l = append(l, v)
					}
				}
				kind := "log"
				if strings.HasPrefix(n, "Fatal") {
					kind = "fatal"
				}
				x.emit(st, &Event{Kind: kind, Data: map[string]Value{"args": l, "code": x.c.IntV(1)}})
				if kind == "fatal" {
					return nil
				}
				return ret(st)
			}
		}
	}
	// random numbers
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		for _, n := range []string{p + ".Float64", "(*" + p + ".Rand).Float64"} {
			m[n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
				r := x.c.Fresh("random", x.c.Real)
				st.assume(x.c.Le(x.ratInt(0), r))
				st.assume(x.c.Lt(r, x.ratInt(1)))
				return ret(st, r)
			}
		}
		for _, f := range []string{"Int63n", "Int31n", "Intn", "Int64N", "IntN", "Int32N", "N"} {
			for _, n := range []string{p + "." + f, "(*" + p + ".Rand)." + f} {
				m[n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
					c := x.c
					k := T(a[len(a)-1])
					x.oblige(st, "panic-free", c.Lt(c.IntV(0), k), "random number below a non-positive bound"+x.where())
					st.assume(c.Lt(c.IntV(0), k))
					r := c.Fresh("random", c.Int)
					st.assume(c.Le(c.IntV(0), r))
					st.assume(c.Lt(r, k))
					return ret(st, r)
				}
			}
		}
	}
	// specification functions
	// among(list, v): v is an element, or occurs in the text of one
	specFuncs["among"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		c := x.c
		l, ok := x.eval(env, n.Args[0]).(valueList)
		if !ok {
			x.specErr("among")
		}
		v := x.eval(env, n.Args[1])
		t := x.enc(env, v)
		r := c.False
		for _, e := range l {
			et := e
			if s, ok := e.(*Term); ok {
				if s.Sort == c.Str && mentions(s, t) {
					r = c.True
				}
				continue
			}
			if i, ok := e.(*IfaceV); ok && i.Dyn != nil {
				if s, ok := i.V.(*Term); ok {
					if s.Sort == c.Str && mentions(s, t) {
						r = c.True
					}
					continue
				}
			}
			r = c.Or(r, c.Eq(x.anyTerm(env.st, et, true), t))
		}
		return r
	}
	// within(a, b): context a ends when context b ends
	specFuncs["within"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		b := x.ctxTerm(env.st, x.eval(env, n.Args[1]))
		if l, ok := x.eval(env, n.Args[0]).(valueList); ok {
			for _, v := range l {
				if x.within(x.ctxTerm(env.st, v), b) {
					return x.c.True
				}
			}
			return x.c.False
		}
		return x.c.BoolV(x.within(x.ctxTerm(env.st, x.eval(env, n.Args[0])), b))
	}
	// ident(p): the identity of what p points to
	specFuncs["ident"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return x.tok(env.st, x.eval(env, n.Args[0])) }
	// the contents of the channels: queued(t) elements of type t, the oldest of
	// which is head(t)
	queues := func(x *Exec, env *Env, n *ast.CallExpr) []*Obj {
		want := x.evalTerm(env, n.Args[0]).Name
		var ids []int
		for id := range env.st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		var r []*Obj
		for _, id := range ids {
			o := env.st.heap[id]
			if o.Kind != "chan" || o.G["n"] == nil {
				continue
			}
			if ch, ok := o.T.Underlying().(*types.Chan); ok && chanType(ch.Elem()) == want {
				r = append(r, o)
			}
		}
		return r
	}
	specFuncs["queued"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		k := x.c.IntV(0)
		for _, o := range queues(x, env, n) {
			k = x.c.Add(k, o.G["n"].(*Term))
		}
		return k
	}
	specFuncs["head"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		l := queues(x, env, n)
		if len(l) != 1 {
			x.specErr("head of several channels")
		}
		return l[0].G["val"]
	}
	// the timers: the number of those that may fire, and the period of the only one
	timers := func(x *Exec, env *Env) []*Obj {
		var ids []int
		for id := range env.st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		var r []*Obj
		for _, id := range ids {
			if o := env.st.heap[id]; o.Kind == "timerchan" && c2(x, o) != x.c.False {
				r = append(r, o)
			}
		}
		return r
	}
	specFuncs["armed"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		c := x.c
		k := c.IntV(0)
		for _, o := range timers(x, env) {
			k = c.Add(k, c.Ite(c2(x, o), c.IntV(1), c.IntV(0)))
		}
		return k
	}
	specFuncs["stale"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		r := x.c.False
		for _, o := range timers(x, env) {
			r = x.c.Or(r, o.G["stale"].(*Term))
		}
		return r
	}
	specFuncs["wait"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		l := timers(x, env)
		if len(l) == 0 {
			return x.c.Fresh("wait", x.c.Int)
		}
		if len(l) != 1 {
			x.specErr("period of several timers")
		}
		return l[0].G["period"]
	}
	// metricis(ev, m): the event concerns the metric m
	specFuncs["metricis"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		e, ok := x.eval(env, n.Args[0]).(*EventV)
		o, ok2 := x.eval(env, n.Args[1]).(*OpaqueV)
		if !ok || !ok2 {
			x.specErr("metricis")
		}
		id := int64(o.Obj)
		if g, ok := env.st.obj(o.Obj).G["vec"].(*Term); ok {
			id = g.I.Int64()
		}
		return x.c.BoolV(e.e.Data["vec"].(*Term).I.Int64() == id)
	}
}

func c2(x *Exec, o *Obj) *Term { return x.c.Or(o.G["armed"].(*Term), o.G["stale"].(*Term)) }

func chanType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// signals decides whether a list of signals includes the interrupt and
// termination signals; an empty list means all.
func (x *Exec) signals(st *State, v Value) (i, t *Term) {
	c := x.c
	s, ok := v.(*SliceV)
	if !ok {
		x.unsupported(st, "signals")
	}
	es, ok := x.sliceElems(st, s)
	if !ok {
		x.unsupported(st, "signals")
	}
	if len(es) == 0 {
		return c.True, c.True
	}
	i, t = c.False, c.False
	intr := x.anyTerm(st, x.globalVal(st, "os", "Interrupt"), true)
	for _, e := range es {
		if iv, ok := e.(*IfaceV); ok && iv.Dyn != nil && isNamed(iv.Dyn, "syscall.Signal") {
			if n, ok := iv.V.(*Term); ok && n.Op == OInt {
				switch n.I.Int64() {
				case 2:
					i = c.True
				case 15:
					t = c.True
				}
			}
			continue
		}
		if x.anyTerm(st, e, true) == intr {
			i = c.True
		}
	}
	return i, t
}
