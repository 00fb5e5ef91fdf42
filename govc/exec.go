package main

// Path-based symbolic execution of SSA functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsup struct{ msg string }

type Obligation struct {
	Name  string
	Props []string
	Asm   []*Term
	Goal  *Term
	Desc  string
	Pos   string
	Res   Result
	Model string
	Note  []string
}

type Exec struct {
	lazyMemo        map[lazyField]Value
	lazyNames       map[string]int
	c               *Ctx
	s               *Solver
	prog            *Prog
	repoMod         string
	sortMemo        map[string]*Sort
	anyOf           map[*Term]Value
	nobj            int
	nident, noKeys  int
	structIDs       map[*StructV]int
	nlost           int
	lazy            int
	global          []*Term
	obls            []*Obligation
	mute            int // >0: obligations are not recorded (trial runs)
	depth           int
	stack           []*ssa.Function
	loops           map[*ssa.Function]*loopInfo
	unit            *Unit
	forkFail        int
	steps           int
	trips           int
	initBase        map[int]*Obj
	initGlob        map[*ssa.Global]int
	clockObj        int
	trusted         map[string]bool
	havocd          map[string]bool
	inlined         map[string]bool
	visited         map[string]bool
	seqMemo         map[*Term]bool
	muteHits        int
	sysObj          int // ghost variables of the contract
	onFired         map[string]bool
	suspends        []*State // goroutines left where they block
	abstracted      map[string]bool
	ctxParent       map[*Term]*Term
	sigCtx          map[*Term]bool
	inThread        int
	nowThread       int
	contractedCalls map[string]bool
	usedInv         map[string]bool
	dbAxDone        map[*Term]bool
	loopsProved     int
	rowObj          map[int]bool

	taskT     types.Type
	dbs       *dbSchema
	rowDone   map[rowKey]bool
	recDone   map[recKey]bool
	monoDone  map[string]bool
	arrDef    map[*Term]func(*State, *Term)
	quants    map[*Term][]quant
	assumed   map[string]bool
	reqTerms  []*Term
	seqDefs   map[string]*seqInfo
	seqElems  []seqPos
	keys      []*Term
	ghostObj  int
	ginCtx    int
	nbound    int
	entry     *State
	unitVars  map[string]Value
	anyVars   []*Term
	initPhase bool
	nsent     int
	initDone  map[*ssa.Package]bool
	mutNames  map[string]bool
	exits     []*exit
	vac       map[string]int
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	defers []*deferred
	loop   *loopCtx // innermost loop being summarized
	unroll map[*ssa.BasicBlock]int
	caller *Frame
	panics bool
}

type deferred struct {
	call *ssa.CallCommon
	fv   Value
	args []Value
	pos  token.Pos
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.regs = make(map[ssa.Value]Value, len(fr.regs)+8)
	for k, v := range fr.regs {
		n.regs[k] = v
	}
	n.defers = append([]*deferred{}, fr.defers...)
	n.unroll = make(map[*ssa.BasicBlock]int, len(fr.unroll))
	for k, v := range fr.unroll {
		n.unroll[k] = v
	}
	return &n
}

type Outcome struct {
	st   *State
	res  []Value
	edge bool // leaves or closes the loop being summarized
	fr   *Frame
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

func (x *Exec) unsupported(st *State, msg string) {
	panic(unsup{msg})
}

// violate records an obligation that holds only if this path is infeasible.
func (x *Exec) violate(st *State, kind, msg string) {
	if len(x.unit.propsFor(kind)) == 0 {
		// the path ends here: it must not get lost
		kind = "supported"
	}
	x.oblige(st, kind, x.c.False, msg)
}

// oblige records a proof obligation in state st.
func (x *Exec) oblige(st *State, kind string, goal *Term, msg string) {
	if goal == x.c.True {
		if x.mute == 0 && x.unit != nil {
			x.unit.trivial++
		}
		return
	}
	if x.mute > 0 || st.trial {
		x.muteHits++
		return
	}
	props := x.unit.propsFor(kind)
	if len(props) == 0 {
		return
	}
	x.obls = append(x.obls, &Obligation{Name: x.unit.Name + "/" + kind, Props: props, Asm: x.asm(st), Goal: goal, Desc: msg, Note: append([]string{}, st.note...)})
}

func (x *Exec) asm(st *State) []*Term {
	return append(append([]*Term{}, x.global...), st.pc...)
}

// feasible decides whether a path condition may be satisfiable.
func (x *Exec) feasible(st *State) bool {
	r := x.s.Check(x.asm(st), true)
	return r != Unsat
}

// must decides whether cond holds in every model of the state.
func (x *Exec) must(st *State, cond *Term) bool {
	if cond == x.c.True {
		return true
	}
	if cond == x.c.False {
		return !x.feasible(st)
	}
	return x.s.Check(append(x.asm(st), x.c.Not(cond)), true) == Unsat
}

// nonNil obliges a pointer to be non-nil and continues under that assumption.
func (x *Exec) nonNil(st *State, v Value, what string) {
	n := x.isNil(st, v)
	if n == x.c.False {
		return
	}
	x.oblige(st, "panic-free", x.c.Not(n), what+" of nil")
	st.assume(x.c.Not(n))
	if n == x.c.True {
		panic(deadPath{})
	}
}

type deadPath struct{}

func (x *Exec) isNil(st *State, v Value) *Term {
	c := x.c
	switch p := v.(type) {
	case *PtrV:
		if p.Obj == 0 {
			return c.True
		}
		if p.Nil != nil {
			return p.Nil
		}
		return c.False
	case *BoxPtr:
		return c.IsNone(p.Opt)
	case *SliceV:
		if p.Obj == 0 {
			return c.True
		}
		if p.Nil != nil {
			return p.Nil
		}
		return c.False
	case *MapV:
		return c.BoolV(p.Obj == 0)
	case *IfaceV:
		if p.Dyn == nil {
			return c.True
		}
		if p.NilIf != nil {
			return p.NilIf
		}
		return c.False
	case *SymIface:
		return c.Eq(p.T, c.Nil())
	case *Term:
		if p.Sort == c.Any {
			return c.Eq(p, c.Nil())
		}
	case *ErrObj:
		return c.False
	case *FuncV:
		if p.Nil {
			return c.True
		}
		if p.Sym != nil {
			return c.Eq(p.Sym, c.Nil())
		}
		return c.False
	case *OpaqueV:
		if p.Obj == 0 {
			return c.True
		}
		if o := st.obj(p.Obj); o.G != nil {
			if n, ok := o.G["nil"].(*Term); ok {
				return n
			}
		}
		return c.False
	case nil:
		return c.True
	}
	x.unsupported(st, fmt.Sprintf("nil test of %T", v))
	return nil
}

func (x *Exec) equal(st *State, a, b Value, t types.Type) *Term {
	c := x.c
	if ta, ok := a.(*Term); ok {
		if tb, ok := b.(*Term); ok {
			return c.Eq(ta, tb)
		}
	}
	na, nb := x.isNilSafe(st, a), x.isNilSafe(st, b)
	if na == c.True {
		return nb
	}
	if nb == c.True {
		return na
	}
	switch p := a.(type) {
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok {
			break
		}
		same := c.False
		if p.Obj == q.Obj && len(p.Path) == len(q.Path) {
			same = c.True
			for i := range p.Path {
				if p.Path[i].Kind != q.Path[i].Kind || p.Path[i].N != q.Path[i].N {
					same = c.False
				} else if p.Path[i].Idx != nil {
					same = c.And(same, c.Eq(p.Path[i].Idx, q.Path[i].Idx))
				}
			}
		}
		return c.Or(c.And(na, nb), c.And(c.Not(na), c.Not(nb), same))
	case *BoxPtr:
		if q, ok := b.(*BoxPtr); ok {
			if p.Opt == q.Opt {
				return c.True
			}
			return c.Or(c.And(na, nb), c.And(c.Not(na), c.Not(nb), c.Fresh("ptreq", c.Bool)))
		}
	case *StructV:
		if q, ok := b.(*StructV); ok {
			r := c.True
			u := p.T.Underlying().(*types.Struct)
			for i := range p.F {
				r = c.And(r, x.equal(st, x.field(st, p, i), x.field(st, q, i), u.Field(i).Type()))
			}
			return r
		}
	case *ArrayV:
		if q, ok := b.(*ArrayV); ok {
			r := c.True
			et := p.T.Underlying().(*types.Array).Elem()
			for i := range p.E {
				r = c.And(r, x.equal(st, p.E[i], q.E[i], et))
			}
			return r
		}
	case *IfaceV, *SymIface, *ErrObj:
		if ia, ok := a.(*IfaceV); ok {
			if ib, ok := b.(*IfaceV); ok {
				if !types.Identical(ia.Dyn, ib.Dyn) {
					return c.And(na, nb)
				}
				return c.Or(c.And(na, nb), c.And(c.Not(na), c.Not(nb), x.equal(st, ia.V, ib.V, ia.Dyn)))
			}
		}
		return c.Eq(x.anyTerm(st, a, false), x.anyTerm(st, b, false))
	case *FuncV, *MapV, *SliceV:
		return c.And(na, nb)
	case *OpaqueV:
		if q, ok := b.(*OpaqueV); ok {
			return c.BoolV(p.Obj == q.Obj)
		}
	}
	x.unsupported(st, fmt.Sprintf("comparison of %T and %T", a, b))
	return nil
}

func (x *Exec) isNilSafe(st *State, v Value) *Term {
	switch v.(type) {
	case *PtrV, *BoxPtr, *SliceV, *MapV, *IfaceV, *SymIface, *ErrObj, *FuncV, *OpaqueV:
		return x.isNil(st, v)
	}
	return x.c.False
}

// --- running functions ---

// call runs a function value on arguments.
func (x *Exec) callFunc(st *State, caller *Frame, fn *ssa.Function, args []Value, bind []Value) []*Outcome {
	if len(x.stack) > 60 {
		x.unsupported(st, "call depth")
	}
	if len(fn.Blocks) == 0 {
		x.unsupported(st, "no body for "+fn.String())
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, unroll: map[*ssa.BasicBlock]int{}, caller: caller}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = bind[i]
	}
	x.stack = append(x.stack, fn)
	x.visited[fn.String()] = true
	n0 := len(st.pc)
	out := x.safe(st, func() []*Outcome { return x.execFrom(fr, fn.Blocks[0], 0, nil, st) })
	x.stack = x.stack[:len(x.stack)-1]
	if len(x.stack) > 0 {
		out = x.joinOutcomes(n0, fn.Signature, out)
	}
	return out
}

// safe confines unsupported constructs to the path on which they occur.
func (x *Exec) safe(st *State, f func() []*Outcome) (out []*Outcome) {
	depth := len(x.stack)
	lz, mt := x.lazy, x.mute
	defer func() {
		if r := recover(); r != nil {
			x.stack = x.stack[:depth]
			x.lazy, x.mute = lz, mt
			switch u := r.(type) {
			case unsup:
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", u.msg, x.where())
				}
				x.oblige(st, "supported", x.c.False, "construct outside the verifier's subset: "+u.msg+x.where())
				out = nil
			case deadPath:
				out = nil
			default:
				panic(r)
			}
		}
	}()
	return f()
}

func (x *Exec) where() string {
	if len(x.stack) > 0 {
		return " (in " + x.stack[len(x.stack)-1].String() + ")"
	}
	return ""
}

func (x *Exec) fork(st *State, fr *Frame, cond *Term, yes, no func(*State, *Frame) []*Outcome) []*Outcome {
	c := x.c
	if cond == c.True {
		return yes(st, fr)
	}
	if cond == c.False {
		return no(st, fr)
	}
	if st.pcset[cond] {
		return yes(st, fr)
	}
	if st.pcset[c.Not(cond)] {
		return no(st, fr)
	}
	var out []*Outcome
	s1, f1 := st.clone(), fr.clone()
	s1.assume(cond)
	s2 := st
	s2.assume(c.Not(cond))
	y, n := x.feasible(s1), true
	if y {
		n = x.feasible(s2)
	}
	if y {
		out = append(out, x.safe(s1, func() []*Outcome { return yes(s1, f1) })...)
	}
	if n {
		out = append(out, x.safe(s2, func() []*Outcome { return no(s2, fr) })...)
	}
	return out
}

// execFrom runs instructions of block b from index i on.
func (x *Exec) execFrom(fr *Frame, b *ssa.BasicBlock, i int, pred *ssa.BasicBlock, st *State) []*Outcome {
	c := x.c
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 3000000 {
			panic(unsup{"step budget exceeded"})
		}
		ins := b.Instrs[i]
		switch v := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// all phis of a block are evaluated together in jump()
		case *ssa.Jump:
			return x.jump(fr, b, b.Succs[0], st)
		case *ssa.If:
			cond := x.val(st, fr, v.Cond).(*Term)
			if x.unit.ct.Opts["merge"] != "" && x.merge(st, fr, b, cond) {
				return x.execFrom(fr, x.mergePoint(b), x.phiCount(x.mergePoint(b)), b, st)
			}
			return x.fork(st, fr, cond, func(s *State, f *Frame) []*Outcome {
				return x.jump(f, b, b.Succs[0], s)
			}, func(s *State, f *Frame) []*Outcome {
				return x.jump(f, b, b.Succs[1], s)
			})
		case *ssa.Return:
			var rs []Value
			for _, r := range v.Results {
				rs = append(rs, x.val(st, fr, r))
			}
			return []*Outcome{{st: st, res: rs}}
		case *ssa.Panic:
			x.oblige(st, "panic-free", c.False, "explicit panic"+x.where())
			return nil
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			return x.runDefers(fr, st, func(f *Frame, s *State) []*Outcome {
				return x.execFrom(f, b, i+1, pred, s)
			})
		case *ssa.Defer:
			d := &deferred{call: &v.Call, pos: v.Pos()}
			x.prepCall(st, fr, &v.Call, d)
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			d := &deferred{call: &v.Call, pos: v.Pos()}
			x.prepCall(st, fr, &v.Call, d)
			x.spawn(st, fr, d)
		case *ssa.Call:
			d := &deferred{call: &v.Call, pos: v.Pos()}
			x.prepCall(st, fr, &v.Call, d)
			outs := x.doCall(st, fr, d)
			if len(outs) == 1 {
				st = outs[0].st
				x.setRes(fr, v, outs[0].res)
				continue
			}
			var all []*Outcome
			for k, o := range outs {
				f := fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				x.setRes(f, v, o.res)
				o := o
				all = append(all, x.safe(o.st, func() []*Outcome { return x.execFrom(f, b, i+1, pred, o.st) })...)
			}
			return all
		case *ssa.TypeAssert:
			return x.typeAssert(st, fr, v, func(s *State, f *Frame) []*Outcome {
				return x.execFrom(f, b, i+1, pred, s)
			})
		case *ssa.Select:
			return x.selectStmt(st, fr, v, func(s *State, f *Frame) []*Outcome {
				return x.execFrom(f, b, i+1, pred, s)
			})
		case *ssa.Lookup:
			return x.lookup(st, fr, v, func(s *State, f *Frame) []*Outcome {
				return x.execFrom(f, b, i+1, pred, s)
			})
		case *ssa.MapUpdate:
			return x.mapUpdate(st, fr, v, func(s *State, f *Frame) []*Outcome {
				return x.execFrom(f, b, i+1, pred, s)
			})
		case *ssa.Store:
			p := x.val(st, fr, v.Addr)
			x.store(st, p, x.val(st, fr, v.Val))
		case *ssa.Send:
			return x.send(st, fr, v, func(s *State, f *Frame) []*Outcome {
				return x.execFrom(f, b, i+1, pred, s)
			})
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				return x.recv(st, fr, v, func(s *State, f *Frame) []*Outcome {
					return x.execFrom(f, b, i+1, pred, s)
				})
			}
			fr.regs[v] = x.evalInstr(st, fr, v)
		default:
			if val, ok := ins.(ssa.Value); ok {
				fr.regs[val] = x.evalInstr(st, fr, ins)
			} else {
				x.unsupported(st, fmt.Sprintf("instruction %T", ins))
			}
		}
	}
	panic("block without terminator")
}

func (x *Exec) setRes(fr *Frame, v *ssa.Call, res []Value) {
	if tup, ok := v.Type().(*types.Tuple); ok {
		if tup.Len() == 0 {
			return
		}
		fr.regs[v] = TupleV(res)
		return
	}
	if len(res) == 1 {
		fr.regs[v] = res[0]
	}
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State) []*Outcome) []*Outcome {
	if len(fr.defers) == 0 {
		return k(fr, st)
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	outs := x.doCall(st, fr, d)
	var all []*Outcome
	for j, o := range outs {
		f := fr
		if j < len(outs)-1 {
			f = fr.clone()
		}
		all = append(all, x.runDefers(f, o.st, k)...)
	}
	return all
}

// jump transfers control along an edge, evaluating phis and handling loops.
func (x *Exec) jump(fr *Frame, from, to *ssa.BasicBlock, st *State) []*Outcome {
	if l := fr.loop; l != nil {
		if to == l.header || !l.blocks[to] {
			return []*Outcome{{st: st, edge: true, fr: fr, from: from, to: to}}
		}
	}
	if lp := x.loopAt(fr.fn, to); lp != nil {
		return x.enterLoop(fr, lp, from, st)
	}
	x.phis(fr, from, to, st)
	return x.execFrom(fr, to, 0, from, st)
}

// mergePoint: the block where both branches of a conditional meet, if neither
// does anything on the way.
func (x *Exec) mergePoint(b *ssa.BasicBlock) *ssa.BasicBlock {
	through := func(s *ssa.BasicBlock) *ssa.BasicBlock {
		if len(s.Instrs) == 1 && len(s.Preds) == 1 {
			if _, ok := s.Instrs[0].(*ssa.Jump); ok {
				return s.Succs[0]
			}
		}
		return nil
	}
	t, f := b.Succs[0], b.Succs[1]
	tt, ff := through(t), through(f)
	switch {
	case tt != nil && tt == f:
		return f
	case ff != nil && ff == t:
		return t
	case tt != nil && tt == ff:
		return tt
	}
	return nil
}

func (x *Exec) phiCount(b *ssa.BasicBlock) int {
	n := 0
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

// merge replaces a conditional that only chooses between values by a choice of
// values.
func (x *Exec) merge(st *State, fr *Frame, b *ssa.BasicBlock, cond *Term) bool {
	j := x.mergePoint(b)
	if j == nil || cond == x.c.True || cond == x.c.False || x.loopAt(fr.fn, j) != nil || fr.loop != nil && !fr.loop.blocks[j] {
		return false
	}
	edge := func(s *ssa.BasicBlock) int {
		from := s
		if s == j {
			from = b
		}
		for k, p := range j.Preds {
			if p == from {
				return k
			}
		}
		return -1
	}
	t, f := edge(b.Succs[0]), edge(b.Succs[1])
	if t < 0 || f < 0 {
		return false
	}
	var ps []*ssa.Phi
	var vs []Value
	for _, ins := range j.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		a, ok1 := x.val(st, fr, p.Edges[t]).(*Term)
		b, ok2 := x.val(st, fr, p.Edges[f]).(*Term)
		if !ok1 || !ok2 || a.Sort != b.Sort {
			return false
		}
		ps = append(ps, p)
		vs = append(vs, x.c.Ite(cond, a, b))
	}
	for k, p := range ps {
		fr.regs[p] = vs[k]
	}
	return true
}

func (x *Exec) phis(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	idx := -1
	for k, p := range to.Preds {
		if p == from {
			idx = k
		}
	}
	var ps []*ssa.Phi
	var vs []Value
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(st, fr, p.Edges[idx]))
	}
	for k, p := range ps {
		fr.regs[p] = vs[k]
	}
}

// val evaluates an SSA operand.
func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch t := v.(type) {
	case *ssa.Const:
		return x.constant(st, t)
	case *ssa.Global:
		return x.global_(st, t)
	case *ssa.Function:
		return &FuncV{Fn: t}
	case *ssa.Builtin:
		return &FuncV{Name: "builtin." + t.Name()}
	}
	r, ok := fr.regs[v]
	if !ok {
		x.unsupported(st, "unset register "+v.Name()+" in "+fr.fn.String())
	}
	return r
}

func (x *Exec) constant(st *State, k *ssa.Const) Value {
	if k.Value == nil {
		return x.zero(st, k.Type())
	}
	return x.constVal(st, k.Value, k.Type())
}

func (x *Exec) constVal(st *State, v constant.Value, t types.Type) Value {
	c := x.c
	s := x.scalarSort(t)
	if s == nil {
		x.unsupported(st, "constant of type "+t.String())
	}
	switch s {
	case c.Bool:
		return c.BoolV(constant.BoolVal(v))
	case c.Str:
		return c.StrV(constant.StringVal(v))
	case c.Int:
		i, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		if !ok {
			x.unsupported(st, "integer constant")
		}
		return c.BigV(i)
	case c.Real:
		r, ok := new(big.Rat).SetString(constant.ToFloat(v).ExactString())
		if !ok {
			x.unsupported(st, "float constant")
		}
		return c.RatV(r)
	}
	x.unsupported(st, "constant")
	return nil
}

func (x *Exec) ratInt(i int64) *Term { return x.c.RatV(new(big.Rat).SetInt64(i)) }

func (x *Exec) global_(st *State, g *ssa.Global) Value {
	et := deref(g.Type())
	if id, ok := x.initGlob[g]; ok {
		return &PtrV{Obj: id, Elem: et}
	}
	if x.initGlobal(g) {
		return &PtrV{Obj: x.initGlob[g], Elem: et}
	}
	var val Value
	name := g.String()
	if isErrorType(et) {
		val = x.sentinel(name)
	} else if name == "net/http.DefaultTransport" {
		x.lazy++
		t := x.globType("net/http", "Transport")
		id := st.alloc(&Obj{T: t, Val: x.freshVal(st, t, "DefaultTransport"), Name: "DefaultTransport"})
		val = &IfaceV{Dyn: types.NewPointer(t), V: &PtrV{Obj: id, Elem: t}}
		x.lazy--
	} else {
		x.lazy++
		val = x.freshVal(st, et, "global_"+name)
		x.lazy--
	}
	x.lazy++
	id := st.alloc(&Obj{T: et, Val: val, Name: name, Kind: "global"})
	x.lazy--
	x.initGlob[g] = id
	return &PtrV{Obj: id, Elem: et}
}

// sentinel is the error value of a package-level error variable.
func (x *Exec) sentinel(name string) Value {
	id := x.c.Var("@err:"+name, x.c.Any)
	if v, ok := x.anyOf[id]; ok {
		return v
	}
	e := &ErrObj{ID: id, Msg: x.c.Var("msg:"+name, x.c.Str), Name: name}
	x.anyOf[id] = e
	return e
}

// load reads through any pointer value.
func (x *Exec) load(st *State, p Value, t types.Type) Value {
	switch q := p.(type) {
	case *PtrV:
		x.nonNil(st, q, "dereference"+x.where())
		return x.loadPtr(st, q, t)
	case *BoxPtr:
		x.nonNil(st, q, "dereference"+x.where())
		return x.fromTerm(st, x.c.Val(q.Opt), q.Elem)
	case *boxField:
		return x.loadBoxField(st, q)
	case *OpaqueV:
		o := st.obj(q.Obj)
		if o.Val != nil {
			return o.Val
		}
	}
	x.unsupported(st, fmt.Sprintf("load through %T", p))
	return nil
}

func (x *Exec) store(st *State, p, v Value) {
	switch q := p.(type) {
	case *PtrV:
		x.nonNil(st, q, "store"+x.where())
		x.storePtr(st, q, v)
		return
	case *BoxPtr:
		x.nonNil(st, q, "store"+x.where())
		if q.Row {
			x.violate(st, "frozen", "write to a task that is stored in the database"+x.where())
			panic(deadPath{})
		}
		x.unsupported(st, "write through an immutable reference")
	case *boxField:
		if q.B.Row {
			x.violate(st, "frozen", "write to a task that is stored in the database"+x.where())
			panic(deadPath{})
		}
		if q.B.Arg != "" {
			x.violate(st, "frozen", "write to the argument "+q.B.Arg+", which belongs to the caller"+x.where())
			panic(deadPath{})
		}
		x.unsupported(st, "write through an immutable reference")
	}
	x.unsupported(st, fmt.Sprintf("store through %T", p))
}

func (x *Exec) fieldAddr(st *State, p Value, i int, t types.Type) Value {
	switch q := p.(type) {
	case *PtrV:
		x.nonNil(st, q, "field access"+x.where())
		return &PtrV{Obj: q.Obj, Path: append(append([]PathElem{}, q.Path...), PathElem{Kind: 'f', N: i}), Elem: t}
	case *BoxPtr:
		x.nonNil(st, q, "field access"+x.where())
		return &boxField{q, []int{i}, t}
	case *boxField:
		return &boxField{q.B, append(append([]int{}, q.F...), i), t}
	}
	x.unsupported(st, fmt.Sprintf("field address of %T", p))
	return nil
}

// boxField is the address of a field of an immutable value.
type boxField struct {
	B *BoxPtr
	F []int
	T types.Type
}

func (x *Exec) loadBoxField(st *State, q *boxField) Value {
	v := x.fromTerm(st, x.c.Val(q.B.Opt), q.B.Elem)
	for _, i := range q.F {
		s, ok := v.(*StructV)
		if !ok {
			x.unsupported(st, "field of immutable value")
		}
		v = x.field(st, s, i)
	}
	return v
}

func (x *Exec) evalInstr(st *State, fr *Frame, ins ssa.Instruction) Value {
	c := x.c
	switch v := ins.(type) {
	case *ssa.Alloc:
		et := deref(v.Type())
		id := st.alloc(&Obj{T: et, Val: x.allocVal(st, et), Name: v.Comment})
		return &PtrV{Obj: id, Elem: et}
	case *ssa.BinOp:
		return x.binop(st, v.Op, x.val(st, fr, v.X), x.val(st, fr, v.Y), v.X.Type(), v.Type())
	case *ssa.UnOp:
		a := x.val(st, fr, v.X)
		switch v.Op {
		case token.MUL:
			return x.load(st, a, v.Type())
		case token.NOT:
			return c.Not(a.(*Term))
		case token.SUB:
			t := a.(*Term)
			if t.Sort == c.Real {
				return c.Sub(x.ratInt(0), t)
			}
			return c.Neg(t)
		case token.XOR:
			if _, isInt := a.(*Term); isInt {
				return c.Sub(c.IntV(-1), a.(*Term))
			}
		case token.ARROW:
			x.unsupported(st, "channel receive")
		}
	case *ssa.ChangeType:
		r := x.val(st, fr, v.X)
		return x.retype(r, v.Type())
	case *ssa.ChangeInterface:
		return x.val(st, fr, v.X)
	case *ssa.Convert:
		return x.convert(st, x.val(st, fr, v.X), v.X.Type(), v.Type())
	case *ssa.MultiConvert:
		return x.convert(st, x.val(st, fr, v.X), v.X.Type(), v.Type())
	case *ssa.MakeInterface:
		a := x.val(st, fr, v.X)
		return &IfaceV{Dyn: v.X.Type(), V: a}
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range v.Bindings {
			bs = append(bs, x.val(st, fr, b))
		}
		return &FuncV{Fn: v.Fn.(*ssa.Function), Bind: bs}
	case *ssa.MakeMap:
		id := st.alloc(&Obj{T: v.Type(), Kind: "map"})
		return &MapV{Obj: id, T: v.Type()}
	case *ssa.MakeChan:
		n := x.val(st, fr, v.Size).(*Term)
		return x.makeChan(st, v.Type(), n, v.Name())
	case *ssa.MakeSlice:
		return x.makeSlice(st, v.Type(), x.val(st, fr, v.Len).(*Term), x.val(st, fr, v.Cap).(*Term))
	case *ssa.Slice:
		return x.slice(st, fr, v)
	case *ssa.FieldAddr:
		p := x.val(st, fr, v.X)
		return x.fieldAddr(st, p, v.Field, deref(v.Type()))
	case *ssa.Field:
		s, ok := x.val(st, fr, v.X).(*StructV)
		if !ok {
			break
		}
		return x.field(st, s, v.Field)
	case *ssa.IndexAddr:
		return x.indexAddr(st, x.val(st, fr, v.X), x.val(st, fr, v.Index).(*Term), deref(v.Type()))
	case *ssa.Index:
		a := x.val(st, fr, v.X)
		i := x.val(st, fr, v.Index).(*Term)
		if s, ok := a.(*Term); ok && s.Sort == c.Str {
			x.bounds(st, i, c.SLen(s))
			return x.charAt(st, s, i)
		}
		if av, ok := a.(*ArrayV); ok {
			x.bounds(st, i, c.IntV(int64(len(av.E))))
			return x.pickElem(st, av.E, i)
		}
	case *ssa.Range:
		return x.rangeInit(st, x.val(st, fr, v.X))
	case *ssa.Next:
		return x.rangeNext(st, fr, v)
	case *ssa.Extract:
		tv, ok := x.val(st, fr, v.Tuple).(TupleV)
		if ok && v.Index < len(tv) {
			return tv[v.Index]
		}
	}
	x.unsupported(st, fmt.Sprintf("instruction %T %s", ins, ins))
	return nil
}

// allocVal is the zero value of a newly allocated variable; modelled library
// types keep their state in ghost cells of the object.
func (x *Exec) allocVal(st *State, t types.Type) Value { return x.zero(st, t) }

func (x *Exec) retype(v Value, t types.Type) Value {
	switch s := v.(type) {
	case *StructV:
		n := *s
		n.T = t
		return &n
	case *SliceV:
		n := *s
		n.T = t
		return &n
	case *MapV:
		n := *s
		n.T = t
		return &n
	}
	return v
}

func (x *Exec) charAt(st *State, s, i *Term) *Term {
	c := x.c
	if s.Op == OStr && i.Op == OInt && i.I.IsInt64() {
		k := i.I.Int64()
		if k >= 0 && k < int64(len(s.Name)) {
			return c.IntV(int64(s.Name[k]))
		}
	}
	r := c.App("charat", c.Int, s, i)
	if s.Op == OStr && len(s.Name) <= 128 {
		// finite table
		t := c.IntV(0)
		for k := len(s.Name) - 1; k >= 0; k-- {
			t = c.Ite(c.Eq(i, c.IntV(int64(k))), c.IntV(int64(s.Name[k])), t)
		}
		return t
	}
	st.assume(c.And(c.Le(c.IntV(0), r), c.Le(r, c.IntV(255))))
	return r
}

func (x *Exec) pickElem(st *State, es []Value, i *Term) Value {
	if i.Op == OInt {
		return es[i.I.Int64()]
	}
	var r *Term
	for k := len(es) - 1; k >= 0; k-- {
		t, ok := es[k].(*Term)
		if !ok {
			x.unsupported(st, "symbolic index into array of non-scalars")
		}
		if r == nil {
			r = t
		} else {
			r = x.c.Ite(x.c.Eq(i, x.c.IntV(int64(k))), t, r)
		}
	}
	if r == nil {
		x.unsupported(st, "index into empty array")
	}
	return r
}

func (x *Exec) bounds(st *State, i, n *Term) {
	c := x.c
	g := c.And(c.Le(c.IntV(0), i), c.Lt(i, n))
	x.oblige(st, "panic-free", g, "index in bounds"+x.where())
	if g == c.False {
		panic(deadPath{})
	}
	st.assume(g)
}

func (x *Exec) indexAddr(st *State, a Value, i *Term, et types.Type) Value {
	c := x.c
	switch s := a.(type) {
	case *SliceV:
		x.bounds(st, i, s.Len)
		if s.Obj == 0 {
			panic(deadPath{})
		}
		o := st.obj(s.Obj)
		k := c.Add(s.Off, i)
		if o.Arr != nil {
			return &PtrV{Obj: s.Obj, Path: []PathElem{{Kind: 's', Idx: k}}, Elem: et}
		}
		if k.Op == OInt {
			return &PtrV{Obj: s.Obj, Path: []PathElem{{Kind: 'i', N: int(k.I.Int64())}}, Elem: et}
		}
		x.symbolize(st, s)
		return &PtrV{Obj: s.Obj, Path: []PathElem{{Kind: 's', Idx: k}}, Elem: et}
	case *PtrV: // pointer to array
		x.nonNil(st, s, "index")
		o := st.obj(s.Obj)
		at, ok := s.Elem.Underlying().(*types.Array)
		if ok && o.Arr == nil {
			x.bounds(st, i, c.IntV(at.Len()))
			if i.Op == OInt {
				return &PtrV{Obj: s.Obj, Path: append(append([]PathElem{}, s.Path...), PathElem{Kind: 'i', N: int(i.I.Int64())}), Elem: et}
			}
		}
	}
	x.unsupported(st, fmt.Sprintf("index address of %T", a))
	return nil
}

// symbolize turns the backing store of a slice into a symbolic array.
func (x *Exec) symbolize(st *State, s *SliceV) {
	o := st.obj(s.Obj)
	if o.Arr != nil {
		return
	}
	av, ok := o.Val.(*ArrayV)
	if !ok {
		x.unsupported(st, "symbolize slice")
	}
	et := av.T.Underlying().(*types.Array).Elem()
	es := x.sortOf(et)
	if es == nil {
		x.unsupported(st, "symbolic index into slice of "+et.String())
	}
	c := x.c
	arr := c.Var("noarr_"+es.Name, c.ArrSort(c.Int, es))
	for k, e := range av.E {
		arr = c.Store(arr, c.IntV(int64(k)), x.toTerm(st, e, et, true))
	}
	n := st.mut(s.Obj)
	n.Arr, n.ElemT, n.Val = arr, et, nil
}

func (x *Exec) makeSlice(st *State, t types.Type, n, k *Term) Value {
	c := x.c
	et := t.Underlying().(*types.Slice).Elem()
	x.oblige(st, "panic-free", c.And(c.Le(c.IntV(0), n), c.Le(n, k)), "make with valid length")
	if n.Op == OInt && n.I.IsInt64() && n.I.Int64() <= 256 {
		m := n.I.Int64()
		a := &ArrayV{T: types.NewArray(et, m), E: make([]Value, m)}
		for i := range a.E {
			a.E[i] = x.zero(st, et)
		}
		id := st.alloc(&Obj{T: a.T, Val: a})
		return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, T: t}
	}
	es := x.sortOf(et)
	if es == nil {
		// contents of opaque elements are not tracked
		es = c.Any
		id := st.alloc(&Obj{T: t, Arr: c.Fresh("mk", c.ArrSort(c.Int, es)), ElemT: et, Kind: "opaque-elems"})
		return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, T: t}
	}
	z := x.toTerm(st, x.zero(st, et), et, false)
	id := st.alloc(&Obj{T: t, Arr: c.ConstArr(c.ArrSort(c.Int, es), z), ElemT: et})
	return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, T: t}
}

func (x *Exec) slice(st *State, fr *Frame, v *ssa.Slice) Value {
	c := x.c
	a := x.val(st, fr, v.X)
	get := func(o ssa.Value, d *Term) *Term {
		if o == nil {
			return d
		}
		return x.val(st, fr, o).(*Term)
	}
	switch s := a.(type) {
	case *PtrV: // array pointer
		x.nonNil(st, s, "slice")
		at := s.Elem.Underlying().(*types.Array)
		n := c.IntV(at.Len())
		lo, hi := get(v.Low, c.IntV(0)), get(v.High, n)
		x.oblige(st, "panic-free", c.And(c.Le(c.IntV(0), lo), c.Le(lo, hi), c.Le(hi, n)), "slice bounds"+x.where())
		obj := s.Obj
		if len(s.Path) > 0 {
			x.unsupported(st, "slice of nested array")
		}
		return &SliceV{Obj: obj, Off: lo, Len: c.Sub(hi, lo), Cap: c.Sub(n, lo), T: v.Type()}
	case *SliceV:
		lo, hi := get(v.Low, c.IntV(0)), get(v.High, s.Len)
		x.oblige(st, "panic-free", c.And(c.Le(c.IntV(0), lo), c.Le(lo, hi), c.Le(hi, s.Cap)), "slice bounds"+x.where())
		st.assume(c.And(c.Le(c.IntV(0), lo), c.Le(lo, hi), c.Le(hi, s.Cap)))
		if s.Obj == 0 {
			return s
		}
		return &SliceV{Obj: s.Obj, Off: c.Add(s.Off, lo), Len: c.Sub(hi, lo), Cap: c.Sub(s.Cap, lo), Nil: s.Nil, T: v.Type()}
	case *Term:
		lo, hi := get(v.Low, c.IntV(0)), get(v.High, c.SLen(s))
		x.oblige(st, "panic-free", c.And(c.Le(c.IntV(0), lo), c.Le(lo, hi), c.Le(hi, c.SLen(s))), "string slice bounds"+x.where())
		if lo == c.IntV(0) && hi == c.SLen(s) {
			return s
		}
		if s.Op == OStr && lo.Op == OInt && hi.Op == OInt && lo.I.Sign() >= 0 && hi.I.Int64() <= int64(len(s.Name)) && lo.I.Cmp(hi.I) <= 0 {
			return c.StrV(s.Name[lo.I.Int64():hi.I.Int64()])
		}
		r := c.App("substr", c.Str, s, lo, hi)
		st.assume(c.Eq(c.SLen(r), c.Sub(hi, lo)))
		return r
	}
	x.unsupported(st, fmt.Sprintf("slice of %T", a))
	return nil
}

// productFacts assumes valid facts about products of two unknown factors.
func (x *Exec) productFacts(st *State, r *Term) {
	c := x.c
	if r.Op == OApp && r.Name == "rmul" && r.Args[1].Op == ORat {
		r = r.Args[0]
	}
	if r.Op != OApp || r.Name != "rmul" {
		return
	}
	z, one := x.ratInt(0), x.ratInt(1)
	for i := range r.Args {
		a, b := r.Args[i], r.Args[1-i]
		st.assume(c.Imp(c.And(c.Le(z, a), c.Le(z, b), c.Le(b, one)), c.And(c.Le(z, r), c.Le(r, a))))
	}
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, t, rt types.Type) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.equal(st, a, b, t)
	case token.NEQ:
		return c.Not(x.equal(st, a, b, t))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		x.unsupported(st, fmt.Sprintf("binary %s on %T", op, a))
	}
	if p.Sort == c.Str {
		switch op {
		case token.ADD:
			return c.Cat(p, q)
		case token.LSS:
			return c.Lt(c.SRank(p), c.SRank(q))
		case token.LEQ:
			return c.Le(c.SRank(p), c.SRank(q))
		case token.GTR:
			return c.Lt(c.SRank(q), c.SRank(p))
		case token.GEQ:
			return c.Le(c.SRank(q), c.SRank(p))
		}
	}
	switch op {
	case token.ADD:
		return c.Add(p, q)
	case token.SUB:
		return c.Sub(p, q)
	case token.MUL:
		r := c.Mul(p, q)
		if p.Sort == c.Real {
			x.productFacts(st, r)
		}
		return r
	case token.LSS:
		return c.Lt(p, q)
	case token.LEQ:
		return c.Le(p, q)
	case token.GTR:
		return c.Lt(q, p)
	case token.GEQ:
		return c.Le(q, p)
	}
	if p.Sort == c.Bool {
		switch op {
		case token.AND, token.LAND:
			return c.And(p, q)
		case token.OR, token.LOR:
			return c.Or(p, q)
		}
	}
	if p.Sort == c.Real && op == token.QUO {
		return c.App("rdiv", c.Real, p, q)
	}
	if p.Sort == c.Int {
		return x.intOp(st, op, p, q, rt)
	}
	x.unsupported(st, "operator "+op.String())
	return nil
}

func pow2(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// intOp models the remaining integer operators on mathematical integers.
func (x *Exec) intOp(st *State, op token.Token, p, q *Term, t types.Type) *Term {
	c := x.c
	lit := func(t *Term) (int64, bool) {
		if t.Op == OInt && t.I.IsInt64() {
			return t.I.Int64(), true
		}
		return 0, false
	}
	pl, pok := lit(p)
	ql, qok := lit(q)
	nonneg := func(t *Term) bool { return x.must(st, c.Le(c.IntV(0), t)) }
	switch op {
	case token.QUO, token.REM:
		x.oblige(st, "panic-free", c.Not(c.Eq(q, c.IntV(0))), "division by zero"+x.where())
		if pok && qok && ql != 0 {
			if op == token.QUO {
				return c.IntV(pl / ql)
			}
			return c.IntV(pl % ql)
		}
		if qok && ql > 0 {
			k := big.NewInt(ql)
			fl := c.Div(p, k)
			var quo *Term
			if nonneg(p) {
				quo = fl
			} else {
				quo = c.Ite(c.Le(c.IntV(0), p), fl, c.Neg(c.Div(c.Neg(p), k)))
			}
			if op == token.QUO {
				return quo
			}
			return c.Sub(p, c.Mul(q, quo))
		}
		return c.App("int_"+map[token.Token]string{token.QUO: "quo", token.REM: "rem"}[op], c.Int, p, q)
	case token.SHL:
		if qok && ql >= 0 && ql < 63 {
			return c.Mul(p, c.BigV(pow2(ql)))
		}
	case token.SHR:
		if qok && ql >= 0 && ql < 63 {
			return c.Div(p, pow2(ql))
		}
	case token.AND:
		if pok {
			p, q, pl, ql, pok, qok = q, p, ql, pl, qok, pok
		}
		if pok && qok {
			return c.IntV(pl & ql)
		}
		if qok && ql >= 0 && (ql&(ql+1)) == 0 {
			return c.Mod(p, big.NewInt(ql+1))
		}
	case token.XOR:
		if pok {
			p, q, pl, ql, pok, qok = q, p, ql, pl, qok, pok
		}
		if pok && qok {
			return c.IntV(pl ^ ql)
		}
		if q.Op == OInt && q.I.Cmp(new(big.Int).Neg(pow2(63))) == 0 {
			// flip the sign bit of a 64-bit integer
			m := c.BigV(pow2(63))
			return c.Ite(c.Le(c.IntV(0), p), c.Sub(p, m), c.Add(p, m))
		}
	}
	name := map[token.Token]string{token.SHL: "shl", token.SHR: "shr", token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.AND_NOT: "bandnot"}[op]
	if name == "" {
		x.unsupported(st, "integer operator "+op.String())
	}
	return c.App("int_"+name, c.Int, p, q)
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	fs, ts := x.scalarSort(from), x.scalarSort(to)
	if fs != nil && ts != nil {
		t := v.(*Term)
		if fs == ts {
			if fs == c.Int {
				return x.intConv(st, t, from, to)
			}
			return t
		}
		if fs == c.Int && ts == c.Real {
			if t.Op == OInt {
				return c.RatV(new(big.Rat).SetInt(t.I))
			}
			return c.App("toreal", c.Real, t)
		}
		if fs == c.Real && ts == c.Int {
			r := c.App("trunc", c.Int, t)
			z, one := x.ratInt(0), x.ratInt(1)
			rr := c.App("toreal", c.Real, r)
			st.assume(c.Imp(c.Le(z, t), c.And(c.Le(rr, t), c.Lt(t, c.Add(rr, one)))))
			st.assume(c.Imp(c.Le(t, z), c.And(c.Le(t, rr), c.Lt(c.Sub(rr, one), t))))
			return r
		}
		if fs == c.Int && ts == c.Str {
			return c.App("runestr", c.Str, t)
		}
	}
	// []byte <-> string
	if fs == nil && ts == c.Str {
		if s, ok := v.(*SliceV); ok {
			return x.bytesToStr(st, s)
		}
	}
	if fs == c.Str && ts == nil {
		return x.strToBytes(st, v.(*Term), to)
	}
	if fs == nil && ts == nil {
		return x.retype(v, to)
	}
	x.unsupported(st, fmt.Sprintf("conversion %s to %s", from, to))
	return nil
}

func intWidth(t types.Type) (bits int64, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func (x *Exec) intConv(st *State, t *Term, from, to types.Type) *Term {
	c := x.c
	fb, fsg := intWidth(from)
	tb, tsg := intWidth(to)
	if (fsg == tsg && tb >= fb) || (!fsg && tsg && tb > fb) {
		return t
	}
	// reduce modulo 2^tb into the target range
	m := pow2(tb)
	if tsg {
		h := c.BigV(pow2(tb - 1))
		lo := c.Neg(h)
		in := c.And(c.Le(lo, t), c.Lt(t, h))
		if x.must(st, in) {
			return t
		}
		return c.Sub(c.Mod(c.Add(t, h), m), h)
	}
	in := c.And(c.Le(c.IntV(0), t), c.Lt(t, c.BigV(m)))
	if x.must(st, in) {
		return t
	}
	if tb == 8 && fb == 64 {
		if b := x.byteOf(st, t); b != nil {
			return b
		}
	}
	return c.Mod(t, m)
}

func (x *Exec) bytesToStr(st *State, s *SliceV) Value {
	c := x.c
	if s.Obj == 0 {
		return c.StrV("")
	}
	if o := st.obj(s.Obj); o.G != nil {
		if b, ok := o.G["bytesof"].(*Term); ok && s.Off == c.IntV(0) {
			return b
		}
	}
	arr := x.sliceArr(st, s, false)
	r := c.App("bytestr", c.Str, arr, s.Len)
	st.assume(c.Eq(c.SLen(r), s.Len))
	return r
}

func (x *Exec) strToBytes(st *State, s *Term, t types.Type) Value {
	c := x.c
	n := c.SLen(s)
	st.assume(c.Le(c.IntV(0), n))
	id := st.alloc(&Obj{T: t, Arr: c.App("strbytes", c.ArrSort(c.Int, c.Int), s), ElemT: t.Underlying().(*types.Slice).Elem(), G: map[string]Value{"bytesof": s}})
	return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, T: t}
}

// --- type assertions ---

func (x *Exec) typeAssert(st *State, fr *Frame, v *ssa.TypeAssert, k func(*State, *Frame) []*Outcome) []*Outcome {
	c := x.c
	a := x.val(st, fr, v.X)
	set := func(s *State, f *Frame, val Value, ok bool) []*Outcome {
		if v.CommaOk {
			if val == nil {
				val = x.zero(s, v.AssertedType)
			}
			f.regs[v] = TupleV{val, c.BoolV(ok)}
		} else {
			if !ok {
				x.oblige(s, "panic-free", c.False, "type assertion to "+v.AssertedType.String()+x.where())
				return nil
			}
			f.regs[v] = val
		}
		return k(s, f)
	}
	isIface := types.IsInterface(v.AssertedType)
	switch i := a.(type) {
	case *IfaceV:
		match := false
		if i.Dyn != nil {
			if isIface {
				match = types.Implements(i.Dyn, v.AssertedType.Underlying().(*types.Interface))
			} else {
				match = types.Identical(i.Dyn, v.AssertedType)
			}
		}
		nilc := x.isNil(st, i)
		if !match {
			return set(st, fr, nil, false)
		}
		val := i.V
		if isIface {
			val = &IfaceV{Dyn: i.Dyn, V: i.V}
		}
		return x.fork(st, fr, nilc, func(s *State, f *Frame) []*Outcome {
			return set(s, f, nil, false)
		}, func(s *State, f *Frame) []*Outcome {
			return set(s, f, val, true)
		})
	case *ErrObj:
		if isIface {
			it := v.AssertedType.Underlying().(*types.Interface)
			if it.NumMethods() == 0 || isErrorType(v.AssertedType) {
				return set(st, fr, i, true)
			}
		}
		return set(st, fr, nil, false)
	case *SymIface:
		if isIface {
			it := v.AssertedType.Underlying().(*types.Interface)
			if it.NumMethods() == 0 || types.Identical(i.St, v.AssertedType) {
				return x.fork(st, fr, x.isNil(st, i), func(s *State, f *Frame) []*Outcome { return set(s, f, nil, false) },
					func(s *State, f *Frame) []*Outcome { return set(s, f, &SymIface{T: i.T, St: v.AssertedType}, true) })
			}
		}
		cond := c.And(c.Not(c.Eq(i.T, c.Nil())), c.App("istype_"+sanitize(typeName(v.AssertedType)), c.Bool, i.T))
		return x.fork(st, fr, cond, func(s *State, f *Frame) []*Outcome {
			if isIface {
				return set(s, f, &SymIface{T: i.T, St: v.AssertedType}, true)
			}
			s.assume(c.Eq(c.App("refl_kind", c.Int, i.T), c.IntV(int64(reflKind(v.AssertedType)))))
			if so := x.sortOf(v.AssertedType); so != nil {
				tm := c.App("as_"+sanitize(typeName(v.AssertedType)), so, i.T)
				return set(s, f, x.fromTerm(s, tm, v.AssertedType), true)
			}
			return set(s, f, x.freshVal(s, v.AssertedType, "as"), true)
		}, func(s *State, f *Frame) []*Outcome {
			return set(s, f, nil, false)
		})
	}
	x.unsupported(st, fmt.Sprintf("type assertion on %T", a))
	return nil
}

// --- calls ---

func (x *Exec) prepCall(st *State, fr *Frame, cc *ssa.CallCommon, d *deferred) {
	d.fv = x.val(st, fr, cc.Value)
	for _, a := range cc.Args {
		d.args = append(d.args, x.val(st, fr, a))
	}
}

func (x *Exec) doCall(st *State, fr *Frame, d *deferred) []*Outcome {
	cc := d.call
	if cc.IsInvoke() {
		return x.invoke(st, fr, d)
	}
	f, ok := d.fv.(*FuncV)
	if !ok {
		x.unsupported(st, fmt.Sprintf("call of %T", d.fv))
	}
	return x.callValue(st, fr, f, d.args, cc)
}

func (x *Exec) callValue(st *State, fr *Frame, f *FuncV, args []Value, cc *ssa.CallCommon) []*Outcome {
	if f.Nil {
		x.oblige(st, "panic-free", x.c.False, "call of a nil function"+x.where())
		return nil
	}
	if f.Sym != nil {
		return x.callSym(st, fr, f, args, cc)
	}
	if f.Fn != nil {
		return x.callStatic(st, fr, f.Fn, args, f.Bind, cc)
	}
	if strings.HasPrefix(f.Name, "builtin.") {
		return x.builtin(st, fr, strings.TrimPrefix(f.Name, "builtin."), args, cc)
	}
	if f.Recv != nil {
		args = append([]Value{f.Recv}, args...)
	}
	return x.intrinsic(st, fr, f.Name, args, cc)
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (x *Exec) inRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		if o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), x.repoMod)
		}
		if o.Object() != nil && o.Object().Pkg() != nil {
			return strings.HasPrefix(o.Object().Pkg().Path(), x.repoMod)
		}
		if o.Signature.Recv() != nil && f.Parent() == nil {
			// wrappers and bound methods
			if n, ok := types.Unalias(deref(o.Signature.Recv().Type())).(*types.Named); ok && n.Obj().Pkg() != nil {
				return strings.HasPrefix(n.Obj().Pkg().Path(), x.repoMod)
			}
		}
	}
	return false
}

func (x *Exec) callStatic(st *State, fr *Frame, fn *ssa.Function, args, bind []Value, cc *ssa.CallCommon) []*Outcome {
	name := fullName(fn)
	if out, ok := x.tryIntrinsic(st, fr, name, args, cc, fn); ok {
		return out
	}
	for _, g := range x.stack {
		if g == fn {
			return x.recursive(st, fr, fn, args, cc)
		}
	}
	if len(fn.Blocks) > 0 && (x.inRepo(fn) || inlineStd[pkgPath(fn)] || fn.Synthetic != "") {
		x.inlined[name] = true
		return x.callFunc(st, fr, fn, args, bind)
	}
	return x.external(st, fr, name, fn.Signature, args)
}

func pkgPath(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
		if f.Origin() != nil {
			f = f.Origin()
		}
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	return ""
}

// standard packages whose bodies are verified along with their callers
var inlineStd = map[string]bool{"slices": true, "maps": true, "cmp": true}

func (x *Exec) invoke(st *State, fr *Frame, d *deferred) []*Outcome {
	cc := d.call
	m := cc.Method
	recvT := cc.Value.Type()
	switch i := d.fv.(type) {
	case *IfaceV:
		if i.Dyn == nil {
			x.oblige(st, "panic-free", x.c.False, "method call on nil interface"+x.where())
			return nil
		}
		x.nonNil(st, i, "method call"+x.where())
		args := append([]Value{i.V}, d.args...)
		if o, ok := i.V.(*OpaqueV); ok {
			return x.intrinsic(st, fr, "("+typeName(i.Dyn)+")."+m.Name(), append([]Value{o}, d.args...), cc)
		}
		if fn := x.prog.prog.LookupMethod(i.Dyn, m.Pkg(), m.Name()); fn != nil {
			return x.callStatic(st, fr, fn, args, nil, cc)
		}
	case *ErrObj:
		if m.Name() == "Error" {
			return []*Outcome{{st: st, res: []Value{x.errMsg(st, i)}}}
		}
	case *SymIface:
		x.nonNil(st, i, "method call"+x.where())
		name := "(" + typeName(recvT) + ")." + m.Name()
		return x.intrinsic(st, fr, name, append([]Value{i}, d.args...), cc)
	case *OpaqueV:
		return x.intrinsic(st, fr, "("+typeName(recvT)+")."+m.Name(), append([]Value{i}, d.args...), cc)
	}
	x.unsupported(st, fmt.Sprintf("method %s on %T", m.Name(), d.fv))
	return nil
}

// external models a call to a function outside the repository for which there
// is no contract: arbitrary results, no effect on ghost state.
func (x *Exec) external(st *State, fr *Frame, name string, sig *types.Signature, args []Value) []*Outcome {
	for _, p := range noHavoc {
		if strings.Contains(name, p) {
			x.unsupported(st, "call to "+name+", for which there is no contract")
		}
	}
	x.havocd[name] = true
	// a function of scalars only is a mathematical function of its arguments
	pure := sig.Results().Len() >= 1
	var as []*Term
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok {
			pure = false
			_ = i
			break
		}
		as = append(as, t)
	}
	nondet := strings.HasPrefix(name, "math/rand") || strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "crypto/rand")
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		so := x.sortOf(t)
		if pure && !nondet && so != nil && len(as) > 0 {
			n := "fn_" + sanitize(name)
			if i > 0 {
				n = fmt.Sprintf("%s.%d", n, i)
			}
			res = append(res, x.fromTerm(st, x.c.App(n, so, as...), t))
		} else {
			res = append(res, x.freshVal(st, t, "r_"+sanitize(lastName(name))))
		}
	}
	// objects passed by reference may be changed
	for _, a := range args {
		x.havocArg(st, a)
	}
	return []*Outcome{{st: st, res: res}}
}

func lastName(n string) string {
	if i := strings.LastIndexAny(n, "./)"); i >= 0 {
		return n[i+1:]
	}
	return n
}

// calls into these libraries are never treated as effect-free
var noHavoc = []string{"github.com/hashicorp/go-memdb", "go.mongodb.org/", "github.com/gin-gonic/gin", "prometheus", "os.", "encoding/gob", "net/http", "os/signal", "errgroup"}

func (x *Exec) havocArg(st *State, a Value) {
	p, ok := a.(*PtrV)
	if i, ok2 := a.(*IfaceV); ok2 {
		p, ok = i.V.(*PtrV)
	}
	if !ok || p.Obj == 0 {
		return
	}
	o := st.obj(p.Obj)
	if o.Val == nil || len(p.Path) > 0 {
		return
	}
	if o.Kind == "global" {
		return
	}
	if _, isS := o.Val.(*StructV); isS && !x.repoType(o.T) {
		return
	}
	st.mut(p.Obj).Val = x.freshVal(st, o.T, "havoc")
}
