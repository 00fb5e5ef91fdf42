package main

// Initial states, package initialization, ghost variables and calls by contract.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newExec(p *Prog, u *Unit) *Exec {
	c := NewCtx()
	x := &Exec{c: c, s: NewSolver(c), prog: p, repoMod: p.mod, unit: u,
		sortMemo: map[string]*Sort{}, anyOf: map[*Term]Value{}, loops: map[*ssa.Function]*loopInfo{},
		initBase: map[int]*Obj{}, initGlob: map[*ssa.Global]int{},
		trusted: map[string]bool{}, havocd: map[string]bool{}, inlined: map[string]bool{}, visited: map[string]bool{},
		seqMemo: map[*Term]bool{}, contractedCalls: map[string]bool{}, usedInv: map[string]bool{}, dbAxDone: map[*Term]bool{},
		rowObj: map[int]bool{}, rowDone: map[rowKey]bool{}, recDone: map[recKey]bool{}, monoDone: map[string]bool{}, arrDef: map[*Term]func(*State, *Term){},
		quants: map[*Term][]quant{}, seqDefs: map[string]*seqInfo{}, unitVars: map[string]Value{}, initDone: map[*ssa.Package]bool{},
		onFired: map[string]bool{}, abstracted: map[string]bool{}, ctxParent: map[*Term]*Term{}, sigCtx: map[*Term]bool{}, mutNames: map[string]bool{}, vac: map[string]int{}, lazyMemo: map[lazyField]Value{}, lazyNames: map[string]int{}, structIDs: map[*StructV]int{}}
	return x
}

// freshState is a state before the operation starts.
func (x *Exec) freshState() *State {
	st := &State{x: x, base: x.initBase, heap: map[int]*Obj{}, pcset: map[*Term]bool{}, consts: map[string]Value{}}
	c := x.c
	if x.clockObj == 0 {
		x.lazy++
		x.clockObj = st.alloc(&Obj{Kind: "clock", G: map[string]Value{"now": c.Var("now0", c.Int)}})
		x.lazy--
	}
	return st
}

// withGhosts adds the ghost variables of an operation.
func (x *Exec) withGhosts(st *State) {
	if x.taskTypeOrNil() == nil {
		return
	}
	c := x.c
	x.ghostObj = st.alloc(&Obj{Kind: "ghost", G: map[string]Value{
		"db0": c.Var("DB0", x.dbSort()), "db1": nil, "committed": c.False, "txns": c.IntV(0), "snap": c.Var("DB0", x.dbSort()), "stable": c.True, "dberr": c.False, "flagenv": c.False,
		"seen": c.False, "first": c.Var("DB0", x.dbSort()), "hist": valueList{}, "mkeys": valueList{}}})
	st.gset(x.ghostObj, "db1", st.obj(x.ghostObj).G["db0"])
}

func (x *Exec) taskTypeOrNil() types.Type { return x.prog.typ(x.repoMod, "Task") }

func (x *Exec) ghostVar(st *State, name string) Value {
	if x.sysObj != 0 && st.heap[x.sysObj] != nil {
		if v := st.obj(x.sysObj).G[name]; v != nil {
			return v
		}
	}
	switch name {
	case "db0", "db1", "txns", "committed", "snap", "stable", "dberr", "flagenv":
		if x.ghostObj != 0 {
			return st.obj(x.ghostObj).G[name]
		}
	case "now0":
		return x.c.Var("now0", x.c.Int)
	case "now1":
		return st.gterm(x.clockObj, "now")
	}
	return nil
}

// initGlobal gives a package variable the value established by package
// initialization, if it is not assigned elsewhere.
func (x *Exec) initGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), x.repoMod) || x.prog.written[g] {
		return false
	}
	if x.initPhase {
		// a variable read or assigned during initialization
		st := &State{x: x, base: x.initBase, heap: map[int]*Obj{}, pcset: map[*Term]bool{}}
		x.lazy++
		x.initGlob[g] = st.alloc(&Obj{T: deref(g.Type()), Val: x.zero(st, deref(g.Type())), Name: g.String(), Kind: "global"})
		x.lazy--
		return true
	}
	if x.initDone[g.Pkg] {
		return false
	}
	x.initDone[g.Pkg] = true
	fn := g.Pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	x.runInit(g.Pkg, fn)
	_, ok := x.initGlob[g]
	return ok
}

// runInit executes the initializer of a package, instruction by instruction,
// skipping those that are out of reach; the variables that depend on them are
// left arbitrary.
func (x *Exec) runInit(pkg *ssa.Package, fn *ssa.Function) {
	st := &State{x: x, base: x.initBase, heap: map[int]*Obj{}, pcset: map[*Term]bool{}, consts: map[string]Value{}}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, unroll: map[*ssa.BasicBlock]int{}}
	lz := x.lazy
	x.lazy = 0
	x.initPhase = true
	x.mute++
	tainted := map[*ssa.Global]bool{}
	step := func(ins ssa.Instruction) (ok bool) {
		depth := len(x.stack)
		l0, m0 := x.lazy, x.mute
		defer func() {
			if r := recover(); r != nil {
				switch u := r.(type) {
				case unsup:
					if os.Getenv("GOVC_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "INIT", pkg.Pkg.Path(), u.msg)
					}
				case deadPath:
				default:
					panic(r)
				}
				x.stack = x.stack[:depth]
				x.lazy, x.mute = l0, m0
				ok = false
			}
		}()
		switch v := ins.(type) {
		case *ssa.Store:
			x.store(st, x.val(st, fr, v.Addr), x.val(st, fr, v.Val))
		case *ssa.MapUpdate:
			m := x.val(st, fr, v.Map).(*MapV)
			x.mapSet(st, m, x.val(st, fr, v.Key), x.val(st, fr, v.Value))
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && f.Synthetic == "package initializer" {
				return true
			}
			d := &deferred{call: &v.Call}
			x.prepCall(st, fr, &v.Call, d)
			outs := x.doCall(st, fr, d)
			if len(outs) != 1 {
				return false
			}
			st = outs[0].st
			x.setRes(fr, v, outs[0].res)
		case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.DebugRef:
		default:
			if val, isV := ins.(ssa.Value); isV {
				fr.regs[val] = x.evalInstr(st, fr, ins)
			} else {
				return false
			}
		}
		return true
	}
	root := func(v ssa.Value) *ssa.Global {
		for {
			switch a := v.(type) {
			case *ssa.Global:
				return a
			case *ssa.FieldAddr:
				v = a.X
			case *ssa.IndexAddr:
				v = a.X
			default:
				return nil
			}
		}
	}
	// only straight-line initializers are executed: guard block, body, done
	blocks := fn.Blocks
	for _, b := range blocks {
		straight := len(b.Preds) <= 1 || b.Instrs[len(b.Instrs)-1] != nil
		if b == blocks[0] {
			continue
		}
		for _, ins := range b.Instrs {
			ok := straight && step(ins)
			if !ok {
				if s, isS := ins.(*ssa.Store); isS {
					if g := root(s.Addr); g != nil {
						tainted[g] = true
					}
				}
			}
		}
	}
	x.mute--
	x.initPhase = false
	x.lazy = lz
	for id, o := range st.heap {
		x.initBase[id] = o
	}
	x.global = append(x.global, st.pc...)
	for g := range tainted {
		delete(x.initGlob, g)
	}
}

// freshOpaque creates symbolic instances of modelled library types.
func (x *Exec) freshOpaque(st *State, elem types.Type, name string) Value {
	if f, ok := opaqueTypes[typeName(elem)]; ok {
		return f(x, st, elem, name)
	}
	return nil
}

var opaqueTypes = map[string]func(x *Exec, st *State, elem types.Type, name string) Value{
	memdbPkg + ".MemDB": func(x *Exec, st *State, elem types.Type, name string) Value {
		db := x.newDB(st, name, x.c.Fresh("DBcur", x.dbSort()))
		o := st.obj(db.Obj) // freshly allocated
		o.G["nil"] = x.c.Fresh("isnil_"+name, x.c.Bool)
		return db
	},
}

// applyContract replaces a call by the contract of the callee.
func (x *Exec) applyContract(st *State, fr *Frame, ct *Contract, fn *ssa.Function, sig *types.Signature, args []Value) []*Outcome {
	x.contractedCalls[ct.Fn] = true
	env := &Env{vars: map[string]Value{}, st: st}
	env.ghost = func(name string) Value { return x.ghostVar(st, name) }
	for i, n := range ct.Params {
		if i < len(args) {
			env.vars[n] = args[i]
		}
	}
	for _, r := range ct.Requires {
		if r.Name == "assume" {
			continue
		}
		x.oblige(st, "precondition", x.evalBool(env, r.Expr), "precondition of "+ct.Short+": "+r.Src+x.where())
	}
	start := st.gterm(x.clockObj, "now")
	if x.sysObj != 0 && ct.Opts["event"] != "" {
		x.now(st)
	}
	env.old = st.clone()
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		n := fmt.Sprintf("r%d", i)
		if i < len(ct.Results) {
			n = ct.Results[i]
		}
		v := x.freshVal(st, sig.Results().At(i).Type(), ct.Short+"."+n)
		res = append(res, v)
		env.vars[n] = v
	}
	for _, e := range ct.Ensures {
		st.assume(x.evalBool(env, e.Expr))
	}
	for _, e := range ct.Defines {
		st.assume(x.evalBool(env, e.Expr))
	}
	if ct.Opts["event"] != "" {
		// the contents of the arguments at the time of the call
		data := map[string]Value{"start": start, "end": st.gterm(x.clockObj, "now")}
		for n, v := range env.vars {
			data[n] = v
		}
		for i, n := range ct.Params {
			j := i
			if sig.Recv() == nil && i > 0 || sig.Recv() != nil && len(ct.Params) == sig.Params().Len()+1 {
				j = i - 1
			}
			if i < len(args) && j >= 0 && j < sig.Params().Len() {
				data[n] = x.snapshot(st, args[i], sig.Params().At(j).Type())
			}
		}
		x.emit(st, &Event{Kind: ct.Opts["event"], Args: args, Data: data})
	}
	return []*Outcome{{st: st, res: res}}
}

// recursive calls are replaced by the contract of the function.
func (x *Exec) recursive(st *State, fr *Frame, fn *ssa.Function, args []Value, cc *ssa.CallCommon) []*Outcome {
	if ct := x.prog.contracts[fullName(fn)]; ct != nil {
		if x.mongoUnit() {
			return x.mongoRecursive(st, fr, ct, fn, args)
		}
		return x.applyContract(st, fr, ct, fn, fn.Signature, args)
	}
	x.unsupported(st, "recursive call of "+fn.String()+" without a contract")
	return nil
}
