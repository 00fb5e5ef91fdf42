package main

// govc: contract-based deductive verification of the functions of a Go module.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type exit struct {
	st  *State
	res []Value
}

type OblOut struct {
	Name   string   `json:"name"`
	Props  []string `json:"props"`
	Desc   string   `json:"desc"`
	Status string   `json:"status"`
	Model  string   `json:"model,omitempty"`
	Note   []string `json:"note,omitempty"`
	same   *OblOut
}

type UnitOut struct {
	Unit       string         `json:"unit"`
	Func       string         `json:"func"`
	Obls       []*OblOut      `json:"obligations"`
	Paths      int            `json:"paths"`
	Feasible   int            `json:"feasible_exits"`
	Trivial    int            `json:"syntactic"`
	Loops      int            `json:"loops_cut"`
	Invariants []string       `json:"invariants,omitempty"`
	Trusted    []string       `json:"library_contracts,omitempty"`
	Havocked   []string       `json:"unspecified_callees,omitempty"`
	Inlined    []string       `json:"inlined,omitempty"`
	ByContract []string       `json:"by_contract,omitempty"`
	Assumed    []string       `json:"requires,omitempty"`
	Assumes    []string       `json:"assumptions,omitempty"`
	Solver     float64        `json:"solver_s"`
	Queries    int            `json:"queries"`
	By         map[string]int `json:"decided_by,omitempty"`
	Wall       float64        `json:"wall_s"`
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (x *Exec) param(st *State, t types.Type, name string) Value {
	ct := x.unit.ct
	mut := false
	for _, n := range strings.Split(ct.Opts["mut"], ",") {
		if strings.TrimSpace(n) == name {
			mut = true
		}
	}
	if mut {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			id := st.alloc(&Obj{T: p.Elem(), Val: x.freshVal(st, p.Elem(), name), Caller: true, Name: name})
			return &PtrV{Obj: id, Elem: p.Elem(), Nil: x.c.Fresh("isnil_"+name, x.c.Bool)}
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			return x.freshSlice(st, t, name, true)
		}
	}
	v := x.freshVal(st, t, name)
	if b, ok := v.(*BoxPtr); ok {
		b.Arg = name
	}
	return v
}

func (x *Exec) run() (out *UnitOut) {
	u := x.unit
	t0 := time.Now()
	out = &UnitOut{Unit: u.Name, Func: u.target}
	defer func() {
		out.Wall = time.Since(t0).Seconds()
		out.Solver = x.s.Time.Seconds()
		out.Queries = x.s.Queries
		out.By = x.s.By
		out.Trivial = u.trivial
		out.Loops = x.loopsProved
		out.Invariants = keysOf(x.usedInv)
		out.Trusted = keysOf(x.trusted)
		out.Havocked = keysOf(x.havocd)
		out.Inlined = keysOf(x.inlined)
		out.ByContract = keysOf(x.contractedCalls)
		out.Assumes = keysOf(x.assumed)
		for _, r := range u.ct.Requires {
			out.Assumed = append(out.Assumed, strings.TrimPrefix(r.Name+" "+r.Src, "requires "))
		}
		for _, r := range u.ct.Trusts {
			out.Assumed = append(out.Assumed, "after "+r.Kind+": "+r.Src)
		}
		x.s.Close()
	}()
	fail := func(kind, msg string) {
		ps := u.propsFor("supported")
		if len(ps) > 0 {
			out.Obls = append(out.Obls, &OblOut{Name: u.Name + "/" + kind, Props: ps, Desc: msg, Status: "failed"})
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if us, ok := r.(unsup); ok {
				fail("supported", us.msg)
				return
			}
			panic(r)
		}
	}()
	if u.fn == nil {
		fail("supported", "function "+u.target+" not found in the source")
		return
	}
	if len(u.ct.Params) != len(u.fn.Params) || len(u.ct.Results) != u.fn.Signature.Results().Len() {
		fail("supported", fmt.Sprintf("signature of %s changed: %s", u.target, u.fn.Signature))
		return
	}
	st := x.freshState()
	x.withGhosts(st)
	var args []Value
	for i, p := range u.fn.Params {
		v := x.param(st, p.Type(), u.ct.Params[i])
		args = append(args, v)
		x.unitVars[u.ct.Params[i]] = v
	}
	for _, a := range u.ct.Any {
		t := x.specType(a.Type)
		v := x.freshVal(st, t, "any_"+a.Name)
		x.unitVars[a.Name] = v
		if tm, ok := v.(*Term); ok {
			x.anyVars = append(x.anyVars, tm)
			if tm.Sort == x.c.Str {
				x.keys = append(x.keys, tm)
			}
		}
	}
	x.entry = st.clone()
	env := x.unitEnv(st)
	for _, r := range u.ct.Requires {
		t := x.evalBool(env, r.Expr)
		x.reqTerms = append(x.reqTerms, t)
		st.assume(t)
	}
	if !x.feasible(st) {
		fail("vacuity", "the precondition is unsatisfiable")
		return
	}
	x.initGhosts(st)
	x.entry = st.clone()
	outs := x.callFunc(st, nil, u.fn, args, nil)
	out.Paths = len(outs)
	type ante struct {
		c  *Clause
		e  ast.Expr
		ok bool
	}
	var antes []*ante
	for _, e := range u.ct.Ensures {
		if len(u.filter(e.Props)) == 0 {
			continue
		}
		if a := antecedent(e.Expr); a != nil {
			antes = append(antes, &ante{c: e, e: a})
		}
	}
	for _, o := range outs {
		x.atExit(o.st, o.res)
		if x.s.Check(x.asm(o.st), true) != Unsat {
			out.Feasible++
		}
		mkEnv := func() *Env {
			s := o.st.clone()
			env := x.unitEnv(s)
			for i, n := range u.ct.Results {
				env.vars[n] = o.res[i]
			}
			env.old = x.entry
			return env
		}
		for _, e := range u.ct.Ensures {
			ps := u.filter(e.Props)
			if len(ps) == 0 {
				continue
			}
			env := mkEnv()
			goal, msg := x.evalGoal(env, e.Expr)
			if msg != "" {
				x.obls = append(x.obls, &Obligation{Name: u.Name + "/" + e.Name, Props: ps, Goal: x.c.False, Asm: x.asm(o.st), Desc: msg + " in " + e.Src})
				continue
			}
			if goal == x.c.True {
				u.trivial++
				continue
			}
			x.obls = append(x.obls, &Obligation{Name: u.Name + "/" + e.Name, Props: ps, Goal: goal, Asm: x.asm(env.st), Desc: e.Src, Note: append([]string{}, o.st.note...)})
		}
		for _, a := range antes {
			if a.ok {
				continue
			}
			env := mkEnv()
			g, msg := x.evalGoal(env, a.e)
			if msg == "" && x.s.Check(append(x.asm(env.st), g), true) != Unsat {
				a.ok = true
			}
		}
	}
	if out.Feasible == 0 {
		fail("vacuity", "no feasible path reaches the end of the function")
	}
	for _, a := range antes {
		if !a.ok {
			out.Obls = append(out.Obls, &OblOut{Name: u.Name + "/" + a.c.Name + "/reachable", Props: u.filter(a.c.Props), Desc: "no path reaches the case " + exprStr(a.e), Status: "failed"})
		}
	}
	for _, on := range u.ct.Ons {
		if ps := u.filter(on.Props); len(ps) > 0 && !x.onFired[on.Name] {
			out.Obls = append(out.Obls, &OblOut{Name: u.Name + "/" + on.Name + "/reachable", Props: ps, Desc: "no path reaches the event " + on.Kind + " in the case of " + on.Src, Status: "failed"})
		}
	}
	// the obligations are independent of each other: decide them in parallel
	type job struct {
		ob     *Obligation
		oo     *OblOut
		script string
		r      Result
	}
	var jobs []*job
	byScript := map[string]*job{}
	for _, ob := range x.obls {
		oo := &OblOut{Name: ob.Name, Props: ob.Props, Desc: ob.Desc, Note: ob.Note}
		out.Obls = append(out.Obls, oo)
		as := append(append([]*Term{}, ob.Asm...), x.c.Not(ob.Goal))
		dead := false
		for _, a := range as {
			dead = dead || a == x.c.False
		}
		if dead {
			oo.Status = "discharged"
			continue
		}
		jb := &job{ob: ob, oo: oo, script: x.c.Script(as)}
		if f := byScript[jb.script]; f != nil {
			oo.Status = "same"
			oo.same = f.oo
			continue
		}
		byScript[jb.script] = jb
		jobs = append(jobs, jb)
	}
	var mu sync.Mutex
	failed := map[string]bool{}
	ch := make(chan *job)
	var wg sync.WaitGroup
	for w := 0; w < 6 && w < len(jobs); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := NewSolver(x.c)
			s.cache = nil
			defer s.Close()
			for jb := range ch {
				mu.Lock()
				skip := failed[jb.ob.Name]
				mu.Unlock()
				if skip {
					// another instance of the obligation has failed already
					jb.oo.Status = "not checked"
					continue
				}
				jb.r = s.CheckScript(jb.script, false)
				switch jb.r {
				case Unsat:
					jb.oo.Status = "discharged"
				case Sat:
					jb.oo.Status = "refuted"
				default:
					jb.oo.Status = "undecided"
				}
				if jb.r != Unsat {
					mu.Lock()
					first := !failed[jb.ob.Name]
					failed[jb.ob.Name] = true
					mu.Unlock()
					if first {
						jb.oo.Model = s.ModelScript(jb.script)
					}
				}
			}
			mu.Lock()
			x.s.Time += s.Time
			x.s.Queries += s.Queries
			for k, n := range s.By {
				x.s.By[k] += n
			}
			mu.Unlock()
		}()
	}
	for _, jb := range jobs {
		ch <- jb
	}
	close(ch)
	wg.Wait()
	for _, oo := range out.Obls {
		if oo.same != nil {
			oo.Status = oo.same.Status
		}
	}
	if os.Getenv("GOVC_PATH") != "" {
		for _, jb := range jobs {
			if jb.oo.Status == "discharged" {
				continue
			}
			fmt.Fprintln(os.Stderr, "obligation", jb.ob.Name, jb.ob.Desc)
			for _, t := range jb.ob.Asm {
				fmt.Fprintln(os.Stderr, "   asm:", x.c.Show(t))
			}
			fmt.Fprintln(os.Stderr, "   goal:", x.c.Show(jb.ob.Goal))
		}
	}
	return
}

// antecedent of an implication.
func antecedent(e ast.Expr) ast.Expr {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return antecedent(n.X)
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "imp" {
			return n.Args[0]
		}
	}
	return nil
}

func (x *Exec) evalGoal(env *Env, e ast.Expr) (t *Term, msg string) {
	depth := len(x.stack)
	lz, mt := x.lazy, x.mute
	defer func() {
		if r := recover(); r != nil {
			x.stack = x.stack[:depth]
			x.lazy, x.mute = lz, mt
			switch u := r.(type) {
			case unsup:
				t, msg = nil, u.msg
			case deadPath:
				t, msg = x.c.True, ""
			default:
				panic(r)
			}
		}
	}()
	return x.evalBool(env, e), ""
}

// atExit records the obligations on the state in which a function returns.
func (x *Exec) atExit(st *State, res []Value) {
	for id := 1; id <= x.nobj; id++ {
		o, ok := st.heap[id]
		if !ok {
			continue
		}
		if o.Kind == "db" && o.G["locked"] == x.c.True {
			x.oblige(st, "usable", x.c.False, "a write transaction is still open when the operation returns")
		}
		for k, v := range o.G {
			if strings.HasPrefix(k, "mutex") {
				x.oblige(st, "usable", x.c.Not(v.(*Term)), "a mutex is still held when the operation returns")
			}
		}
	}
	for _, r := range res {
		x.privateRes(st, r)
	}
}

func (x *Exec) privateRes(st *State, v Value) {
	switch p := v.(type) {
	case *PtrV:
		if p.Obj != 0 && st.obj(p.Obj).Pub {
			x.oblige(st, "private", x.isNil(st, p), "the operation returns an object that is stored in the database")
		}
	case *BoxPtr:
		if p.Row {
			x.oblige(st, "private", x.c.IsNone(p.Opt), "the operation returns an object that is stored in the database")
		}
	case *SliceV:
		if p.Obj != 0 && (st.obj(p.Obj).HasRow || x.rowObj[p.Obj]) {
			x.oblige(st, "private", x.c.Eq(p.Len, x.c.IntV(0)), "the operation returns a list of objects that are stored in the database")
		}
	}
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	ddir := flag.String("drivers", "/verif/drivers", "driver functions")
	prop := flag.String("prop", "", "property to check (default: all)")
	unit := flag.String("unit", "", "only units whose name contains this")
	jsonOut := flag.String("json", "", "write the results as JSON")
	verbose := flag.Bool("v", false, "print all obligations")
	par := flag.Int("j", runtime.NumCPU(), "parallel units")
	flag.Parse()
	t0 := time.Now()
	p, err := load(*repo, drivers(*repo, *ddir))
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	if err := p.readContracts(*cdir); err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	tl := time.Since(t0)
	var units []*Unit
	for _, ct := range p.order {
		if len(ct.Ensures) == 0 && len(ct.Kinds) == 0 || ct.Opts["assumed"] != "" {
			continue
		}
		u := &Unit{Name: ct.Short, target: ct.Fn, ct: ct, fn: p.funcs[ct.Fn], only: *prop}
		if *prop != "" && !u.props()[*prop] {
			continue
		}
		if *unit != "" && !strings.Contains(ct.Short, *unit) {
			continue
		}
		units = append(units, u)
	}
	res := make([]*UnitOut, len(units))
	sem := make(chan struct{}, *par)
	var wg sync.WaitGroup
	for i, u := range units {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			x := newExec(p, u)
			res[i] = x.run()
		}()
	}
	wg.Wait()
	bad := 0
	for _, r := range res {
		n := map[string]int{}
		for _, o := range r.Obls {
			n[o.Status]++
			if o.Status != "discharged" {
				bad++
			}
		}
		fmt.Printf("%-40s paths=%d exits=%d loops=%d obls=%d ok=%d syntactic=%d solver=%.1fs wall=%.1fs\n", r.Unit, r.Paths, r.Feasible, r.Loops, len(r.Obls), n["discharged"], r.Trivial, r.Solver, r.Wall)
		seen := map[string]bool{}
		for _, o := range r.Obls {
			if o.Status != "discharged" || *verbose {
				k := o.Name + o.Desc + o.Status
				if !seen[k] {
					fmt.Printf("    %s %s: %s\n", strings.ToUpper(o.Status), o.Name, o.Desc)
				}
				seen[k] = true
			}
		}
		if *verbose {
			for _, i := range r.Invariants {
				fmt.Println("      inv", i)
			}
			fmt.Println("      trusted", r.Trusted, "havocked", r.Havocked, "inlined", r.Inlined)
		}
	}
	fmt.Printf("load %.1fs total %.1fs failed %d\n", tl.Seconds(), time.Since(t0).Seconds(), bad)
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		os.WriteFile(*jsonOut, b, 0o644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
