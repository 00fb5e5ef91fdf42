package main

// Contracts of the file system and gob functions, as assumed by this verifier,
// and the event log of an operation.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EventV is an event of the operation, for specifications.
type EventV struct{ e *Event }

func (x *Exec) event(st *State, kind string, data map[string]Value) *Event {
	e := &Event{Kind: kind, Data: data}
	x.emit(st, e)
	return e
}

func (x *Exec) newFile(st *State, path *Term, write bool) *OpaqueV {
	c := x.c
	w := c.False
	if write {
		w = c.True
	}
	id := st.alloc(&Obj{Kind: "file", G: map[string]Value{"path": path, "write": w, "open": c.True, "failed": c.False,
		"set": c.ConstArr(x.dbSort(), c.None(x.taskSort())), "pos": c.IntV(0), "clean": c.True}})
	return &OpaqueV{Kind: "file", Obj: id}
}

func (x *Exec) osErr(st *State, name string) Value {
	return x.libErr(st, name)
}

// globalVal is the value of a package-level variable.
func (x *Exec) globalVal(st *State, pkg, name string) Value {
	for _, p := range x.prog.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				pv := x.global_(st, g).(*PtrV)
				return x.loadPtr(st, pv, pv.Elem)
			}
		}
	}
	return x.sentinel(pkg + "." + name)
}

func two(st, s2 *State, a, b []Value) []*Outcome {
	return []*Outcome{{st: st, res: a}, {st: s2, res: b}}
}

func (x *Exec) fileArg(st *State, v Value) int {
	if i, ok := v.(*IfaceV); ok && i.Dyn != nil {
		v = i.V
	}
	o, ok := v.(*OpaqueV)
	if !ok || o.Obj == 0 {
		x.unsupported(st, fmt.Sprintf("file expected, have %T", v))
	}
	switch st.obj(o.Obj).Kind {
	case "file", "bufw":
		return o.Obj
	}
	x.unsupported(st, "file expected, have "+st.obj(o.Obj).Kind)
	return 0
}

func init() {
	m := libModels
	type A = []Value
	create := func(x *Exec, st *State, path *Term) []*Outcome {
		s2 := st.clone()
		f := x.newFile(st, path, true)
		x.event(st, "Create", map[string]Value{"path": path, "ok": x.c.True, "file": f})
		x.event(s2, "Create", map[string]Value{"path": path, "ok": x.c.False})
		return two(st, s2, A{f, &IfaceV{}}, A{&OpaqueV{Kind: "file"}, x.osErr(s2, "Create")})
	}
	m["os.Create"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return create(x, st, T(a[0]))
	}
	m["os.CreateTemp"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		p := x.c.Fresh("tempfile", x.c.Str)
		// a name that no file has yet
		for k, v := range x.unitVars {
			_ = k
			if t, ok := v.(*Term); ok && t.Sort == x.c.Str {
				st.assume(x.c.Not(x.c.Eq(p, t)))
			}
		}
		return create(x, st, p)
	}
	m["os.OpenFile"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		fl := T(a[1])
		if fl.Op != OInt {
			x.unsupported(st, "os.OpenFile with symbolic flags")
		}
		const wronly, rdwr, app, creat, excl, trunc = 1, 2, 0x400, 0x40, 0x80, 0x200
		f := fl.I.Int64()
		if f&(wronly|rdwr) == 0 {
			return m["os.Open"](x, st, fr, a[:1], cc)
		}
		if f&creat == 0 || f&trunc == 0 && f&excl == 0 || f&app != 0 {
			x.unsupported(st, "os.OpenFile for modification of a file")
		}
		return create(x, st, T(a[0]))
	}
	m["os.Open"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		path := T(a[0])
		s2 := st.clone()
		f := x.newFile(st, path, false)
		x.event(st, "Open", map[string]Value{"path": path, "ok": c.True, "file": f})
		e := x.osErr(s2, "Open").(*SymIface)
		x.event(s2, "Open", map[string]Value{"path": path, "ok": c.False, "err": e})
		return two(st, s2, A{f, &IfaceV{}}, A{&OpaqueV{Kind: "file"}, e})
	}
	m["(*os.File).Name"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, st.gterm(x.fileArg(st, a[0]), "path"))
	}
	m["(*os.File).Sync"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.fileArg(st, a[0])
		s2 := st.clone()
		return two(st, s2, A{&IfaceV{}}, A{x.osErr(s2, "Sync")})
	}
	m["(*os.File).Close"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.fileArg(st, a[0])
		if st.obj(id).G["open"] != c.True {
			return ret(st, x.osErr(st, "Close"))
		}
		s2 := st.clone()
		st.gset(id, "open", c.False)
		s2.gset(id, "open", c.False)
		if st.obj(id).G["write"] == c.True {
			// data that could not be written is lost
			s2.gset(id, "failed", c.True)
		}
		return two(st, s2, A{&IfaceV{}}, A{x.osErr(s2, "Close")})
	}
	m["os.Rename"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		from, to := T(a[0]), T(a[1])
		s2 := st.clone()
		d := map[string]Value{"from": from, "to": to, "ok": c.True, "set": c.Fresh("unknownfile", x.dbSort()), "complete": c.False}
		var ids []int
		for id := range st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if o := st.heap[id]; o.Kind == "file" && o.G["path"] == Value(from) && o.G["write"] == c.True {
				d["set"] = o.G["set"]
				d["complete"] = c.And(c.Not(o.G["open"].(*Term)), c.Not(o.G["failed"].(*Term)), o.G["clean"].(*Term))
			}
		}
		x.event(st, "Rename", d)
		x.event(s2, "Rename", map[string]Value{"from": from, "to": to, "ok": c.False})
		return two(st, s2, A{&IfaceV{}}, A{x.osErr(s2, "Rename")})
	}
	rm := func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		s2 := st.clone()
		x.event(st, "Remove", map[string]Value{"path": a[0], "ok": x.c.True})
		x.event(s2, "Remove", map[string]Value{"path": a[0], "ok": x.c.False})
		return two(st, s2, A{&IfaceV{}}, A{x.osErr(s2, "Remove")})
	}
	m["os.Remove"] = rm
	m["os.RemoveAll"] = rm
	m["bufio.NewWriter"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		f := x.fileArg(st, a[0])
		o := st.alloc(&Obj{Kind: "bufw", G: map[string]Value{"file": &OpaqueV{Kind: "file", Obj: f}, "set": st.obj(f).G["set"], "clean": x.c.True}})
		return ret(st, &OpaqueV{Kind: "bufw", Obj: o})
	}
	m["bufio.NewWriterSize"] = m["bufio.NewWriter"]
	m["(*bufio.Writer).Flush"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		id := x.fileArg(st, a[0])
		f := st.obj(id).G["file"].(*OpaqueV).Obj
		s2 := st.clone()
		st.gset(f, "set", st.obj(id).G["set"])
		st.gset(f, "clean", st.obj(id).G["clean"])
		s2.gset(f, "clean", x.c.False)
		return two(st, s2, A{&IfaceV{}}, A{x.osErr(s2, "Flush")})
	}
	// what follows the last decoded record
	rest := func(st *State, f int) *Term {
		if t, ok := st.obj(f).G["rest"].(*Term); ok {
			return t
		}
		return nil
	}
	peek := func(x *Exec, st *State, f int, ok func(*State) Value, none func(*State) Value) []*Outcome {
		e := st.clone()
		io := x.libErr(e, "Peek").(*SymIface)
		e.assume(x.c.Not(x.errIs(e, io, x.globalVal(e, "io", "EOF"))))
		outs := []*Outcome{{st: e, res: A{none(e), io}}}
		r := rest(st, f)
		s2 := st.clone()
		if r == nil {
			r = x.c.Fresh("rest", x.c.Bool)
		}
		st.assume(r)
		s2.assume(x.c.Not(r))
		return append(outs, &Outcome{st: st, res: A{ok(st), &IfaceV{}}}, &Outcome{st: s2, res: A{none(s2), x.globalVal(s2, "io", "EOF")}})
	}
	m["(*bufio.Reader).Peek"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		f := x.fileArg(st, a[0])
		t := cc.StaticCallee().Signature.Results().At(0).Type()
		mk := func(s *State) Value { return x.freshSlice(s, t, "peek", false) }
		return peek(x, st, f, mk, mk)
	}
	m["(*bufio.Reader).ReadByte"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		f := x.fileArg(st, a[0])
		mk := func(s *State) Value {
			b := x.c.Fresh("byte", x.c.Int)
			s.assume(x.c.And(x.c.Le(x.c.IntV(0), b), x.c.Lt(b, x.c.IntV(256))))
			return b
		}
		return peek(x, st, f, mk, mk)
	}
	m["bufio.NewReader"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		f := x.fileArg(st, a[0])
		return ret(st, &OpaqueV{Kind: "file", Obj: f})
	}
	m["encoding/gob.NewEncoder"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		f := x.fileArg(st, a[0])
		o := st.alloc(&Obj{Kind: "gobenc", G: map[string]Value{"to": &OpaqueV{Kind: st.obj(f).Kind, Obj: f}}})
		return ret(st, &OpaqueV{Kind: "gobenc", Obj: o})
	}
	m["encoding/gob.NewDecoder"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		f := x.fileArg(st, a[0])
		o := st.alloc(&Obj{Kind: "gobdec", G: map[string]Value{"from": &OpaqueV{Kind: st.obj(f).Kind, Obj: f}}})
		return ret(st, &OpaqueV{Kind: "gobdec", Obj: o})
	}
	m["(*encoding/gob.Encoder).Encode"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		o, ok := a[0].(*OpaqueV)
		if !ok || o.Obj == 0 {
			x.unsupported(st, "gob encoder")
		}
		f := st.obj(o.Obj).G["to"].(*OpaqueV).Obj
		row, _ := x.taskArg(st, a[1], false)
		key := c.Sel(row.Sort.Ctors[0], x.schema(st).id.parts[0].fi, row)
		s2 := st.clone()
		set := st.gterm(f, "set")
		st.gset(f, "set", c.Store(set, key, c.Some(row)))
		s2.gset(f, "clean", c.False)
		s2.gset(f, "set", c.Fresh("partial", x.dbSort()))
		return two(st, s2, A{&IfaceV{}}, A{x.osErr(s2, "Encode")})
	}
	m["(*encoding/gob.Decoder).Decode"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		o, ok := a[0].(*OpaqueV)
		if !ok || o.Obj == 0 {
			x.unsupported(st, "gob decoder")
		}
		f := st.obj(o.Obj).G["from"].(*OpaqueV).Obj
		i, ok := a[1].(*IfaceV)
		if !ok || i.Dyn == nil {
			x.unsupported(st, "gob target")
		}
		p, ok := i.V.(*PtrV)
		if !ok || p.Obj == 0 || typeName(p.Elem) != typeName(x.taskType()) {
			x.unsupported(st, "gob target")
		}
		fid := c.Var(fmt.Sprintf("file%d", f), x.seqSortT())
		n := c.App("file_n", c.Int, fid)
		st.assume(c.Le(c.IntV(0), n))
		pos := st.gterm(f, "pos")
		eof, bad := st.clone(), st.clone()
		// the next record
		st.assume(c.Lt(pos, n))
		rec := c.App("file_rec", x.taskSort(), fid, pos)
		old := x.toTerm(st, x.loadPtr(st, p, p.Elem), p.Elem, false)
		zero := x.toTerm(st, x.zero(st, p.Elem), p.Elem, false)
		val := rec
		if old != zero {
			// fields that are absent in the record keep their value
			val = c.Ite(c.Eq(old, zero), rec, c.Fresh("merged", x.taskSort()))
		}
		x.store(st, p, x.fromTerm(st, val, p.Elem))
		key := c.Sel(rec.Sort.Ctors[0], x.schema(st).id.parts[0].fi, rec)
		st.gset(f, "set", c.Store(st.gterm(f, "set"), key, c.Some(rec)))
		st.gset(f, "pos", c.Add(pos, c.IntV(1)))
		// end of the file
		eof.assume(c.Le(n, pos))
		// damaged file
		e := x.libErr(bad, "Decode").(*SymIface)
		bad.assume(c.Not(x.errIs(bad, e, x.globalVal(bad, "io", "EOF"))))
		bad.gset(f, "clean", c.False)
		bad.assume(c.Le(pos, n))
		// a damaged record may be reported as the end of the file, with the
		// rest of the file not consumed
		dam := bad.clone()
		dam.gset(f, "rest", c.True)
		eof.gset(f, "rest", c.False)
		return []*Outcome{{st: dam, res: A{x.globalVal(dam, "io", "EOF")}}, {st: st, res: A{&IfaceV{}}}, {st: eof, res: A{x.globalVal(eof, "io", "EOF")}}, {st: bad, res: A{e}}}
	}
	for _, n := range []string{"Dir", "Base", "Clean", "Join"} {
		modelPure("path/filepath." + n)
	}
	// specification functions
	evs := func(env *Env, kind string) []*Event {
		if env.st.lost {
			panic(unsup{"specification: events of a loop"})
		}
		var r []*Event
		for _, e := range env.st.events {
			if e.Kind == kind || strings.HasSuffix(kind, "*") && strings.HasPrefix(e.Kind, kind[:len(kind)-1]) {
				r = append(r, e)
			}
		}
		return r
	}
	kindOf := func(x *Exec, env *Env, e ast.Expr) string {
		t, ok := x.eval(env, e).(*Term)
		if !ok || t.Op != OStr {
			x.specErr("event kind")
		}
		return t.Name
	}
	specFuncs["calls"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.IntV(int64(len(evs(env, kindOf(x, env, n.Args[0])))))
	}
	specFuncs["call"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		es := evs(env, kindOf(x, env, n.Args[0]))
		i := 0
		if len(n.Args) > 1 {
			t := x.evalTerm(env, n.Args[1])
			if t.Op != OInt {
				x.specErr("event number")
			}
			i = int(t.I.Int64())
		}
		if i >= len(es) || i < 0 {
			x.specErr("there is no event %s %d", kindOf(x, env, n.Args[0]), i)
		}
		return &EventV{es[i]}
	}
	// before("A", "B"): every event of kind A precedes every event of kind B
	specFuncs["before"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		a, b := kindOf(x, env, n.Args[0]), kindOf(x, env, n.Args[1])
		seen := false
		for _, e := range env.st.events {
			if e.Kind == b {
				seen = true
			}
			if e.Kind == a && seen {
				return x.c.False
			}
		}
		return x.c.True
	}
	// fs_replaced(path): a file was moved to path
	specFuncs["fs_replaced"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		c := x.c
		p := x.evalTerm(env, n.Args[0])
		r := c.False
		for _, e := range evs(env, "Rename") {
			if e.Data["ok"] == Value(c.True) {
				r = c.Or(r, c.Eq(e.Data["to"].(*Term), p))
			}
		}
		return r
	}
	// fs_complete(path): the file moved to path had been written and closed without error
	specFuncs["fs_complete"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		c := x.c
		p := x.evalTerm(env, n.Args[0])
		r := c.True
		for _, e := range evs(env, "Rename") {
			if e.Data["ok"] == Value(c.True) {
				r = c.And(r, c.Imp(c.Eq(e.Data["to"].(*Term), p), e.Data["complete"].(*Term)))
			}
		}
		return r
	}
	// fs_set(path): the tasks in the file last moved to path
	specFuncs["fs_set"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		c := x.c
		p := x.evalTerm(env, n.Args[0])
		r := c.Fresh("oldfile", x.dbSort())
		for _, e := range evs(env, "Rename") {
			if e.Data["ok"] == Value(c.True) {
				r = c.Ite(c.Eq(e.Data["to"].(*Term), p), e.Data["set"].(*Term), r)
			}
		}
		return r
	}
	// fs_touched(path): the file at path was truncated, removed or moved away
	specFuncs["fs_touched"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		c := x.c
		p := x.evalTerm(env, n.Args[0])
		r := c.False
		for _, e := range env.st.events {
			switch e.Kind {
			case "Create", "Remove":
				r = c.Or(r, c.Eq(e.Data["path"].(*Term), p))
			case "Rename":
				r = c.Or(r, c.Eq(e.Data["from"].(*Term), p))
			}
		}
		return r
	}
	// fs_leftover(): a file that was created was neither moved nor removed
	specFuncs["fs_leftover"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		c := x.c
		r := c.False
		for i, e := range env.st.events {
			if e.Kind != "Create" || e.Data["ok"] != Value(c.True) {
				continue
			}
			gone := c.False
			for _, l := range env.st.events[i+1:] {
				switch {
				case l.Kind == "Remove":
					gone = c.Or(gone, c.Eq(l.Data["path"].(*Term), e.Data["path"].(*Term)))
				case l.Kind == "Rename" && l.Data["ok"] == Value(c.True):
					gone = c.Or(gone, c.Eq(l.Data["from"].(*Term), e.Data["path"].(*Term)))
				}
			}
			r = c.Or(r, c.Not(gone))
		}
		return r
	}
	// fs_records(f): the number of records in a file
	specFuncs["fs_records"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		o, ok := x.eval(env, n.Args[0]).(*OpaqueV)
		if !ok || o.Obj == 0 {
			x.specErr("file expected")
		}
		t := x.c.App("file_n", x.c.Int, x.c.Var(fmt.Sprintf("file%d", o.Obj), x.seqSortT()))
		env.st.assume(x.c.Le(x.c.IntV(0), t))
		return t
	}
}

// modelPure declares a library function to be a mathematical function.
func modelPure(name string) {
	libModels[name] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		sig := cc.Signature()
		var as []*Term
		for _, v := range a {
			switch t := v.(type) {
			case *Term:
				as = append(as, t)
			case *SliceV:
				es, ok := x.sliceElems(st, t)
				if !ok {
					x.unsupported(st, name)
				}
				for _, e := range es {
					as = append(as, T(e))
				}
			default:
				x.unsupported(st, name+" on "+fmt.Sprintf("%T", v))
			}
		}
		var res []Value
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			res = append(res, x.fromTerm(st, x.c.App(fmt.Sprintf("fn_%s.%d/%d", sanitize(name), i, len(as)), x.sortOf(t), as...), t))
		}
		return ret(st, res...)
	}
}

var _ = types.Identical
var _ = strings.Contains
