package main

// Loops: unrolled while their condition is decided by constants, otherwise cut
// with an inductive invariant found among candidate formulas (Houdini).

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loopCtx
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (x *Exec) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loopCtx {
	li, ok := x.loops[fn]
	if !ok {
		li = findLoops(fn)
		x.loops[fn] = li
	}
	return li.byHeader[b]
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loopCtx{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := li.byHeader[h]
			if l == nil {
				l = &loopCtx{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				li.byHeader[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				k := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[k] {
					continue
				}
				l.blocks[k] = true
				work = append(work, k.Preds...)
			}
		}
	}
	return li
}

// constHeader reports whether the loop condition is decided by constants.
func (x *Exec) constHeader(fr *Frame, lp *loopCtx, from *ssa.BasicBlock, st *State) (ok bool) {
	h := lp.header
	t, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf || (lp.blocks[h.Succs[0]] && lp.blocks[h.Succs[1]]) {
		return false
	}
	for _, ins := range h.Instrs {
		switch ins.(type) {
		case *ssa.Call, *ssa.Select, *ssa.TypeAssert, *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send:
			if c, isC := ins.(*ssa.Call); isC {
				if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
					continue
				}
			}
			return false
		}
	}
	s, f := st.clone(), fr.clone()
	x.mute++
	depth := len(x.stack)
	defer func() {
		x.mute--
		if r := recover(); r != nil {
			switch r.(type) {
			case unsup, deadPath:
				x.stack = x.stack[:depth]
				ok = false
			default:
				panic(r)
			}
		}
	}()
	x.phis(f, from, h, s)
	for _, ins := range h.Instrs {
		if _, isPhi := ins.(*ssa.Phi); isPhi {
			continue
		}
		if c, isC := ins.(*ssa.Call); isC {
			d := &deferred{call: &c.Call}
			x.prepCall(s, f, &c.Call, d)
			outs := x.doCall(s, f, d)
			if len(outs) != 1 {
				return false
			}
			x.setRes(f, c, outs[0].res)
			continue
		}
		if v, isV := ins.(ssa.Value); isV {
			f.regs[v] = x.evalInstr(s, f, ins)
		}
	}
	cond, isT := x.val(s, f, t.Cond).(*Term)
	x.trips = 0
	if b, ok := t.Cond.(*ssa.BinOp); ok && fr.unroll[h] == 0 {
		p, ok1 := x.val(s, f, b.X).(*Term)
		q, ok2 := x.val(s, f, b.Y).(*Term)
		if ok1 && ok2 && p.Op == OInt && q.Op == OInt {
			n := q.I.Int64() - p.I.Int64()
			x.trips = int(max(n, -n))
		}
	}
	return isT && (cond == x.c.True || cond == x.c.False)
}

// branching: an iteration can take several ways to the next one.
func branching(lp *loopCtx) bool {
	for b := range lp.blocks {
		if b == lp.header || len(b.Succs) != 2 {
			continue
		}
		if lp.blocks[b.Succs[0]] && lp.blocks[b.Succs[1]] {
			return true
		}
	}
	return false
}

func (x *Exec) enterLoop(fr *Frame, lp *loopCtx, from *ssa.BasicBlock, st *State) []*Outcome {
	if fr.unroll[lp.header] < 300 && x.constHeader(fr, lp, from, st) && (x.trips <= 5 || !branching(lp)) {
		fr.unroll[lp.header]++
		x.phis(fr, from, lp.header, st)
		return x.execFrom(fr, lp.header, 0, from, st)
	}
	return x.summarize(fr, lp, from, st)
}

// cell bookkeeping for one havoc of a loop
type havoc struct {
	x     *Exec
	isVar map[*Term]bool
	vars  []*Term
	st    *State // the state at the loop header
}

func (h *havoc) fresh(name string, s *Sort) *Term {
	v := h.x.c.Fresh("loop_"+name, s)
	h.isVar[v] = true
	h.vars = append(h.vars, v)
	return v
}

// value builds the havocked value from the entry value and the values seen at back edges.
func (h *havoc) value(st *State, name string, old Value, news []Value, t types.Type) Value {
	x := h.x
	c := x.c
	same := true
	for _, n := range news {
		if !sameValue(old, n) {
			same = false
		}
	}
	if same {
		return old
	}
	all := append([]Value{old}, news...)
	switch o := old.(type) {
	case *Term:
		v := h.fresh(name, o.Sort)
		if t != nil {
			x.typeInv(st, t, v)
		}
		return v
	case *StructV:
		n := &StructV{T: o.T, F: append([]Value{}, o.F...), Lazy: o.Lazy}
		u := o.T.Underlying().(*types.Struct)
		for i := range o.F {
			var fs []Value
			changed := false
			for _, m := range news {
				ms, ok := m.(*StructV)
				if !ok {
					x.unsupported(st, "loop-carried value changes shape")
				}
				if ms.F[i] != nil && (o.F[i] == nil || !sameValue(ms.F[i], o.F[i])) {
					changed = true
				}
			}
			if !changed {
				continue
			}
			of := x.field(st, o, i)
			for _, m := range news {
				fs = append(fs, x.field(st, m.(*StructV), i))
			}
			n.F[i] = h.value(st, name+"."+u.Field(i).Name(), of, fs, u.Field(i).Type())
		}
		return n
	case *ArrayV:
		n := &ArrayV{T: o.T, E: append([]Value{}, o.E...)}
		for i := range o.E {
			var es []Value
			for _, m := range news {
				es = append(es, m.(*ArrayV).E[i])
			}
			n.E[i] = h.value(st, fmt.Sprintf("%s.%d", name, i), o.E[i], es, nil)
		}
		return n
	case TupleV:
		n := make(TupleV, len(o))
		for i := range o {
			var es []Value
			for _, m := range news {
				es = append(es, m.(TupleV)[i])
			}
			n[i] = h.value(st, fmt.Sprintf("%s.%d", name, i), o[i], es, nil)
		}
		return n
	case *PtrV, *BoxPtr:
		var el types.Type
		row := false
		for _, a := range all {
			switch p := a.(type) {
			case *PtrV:
				el = p.Elem
			case *BoxPtr:
				el = p.Elem
				row = row || p.Row
			default:
				x.unsupported(st, "loop-carried pointer changes shape")
			}
		}
		s := x.sortOf(el)
		if s == nil {
			return h.ref(st, name, all, el)
		}
		if s == nil {
			x.unsupported(st, "loop-carried pointer to "+el.String())
		}
		return &BoxPtr{Opt: h.fresh(name, c.OptSort(s)), Elem: el, Row: row}
	case *IfaceV, *SymIface, *ErrObj:
		// a single dynamic type (or nil)?
		var dyn types.Type
		ok := true
		var vs []Value
		for _, a := range all {
			i, isI := a.(*IfaceV)
			if !isI {
				ok = false
				break
			}
			if i.Dyn == nil {
				continue
			}
			if dyn != nil && !types.Identical(dyn, i.Dyn) {
				ok = false
				break
			}
			dyn = i.Dyn
			vs = append(vs, i.V)
		}
		if ok && dyn != nil {
			if _, isP := dyn.Underlying().(*types.Pointer); isP && x.sortOf(dyn) != nil {
				row := false
				for _, v := range vs {
					if b, isB := v.(*BoxPtr); isB && b.Row {
						row = true
					}
				}
				el := deref(dyn)
				return &IfaceV{Dyn: dyn, V: &BoxPtr{Opt: h.fresh(name, x.sortOf(dyn)), Elem: el, Row: row}, NilIf: h.fresh(name+".nil", c.Bool)}
			}
		}
		return &SymIface{T: h.fresh(name, c.Any), St: t}
	case *SliceV:
		et := o.T.Underlying().(*types.Slice).Elem()
		es := x.sortOf(et)
		if es == nil {
			es = c.Any
		}
		row, own, op := false, false, ""
		for _, a := range all {
			s, ok := a.(*SliceV)
			if !ok {
				x.unsupported(st, "loop-carried slice changes shape")
			}
			row = row || x.rowObj[s.Obj]
		}
		if x.sortOf(et) == nil {
			op = "opaque-elems"
		}
		id := st.alloc(&Obj{T: o.T, Arr: h.fresh(name+".arr", c.ArrSort(c.Int, es)), ElemT: et, Own: own, HasRow: row, Kind: op, Name: name})
		if row {
			x.rowObj[id] = true
		}
		n := h.fresh(name+".len", c.Int)
		st.assume(c.Le(c.IntV(0), n))
		nl := h.fresh(name+".isnil", c.Bool)
		st.assume(c.Imp(nl, c.Eq(n, c.IntV(0))))
		return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, Nil: nl, T: o.T}
	}
	if o, ok := old.(*OpaqueV); ok && o.Kind == "timerchan" {
		return h.timerchan(st, name, all)
	}
	x.unsupported(st, fmt.Sprintf("loop-carried %T (%s)", old, name))
	return nil
}

// ref is an unknown reference to an object of a type without encoding: what is
// known about it is its identity (or, for a timer, its settings).
func (h *havoc) ref(st *State, name string, all []Value, el types.Type) Value {
	x := h.x
	c := x.c
	if isNamed(el, "time.Ticker") || isNamed(el, "time.Timer") {
		var isNil *Term
		for _, a := range all {
			p, ok := a.(*PtrV)
			if !ok || p.Nil != nil {
				x.unsupported(st, "loop-carried timer that may be nil")
			}
			if p.Obj == 0 {
				isNil = h.fresh(name+".isnil", c.Bool)
			}
		}
		s := &StructV{T: el, F: make([]Value, el.Underlying().(*types.Struct).NumFields())}
		s.F[fieldIndex(el, "C")] = h.timerchan(st, name, nil)
		return &PtrV{Obj: st.alloc(&Obj{T: el, Val: s, Kind: "timer"}), Elem: el, Nil: isNil}
	}
	for _, a := range all {
		if p, ok := a.(*PtrV); !ok || len(p.Path) > 0 {
			x.unsupported(st, "loop-carried pointer to "+el.String())
		}
	}
	if n, ok := el.(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), x.repoMod) {
		x.unsupported(st, "loop-carried pointer to "+el.String())
	}
	id := st.alloc(&Obj{T: el, Val: x.freshVal(st, el, name), Kind: "ref", Name: name, G: map[string]Value{"tok": h.fresh(name+".id", c.Int)}})
	return &PtrV{Obj: id, Elem: el, Nil: h.fresh(name+".isnil", c.Bool)}
}

func (h *havoc) timerchan(st *State, name string, all []Value) Value {
	for _, a := range all {
		if o, ok := a.(*OpaqueV); !ok || o.Kind != "timerchan" {
			h.x.unsupported(st, "loop-carried channel changes shape")
		}
	}
	c := h.x.c
	id := st.alloc(&Obj{Kind: "timerchan", G: map[string]Value{"armed": h.fresh(name+".armed", c.Bool), "stale": h.fresh(name+".stale", c.Bool),
		"period": h.fresh(name+".period", c.Int), "periodic": h.fresh(name+".periodic", c.Bool)}})
	return &OpaqueV{Kind: "timerchan", Obj: id}
}

// refVars gives the variables that describe a havocked reference.
func (h *havoc) refVars(hs *State, v Value) map[string]*Term {
	switch p := v.(type) {
	case *PtrV:
		o, ok := hs.heap[p.Obj]
		if !ok {
			return nil
		}
		if o.Kind == "timer" {
			if s, ok := o.Val.(*StructV); ok {
				if i := fieldIndex(s.T, "C"); i >= 0 {
					r := h.refVars(hs, s.F[i])
					if r != nil && p.Nil != nil && h.isVar[p.Nil] {
						r["nil"] = p.Nil
					}
					return r
				}
			}
		}
		if t, ok := o.G["tok"].(*Term); ok && h.isVar[t] {
			return map[string]*Term{"tok": t, "nil": p.Nil}
		}
	case *OpaqueV:
		if o, ok := hs.heap[p.Obj]; ok && o.Kind == "timerchan" {
			if t, ok := o.G["period"].(*Term); ok && h.isVar[t] {
				r := map[string]*Term{}
				for k, v := range o.G {
					if t, ok := v.(*Term); ok && h.isVar[t] {
						r[k] = t
					}
				}
				return r
			}
		}
	}
	return nil
}

func sameValue(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch p := a.(type) {
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameValue(p[i], q[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok || p.Obj != q.Obj || len(p.Path) != len(q.Path) || p.Nil != q.Nil {
			return false
		}
		for i := range p.Path {
			if p.Path[i] != q.Path[i] {
				return false
			}
		}
		return true
	case *OpaqueV:
		q, ok := b.(*OpaqueV)
		return ok && p.Obj == q.Obj
	case *MapV:
		q, ok := b.(*MapV)
		return ok && p.Obj == q.Obj
	case *SliceV:
		q, ok := b.(*SliceV)
		return ok && p.Obj == q.Obj && p.Off == q.Off && p.Len == q.Len && p.Nil == q.Nil
	case *BoxPtr:
		q, ok := b.(*BoxPtr)
		return ok && p.Opt == q.Opt
	case *SymIface:
		q, ok := b.(*SymIface)
		return ok && p.T == q.T
	case *IfaceV:
		q, ok := b.(*IfaceV)
		if !ok || (p.Dyn == nil) != (q.Dyn == nil) || p.NilIf != q.NilIf {
			return false
		}
		return p.Dyn == nil || (types.Identical(p.Dyn, q.Dyn) && sameValue(p.V, q.V))
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.F) != len(q.F) {
			return false
		}
		if p == q {
			return true
		}
		for i := range p.F {
			if p.F[i] == nil && q.F[i] == nil {
				if p.Lazy != q.Lazy {
					return false
				}
				continue
			}
			if p.F[i] == nil || q.F[i] == nil || !sameValue(p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		q, ok := b.(*ArrayV)
		if !ok || len(p.E) != len(q.E) {
			return false
		}
		for i := range p.E {
			if !sameValue(p.E[i], q.E[i]) {
				return false
			}
		}
		return true
	case *FuncV:
		q, ok := b.(*FuncV)
		if !ok || p.Fn != q.Fn || p.Name != q.Name || p.Sym != q.Sym || p.Nil != q.Nil || len(p.Bind) != len(q.Bind) {
			return false
		}
		for i := range p.Bind {
			if !sameValue(p.Bind[i], q.Bind[i]) {
				return false
			}
		}
		return sameValue(p.Recv, q.Recv)
	case valueList:
		q, ok := b.(valueList)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameValue(p[i], q[i]) {
				return false
			}
		}
		return true
	}
	if !reflect.TypeOf(a).Comparable() || !reflect.TypeOf(b).Comparable() {
		return false
	}
	return a == b
}

// unify matches a havocked value against a concrete one, binding the variables.
func (h *havoc) unify(st *State, hs *State, hv, v Value, m map[*Term]*Term) {
	x := h.x
	if hv == nil {
		return
	}
	switch p := hv.(type) {
	case *PtrV, *OpaqueV:
		vs := h.refVars(hs, hv)
		if vs == nil {
			return
		}
		if vs["tok"] != nil {
			m[vs["tok"]] = x.tok(st, v)
			m[vs["nil"]] = x.isNil(st, v)
			return
		}
		q, ok := v.(*OpaqueV)
		if pv, isP := v.(*PtrV); isP && pv.Obj == 0 && vs["nil"] != nil {
			q, ok = nil, true
		} else if isP && pv.Obj != 0 {
			q = &OpaqueV{Kind: "timerchan", Obj: x.timerOf(st, pv)}
			ok = true
		}
		if !ok {
			x.unsupported(st, "loop shape of timer")
		}
		for k, t := range vs {
			switch {
			case q == nil && k == "nil":
				m[t] = x.c.True
			case k == "nil":
				m[t] = x.c.False
			case q == nil:
				m[t] = x.c.Fresh("niltimer", t.Sort)
			default:
				m[t] = st.gterm(q.Obj, k)
			}
		}
	case *Term:
		if h.isVar[p] {
			t, ok := v.(*Term)
			if !ok {
				x.unsupported(st, "loop shape")
			}
			m[p] = t
		}
	case *StructV:
		q, ok := v.(*StructV)
		if !ok {
			x.unsupported(st, "loop shape")
		}
		for i := range p.F {
			if p.F[i] != nil && hasVar(h, hs, p.F[i]) {
				h.unify(st, hs, p.F[i], x.field(st, q, i), m)
			}
		}
	case *ArrayV:
		q := v.(*ArrayV)
		for i := range p.E {
			h.unify(st, hs, p.E[i], q.E[i], m)
		}
	case TupleV:
		q := v.(TupleV)
		for i := range p {
			h.unify(st, hs, p[i], q[i], m)
		}
	case *BoxPtr:
		if h.isVar[p.Opt] {
			m[p.Opt] = x.toTerm(st, v, types.NewPointer(p.Elem), true)
		}
	case *IfaceV:
		if p.NilIf != nil && h.isVar[p.NilIf] {
			m[p.NilIf] = x.isNil(st, v)
			b := p.V.(*BoxPtr)
			q, ok := v.(*IfaceV)
			if !ok {
				x.unsupported(st, "loop shape of interface")
			}
			if q.Dyn == nil {
				m[b.Opt] = x.c.None(b.Opt.Sort.Elem)
			} else {
				if !types.Identical(p.Dyn, q.Dyn) {
					x.unsupported(st, "dynamic type varies in loop")
				}
				h.unify(st, hs, b, q.V, m)
			}
		}
	case *SymIface:
		if h.isVar[p.T] {
			m[p.T] = x.anyTerm(st, v, true)
		}
	case *SliceV:
		if h.isVar[p.Len] {
			q, ok := v.(*SliceV)
			if !ok {
				x.unsupported(st, "loop shape of slice")
			}
			m[p.Len] = q.Len
			m[p.Nil] = x.isNil(st, q)
			o := hs.obj(p.Obj)
			if o.Kind == "opaque-elems" {
				m[o.Arr] = x.c.Fresh("opq", o.Arr.Sort)
			} else {
				m[o.Arr] = x.sliceArr(st, q, true)
			}
		}
	}
}

func hasVar(h *havoc, hs *State, v Value) bool {
	switch p := v.(type) {
	case *PtrV, *OpaqueV:
		return h.refVars(hs, v) != nil
	case *Term:
		return h.isVar[p]
	case *StructV:
		for _, f := range p.F {
			if f != nil && hasVar(h, hs, f) {
				return true
			}
		}
	case *ArrayV:
		for _, f := range p.E {
			if hasVar(h, hs, f) {
				return true
			}
		}
	case TupleV:
		for _, f := range p {
			if hasVar(h, hs, f) {
				return true
			}
		}
	case *BoxPtr:
		return h.isVar[p.Opt]
	case *IfaceV:
		return p.NilIf != nil && h.isVar[p.NilIf]
	case *SymIface:
		return h.isVar[p.T]
	case *SliceV:
		return h.isVar[p.Len]
	}
	return false
}

type loopSt struct {
	st   *State
	fr   *Frame
	h    *havoc
	phis map[*ssa.Phi]Value
	objs map[int]*Obj // havocked objects
}

type cand struct {
	goal  *Term
	facts []*Term
	name  string
}

func (x *Exec) summarize(fr *Frame, lp *loopCtx, from *ssa.BasicBlock, st *State) []*Outcome {
	c := x.c
	outer := fr.loop
	idx := -1
	for k, p := range lp.header.Preds {
		if p == from {
			idx = k
		}
	}
	var phis []*ssa.Phi
	entry := map[*ssa.Phi]Value{}
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		entry[p] = x.val(st, fr, p.Edges[idx])
	}
	entryIDs := x.nobj
	// values observed at back edges
	phiSeen := map[*ssa.Phi][]Value{}
	objSeen := map[int][]*Obj{}
	lost := false
	build := func() *loopSt {
		s, f := st.clone(), fr.clone()
		if x.sysObj != 0 || lost {
			s.lost = true
		}
		h := &havoc{x: x, isVar: map[*Term]bool{}}
		l := &loopSt{st: s, fr: f, h: h, phis: map[*ssa.Phi]Value{}, objs: map[int]*Obj{}}
		var ids []int
		for id := range objSeen {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			old := st.obj(id)
			n := old.clone()
			var vals []Value
			arrCh := false
			gk := map[string][]Value{}
			for _, o := range objSeen[id] {
				vals = append(vals, o.Val)
				if o.Arr != old.Arr {
					arrCh = true
				}
				for k, v := range o.G {
					if id == x.ghostObj && mongoNotes[k] {
						continue
					}
					gk[k] = append(gk[k], v)
				}
				n.Pub = n.Pub || o.Pub
				n.Boxed = n.Boxed || o.Boxed
				n.HasRow = n.HasRow || o.HasRow
				if len(o.MapK) != len(old.MapK) {
					x.unsupported(st, "map modified in a loop")
				}
				if o.MArr != old.MArr {
					arrCh = true
				}
			}
			nm := old.Name
			if nm == "" {
				nm = fmt.Sprint("o", id)
			}
			if old.Val != nil {
				n.Val = h.value(s, nm, old.Val, vals, old.T)
			}
			if arrCh && old.Arr != nil {
				n.Arr = h.fresh(nm+".arr", old.Arr.Sort)
			}
			if arrCh && old.MArr != nil {
				n.MArr = h.fresh(nm+".marr", old.MArr.Sort)
			}
			if old.Arr == nil {
				for _, o := range objSeen[id] {
					if o.Arr != nil {
						x.unsupported(st, "array becomes symbolic in a loop")
					}
				}
			}
			var ks []string
			for k := range gk {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if old.G[k] == nil {
					x.unsupported(st, "ghost cell created in a loop: "+k)
				}
				var t types.Type
				if ch, ok := old.T.(*types.Chan); ok && old.Kind == "chan" && k == "val" {
					t = ch.Elem()
				}
				n.G[k] = h.value(s, nm+"."+k, old.G[k], gk[k], t)
			}
			s.heap[id] = n
			l.objs[id] = n
		}
		for _, p := range phis {
			v := h.value(s, p.Comment, entry[p], phiSeen[p], p.Type())
			l.phis[p] = v
			f.regs[p] = v
		}
		f.loop = lp
		return l
	}
	runBody := func(l *loopSt) []*Outcome {
		return x.safe(l.st, func() []*Outcome { return x.execFrom(l.fr, lp.header, 0, from, l.st) })
	}
	backEdges := func(outs []*Outcome) []*Outcome {
		var bs []*Outcome
		for _, o := range outs {
			if o.edge && o.to == lp.header {
				bs = append(bs, o)
			}
		}
		return bs
	}
	backVal := func(o *Outcome, p *ssa.Phi) Value {
		for k, pr := range lp.header.Preds {
			if pr == o.from {
				return x.val(o.st, o.fr, p.Edges[k])
			}
		}
		panic("no pred")
	}
	// 1. what may change
	var l *loopSt
	for round := 0; ; round++ {
		if round > 12 {
			x.unsupported(st, "loop effects do not stabilize")
		}
		x.mute++
		hits := x.muteHits
		l = build()
		pre := l.st.clone()
		l.h.st = pre
		prePhis := l.phis
		outs := runBody(l)
		x.mute--
		_ = hits
		changed := false
		if os.Getenv("GOVC_TRIAL") != "" {
			fmt.Fprintf(os.Stderr, "trial %d of loop in %s: %d outcomes, %d back\n", round, fr.fn.Name(), len(outs), len(backEdges(outs)))
			for _, o := range outs {
				fmt.Fprintf(os.Stderr, "   edge=%v to=%v lost=%v:", o.edge, o.to, o.st.lost)
				for id, ob := range o.st.heap {
					if po := pre.heap[id]; po != nil && po != ob {
						fmt.Fprintf(os.Stderr, " %d/%s%v", id, ob.Name, ob.G)
					}
				}
				fmt.Fprintln(os.Stderr)
			}
		}
		for _, o := range backEdges(outs) {
			if len(o.fr.defers) != len(fr.defers) {
				x.unsupported(st, "defer in a loop")
			}
			for _, p := range phis {
				v := backVal(o, p)
				if !sameValue(v, prePhis[p]) && !x.covered(l.h, prePhis[p], v) {
					phiSeen[p] = append(phiSeen[p], v)
					changed = true
				}
			}
			for id, ob := range o.st.heap {
				if id > entryIDs {
					continue
				}
				po := pre.obj(id)
				if po == ob || x.coveredObj(l.h, po, ob) {
					continue
				}
				objSeen[id] = append(objSeen[id], ob)
				changed = true
			}
			if len(o.st.events) != len(pre.events) && x.mongoUnit() {
				changed = changed || !lost
				lost = true
			} else if len(o.st.events) != len(pre.events) && x.sysObj == 0 {
				x.unsupported(st, "event in a summarized loop")
			}
		}
		if !changed {
			break
		}
	}
	// 2. candidate invariants
	x.mute++
	l = build()
	cands := x.candidates(l, lp, st, entry)
	bind := func(s *State, phi func(*ssa.Phi) Value) map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, p := range phis {
			l.h.unify(s, l.st, l.phis[p], phi(p), m)
		}
		for id, n := range l.objs {
			o := s.obj(id)
			if n.Val != nil {
				l.h.unify(s, l.st, n.Val, o.Val, m)
			}
			if n.Arr != nil && l.h.isVar[n.Arr] {
				m[n.Arr] = o.Arr
			}
			if n.MArr != nil && l.h.isVar[n.MArr] {
				m[n.MArr] = o.MArr
			}
			for k, v := range n.G {
				l.h.unify(s, l.st, v, o.G[k], m)
			}
		}
		return m
	}
	holds := func(s *State, m map[*Term]*Term, cd *cand) bool {
		s2 := s.clone()
		for _, f := range cd.facts {
			s2.assume(c.Subst(f, m))
		}
		g := c.Subst(cd.goal, m)
		return x.s.Check(append(x.asm(s2), c.Not(g)), true) == Unsat
	}
	var keep []*cand
	{
		es := st.clone()
		m := bind(es, func(p *ssa.Phi) Value { return entry[p] })
		for _, cd := range cands {
			if holds(es, m, cd) {
				keep = append(keep, cd)
			} else if dbgInv {
				fmt.Fprintln(os.Stderr, "  inv fails on entry:", cd.name)
			}
		}
	}
	base := l.st
	// invariants about an arbitrary row hold for every row
	quantify := func() {
		for _, v := range l.h.vars {
			if v.Sort != x.dbSortOrNil() {
				continue
			}
			x.quants[v] = nil
			for _, cd := range keep {
				if !c.Occurs(v, cd.goal) {
					continue
				}
				for _, q := range x.anyVars {
					if q.Sort == c.Str && c.Occurs(q, cd.goal) && !x.anyConstrained(q) {
						x.quants[v] = append(x.quants[v], quant{v: q, goal: cd.goal, facts: cd.facts})
					}
				}
			}
		}
	}
	for {
		quantify()
		s2 := base.clone()
		for _, cd := range keep {
			for _, f := range cd.facts {
				s2.assume(f)
			}
		}
		for _, cd := range keep {
			s2.assume(cd.goal)
		}
		l2 := &loopSt{st: s2, fr: l.fr.clone(), h: l.h, phis: l.phis, objs: l.objs}
		outs := runBody(l2)
		drop := map[*cand]bool{}
		for _, o := range backEdges(outs) {
			m := bind(o.st, func(p *ssa.Phi) Value { return backVal(o, p) })
			for _, cd := range keep {
				if !drop[cd] && !holds(o.st, m, cd) {
					drop[cd] = true
					if dbgInv {
						fmt.Fprintln(os.Stderr, "  inv not preserved:", cd.name)
						if os.Getenv("GOVC_INV") == "2" {
							fmt.Fprintln(os.Stderr, "     ", c.Show(c.Subst(cd.goal, m)))
							for _, a := range x.asm(o.st) {
								fmt.Fprintln(os.Stderr, "        asm", c.Show(a))
							}
						}
					}
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		var k2 []*cand
		for _, cd := range keep {
			if !drop[cd] {
				k2 = append(k2, cd)
			}
		}
		keep = k2
	}
	x.mute--
	if dbgInv {
		fmt.Fprintf(os.Stderr, "loop in %s: %d of %d invariants kept\n", fr.fn.Name(), len(keep), len(cands))
		for _, cd := range keep {
			fmt.Fprintln(os.Stderr, "   ", cd.name)
		}
	}
	x.loopsProved++
	if x.mute == 0 {
		for _, cd := range keep {
			x.usedInv[cd.name] = true
		}
	}
	// 3. the body once more, recording obligations, and the exits
	s3 := base.clone()
	for _, cd := range keep {
		for _, f := range cd.facts {
			s3.assume(f)
		}
	}
	for _, cd := range keep {
		s3.assume(cd.goal)
	}
	l3 := &loopSt{st: s3, fr: l.fr.clone()}
	outs := runBody(l3)
	var res []*Outcome
	for _, o := range outs {
		if !o.edge {
			res = append(res, o)
			continue
		}
		if o.to == lp.header {
			continue
		}
		o := o
		o.fr.loop = outer
		res = append(res, x.safe(o.st, func() []*Outcome { return x.jump(o.fr, o.from, o.to, o.st) })...)
	}
	return res
}

// covered: the havocked value already subsumes any value of this shape.
func (x *Exec) covered(h *havoc, hv, v Value) bool {
	switch p := hv.(type) {
	case *PtrV, *OpaqueV:
		if h.st == nil || h.refVars(h.st, hv) == nil {
			return false
		}
		switch v.(type) {
		case *PtrV, *OpaqueV:
			return true
		}
		return false
	case *Term:
		return h.isVar[p]
	case *BoxPtr:
		if b, ok := v.(*BoxPtr); ok && b.Row && !p.Row {
			return false
		}
		return h.isVar[p.Opt]
	case *IfaceV:
		if p.NilIf == nil || !h.isVar[p.NilIf] {
			return false
		}
		q, ok := v.(*IfaceV)
		if !ok {
			return false
		}
		if q.Dyn != nil && !types.Identical(p.Dyn, q.Dyn) {
			return false
		}
		if q.Dyn != nil {
			return x.covered(h, p.V, q.V)
		}
		return true
	case *SymIface:
		return h.isVar[p.T]
	case *SliceV:
		if q, ok := v.(*SliceV); ok && x.rowObj[q.Obj] && !x.rowObj[p.Obj] {
			return false
		}
		return h.isVar[p.Len]
	case *StructV:
		q, ok := v.(*StructV)
		if !ok {
			return false
		}
		for i := range p.F {
			if p.F[i] == nil && q.F[i] == nil {
				continue
			}
			if q.F[i] == nil {
				continue
			}
			if p.F[i] == nil {
				return false
			}
			if !sameValue(p.F[i], q.F[i]) && !x.covered(h, p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		q, ok := v.(*ArrayV)
		if !ok {
			return false
		}
		for i := range p.E {
			if !sameValue(p.E[i], q.E[i]) && !x.covered(h, p.E[i], q.E[i]) {
				return false
			}
		}
		return true
	case TupleV:
		q, ok := v.(TupleV)
		if !ok {
			return false
		}
		for i := range p {
			if !sameValue(p[i], q[i]) && !x.covered(h, p[i], q[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) coveredObj(h *havoc, po, ob *Obj) bool {
	if po.Pub != ob.Pub || po.Boxed != ob.Boxed || po.HasRow != ob.HasRow || len(po.MapK) != len(ob.MapK) {
		return false
	}
	for i := range po.MapK {
		if !sameValue(po.MapK[i], ob.MapK[i]) || !sameValue(po.MapV_[i], ob.MapV_[i]) {
			return false
		}
	}
	if po.Arr != ob.Arr && (po.Arr == nil || !h.isVar[po.Arr]) {
		return false
	}
	if po.MArr != ob.MArr && (po.MArr == nil || !h.isVar[po.MArr]) {
		return false
	}
	if po.Val != nil && !sameValue(po.Val, ob.Val) && !x.covered(h, po.Val, ob.Val) {
		return false
	}
	for k, v := range ob.G {
		if po.Kind == "ghost" && mongoNotes[k] {
			continue
		}
		if !sameValue(po.G[k], v) && (po.G[k] == nil || !x.covered(h, po.G[k], v)) {
			return false
		}
	}
	return true
}

var dbgInv = os.Getenv("GOVC_INV") != ""

// mongoNotes are states and keys that are kept for their facts: a loop forgets
// those that were added in it.
var mongoNotes = map[string]bool{"hist": true, "mkeys": true}

// candidates generates candidate invariants for a loop.
func (x *Exec) candidates(l *loopSt, lp *loopCtx, st *State, entry map[*ssa.Phi]Value) []*cand {
	c := x.c
	var out []*cand
	seen := map[*Term]bool{}
	add := func(name string, g *Term, facts []*Term) {
		if g == c.True || seen[g] {
			return
		}
		seen[g] = true
		out = append(out, &cand{goal: g, facts: facts, name: name})
	}
	// integer cells with their entry values
	em := map[*Term]*Term{}
	{
		es := st.clone()
		for p, v := range l.phis {
			l.h.unify(es, l.st, v, entry[p], em)
		}
		for id, n := range l.objs {
			o := es.obj(id)
			if n.Val != nil {
				l.h.unify(es, l.st, n.Val, o.Val, em)
			}
			for k, v := range n.G {
				l.h.unify(es, l.st, v, o.G[k], em)
			}
		}
	}
	var ints []*Term
	ghost := map[*Term]bool{}
	if x.unit.ct.Opts["infer"] == "hints" {
		for id, n := range l.objs {
			if id == x.sysObj || id == x.clockObj {
				for _, v := range n.G {
					if t, ok := v.(*Term); ok {
						ghost[t] = true
					}
				}
			}
		}
	}
	for _, v := range l.h.vars {
		if v.Sort == c.Int && em[v] != nil && !ghost[v] {
			ints = append(ints, v)
		}
	}
	// strings: their length takes part in the integer relations, and their
	// alphabet may be preserved
	nm := func(t *Term) string {
		if t.Op == OVar {
			return t.Name
		}
		return c.Show(t)
	}
	if len(l.h.vars) < 40 {
		for _, v := range l.h.vars {
			if v.Sort != c.Str || em[v] == nil {
				continue
			}
			if strings.HasSuffix(strings.SplitN(v.Name, "!", 2)[0], ".builder") {
				n := c.SLen(v)
				em[n] = c.SLen(em[v])
				ints = append(ints, n)
				add("alphanumeric "+v.Name, x.alnum(st, v), nil)
			}
		}
	}
	for i, a := range ints {
		add("lower bound of "+nm(a), c.Le(em[a], a), nil)
		add("upper bound of "+nm(a), c.Le(a, em[a]), nil)
		if em[a].Op != OInt || em[a].I.Sign() > 0 {
			add("non-negative "+nm(a), c.Le(c.IntV(0), a), nil)
		}
		for _, b := range ints[:i] {
			add("difference "+nm(a)+" "+nm(b), c.Eq(c.Sub(a, b), c.Sub(em[a], em[b])), nil)
			add("sum "+nm(a)+" "+nm(b), c.Eq(c.Add(a, b), c.Add(em[a], em[b])), nil)
		}
	}
	// a counter may be split in two
	if len(ints) <= 6 {
		for i, a := range ints {
			for j, b := range ints[:i] {
				for k, d := range ints {
					if k != i && k != j {
						add("split of "+nm(d), c.Eq(c.Sub(d, em[d]), c.Add(c.Sub(a, em[a]), c.Sub(b, em[b]))), nil)
					}
				}
			}
		}
	}
	// booleans keep their value
	for _, v := range l.h.vars {
		if v.Sort == c.Bool && em[v] != nil && (em[v] == c.True || em[v] == c.False) {
			add("constant "+v.Name, c.Eq(v, em[v]), nil)
		}
		if (v.Sort == c.Any || v.Sort == c.Str) && em[v] != nil {
			add("constant "+v.Name, c.Eq(v, em[v]), nil)
		}
	}
	// bounds from the loop condition
	if t, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If); ok {
		if cond := x.headerCond(l, lp, t); cond != nil {
			switch cond.Op {
			case OLt:
				add("loop bound", c.Le(cond.Args[0], cond.Args[1]), nil)
				add("loop bound", c.Le(c.Sub(cond.Args[0], c.IntV(1)), cond.Args[1]), nil)
			case OLe:
				add("loop bound", c.Le(cond.Args[0], c.Add(cond.Args[1], c.IntV(1))), nil)
			}
		}
	}
	// library-specific relations and contract hints
	for _, cd := range x.modelCandidates(l, st, entry) {
		add(cd.name, cd.goal, cd.facts)
	}
	for _, cd := range x.hintCandidates(l, st, entry) {
		add(cd.name, cd.goal, cd.facts)
	}
	return out
}

// headerCond evaluates the condition of the loop header in the havocked state.
func (x *Exec) headerCond(l *loopSt, lp *loopCtx, t *ssa.If) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case unsup, deadPath:
				r = nil
			default:
				panic(e)
			}
		}
	}()
	s, f := l.st.clone(), l.fr.clone()
	for _, ins := range lp.header.Instrs {
		switch v := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			r, _ = x.val(s, f, v.Cond).(*Term)
			return r
		case *ssa.Call:
			b, ok := v.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
			d := &deferred{call: &v.Call}
			x.prepCall(s, f, &v.Call, d)
			outs := x.doCall(s, f, d)
			x.setRes(f, v, outs[0].res)
		case ssa.Value:
			f.regs[v] = x.evalInstr(s, f, ins)
		default:
			return nil
		}
	}
	return nil
}
