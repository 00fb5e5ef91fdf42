package main

// Joining the outcomes of a call: outcomes that return alike and differ only in
// values are continued as one, under the disjunction of their path conditions.

import (
	"go/types"
	"os"
)

var noJoin = os.Getenv("GOVC_NOJOIN") != ""

// joinOutcomes joins outcomes of a call that began with n0 assumptions.
func (x *Exec) joinOutcomes(n0 int, sig *types.Signature, out []*Outcome) []*Outcome {
	if noJoin || len(out) < 2 || len(out) > 4000 {
		return out
	}
	var res []*Outcome
	for _, o := range out {
		joined := false
		if !o.edge {
			for k, p := range res {
				if p.edge {
					continue
				}
				if j := x.joinPair(n0, sig, p, o); j != nil {
					res[k] = j
					joined = true
					break
				}
			}
		}
		if !joined {
			res = append(res, o)
		}
	}
	return res
}

func (x *Exec) joinPair(n0 int, sig *types.Signature, a, b *Outcome) *Outcome {
	c := x.c
	p, q := a.st, b.st
	if p.lost != q.lost || p.suspended != q.suspended || p.trial != q.trial || len(a.res) != len(b.res) ||
		len(p.events) != len(q.events) || len(p.done) != len(q.done) || len(p.threads) != len(q.threads) ||
		len(p.pc) < n0 || len(q.pc) < n0 {
		return nil
	}
	for i := range p.events {
		if p.events[i] != q.events[i] {
			return nil
		}
	}
	for i := range p.done {
		if p.done[i] != q.done[i] {
			return nil
		}
	}
	for i := range p.threads {
		if p.threads[i] != q.threads[i] {
			return nil
		}
	}
	for i := 0; i < n0; i++ {
		if p.pc[i] != q.pc[i] {
			return nil
		}
	}
	// the path conditions since the call
	var ra, rb, both []*Term
	for _, t := range p.pc[n0:] {
		if q.pcset[t] {
			both = append(both, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range q.pc[n0:] {
		if !p.pcset[t] {
			rb = append(rb, t)
		}
	}
	j := &joiner{x: x, a: p, b: q}
	// a condition that tells the outcomes apart
	for _, t := range ra {
		for _, u := range rb {
			if c.Not(t) == u {
				j.cond = t
			}
		}
		if j.cond != nil {
			break
		}
	}
	fresh := j.cond == nil
	if fresh {
		j.cond = c.Fresh("choice", c.Bool)
	}
	// values returned
	var rs []Value
	for i := range a.res {
		t := sig.Results().At(i).Type()
		if sameValue(a.res[i], b.res[i]) {
			rs = append(rs, a.res[i])
			continue
		}
		switch u := a.res[i].(type) {
		case *Term:
			if u.Sort == c.Bool {
				return nil
			}
		case *IfaceV: // errors made on both sides
		default:
			return nil
		}
		v := j.val(a.res[i], b.res[i], t)
		if v == nil {
			return nil
		}
		rs = append(rs, v)
	}
	// the heap
	type upd struct {
		id int
		o  *Obj
	}
	var ups []upd
	for id, o := range p.heap {
		o2, ok := q.heap[id]
		if !ok {
			if o2, ok = q.base[id]; !ok {
				continue
			}
		}
		if o == o2 {
			continue
		}
		n := j.obj(o, o2)
		if n == nil {
			return nil
		}
		if n != o {
			ups = append(ups, upd{id, n})
		}
	}
	for id, o2 := range q.heap {
		if _, ok := p.heap[id]; ok {
			continue
		}
		o, ok := p.base[id]
		if !ok {
			ups = append(ups, upd{id, o2})
			continue
		}
		n := j.obj(o, o2)
		if n == nil {
			return nil
		}
		ups = append(ups, upd{id, n})
	}
	st := p.clone()
	st.pc, st.pcset = append([]*Term{}, p.pc[:n0]...), map[*Term]bool{}
	for _, t := range st.pc {
		st.pcset[t] = true
	}
	for _, t := range both {
		st.assume(t)
	}
	if fresh && j.used {
		ra, rb = append([]*Term{j.cond}, ra...), append([]*Term{c.Not(j.cond)}, rb...)
	}
	st.assume(c.Or(c.And(ra...), c.And(rb...)))
	for _, u := range ups {
		st.heap[u.id] = u.o
	}
	for _, id := range j.boxed {
		if _, ok := st.heap[id]; ok || st.base[id] != nil {
			st.mut(id).Boxed = true
		}
	}
	for k, v := range st.consts {
		if w, ok := q.consts[k]; !ok || !sameValue(v, w) {
			delete(st.consts, k)
		}
	}
	return &Outcome{st: st, res: rs}
}

type joiner struct {
	x     *Exec
	a, b  *State
	cond  *Term
	used  bool
	boxed []int
}

func (j *joiner) ite(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		return nil
	}
	j.used = true
	return j.x.c.Ite(j.cond, a, b)
}

// val is the choice between two values of a type, or nil.
func (j *joiner) val(a, b Value, t types.Type) Value {
	x, c := j.x, j.x.c
	if sameValue(a, b) {
		return a
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.Sort != q.Sort {
			return nil
		}
		return j.ite(p, q)
	case *SymIface:
		q, ok := b.(*SymIface)
		if !ok || isErrorType(t) || p.T.Sort != q.T.Sort {
			return nil
		}
		return &SymIface{T: j.ite(p.T, q.T), St: p.St}
	case *IfaceV:
		q, ok := b.(*IfaceV)
		if !ok || p.Dyn == nil || q.Dyn == nil || p.NilIf != q.NilIf || !types.Identical(p.Dyn, q.Dyn) {
			return nil
		}
		e, ok1 := p.V.(*ErrObj)
		f, ok2 := q.V.(*ErrObj)
		if !ok1 || !ok2 || e.Name != "" || f.Name != "" || len(e.Wraps) != len(f.Wraps) {
			return nil
		}
		for i := range e.Wraps {
			if !sameValue(e.Wraps[i], f.Wraps[i]) {
				return nil
			}
		}
		return &IfaceV{Dyn: p.Dyn, V: &ErrObj{ID: j.ite(e.ID, f.ID), Msg: j.ite(e.Msg, f.Msg), Wraps: e.Wraps}, NilIf: p.NilIf}
	case *StructV:
		q, ok := b.(*StructV)
		u, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 || len(p.F) != len(q.F) || p.Lazy != q.Lazy {
			return nil
		}
		n := &StructV{T: p.T, F: make([]Value, len(p.F)), Lazy: p.Lazy}
		for i := range p.F {
			if p.F[i] == nil && q.F[i] == nil {
				continue
			}
			v, w := p.F[i], q.F[i]
			if v == nil {
				v = x.field(j.a, p, i)
			}
			if w == nil {
				w = x.field(j.b, q, i)
			}
			if n.F[i] = j.val(v, w, u.Field(i).Type()); n.F[i] == nil {
				return nil
			}
		}
		return n
	case *PtrV, *BoxPtr:
		u, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		pp, ok1 := a.(*PtrV)
		qq, ok2 := b.(*PtrV)
		if ok1 && ok2 && pp.Obj != 0 && pp.Obj == qq.Obj && len(pp.Path) == 0 && len(qq.Path) == 0 {
			na, nb := pp.Nil, qq.Nil
			if na == nil {
				na = c.False
			}
			if nb == nil {
				nb = c.False
			}
			return &PtrV{Obj: pp.Obj, Nil: j.ite(na, nb), Elem: pp.Elem}
		}
		if x.scalarSort(u.Elem()) == nil {
			return nil
		}
		// pointers to values that are not written anymore
		box := func(st *State, v Value) (*Term, bool) {
			switch p := v.(type) {
			case *BoxPtr:
				return p.Opt, p.Row || p.Arg != ""
			case *PtrV:
				if p.Obj != 0 {
					if len(p.Path) != 0 {
						return nil, false
					}
					j.boxed = append(j.boxed, p.Obj)
				}
				return x.toTerm(st, v, t, false), false
			}
			return nil, false
		}
		o1, s1 := box(j.a, a)
		o2, s2 := box(j.b, b)
		if o1 == nil || o2 == nil || o1.Sort != o2.Sort || s1 || s2 {
			return nil
		}
		return &BoxPtr{Opt: j.ite(o1, o2), Elem: u.Elem()}
	}
	return nil
}

// obj is the choice between two contents of an object, or nil.
func (j *joiner) obj(a, b *Obj) *Obj {
	if a.T != b.T && (a.T == nil || b.T == nil || !types.Identical(a.T, b.T)) || a.Own != b.Own || a.Kind != b.Kind || a.Caller != b.Caller || a.Pub != b.Pub || a.HasRow != b.HasRow ||
		len(a.MapK) != len(b.MapK) || len(a.G) != len(b.G) || (a.Val == nil) != (b.Val == nil) {
		return nil
	}
	n := a
	mut := func() {
		if n == a {
			n = a.clone()
		}
	}
	if a.Boxed != b.Boxed {
		mut()
		n.Boxed = true
	}
	for i := range a.MapK {
		if !sameValue(a.MapK[i], b.MapK[i]) || !sameValue(a.MapV_[i], b.MapV_[i]) {
			return nil
		}
	}
	if a.Arr != b.Arr || a.MArr != b.MArr {
		return nil
	}
	if a.Val != nil && !sameValue(a.Val, b.Val) {
		if a.T == nil {
			return nil
		}
		v := j.val(a.Val, b.Val, a.T)
		if v == nil {
			return nil
		}
		mut()
		n.Val = v
	}
	for k, v := range a.G {
		w, ok := b.G[k]
		if !ok {
			return nil
		}
		if sameValue(v, w) {
			continue
		}
		t, ok1 := v.(*Term)
		u, ok2 := w.(*Term)
		if !ok1 || !ok2 || t.Sort != u.Sort || k != "now" {
			return nil
		}
		mut()
		n.G[k] = j.ite(t, u)
	}
	return n
}
