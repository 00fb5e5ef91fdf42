package main

// Builtins and models of the standard library.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ret(st *State, vs ...Value) []*Outcome { return []*Outcome{{st: st, res: vs}} }

func (x *Exec) builtin(st *State, fr *Frame, name string, args []Value, cc *ssa.CallCommon) []*Outcome {
	c := x.c
	switch name {
	case "len", "cap":
		switch s := args[0].(type) {
		case *Term:
			n := c.SLen(s)
			st.assume(c.Le(c.IntV(0), n))
			return ret(st, n)
		case *SliceV:
			if name == "cap" {
				return ret(st, s.Cap)
			}
			return ret(st, s.Len)
		case *MapV:
			if s.Obj == 0 {
				return ret(st, c.IntV(0))
			}
			o := st.obj(s.Obj)
			if o.Kind == "map" {
				return ret(st, c.IntV(int64(len(o.MapK))))
			}
			n := c.Fresh("maplen", c.Int)
			st.assume(c.Le(c.IntV(0), n))
			return ret(st, n)
		case *ArrayV:
			return ret(st, c.IntV(int64(len(s.E))))
		case *OpaqueV:
			n := c.Fresh("chanlen", c.Int)
			st.assume(c.Le(c.IntV(0), n))
			return ret(st, n)
		}
	case "append":
		return ret(st, x.appendTo(st, args[0].(*SliceV), args[1]))
	case "copy":
		if d, ok := args[0].(*SliceV); ok {
			if s, ok := args[1].(*SliceV); ok {
				n := c.Min(d.Len, s.Len)
				if d.Obj == 0 || s.Obj == 0 {
					return ret(st, c.IntV(0))
				}
				x.copySlice(st, d, s, n)
				return ret(st, n)
			}
		}
	case "delete":
		m := args[0].(*MapV)
		if m.Obj == 0 {
			return ret(st)
		}
		o := st.obj(m.Obj)
		if o.Kind == "map" {
			for i, k := range o.MapK {
				eq := x.equal(st, k, args[1], nil)
				if eq == c.True {
					n := st.mut(m.Obj)
					n.MapK = append(append([]Value{}, o.MapK[:i]...), o.MapK[i+1:]...)
					n.MapV_ = append(append([]Value{}, o.MapV_[:i]...), o.MapV_[i+1:]...)
					return ret(st)
				}
				if eq != c.False {
					x.unsupported(st, "delete with a symbolic key")
				}
			}
			return ret(st)
		}
		if o.MArr != nil {
			n := st.mut(m.Obj)
			kt := args[1].(*Term)
			n.MArr = c.Store(o.MArr, kt, c.None(o.MArr.Sort.Elem.Elem))
			return ret(st)
		}
	case "close":
		ch := args[0].(*OpaqueV)
		return x.closeChan(st, ch)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			if r.Sort == c.Int {
				if name == "min" {
					r = c.Min(r, a.(*Term))
				} else {
					r = c.Max(r, a.(*Term))
				}
			} else {
				x.unsupported(st, "min/max")
			}
		}
		return ret(st, r)
	case "print", "println":
		return ret(st)
	case "panic":
		x.oblige(st, "panic-free", c.False, "explicit panic"+x.where())
		return nil
	case "recover":
		return ret(st, &IfaceV{})
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0], "method value")
		return ret(st, args[0])
	}
	x.unsupported(st, "builtin "+name)
	return nil
}

func (x *Exec) appendTo(st *State, s *SliceV, more Value) Value {
	c := x.c
	et := s.T.Underlying().(*types.Slice).Elem()
	m, ok := more.(*SliceV)
	if !ok {
		if str, isS := more.(*Term); isS { // append([]byte, string...)
			r := x.strToBytes(st, c.Cat(x.bytesToStr(st, s).(*Term), str), s.T)
			return r
		}
		x.unsupported(st, "append")
	}
	if m.Len.Op == OInt && m.Len.I.Sign() == 0 {
		return s
	}
	// concrete
	if s.Len.Op == OInt && m.Len.Op == OInt && (s.Obj == 0 || st.obj(s.Obj).Arr == nil) && m.Obj != 0 && st.obj(m.Obj).Arr == nil && s.Off.Op == OInt && m.Off.Op == OInt {
		var es []Value
		get := func(v *SliceV) {
			if v.Obj == 0 {
				return
			}
			a := st.obj(v.Obj).Val.(*ArrayV)
			o := int(v.Off.I.Int64())
			es = append(es, a.E[o:o+int(v.Len.I.Int64())]...)
		}
		get(s)
		get(m)
		if len(es) < 256 {
			a := &ArrayV{T: types.NewArray(et, int64(len(es))), E: es}
			id := st.alloc(&Obj{T: a.T, Val: a})
			n := c.IntV(int64(len(es)))
			return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, T: s.T}
		}
	}
	es := x.sortOf(et)
	n := c.Add(s.Len, m.Len)
	if es == nil {
		id := st.alloc(&Obj{T: s.T, Arr: c.Fresh("app", c.ArrSort(c.Int, c.Any)), ElemT: et, Kind: "opaque-elems"})
		return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, T: s.T}
	}
	row := x.rowObj[s.Obj] || x.rowObj[m.Obj]
	base := x.sliceArr(st, s, true)
	var arr *Term
	if m.Len.Op == OInt && m.Len.I.Int64() <= 16 {
		arr = base
		for i := int64(0); i < m.Len.I.Int64(); i++ {
			p := x.indexAddr(st, m, c.IntV(i), et).(*PtrV)
			v := x.loadPtr(st, p, et)
			if b, ok := v.(*BoxPtr); ok && b.Row {
				row = true
			}
			arr = c.Store(arr, c.Add(s.Len, c.IntV(i)), x.toTerm(st, v, et, true))
		}
	} else {
		ma := x.sliceArr(st, m, true)
		arr = c.Fresh("app", base.Sort)
		i := c.Bound("i", c.Int)
		st.assume(c.Forall([]*Term{i}, []*Term{c.Select(arr, i)}, c.Eq(c.Select(arr, i), c.Ite(c.Lt(i, s.Len), c.Select(base, i), c.Select(ma, c.Sub(i, s.Len))))))
	}
	id := st.alloc(&Obj{T: s.T, Arr: arr, ElemT: et, HasRow: row})
	if row {
		x.rowObj[id] = true
	}
	return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, T: s.T}
}

func (x *Exec) copySlice(st *State, d, s *SliceV, n *Term) {
	c := x.c
	et := d.T.Underlying().(*types.Slice).Elem()
	if n.Op == OInt && n.I.Int64() <= 64 {
		var vs []Value
		for i := int64(0); i < n.I.Int64(); i++ {
			vs = append(vs, x.loadPtr(st, x.indexAddr(st, s, c.IntV(i), et).(*PtrV), et))
		}
		for i, v := range vs {
			x.storePtr(st, x.indexAddr(st, d, c.IntV(int64(i)), et).(*PtrV), v)
		}
		return
	}
	x.symbolize(st, d)
	sa := x.sliceArr(st, s, true)
	o := st.mut(d.Obj)
	old := o.Arr
	arr := c.Fresh("copy", old.Sort)
	i := c.Bound("i", c.Int)
	rel := c.Sub(i, d.Off)
	st.assume(c.Forall([]*Term{i}, []*Term{c.Select(arr, i)}, c.Eq(c.Select(arr, i),
		c.Ite(c.And(c.Le(c.IntV(0), rel), c.Lt(rel, n)), c.Select(sa, rel), c.Select(old, i)))))
	o.Arr = arr
	if x.rowObj[s.Obj] {
		x.rowObj[d.Obj] = true
		o.HasRow = true
	}
}

// --- maps ---

func (x *Exec) lookup(st *State, fr *Frame, v *ssa.Lookup, k func(*State, *Frame) []*Outcome) []*Outcome {
	c := x.c
	a := x.val(st, fr, v.X)
	key := x.val(st, fr, v.Index)
	if s, ok := a.(*Term); ok {
		x.bounds(st, key.(*Term), c.SLen(s))
		fr.regs[v] = x.charAt(st, s, key.(*Term))
		return k(st, fr)
	}
	m := a.(*MapV)
	et := m.T.Underlying().(*types.Map).Elem()
	kt := m.T.Underlying().(*types.Map).Key()
	set := func(s *State, f *Frame, val Value, ok *Term) []*Outcome {
		if val == nil {
			val = x.zero(s, et)
		}
		if v.CommaOk {
			f.regs[v] = TupleV{val, ok}
		} else {
			f.regs[v] = val
		}
		return k(s, f)
	}
	if m.Obj == 0 {
		return set(st, fr, nil, c.False)
	}
	o := st.obj(m.Obj)
	if o.Kind == "map" {
		var rec func(s *State, f *Frame, i int) []*Outcome
		rec = func(s *State, f *Frame, i int) []*Outcome {
			if i == len(o.MapK) {
				return set(s, f, nil, c.False)
			}
			return x.fork(s, f, x.equal(s, o.MapK[i], key, kt), func(s *State, f *Frame) []*Outcome {
				return set(s, f, o.MapV_[i], c.True)
			}, func(s *State, f *Frame) []*Outcome { return rec(s, f, i+1) })
		}
		return rec(st, fr, 0)
	}
	if o.MArr == nil {
		x.unsupported(st, "lookup in an untracked map")
	}
	opt := c.Select(o.MArr, x.toTerm(st, key, kt, false))
	return x.fork(st, fr, c.IsSome(opt), func(s *State, f *Frame) []*Outcome {
		return set(s, f, x.fromTerm(s, c.Val(opt), et), c.True)
	}, func(s *State, f *Frame) []*Outcome { return set(s, f, nil, c.False) })
}

func (x *Exec) mapUpdate(st *State, fr *Frame, v *ssa.MapUpdate, k func(*State, *Frame) []*Outcome) []*Outcome {
	m := x.val(st, fr, v.Map).(*MapV)
	key, val := x.val(st, fr, v.Key), x.val(st, fr, v.Value)
	if m.Obj == 0 {
		x.oblige(st, "panic-free", x.c.False, "assignment to entry in nil map"+x.where())
		return nil
	}
	x.mapSet(st, m, key, val)
	return k(st, fr)
}

func (x *Exec) mapSet(st *State, m *MapV, key, val Value) {
	c := x.c
	mt := m.T.Underlying().(*types.Map)
	o := st.obj(m.Obj)
	if o.Kind == "map" {
		n := st.mut(m.Obj)
		n.MapK = append([]Value{}, o.MapK...)
		n.MapV_ = append([]Value{}, o.MapV_...)
		for i, k := range o.MapK {
			eq := x.equal(st, k, key, mt.Key())
			if eq == c.True {
				n.MapV_[i] = val
				return
			}
			if eq != c.False {
				x.unsupported(st, "map store with a symbolic key")
			}
		}
		n.MapK = append(n.MapK, key)
		n.MapV_ = append(n.MapV_, val)
		return
	}
	if o.MArr == nil {
		x.unsupported(st, "store into an untracked map")
	}
	n := st.mut(m.Obj)
	n.MArr = c.Store(o.MArr, x.toTerm(st, key, mt.Key(), true), c.Some(x.toTerm(st, val, mt.Elem(), true)))
}

func (x *Exec) rangeInit(st *State, v Value) Value {
	switch m := v.(type) {
	case *MapV:
		if m.Obj == 0 {
			id := st.alloc(&Obj{Kind: "range", G: map[string]Value{"pos": x.c.IntV(0)}})
			return &OpaqueV{Kind: "range", Obj: id}
		}
		o := st.obj(m.Obj)
		if o.Kind == "map" {
			id := st.alloc(&Obj{Kind: "range", G: map[string]Value{"pos": x.c.IntV(0)}, MapK: o.MapK, MapV_: o.MapV_})
			return &OpaqueV{Kind: "range", Obj: id}
		}
		if o.MArr != nil {
			id := st.alloc(&Obj{Kind: "symrange", G: map[string]Value{"pos": x.c.IntV(0)}, MArr: o.MArr, T: m.T})
			return &OpaqueV{Kind: "symrange", Obj: id}
		}
	case *Term:
		x.unsupported(st, "range over string")
	}
	x.unsupported(st, fmt.Sprintf("range over %T", v))
	return nil
}

func (x *Exec) rangeNext(st *State, fr *Frame, v *ssa.Next) Value {
	c := x.c
	it := x.val(st, fr, v.Iter).(*OpaqueV)
	o := st.obj(it.Obj)
	pos := o.G["pos"].(*Term)
	tt := v.Type().(*types.Tuple)
	mk := func(ok *Term, k, e Value) Value {
		if k == nil && types.Typ[types.Invalid] != tt.At(1).Type() {
			k = x.zero(st, tt.At(1).Type())
		}
		if e == nil && types.Typ[types.Invalid] != tt.At(2).Type() {
			e = x.zero(st, tt.At(2).Type())
		}
		return TupleV{ok, k, e}
	}
	if it.Kind == "range" {
		if pos.Op != OInt {
			x.unsupported(st, "range over map in a summarized loop")
		}
		p := int(pos.I.Int64())
		if p >= len(o.MapK) {
			return mk(c.False, nil, nil)
		}
		st.gset(it.Obj, "pos", c.IntV(int64(p+1)))
		return mk(c.True, o.MapK[p], o.MapV_[p])
	}
	// symbolic map: an arbitrary enumeration of its keys
	n := c.App("mapsize", c.Int, o.MArr)
	st.assume(c.Le(c.IntV(0), n))
	mt := o.T.Underlying().(*types.Map)
	ks := o.MArr.Sort.Key
	kk := c.App("mapkey", ks, o.MArr, pos)
	ok := c.Lt(pos, n)
	st.assume(c.Le(c.IntV(0), pos))
	opt := c.Select(o.MArr, kk)
	st.assume(c.Imp(ok, c.And(c.IsSome(opt), c.Eq(c.App("mapidx", c.Int, o.MArr, kk), pos))))
	st.gset(it.Obj, "pos", c.Add(pos, c.IntV(1)))
	return TupleV{ok, x.fromTerm(st, kk, mt.Key()), x.fromTerm(st, c.Val(opt), mt.Elem())}
}

// --- errors ---

func (x *Exec) errMsg(st *State, v Value) Value {
	c := x.c
	switch e := v.(type) {
	case *ErrObj:
		return e.Msg
	case *SymIface:
		if o, ok := x.anyOf[e.T].(*ErrObj); ok {
			return o.Msg
		}
		return c.App("errmsg", c.Str, e.T)
	case *IfaceV:
		if o, ok := e.V.(*ErrObj); ok {
			return o.Msg
		}
	}
	return c.Fresh("msg", c.Str)
}

func (x *Exec) newErr(st *State, msg *Term, wraps []Value) *ErrObj {
	c := x.c
	id := c.Fresh("@error", c.Any)
	e := &ErrObj{ID: id, Msg: msg, Wraps: wraps}
	x.anyOf[id] = e
	st.assume(c.Eq(c.App("errmsg", c.Str, id), msg))
	return e
}

// errIs computes errors.Is(e, target).
func (x *Exec) errIs(st *State, e, target Value) *Term {
	c := x.c
	if t, ok := e.(*Term); ok && t.Sort == c.Any {
		e = &SymIface{T: t, St: errorType}
	}
	if x.isNil(st, e) == c.True {
		return x.isNil(st, target)
	}
	switch v := e.(type) {
	case *ErrObj:
		r := c.Eq(x.anyTerm(st, v, false), x.anyTerm(st, target, false))
		for _, w := range v.Wraps {
			r = c.Or(r, x.errIs(st, w, target))
		}
		return r
	case *SymIface:
		if o, ok := x.anyOf[v.T]; ok {
			if _, isSym := o.(*SymIface); !isSym {
				return x.errIs(st, o, target)
			}
		}
		tt := x.anyTerm(st, target, false)
		if v.T.Op == OApp && v.T.Name == "durerr" {
			// errors of time.ParseDuration are new ones that do not wrap others
			return c.BoolV(v.T == tt)
		}
		u := c.App("errIs", c.Bool, v.T, tt)
		return c.Or(c.Eq(v.T, tt), c.And(c.Not(c.Eq(v.T, c.Nil())), u))
	case *IfaceV:
		if o, ok := v.V.(*ErrObj); ok {
			return x.errIs(st, o, target)
		}
		tt := x.anyTerm(st, target, false)
		tm := x.anyTerm(st, v, false)
		return c.Or(c.Eq(tm, tt), c.And(c.Not(x.isNil(st, v)), c.App("errIs", c.Bool, tm, tt)))
	}
	x.unsupported(st, fmt.Sprintf("errors.Is on %T", e))
	return nil
}

// errAs is errors.As: errors of libraries are taken not to wrap others.
func (x *Exec) errAs(st *State, e Value, p *PtrV, t types.Type) []*Outcome {
	c := x.c
	if tm, ok := e.(*Term); ok && tm.Sort == c.Any {
		e = &SymIface{T: tm, St: errorType}
	}
	found := func(s *State, v Value) []*Outcome {
		x.storePtr(s, p, v)
		return ret(s, c.True)
	}
	isIface := types.IsInterface(t)
	// cases lets a condition decide.
	cases := func(cond *Term, yes func(s *State) []*Outcome) []*Outcome {
		if cond == c.False {
			return ret(st, c.False)
		}
		s2 := st.clone()
		st.assume(cond)
		s2.assume(c.Not(cond))
		var outs []*Outcome
		if x.feasible(st) {
			outs = yes(st)
		}
		if x.feasible(s2) {
			outs = append(outs, ret(s2, c.False)...)
		}
		return outs
	}
	switch v := e.(type) {
	case *ErrObj:
		if isIface && isErrorType(t) {
			return found(st, v)
		}
		outs := []*Outcome{}
		s := st
		for _, w := range v.Wraps {
			var next *State
			for _, o := range x.errAs(s, w, p, t) {
				if T(o.res[0]) == c.True {
					outs = append(outs, o)
				} else if next != nil {
					x.unsupported(st, "errors.As on several errors")
				} else {
					next = o.st
				}
			}
			if next == nil {
				return outs
			}
			s = next
		}
		return append(outs, ret(s, c.False)...)
	case *IfaceV:
		if v.Dyn == nil {
			return ret(st, c.False)
		}
		if o, ok := v.V.(*ErrObj); ok {
			return x.errAs(st, o, p, t)
		}
		match := types.AssignableTo(v.Dyn, t)
		if !match {
			if obj, _, _ := types.LookupFieldOrMethod(v.Dyn, true, nil, "Unwrap"); obj != nil && !strings.HasPrefix(typeName(v.Dyn), mongoPkg) {
				x.unsupported(st, "errors.As on an error that wraps others")
			}
			x.assumption("errors of libraries do not wrap errors of other types")
			return ret(st, c.False)
		}
		return cases(c.Not(x.isNil(st, v)), func(s *State) []*Outcome {
			if isIface {
				return found(s, &IfaceV{Dyn: v.Dyn, V: v.V})
			}
			return found(s, v.V)
		})
	case *SymIface:
		if o, ok := x.anyOf[v.T]; ok {
			if _, isSym := o.(*SymIface); !isSym {
				return x.errAs(st, o, p, t)
			}
		}
		x.assumption("errors of libraries do not wrap errors of other types")
		nn := c.Not(c.Eq(v.T, c.Nil()))
		if isIface && isErrorType(t) {
			return cases(nn, func(s *State) []*Outcome { return found(s, v) })
		}
		return cases(c.And(nn, c.App("istype_"+sanitize(typeName(t)), c.Bool, v.T)), func(s *State) []*Outcome {
			if isIface {
				return found(s, &SymIface{T: v.T, St: t})
			}
			s.assume(c.Eq(c.App("refl_kind", c.Int, v.T), c.IntV(int64(reflKind(t)))))
			if so := x.sortOf(t); so != nil {
				return found(s, x.fromTerm(s, c.App("as_"+sanitize(typeName(t)), so, v.T), t))
			}
			return found(s, x.freshVal(s, t, "as"))
		})
	}
	x.unsupported(st, fmt.Sprintf("errors.As on %T", e))
	return nil
}

// fmtString models fmt.Sprintf for literal formats with simple verbs.
func (x *Exec) fmtString(st *State, f *Term, args []Value, wraps *[]Value) *Term {
	c := x.c
	if f.Op != OStr {
		return c.Fresh("sprintf", c.Str)
	}
	out := c.StrV("")
	s := f.Name
	ai := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = c.Cat(out, c.StrV(s))
			break
		}
		out = c.Cat(out, c.StrV(s[:i]))
		s = s[i+1:]
		if s == "" {
			return c.Fresh("sprintf", c.Str)
		}
		verb := s[0]
		s = s[1:]
		if verb == '%' {
			out = c.Cat(out, c.StrV("%"))
			continue
		}
		if ai >= len(args) {
			return c.Fresh("sprintf", c.Str)
		}
		a := args[ai]
		ai++
		if verb == 'w' && wraps != nil {
			*wraps = append(*wraps, a)
		}
		var piece *Term
		var inner Value = a
		var dt types.Type
		if iv, ok := a.(*IfaceV); ok && iv.Dyn != nil {
			inner, dt = iv.V, iv.Dyn
		}
		switch verb {
		case 's', 'v', 'w', 'd', 'q':
			switch t := inner.(type) {
			case *Term:
				switch {
				case t.Sort == c.Str && (verb == 's' || verb == 'v'):
					piece = t
				case t.Sort == c.Int && (verb == 'd' || verb == 'v') && (dt == nil || types.NewMethodSet(dt).Lookup(nil, "String") == nil):
					if t.Op == OInt {
						piece = c.StrV(t.I.String())
					} else {
						piece = c.App("itoa", c.Str, t)
					}
				}
			case *ErrObj, *SymIface:
				if verb != 'd' && verb != 'q' {
					piece = x.errMsg(st, t).(*Term)
				}
			}
		}
		if piece == nil {
			piece = c.Fresh("fmt", c.Str)
		}
		out = c.Cat(out, piece)
	}
	return out
}

func (x *Exec) sliceElems(st *State, v Value) ([]Value, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	if s.Obj == 0 {
		return nil, true
	}
	if s.Len.Op != OInt {
		return nil, false
	}
	et := s.T.Underlying().(*types.Slice).Elem()
	var r []Value
	for i := int64(0); i < s.Len.I.Int64(); i++ {
		p := x.indexAddr(st, s, x.c.IntV(i), et).(*PtrV)
		r = append(r, x.loadPtr(st, p, et))
	}
	return r, true
}

func (x *Exec) zeroTime() *Term {
	// 0001-01-01T00:00:00Z in nanoseconds since the epoch
	return x.c.BigV(mustBig("-62135596800000000000"))
}

func (x *Exec) now(st *State) *Term {
	c := x.c
	t := c.Fresh("now", c.Int)
	last := st.gterm(x.clockObj, "now")
	st.assume(c.Le(last, t))
	st.gset(x.clockObj, "now", t)
	return t
}

const million = 1000000

func (x *Exec) ms(t *Term) *Term { return x.c.Div(t, mustBig("1000000")) }

// lib dispatches calls to modelled functions; ok=false if there is no model.
func (x *Exec) tryIntrinsic(st *State, fr *Frame, name string, args []Value, cc *ssa.CallCommon, fn *ssa.Function) ([]*Outcome, bool) {
	if name == x.unit.target && len(x.stack) > 0 && x.stack[0] != fn {
		// fall through: the unit itself is never called by contract
	}
	if d := x.unit.ct.Abstract[name]; d != nil {
		return x.applyAbstract(st, d, name, fn, cc.Signature(), args), true
	}
	if ct := x.prog.contracts[name]; ct != nil && ct.callByContract && name != x.unit.target {
		return x.applyContract(st, fr, ct, fn, cc.Signature(), args), true
	}
	if f, ok := libModels[name]; ok {
		x.trusted[name] = true
		return f(x, st, fr, args, cc), true
	}
	for _, t := range modelPrefixes {
		if strings.HasPrefix(name, t.prefix) {
			if out, ok := t.f(x, st, fr, name, args, cc); ok {
				x.trusted[name] = true
				return out, true
			}
		}
	}
	return nil, false
}

func (x *Exec) intrinsic(st *State, fr *Frame, name string, args []Value, cc *ssa.CallCommon) []*Outcome {
	if out, ok := x.tryIntrinsic(st, fr, name, args, cc, nil); ok {
		return out
	}
	var sig *types.Signature
	if cc != nil {
		sig = cc.Signature()
	}
	if sig == nil {
		x.unsupported(st, "call of "+name)
	}
	return x.external(st, fr, name, sig, args)
}

type modelFn func(x *Exec, st *State, fr *Frame, args []Value, cc *ssa.CallCommon) []*Outcome

var libModels = map[string]modelFn{}

type prefixModel struct {
	prefix string
	f      func(x *Exec, st *State, fr *Frame, name string, args []Value, cc *ssa.CallCommon) ([]*Outcome, bool)
}

var modelPrefixes []prefixModel

func T(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsup{fmt.Sprintf("expected a scalar, have %T", v)})
	}
	return t
}

func init() {
	m := libModels
	// errors and formatting
	m["errors.New"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		if x.initPhase {
			// sentinel: the identity is given by the variable it is stored in
			x.nsent++
			id := x.c.Var(fmt.Sprintf("@err:init%d", x.nsent), x.c.Any)
			e := &ErrObj{ID: id, Msg: T(a[0]), Name: T(a[0]).Name}
			x.anyOf[id] = e
			return ret(st, e)
		}
		return ret(st, x.newErr(st, T(a[0]), nil))
	}
	m["fmt.Errorf"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		es, ok := x.sliceElems(st, a[1])
		var wraps []Value
		msg := x.c.Fresh("errorf", x.c.Str)
		if ok {
			msg = x.fmtString(st, T(a[0]), es, &wraps)
		}
		return ret(st, x.newErr(st, msg, wraps))
	}
	m["fmt.Sprintf"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		es, ok := x.sliceElems(st, a[1])
		if !ok {
			return ret(st, x.c.Fresh("sprintf", x.c.Str))
		}
		return ret(st, x.fmtString(st, T(a[0]), es, nil))
	}
	m["fmt.Sprint"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.Fresh("sprint", x.c.Str))
	}
	m["(error).Error"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.errMsg(st, a[0]))
	}
	m["errors.Is"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.errIs(st, a[0], a[1]))
	}
	m["errors.As"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		i, ok := a[1].(*IfaceV)
		if !ok || i.Dyn == nil {
			x.unsupported(st, "errors.As with an unknown target")
		}
		pt, ok := i.Dyn.Underlying().(*types.Pointer)
		p, ok2 := i.V.(*PtrV)
		if !ok || !ok2 {
			x.unsupported(st, "errors.As with an unknown target")
		}
		return x.errAs(st, a[0], p, pt.Elem())
	}
	nop := func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome { return ret(st) }
	// strings
	m["strconv.Itoa"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		if t := T(a[0]); t.Op == OInt {
			return ret(st, x.c.StrV(t.I.String()))
		}
		return ret(st, x.c.App("itoa", x.c.Str, T(a[0])))
	}
	m["strings.TrimPrefix"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		s, p := T(a[0]), T(a[1])
		if s.Op == OStr && p.Op == OStr {
			return ret(st, c.StrV(strings.TrimPrefix(s.Name, p.Name)))
		}
		// either s = p + r and the result is r, or the result is s
		var outs []*Outcome
		h := c.HasPrefix(s, p)
		if h != c.False {
			s2 := st.clone()
			s2.assume(h)
			r := c.Fresh("trimmed", c.Str)
			s2.assume(c.Eq(s, c.Cat(p, r)))
			outs = append(outs, &Outcome{st: s2, res: []Value{r}})
		}
		if h != c.True {
			st.assume(c.Not(h))
			outs = append(outs, &Outcome{st: st, res: []Value{s}})
		}
		return outs
	}
	m["strings.ToLower"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		if t := T(a[0]); t.Op == OStr {
			return ret(st, x.c.StrV(strings.ToLower(t.Name)))
		}
		return ret(st, x.c.App("lower", x.c.Str, T(a[0])))
	}
	specFuncs["lower"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.App("lower", x.c.Str, x.evalTerm(env, n.Args[0]))
	}
	m["strings.EqualFold"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		s, t := T(a[0]), T(a[1])
		if s.Op == OStr {
			s, t = t, s
		}
		if t.Op == OStr && s.Op != OStr && !strings.ContainsAny(t.Name, "sSkK") && strings.IndexFunc(t.Name, func(r rune) bool { return r >= 128 }) < 0 {
			return ret(st, x.c.Eq(x.c.App("lower", x.c.Str, s), x.c.StrV(strings.ToLower(t.Name))))
		}
		return ret(st, x.c.App("equalfold", x.c.Bool, s, t))
	}
	m["strings.HasPrefix"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.HasPrefix(T(a[0]), T(a[1])))
	}
	m["strings.HasSuffix"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.HasSuffix(T(a[0]), T(a[1])))
	}
	m["strings.CutPrefix"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		outs := libModels["strings.TrimPrefix"](x, st, fr, a, cc)
		for _, o := range outs {
			o.res = append(o.res, x.c.BoolV(o.res[0] != a[0]))
		}
		return outs
	}
	specFuncs["hasprefix"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.HasPrefix(x.evalTerm(env, n.Args[0]), x.evalTerm(env, n.Args[1]))
	}
	specFuncs["hassuffix"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.HasSuffix(x.evalTerm(env, n.Args[0]), x.evalTerm(env, n.Args[1]))
	}
	m["strings.ToValidUTF8"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		r := c.App("tovalid", c.Str, T(a[0]), T(a[1]))
		// the result is valid if the replacement is, and valid strings are unchanged
		st.assume(c.Imp(c.App("validutf8", c.Bool, T(a[1])), c.App("validutf8", c.Bool, r)))
		st.assume(c.Imp(c.App("validutf8", c.Bool, T(a[0])), c.Eq(r, T(a[0]))))
		if T(a[1]).Op == OStr {
			st.assume(c.App("validutf8", c.Bool, T(a[1])))
		}
		return ret(st, r)
	}
	m["unicode/utf8.ValidString"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.App("validutf8", x.c.Bool, T(a[0])))
	}
	// time
	m["time.Now"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.now(st))
	}
	m["time.Since"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.Sub(x.now(st), T(a[0])))
	}
	m["time.Until"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.Sub(T(a[0]), x.now(st)))
	}
	m["time.UnixMilli"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.Mul(T(a[0]), x.c.IntV(million)))
	}
	m["time.Unix"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.Add(x.c.Mul(T(a[0]), x.c.IntV(1000000000)), T(a[1])))
	}
	tm := func(n string, f func(x *Exec, st *State, a []*Term) *Term) {
		m["(time.Time)."+n] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			var ts []*Term
			for _, v := range a {
				ts = append(ts, T(v))
			}
			return ret(st, f(x, st, ts))
		}
	}
	tm("After", func(x *Exec, st *State, a []*Term) *Term { return x.c.Lt(a[1], a[0]) })
	tm("Before", func(x *Exec, st *State, a []*Term) *Term { return x.c.Lt(a[0], a[1]) })
	tm("Equal", func(x *Exec, st *State, a []*Term) *Term { return x.c.Eq(a[0], a[1]) })
	tm("Compare", func(x *Exec, st *State, a []*Term) *Term {
		c := x.c
		return c.Ite(c.Lt(a[0], a[1]), c.IntV(-1), c.Ite(c.Eq(a[0], a[1]), c.IntV(0), c.IntV(1)))
	})
	tm("Add", func(x *Exec, st *State, a []*Term) *Term { return x.c.Add(a[0], a[1]) })
	tm("Sub", func(x *Exec, st *State, a []*Term) *Term { return x.c.Sub(a[0], a[1]) })
	tm("IsZero", func(x *Exec, st *State, a []*Term) *Term { return x.c.Eq(a[0], x.zeroTime()) })
	tm("UTC", func(x *Exec, st *State, a []*Term) *Term { return a[0] })
	tm("Local", func(x *Exec, st *State, a []*Term) *Term { return a[0] })
	tm("UnixMilli", func(x *Exec, st *State, a []*Term) *Term { return x.ms(a[0]) })
	tm("UnixNano", func(x *Exec, st *State, a []*Term) *Term { return a[0] })
	tm("UnixMicro", func(x *Exec, st *State, a []*Term) *Term { return x.c.Div(a[0], mustBig("1000")) })
	tm("Unix", func(x *Exec, st *State, a []*Term) *Term { return x.c.Div(a[0], mustBig("1000000000")) })
	m["(time.Duration).Seconds"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.seconds(T(a[0])))
	}
	m["time.ParseDuration"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		s := T(a[0])
		ok := c.App("durok", c.Bool, s)
		d := c.App("dur", c.Int, s)
		if s.Op == OStr && s.Name == "10m" { // literal of the repository
			st.assume(c.And(ok, c.Eq(d, c.IntV(600*1000000000))))
		}
		e := &SymIface{T: c.App("durerr", c.Any, s), St: errorType}
		st.assume(c.Eq(c.Eq(e.T, c.Nil()), ok))
		return ret(st, c.Ite(ok, d, c.IntV(0)), e)
	}
	// context
	m["context.Background"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, &SymIface{T: x.c.Var("@ctx:background", x.c.Any), St: cc.Signature().Results().At(0).Type()})
	}
	// strings.Builder
	m["(*strings.Builder).Grow"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.oblige(st, "panic-free", x.c.Le(x.c.IntV(0), T(a[1])), "Builder.Grow with a negative count"+x.where())
		st.assume(x.c.Le(x.c.IntV(0), T(a[1])))
		x.builder(st, a[0])
		return ret(st)
	}
	m["(*strings.Builder).WriteByte"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.builderAdd(st, a[0], x.chr(st, T(a[1])))
		return ret(st, &IfaceV{})
	}
	m["(*strings.Builder).WriteRune"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.unsupportedIf(st, !x.must(st, x.c.And(x.c.Le(x.c.IntV(0), T(a[1])), x.c.Lt(T(a[1]), x.c.IntV(128)))), "WriteRune outside ASCII")
		x.builderAdd(st, a[0], x.chr(st, T(a[1])))
		return ret(st, x.c.IntV(1), &IfaceV{})
	}
	m["(*strings.Builder).WriteString"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.builderAdd(st, a[0], T(a[1]))
		return ret(st, x.c.SLen(T(a[1])), &IfaceV{})
	}
	m["(*strings.Builder).String"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.builder(st, a[0]))
	}
	m["(*strings.Builder).Len"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.SLen(x.builder(st, a[0])))
	}
	// random numbers
	rnd := func(lo, hi string) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			r := x.c.Fresh("rand", x.c.Int)
			st.assume(x.c.And(x.c.Le(x.c.BigV(mustBig(lo)), r), x.c.Lt(r, x.c.BigV(mustBig(hi)))))
			return ret(st, r)
		}
	}
	rndN := func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.oblige(st, "panic-free", x.c.Lt(x.c.IntV(0), T(a[0])), "rand.Intn with a non-positive bound")
		r := x.c.Fresh("rand", x.c.Int)
		st.assume(x.c.And(x.c.Le(x.c.IntV(0), r), x.c.Lt(r, T(a[0]))))
		return ret(st, r)
	}
	for _, p := range []string{"math/rand.", "math/rand/v2."} {
		m[p+"Int63"] = rnd("0", "9223372036854775808")
		m[p+"Int64"] = rnd("0", "9223372036854775808")
		m[p+"Int"] = rnd("0", "9223372036854775808")
		m[p+"Int31"] = rnd("0", "2147483648")
		m[p+"Int32"] = rnd("0", "2147483648")
		m[p+"Uint32"] = rnd("0", "4294967296")
		m[p+"Uint64"] = rnd("0", "18446744073709551616")
		m[p+"Intn"], m[p+"IntN"], m[p+"Int63n"], m[p+"Int31n"], m[p+"Int64N"], m[p+"N"] = rndN, rndN, rndN, rndN, rndN, rndN
	}
	m["math/rand.Seed"] = nop
	// atomics on symbolic cells
	m["(*sync/atomic.Int32).Load"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return x.atomicLoad(st, a[0])
	}
	m["(*sync/atomic.Int32).Store"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return x.atomicStore(st, a[0], T(a[1]))
	}
	m["(*sync.Mutex).Lock"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return x.mutex(st, a[0], true)
	}
	m["(*sync.Mutex).Unlock"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return x.mutex(st, a[0], false)
	}
}

func (x *Exec) unsupportedIf(st *State, c bool, msg string) {
	if c {
		x.unsupported(st, msg)
	}
}

// chr is the one-byte string of an ASCII code.
func (x *Exec) chr(st *State, b *Term) *Term {
	c := x.c
	if b.Op == OInt {
		return c.StrV(string([]byte{byte(b.I.Int64())}))
	}
	s := c.App("chr", c.Str, b)
	st.assume(c.Eq(c.SLen(s), c.IntV(1)))
	return s
}

func (x *Exec) builderObj(st *State, v Value) int {
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 {
		x.unsupported(st, "strings.Builder")
	}
	x.nonNil(st, v, "Builder")
	key := "builder"
	for _, e := range p.Path {
		key += fmt.Sprintf(".%d", e.N)
	}
	o := st.obj(p.Obj)
	if o.G == nil || o.G[key] == nil {
		st.gset(p.Obj, key, x.c.StrV(""))
	}
	if len(p.Path) > 0 {
		x.unsupported(st, "strings.Builder inside a structure")
	}
	return p.Obj
}

func (x *Exec) builder(st *State, v Value) *Term {
	return st.gterm(x.builderObj(st, v), "builder")
}

func (x *Exec) builderAdd(st *State, v Value, s *Term) {
	id := x.builderObj(st, v)
	st.gset(id, "builder", x.c.App("cat2", x.c.Str, st.gterm(id, "builder"), s))
	// length and character set of a concatenation
	c := x.c
	a := st.gterm(id, "builder").Args[0]
	r := st.gterm(id, "builder")
	st.assume(c.Eq(c.SLen(r), c.Add(c.SLen(a), c.SLen(s))))
	an := func(t *Term) *Term { return x.alnum(st, t) }
	st.assume(c.Eq(an(r), c.And(an(a), an(s))))
}

// alnum: all characters are ASCII letters or digits.
func (x *Exec) alnum(st *State, s *Term) *Term { return x.c.App("alnum", x.c.Bool, s) }

func (x *Exec) atomicCell(st *State, v Value) (int, string) {
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 {
		x.unsupported(st, fmt.Sprintf("atomic on %T", v))
	}
	x.nonNil(st, v, "atomic")
	key := "atomic"
	for _, e := range p.Path {
		key += fmt.Sprintf(".%d", e.N)
	}
	o := st.obj(p.Obj)
	if o.G == nil || o.G[key] == nil {
		init := x.c.IntV(0)
		if o.Caller || o.Kind == "global" {
			init = x.c.Var(fmt.Sprintf("atomic0_%d%s", p.Obj, key), x.c.Int)
		}
		st.gset(p.Obj, key, init)
	}
	return p.Obj, key
}

func (x *Exec) atomicLoad(st *State, v Value) []*Outcome {
	id, key := x.atomicCell(st, v)
	if x.mongoUnit() && x.ghostObj != 0 {
		// another request may have switched to the fallback
		c := x.c
		b := c.And(c.Fresh("switched", c.Bool), c.Eq(st.gterm(id, key), c.IntV(0)))
		st.gset(id, key, c.Ite(b, c.IntV(1), st.gterm(id, key)))
		st.gset(x.ghostObj, "flagenv", c.Or(st.gterm(x.ghostObj, "flagenv"), b))
	}
	return ret(st, st.gterm(id, key))
}

func (x *Exec) atomicStore(st *State, v Value, t *Term) []*Outcome {
	id, key := x.atomicCell(st, v)
	st.gset(id, key, t)
	return ret(st)
}

func (x *Exec) mutex(st *State, v Value, lock bool) []*Outcome {
	c := x.c
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 {
		x.unsupported(st, "mutex")
	}
	x.nonNil(st, v, "mutex")
	key := "mutex"
	for _, e := range p.Path {
		key += fmt.Sprintf(".%d", e.N)
	}
	o := st.obj(p.Obj)
	held := c.False
	if o.G != nil && o.G[key] != nil {
		held = o.G[key].(*Term)
	}
	if lock {
		x.oblige(st, "usable", c.Not(held), "locking a mutex this operation already holds"+x.where())
		st.gset(p.Obj, key, c.True)
		// what the mutex protects may have changed before it was acquired
		x.mutexEnv(st, p)
	} else {
		x.oblige(st, "panic-free", held, "unlocking a mutex that is not held"+x.where())
		st.gset(p.Obj, key, c.False)
	}
	return ret(st)
}

// mutexEnv: other goroutines may have changed the fields beside the mutex.
func (x *Exec) mutexEnv(st *State, p *PtrV) {}

var _ = token.ADD
