package main

// Models of reflect (as far as index builders use it), encoding/binary and
// bytes.Compare.

import (
	"go/ast"
	"go/types"
	"math/big"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// ReflV is a reflect.Value: invalid (neither T nor Sym), of a known type, or
// of a value of unknown type.
type ReflV struct {
	V   Value
	T   types.Type
	Sym *Term // the value as an interface, not nil
}

func reflKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Array:
		return reflect.Array
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (x *Exec) reflKind(v *ReflV) *Term {
	c := x.c
	if v.Sym != nil {
		k := c.App("refl_kind", c.Int, v.Sym)
		return k
	}
	if v.T == nil {
		return c.IntV(0)
	}
	return c.IntV(int64(reflKind(v.T)))
}

// indirect gives the dynamic value behind an optional pointer held by an
// unknown interface: its kind (0 if there is none) and the value.
func (x *Exec) indirect(t *Term) (kind, val *Term) {
	c := x.c
	k := c.App("refl_kind", c.Int, t)
	ptr := c.Eq(k, c.IntV(int64(reflect.Pointer)))
	e := c.App("refl_elem", c.Any, t)
	val = c.Ite(ptr, e, t)
	kind = c.Ite(c.Eq(t, c.Nil()), c.IntV(0), c.Ite(ptr, c.Ite(c.Eq(e, c.Nil()), c.IntV(0), c.App("refl_kind", c.Int, e)), k))
	return
}

func init() {
	m := libModels
	mustValid := func(x *Exec, st *State, v *ReflV, what string) {
		if v.T == nil && v.Sym == nil {
			x.oblige(st, "panic-free", x.c.False, what+" of the zero reflect.Value"+x.where())
			panic(deadPath{})
		}
	}
	kindIn := func(x *Exec, st *State, v *ReflV, what string, ks ...reflect.Kind) {
		mustValid(x, st, v, what)
		g := x.c.False
		for _, k := range ks {
			g = x.c.Or(g, x.c.Eq(x.reflKind(v), x.c.IntV(int64(k))))
		}
		x.oblige(st, "panic-free", g, "reflect "+what+" of a value of another kind"+x.where())
		if g == x.c.False {
			panic(deadPath{})
		}
		st.assume(g)
	}
	m["reflect.ValueOf"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		switch i := a[0].(type) {
		case *IfaceV:
			if i.Dyn == nil {
				return ret(st, &ReflV{})
			}
			if i.NilIf != nil {
				return x.fork(st, fr, i.NilIf, func(s *State, f *Frame) []*Outcome { return ret(s, &ReflV{}) },
					func(s *State, f *Frame) []*Outcome { return ret(s, &ReflV{V: i.V, T: i.Dyn}) })
			}
			return ret(st, &ReflV{V: i.V, T: i.Dyn})
		case *SymIface:
			return x.fork(st, fr, x.isNil(st, i), func(s *State, f *Frame) []*Outcome { return ret(s, &ReflV{}) },
				func(s *State, f *Frame) []*Outcome {
					k := x.c.App("refl_kind", x.c.Int, i.T)
					s.assume(x.c.And(x.c.Lt(x.c.IntV(0), k), x.c.Le(k, x.c.IntV(26))))
					return ret(s, &ReflV{Sym: i.T})
				})
		}
		x.unsupported(st, "reflect.ValueOf of this value")
		return nil
	}
	elem := func(x *Exec, st *State, fr *Frame, v *ReflV) []*Outcome {
		c := x.c
		if v.Sym != nil {
			e := c.App("refl_elem", c.Any, v.Sym)
			return x.fork(st, fr, c.Eq(e, c.Nil()), func(s *State, f *Frame) []*Outcome { return ret(s, &ReflV{}) },
				func(s *State, f *Frame) []*Outcome {
					k := c.App("refl_kind", c.Int, e)
					s.assume(c.And(c.Lt(c.IntV(0), k), c.Le(k, c.IntV(26))))
					return ret(s, &ReflV{Sym: e})
				})
		}
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			x.unsupported(st, "reflect element of "+v.T.String())
		}
		return x.fork(st, fr, x.isNil(st, v.V), func(s *State, f *Frame) []*Outcome { return ret(s, &ReflV{}) },
			func(s *State, f *Frame) []*Outcome { return ret(s, &ReflV{V: x.load(s, v.V, p.Elem()), T: p.Elem()}) })
	}
	m["reflect.Indirect"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		isPtr := x.c.Eq(x.reflKind(v), x.c.IntV(int64(reflect.Pointer)))
		return x.fork(st, fr, isPtr, func(s *State, f *Frame) []*Outcome { return elem(x, s, f, v) },
			func(s *State, f *Frame) []*Outcome { return ret(s, v) })
	}
	m["(reflect.Value).Elem"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		kindIn(x, st, v, "Elem", reflect.Pointer)
		return elem(x, st, fr, v)
	}
	m["(reflect.Value).IsValid"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		return ret(st, x.c.BoolV(v.T != nil || v.Sym != nil))
	}
	m["(reflect.Value).Kind"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.reflKind(a[0].(*ReflV)))
	}
	m["(reflect.Value).IsNil"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		kindIn(x, st, v, "IsNil", reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Interface, reflect.UnsafePointer)
		if v.Sym != nil {
			return ret(st, x.c.Eq(x.c.App("refl_elem", x.c.Any, v.Sym), x.c.Nil()))
		}
		return ret(st, x.isNil(st, v.V))
	}
	m["(reflect.Value).Int"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		c := x.c
		kindIn(x, st, v, "Int", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
		if v.Sym == nil {
			if bits, signed := intWidth(v.T); signed {
				h := c.BigV(pow2(bits - 1))
				st.assume(c.And(c.Le(c.Neg(h), T(v.V)), c.Lt(T(v.V), h)))
			}
			return ret(st, v.V)
		}
		t := c.App("refl_int", c.Int, v.Sym)
		k := x.reflKind(v)
		for kd, bits := range map[reflect.Kind]uint{reflect.Int8: 8, reflect.Int16: 16, reflect.Int32: 32, reflect.Int64: 64, reflect.Int: 64} {
			h := c.BigV(new(big.Int).Lsh(big.NewInt(1), bits-1))
			st.assume(c.Imp(c.Eq(k, c.IntV(int64(kd))), c.And(c.Le(c.Neg(h), t), c.Lt(t, h))))
		}
		return ret(st, t)
	}
	m["(reflect.Value).String"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		if v.Sym == nil && v.T != nil && reflKind(v.T) == reflect.String {
			return ret(st, v.V)
		}
		return ret(st, x.c.Fresh("reflstr", x.c.Str))
	}
	m["(reflect.Value).CanInterface"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		mustValid(x, st, v, "CanInterface")
		return ret(st, x.c.True)
	}
	m["(reflect.Value).CanInt"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		k := x.reflKind(v)
		return ret(st, x.c.And(x.c.Le(x.c.IntV(int64(reflect.Int)), k), x.c.Le(k, x.c.IntV(int64(reflect.Int64)))))
	}
	m["(reflect.Value).Interface"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		mustValid(x, st, v, "Interface")
		it := types.NewInterfaceType(nil, nil)
		if v.Sym != nil {
			return ret(st, &SymIface{T: v.Sym, St: it})
		}
		return ret(st, &IfaceV{Dyn: v.T, V: v.V})
	}
	m["(reflect.Value).FieldByName"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		v := a[0].(*ReflV)
		kindIn(x, st, v, "FieldByName", reflect.Struct)
		if v.Sym != nil {
			x.unsupported(st, "reflect field of a value of unknown type")
		}
		stt := v.T.Underlying().(*types.Struct)
		sv, isS := v.V.(*StructV)
		if !isS {
			if isTime(v.T) {
				return ret(st, &ReflV{})
			}
			x.unsupported(st, "reflect field of "+v.T.String())
		}
		nm := T(a[1])
		var outs []*Outcome
		none := x.c.True
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			if f.Embedded() {
				x.unsupported(st, "reflect field of a structure with embedded fields")
			}
			is := x.c.Eq(nm, x.c.StrV(f.Name()))
			none = x.c.And(none, x.c.Not(is))
			if is == x.c.False {
				continue
			}
			s := st.clone()
			s.assume(is)
			if is != x.c.True && !x.feasible(s) {
				continue
			}
			if !f.Exported() {
				x.unsupported(s, "reflect access to an unexported field")
			}
			outs = append(outs, &Outcome{st: s, res: []Value{&ReflV{V: x.field(s, sv, i), T: f.Type()}}})
		}
		if none != x.c.False {
			s := st.clone()
			s.assume(none)
			if x.feasible(s) {
				outs = append(outs, &Outcome{st: s, res: []Value{&ReflV{}}})
			}
		}
		return outs
	}
	// the argument of a builder of index keys, behind an optional pointer
	specFuncs["argkind"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		k, _ := x.indirect(x.anyTerm(env.st, x.eval(env, n.Args[0]), true))
		return k
	}
	specFuncs["argint"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		_, v := x.indirect(x.anyTerm(env.st, x.eval(env, n.Args[0]), true))
		return x.c.App("refl_int", x.c.Int, v)
	}
	specFuncs["argtime"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		k, v := x.indirect(x.anyTerm(env.st, x.eval(env, n.Args[0]), true))
		return x.c.And(x.c.Not(x.c.Eq(k, x.c.IntV(0))), x.c.Eq(k, x.c.IntV(int64(reflect.Struct))), x.c.App("istype_time.Time", x.c.Bool, v))
	}
	put := func(n int, big_ bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			// (receiver, slice, value)
			s := a[len(a)-2].(*SliceV)
			x.bounds(st, x.c.IntV(int64(n-1)), s.Len)
			if s.Obj == 0 {
				panic(deadPath{})
			}
			for k, b := range x.intBytes(st, T(a[len(a)-1]), n, big_) {
				x.storePtr(st, x.indexAddr(st, s, x.c.IntV(int64(k)), types.Typ[types.Uint8]).(*PtrV), b)
			}
			return ret(st)
		}
	}
	app := func(n int, big_ bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			c := x.c
			s := a[len(a)-2].(*SliceV)
			bt := types.Typ[types.Uint8]
			av := &ArrayV{T: types.NewArray(bt, int64(n))}
			for _, b := range x.intBytes(st, T(a[len(a)-1]), n, big_) {
				av.E = append(av.E, b)
			}
			id := st.alloc(&Obj{T: av.T, Val: av})
			return ret(st, x.appendTo(st, s, &SliceV{Obj: id, Off: c.IntV(0), Len: c.IntV(int64(n)), Cap: c.IntV(int64(n)), T: s.T}))
		}
	}
	for n, k := range map[string]int{"16": 2, "32": 4, "64": 8} {
		for e, b := range map[string]bool{"big": true, "little": false} {
			m["(encoding/binary."+e+"Endian).PutUint"+n] = put(k, b)
			m["(encoding/binary."+e+"Endian).AppendUint"+n] = app(k, b)
		}
	}
	m["bytes.Equal"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		o := m["bytes.Compare"](x, st, fr, a, cc)
		o[0].res[0] = x.c.Eq(T(o[0].res[0]), x.c.IntV(0))
		return o
	}
	m["bytes.Compare"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		p, ok1 := x.sliceElems(st, a[0])
		q, ok2 := x.sliceElems(st, a[1])
		if !ok1 || !ok2 {
			r := c.Fresh("bytescmp", c.Int)
			st.assume(c.And(c.Le(c.IntV(-1), r), c.Le(r, c.IntV(1))))
			return ret(st, r)
		}
		r := c.IntV(0)
		if len(p) < len(q) {
			r = c.IntV(-1)
		} else if len(p) > len(q) {
			r = c.IntV(1)
		}
		n := len(p)
		if len(q) < n {
			n = len(q)
		}
		for i := n - 1; i >= 0; i-- {
			u, v := T(p[i]), T(q[i])
			r = c.Ite(c.Lt(u, v), c.IntV(-1), c.Ite(c.Lt(v, u), c.IntV(1), r))
		}
		return ret(st, r)
	}
}

// intBytes gives the bytes of an unsigned integer. They are determined by the
// integer and sum up to it.
func (x *Exec) intBytes(st *State, v *Term, n int, big_ bool) []*Term {
	c := x.c
	m := pow2(int64(8 * n))
	if !x.must(st, c.And(c.Le(c.IntV(0), v), c.Lt(v, c.BigV(m)))) {
		v = c.Mod(v, m)
	}
	r := make([]*Term, n)
	sum := c.IntV(0)
	for k := 0; k < n; k++ {
		b := c.App("byte"+string(rune('0'+k)), c.Int, v)
		st.assume(c.And(c.Le(c.IntV(0), b), c.Lt(b, c.IntV(256))))
		sum = c.Add(sum, c.Mul(c.BigV(pow2(int64(8*k))), b))
		if big_ {
			r[n-1-k] = b
		} else {
			r[k] = b
		}
	}
	st.assume(c.Eq(v, sum))
	return r
}

// byteOf recognizes the k-th byte of a 64-bit integer.
func (x *Exec) byteOf(st *State, t *Term) *Term {
	c := x.c
	u, k := t, 0
	if t.Op == ODiv && t.Args[1].Op == OInt {
		for k = 1; k < 8 && pow2(int64(8*k)).Cmp(t.Args[1].I) != 0; k++ {
		}
		u = t.Args[0]
	}
	if k == 8 || !x.must(st, c.And(c.Le(c.IntV(0), u), c.Lt(u, c.BigV(pow2(64))))) {
		return nil
	}
	return x.intBytes(st, u, 8, false)[k]
}
