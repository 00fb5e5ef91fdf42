package main

// Symbolic values, heap objects and states.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// *Term is a scalar value.

type StructV struct {
	T    types.Type
	F    []Value // nil entries are materialized on demand
	Lazy string  // "" : nil entries are zero values; else a name prefix for fresh ones
}

type PathElem struct {
	Kind  byte // 'f' field, 'i' constant index, 's' symbolic index, 'd' dereference through an option
	N     int
	Idx   *Term
	Deref bool
}

// PtrV points into a heap object. Obj==0 is the nil pointer.
type PtrV struct {
	Obj  int
	Path []PathElem
	Nil  *Term // condition under which the pointer is nil (nil: never)
	Elem types.Type
}

// BoxPtr is a nilable pointer to an immutable value of the encodable type Elem.
type BoxPtr struct {
	Opt  *Term
	Elem types.Type
	Row  bool   // a row of a database (published)
	Arg  string // argument of the function under verification
}

type SliceV struct {
	Obj           int // 0: nil slice
	Off, Len, Cap *Term
	Nil           *Term // condition under which it is nil (nil: Obj==0)
	T             types.Type
}

type MapV struct {
	Obj int // 0: nil map
	T   types.Type
}

// IfaceV is an interface value with known dynamic type. Dyn==nil is nil.
type IfaceV struct {
	Dyn   types.Type
	V     Value
	NilIf *Term // interface is nil under this condition
}

// SymIface is an interface value of unknown dynamic type.
type SymIface struct {
	T  *Term // sort Any
	St types.Type
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Name string // intrinsic or symbolic function
	Recv Value
	Nil  bool
	Sym  *Term // symbolic function value: identity
}

type TupleV []Value

type ArrayV struct {
	T types.Type
	E []Value
}

// ErrObj is an error value created by code under verification (or a sentinel).
type ErrObj struct {
	ID    *Term // identity, sort Any
	Msg   *Term
	Wraps []Value // wrapped error values
	Name  string
}

// OpaqueV is a value of a modelled library type with identity in the heap.
type OpaqueV struct {
	Kind string
	Obj  int
}

type iterV struct { // range over map (concrete key list) or string
	keys []Value
	vals []Value
	pos  int
}

type Obj struct {
	T      types.Type
	Val    Value
	Arr    *Term // symbolic array contents (Array Int Elem)
	ElemT  types.Type
	Own    bool // symbolic array of pointers to distinct mutable objects
	G      map[string]Value
	Kind   string
	Caller bool // owned by the caller
	Pub    bool // published: must not be written anymore
	HasRow bool // a slice that holds pointers to rows of a database
	Boxed  bool // contents were copied into a term: must not be written anymore
	Name   string
	// maps
	MapK  []Value
	MapV_ []Value
	MArr  *Term // symbolic map contents
}

func (o *Obj) clone() *Obj {
	n := *o
	if o.G != nil {
		n.G = make(map[string]Value, len(o.G))
		for k, v := range o.G {
			n.G[k] = v
		}
	}
	return &n
}

type Event struct {
	Kind string
	Args []Value
	Data map[string]Value
}

type State struct {
	x         *Exec
	base      map[int]*Obj // shared, immutable
	heap      map[int]*Obj
	pc        []*Term
	pcset     map[*Term]bool
	events    []*Event
	lost      bool    // events of a loop are not listed
	done      []*Term // contexts that have ended
	suspended bool    // a goroutine was left at a point where it blocks
	threads   []*thread
	trial     bool
	note      []string
	consts    map[string]Value
}

func (st *State) clone() *State {
	n := &State{x: st.x, base: st.base, trial: st.trial}
	n.heap = make(map[int]*Obj, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = append(make([]*Term, 0, len(st.pc)+8), st.pc...)
	n.pcset = make(map[*Term]bool, len(st.pcset)+8)
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.events = append([]*Event{}, st.events...)
	n.lost, n.done, n.threads = st.lost, append([]*Term{}, st.done...), st.threads
	n.suspended = st.suspended
	n.note = append([]string{}, st.note...)
	n.consts = map[string]Value{}
	for k, v := range st.consts {
		n.consts[k] = v
	}
	return n
}

func (st *State) obj(id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := st.base[id]; ok {
		return o
	}
	panic(fmt.Sprintf("no object %d", id))
}

// mut returns a private copy of an object for writing.
func (st *State) mut(id int) *Obj {
	o := st.obj(id).clone()
	st.heap[id] = o
	return o
}

func (st *State) alloc(o *Obj) int {
	st.x.nobj++
	if st.x.lazy > 0 {
		st.base[st.x.nobj] = o
		return st.x.nobj
	}
	st.heap[st.x.nobj] = o
	return st.x.nobj
}

func (st *State) assume(t *Term) {
	if st.x.lazy > 0 {
		st.x.global = append(st.x.global, t)
		return
	}
	if t == st.x.c.True || st.pcset[t] {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	st.pcset[t] = true
	st.pc = append(st.pc, t)
}

// gterm reads a ghost cell as a term.
func (st *State) gterm(id int, k string) *Term {
	v := st.obj(id).G[k]
	if v == nil {
		panic("no ghost " + k)
	}
	return v.(*Term)
}

func (st *State) gset(id int, k string, v Value) {
	o := st.mut(id)
	if o.G == nil {
		o.G = map[string]Value{}
	}
	o.G[k] = v
}

// --- types and sorts ---

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func isNamed(t types.Type, name string) bool { return typeName(t) == name }

func isTime(t types.Type) bool { return isNamed(t, "time.Time") }

func isErrorType(t types.Type) bool { return isNamed(t, "error") }

// scalarSort gives the sort of types represented by a single term.
func (x *Exec) scalarSort(t types.Type) *Sort {
	c := x.c
	if isTime(t) {
		return c.Int
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return c.Bool
		case i&types.IsInteger != 0:
			return c.Int
		case i&types.IsString != 0:
			return c.Str
		case i&types.IsFloat != 0:
			return c.Real
		}
		if u.Kind() == types.UnsafePointer {
			return c.Any
		}
	}
	return nil
}

func (x *Exec) structSortName(t types.Type) string {
	n := typeName(t)
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return sanitize(n)
}

// sortOf gives the sort encoding values of type t, or nil.
func (x *Exec) sortOf(t types.Type) *Sort {
	k := typeName(t)
	if s, ok := x.sortMemo[k]; ok {
		return s
	}
	s := x.sortOf1(t)
	x.sortMemo[k] = s
	return s
}

func (x *Exec) sortOf1(t types.Type) *Sort {
	c := x.c
	if s := x.scalarSort(t); s != nil {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return c.Any
	case *types.Pointer:
		e := u.Elem()
		if _, isStruct := e.Underlying().(*types.Struct); isStruct && !isTime(e) && !x.repoType(e) {
			return nil
		}
		if s := x.sortOf(e); s != nil {
			return c.OptSort(s)
		}
	case *types.Slice:
		if s := x.sortOf(u.Elem()); s != nil {
			return x.seqSort(s)
		}
	case *types.Struct:
		if !x.repoType(t) && !plainLib[t.String()] {
			return nil
		}
		x.sortMemo[typeName(t)] = nil // recursive types are not encodable
		var fs []CField
		for i := 0; i < u.NumFields(); i++ {
			s := x.sortOf(u.Field(i).Type())
			if s == nil {
				return nil
			}
			fs = append(fs, CField{u.Field(i).Name(), s})
		}
		if len(fs) == 0 {
			return nil
		}
		return c.DataSort("S_"+x.structSortName(t), fs)
	}
	return nil
}

func (x *Exec) seqSort(e *Sort) *Sort {
	return x.c.DataSort("Seq_"+e.Name, []CField{{"len", x.c.Int}, {"arr", x.c.ArrSort(x.c.Int, e)}, {"nil", x.c.Bool}})
}

// repoType: a named (or anonymous) struct of plain data declared in the repository.
func (x *Exec) repoType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		_, isS := t.Underlying().(*types.Struct)
		return isS
	}
	p := n.Obj().Pkg()
	return p != nil && strings.HasPrefix(p.Path(), x.repoMod)
}

// --- zero and fresh values ---

func (x *Exec) zero(st *State, t types.Type) Value {
	c := x.c
	if s := x.scalarSort(t); s != nil {
		switch s {
		case c.Int:
			if isTime(t) {
				return x.zeroTime()
			}
			return c.IntV(0)
		case c.Bool:
			return c.False
		case c.Str:
			return c.StrV("")
		case c.Real:
			return x.ratInt(0)
		}
		return c.Nil()
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return &StructV{T: t, F: make([]Value, u.NumFields())}
	case *types.Pointer:
		return &PtrV{Elem: u.Elem()}
	case *types.Slice:
		return &SliceV{T: t, Off: c.IntV(0), Len: c.IntV(0), Cap: c.IntV(0)}
	case *types.Map:
		return &MapV{T: t}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{Nil: true}
	case *types.Chan:
		return &OpaqueV{Kind: "chan"}
	case *types.Array:
		if u.Len() > 4096 {
			x.unsupported(st, "large array")
		}
		a := &ArrayV{T: t, E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = x.zero(st, u.Elem())
		}
		return a
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(st, u.At(i).Type()))
		}
		return tv
	}
	x.unsupported(st, "zero value of "+t.String())
	return nil
}

// freshVal creates an unconstrained symbolic value.
func (x *Exec) freshVal(st *State, t types.Type, name string) Value {
	c := x.c
	if s := x.scalarSort(t); s != nil {
		v := c.Fresh(name, s)
		x.typeInv(st, t, v)
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if s := x.sortOf(t); s != nil {
			return x.fromTerm(st, c.Fresh(name, s), t)
		}
		return &StructV{T: t, F: make([]Value, u.NumFields()), Lazy: x.lazyName(name)}
	case *types.Pointer:
		if s := x.sortOf(t); s != nil {
			return &BoxPtr{Opt: c.Fresh(name, s), Elem: u.Elem()}
		}
		if o := x.freshOpaque(st, u.Elem(), name); o != nil {
			return o
		}
		id := st.alloc(&Obj{T: u.Elem(), Val: x.freshVal(st, u.Elem(), name), Caller: true, Name: name})
		return &PtrV{Obj: id, Elem: u.Elem(), Nil: c.Fresh("isnil_"+name, c.Bool)}
	case *types.Slice:
		return x.freshSlice(st, t, name, false)
	case *types.Map:
		id := st.alloc(&Obj{T: t, Kind: "symmap", Name: name, Caller: true})
		o := st.obj(id)
		ks, vs := x.sortOf(u.Key()), x.sortOf(u.Elem())
		if ks != nil && vs != nil {
			o.MArr = c.Fresh(name, c.ArrSort(ks, c.OptSort(vs)))
		}
		return &MapV{Obj: id, T: t}
	case *types.Interface:
		return &SymIface{T: c.Fresh(name, c.Any), St: t}
	case *types.Signature:
		return &FuncV{Name: "sym", Sym: c.Fresh(name, c.Any)}
	case *types.Chan:
		id := st.alloc(&Obj{T: t, Kind: "chan", Name: name, G: map[string]Value{}})
		return &OpaqueV{Kind: "chan", Obj: id}
	case *types.Array:
		a := &ArrayV{T: t, E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = x.freshVal(st, u.Elem(), fmt.Sprintf("%s.%d", name, i))
		}
		return a
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.freshVal(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return tv
	}
	x.unsupported(st, "fresh value of "+t.String())
	return nil
}

// typeInv assumes the range of machine types where it is cheap and useful.
func (x *Exec) typeInv(st *State, t types.Type, v *Term) {
	c := x.c
	if isTime(t) || v.Sort != c.Int {
		return
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			st.assume(c.And(c.Le(c.IntV(0), v), c.Le(v, c.IntV(255))))
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			st.assume(c.Le(c.IntV(0), v))
		}
	}
}

func (x *Exec) freshSlice(st *State, t types.Type, name string, own bool) Value {
	c := x.c
	u := t.Underlying().(*types.Slice)
	es := x.sortOf(u.Elem())
	if es == nil {
		// opaque elements
		es = c.Any
	}
	n := c.Fresh(name+".len", c.Int)
	st.assume(c.Le(c.IntV(0), n))
	isnil := c.Fresh(name+".nil", c.Bool)
	st.assume(c.Imp(isnil, c.Eq(n, c.IntV(0))))
	id := st.alloc(&Obj{T: t, Arr: c.Fresh(name+".arr", c.ArrSort(c.Int, es)), ElemT: u.Elem(), Own: own, Name: name, Caller: true})
	return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, Nil: isnil, T: t}
}

// --- encoding between values and terms ---

// fromTerm decodes a term into a value of type t.
func (x *Exec) fromTerm(st *State, v *Term, t types.Type) Value {
	if x.scalarSort(t) != nil {
		return v
	}
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v == c.Nil() {
			return &IfaceV{}
		}
		if o, ok := x.anyOf[v]; ok {
			return o
		}
		return &SymIface{T: v, St: t}
	case *types.Pointer:
		return &BoxPtr{Opt: v, Elem: u.Elem()}
	case *types.Struct:
		ct := v.Sort.Ctors[0]
		s := &StructV{T: t, F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = x.fromTerm(st, c.Sel(ct, i, v), u.Field(i).Type())
		}
		return s
	case *types.Slice:
		ct := v.Sort.Ctors[0]
		id := st.alloc(&Obj{T: t, Arr: c.Sel(ct, 1, v), ElemT: u.Elem(), Boxed: true})
		n := c.Sel(ct, 0, v)
		st.assume(c.Le(c.IntV(0), n))
		nl := c.Sel(ct, 2, v)
		st.assume(c.Imp(nl, c.Eq(n, c.IntV(0))))
		return &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, Nil: nl, T: t}
	}
	x.unsupported(st, "decode "+t.String())
	return nil
}

// toTerm encodes a value of type t. When freeze is set, objects whose contents
// are copied may not be written afterwards.
func (x *Exec) toTerm(st *State, v Value, t types.Type, freeze bool) *Term {
	c := x.c
	if s := x.scalarSort(t); s != nil {
		if tt, ok := v.(*Term); ok {
			return tt
		}
		x.unsupported(st, fmt.Sprintf("encode %T as %s", v, t))
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return x.anyTerm(st, v, freeze)
	case *types.Pointer:
		s := x.sortOf(u.Elem())
		if s == nil {
			break
		}
		switch p := v.(type) {
		case *BoxPtr:
			return p.Opt
		case *PtrV:
			if p.Obj == 0 {
				return c.None(s)
			}
			inner := x.loadPtr(st, &PtrV{Obj: p.Obj, Path: p.Path, Elem: p.Elem}, u.Elem())
			if freeze {
				o := st.obj(p.Obj)
				if !o.Boxed {
					st.mut(p.Obj).Boxed = true
				}
			}
			tm := c.Some(x.toTerm(st, inner, u.Elem(), freeze))
			if p.Nil != nil {
				tm = c.Ite(p.Nil, c.None(s), tm)
			}
			return tm
		}
	case *types.Struct:
		s := x.sortOf(t)
		sv, ok := v.(*StructV)
		if s == nil || !ok {
			break
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, x.toTerm(st, x.field(st, sv, i), u.Field(i).Type(), freeze))
		}
		return c.Mk(s.Ctors[0], as...)
	case *types.Slice:
		s := x.sortOf(t)
		sv, ok := v.(*SliceV)
		if s == nil || !ok {
			break
		}
		es := x.sortOf(u.Elem())
		if sv.Obj == 0 {
			return c.Mk(s.Ctors[0], c.IntV(0), c.Var("noarr_"+es.Name, c.ArrSort(c.Int, es)), c.True)
		}
		arr := x.sliceArr(st, sv, freeze)
		nl := c.False
		if sv.Nil != nil {
			nl = sv.Nil
		}
		return c.Mk(s.Ctors[0], sv.Len, arr, nl)
	}
	x.unsupported(st, fmt.Sprintf("encode %T as %s", v, t))
	return nil
}

// sliceArr gives the contents of a slice as an array term starting at index 0.
func (x *Exec) sliceArr(st *State, sv *SliceV, freeze bool) *Term {
	c := x.c
	et := sv.T.Underlying().(*types.Slice).Elem()
	es := x.sortOf(et)
	if es == nil {
		x.unsupported(st, "slice of "+et.String()+" as a term")
	}
	as := c.ArrSort(c.Int, es)
	if sv.Obj == 0 {
		return c.Var("noarr_"+es.Name, as)
	}
	o := st.obj(sv.Obj)
	if o.Arr != nil {
		if freeze && !o.Boxed {
			st.mut(sv.Obj).Boxed = true
		}
		if sv.Off == c.IntV(0) {
			return o.Arr
		}
		b := c.Fresh("shift", as)
		i := c.Bound("i", c.Int)
		st.assume(c.Forall([]*Term{i}, []*Term{c.Select(b, i)}, c.Eq(c.Select(b, i), c.Select(o.Arr, c.Add(sv.Off, i)))))
		return b
	}
	av, ok := o.Val.(*ArrayV)
	if !ok || sv.Off.Op != OInt || sv.Len.Op != OInt {
		x.unsupported(st, "slice encoding")
	}
	if freeze {
		st.mut(sv.Obj).Boxed = true
	}
	a := c.Var("noarr_"+es.Name, as)
	off := int(sv.Off.I.Int64())
	for i := 0; i < int(sv.Len.I.Int64()); i++ {
		a = c.Store(a, c.IntV(int64(i)), x.toTerm(st, av.E[off+i], et, freeze))
	}
	return a
}

// anyTerm encodes an interface value.
func (x *Exec) anyTerm(st *State, v Value, freeze bool) *Term {
	c := x.c
	switch i := v.(type) {
	case *SymIface:
		return i.T
	case *ErrObj:
		x.anyOf[i.ID] = i
		return i.ID
	case *IfaceV:
		if i.Dyn == nil {
			return c.Nil()
		}
		if e, ok := i.V.(*ErrObj); ok {
			x.anyOf[e.ID] = i
			return e.ID
		}
		var tm *Term
		if m := x.writeModelTerm(st, i.V); m != nil {
			return m
		}
		if s := x.sortOf(i.Dyn); s != nil {
			tm = c.App("any_"+sanitize(typeName(i.Dyn)), c.Any, x.toTerm(st, i.V, i.Dyn, freeze))
			st.assume(c.Not(c.Eq(tm, c.Nil())))
		} else {
			// identity of a library or heap object
			key := x.identKey(i.V)
			tm = c.Var("obj_"+sanitize(typeName(i.Dyn))+"_"+key, c.Any)
			st.assume(c.Not(c.Eq(tm, c.Nil())))
		}
		if x.anyOf[tm] == nil {
			x.anyOf[tm] = &IfaceV{Dyn: i.Dyn, V: i.V}
		}
		if i.NilIf != nil {
			return c.Ite(i.NilIf, c.Nil(), tm)
		}
		return tm
	}
	x.unsupported(st, fmt.Sprintf("encode interface %T", v))
	return nil
}

func (x *Exec) identKey(v Value) string {
	switch p := v.(type) {
	case *PtrV:
		s := fmt.Sprint("p", p.Obj)
		for _, e := range p.Path {
			s += fmt.Sprintf("_%c%d", e.Kind, e.N)
		}
		return s
	case *OpaqueV:
		return fmt.Sprint("o", p.Obj)
	case *MapV:
		return fmt.Sprint("m", p.Obj)
	case *SliceV:
		return fmt.Sprint("s", p.Obj)
	case *StructV:
		if x.structIDs[p] == 0 {
			x.nident++
			x.structIDs[p] = x.nident
		}
		return fmt.Sprint("sv", x.structIDs[p])
	}
	x.nident++
	return fmt.Sprint("v", x.nident)
}

// --- access ---

type lazyField struct {
	name string
	i    int
}

// lazyName makes the name of a lazily materialized structure unique.
func (x *Exec) lazyName(name string) string {
	x.lazyNames[name]++
	if n := x.lazyNames[name]; n > 1 {
		return fmt.Sprintf("%s~%d", name, n)
	}
	return name
}

func (x *Exec) field(st *State, s *StructV, i int) Value {
	if s.F[i] == nil {
		u := s.T.Underlying().(*types.Struct)
		f := u.Field(i)
		if s.Lazy == "" {
			s.F[i] = x.zero(st, f.Type())
		} else {
			// The materialized value is part of the (immutable) initial value:
			// share it between all states through the memo.
			k := lazyField{s.Lazy, i}
			if v, ok := x.lazyMemo[k]; ok {
				s.F[i] = v
				return v
			}
			x.lazy++
			s.F[i] = x.freshVal(st, f.Type(), s.Lazy+"."+f.Name())
			x.lazy--
			x.lazyMemo[k] = s.F[i]
		}
	}
	return s.F[i]
}

// loadPtr reads through a (non-nil) pointer.
func (x *Exec) loadPtr(st *State, p *PtrV, t types.Type) Value {
	o := st.obj(p.Obj)
	if o.Arr != nil {
		return x.loadArr(st, o, p, t)
	}
	v := o.Val
	if v == nil {
		x.unsupported(st, "load from opaque object "+o.Kind)
	}
	for _, e := range p.Path {
		switch s := v.(type) {
		case *StructV:
			if e.Kind != 'f' {
				x.unsupported(st, "path")
			}
			v = x.field(st, s, e.N)
		case *ArrayV:
			if e.Kind == 'i' {
				v = s.E[e.N]
			} else {
				x.unsupported(st, "symbolic index into concrete array")
			}
		default:
			x.unsupported(st, fmt.Sprintf("path into %T", v))
		}
	}
	return v
}

func (x *Exec) loadArr(st *State, o *Obj, p *PtrV, t types.Type) Value {
	c := x.c
	cur := o.Arr
	ct := o.ElemT
	for k, e := range p.Path {
		switch e.Kind {
		case 's':
			cur = c.Select(cur, e.Idx)
			ct = o.ElemT
			if k == len(p.Path)-1 && o.Own {
				if pt, ok := ct.Underlying().(*types.Pointer); ok {
					return &PtrV{Obj: p.Obj, Path: append(append([]PathElem{}, p.Path...), PathElem{Kind: 'd'}), Elem: pt.Elem(), Nil: c.IsNone(cur)}
				}
			}
		case 'd':
			cur = c.Val(cur)
			ct = deref(ct)
		case 'f':
			u := ct.Underlying().(*types.Struct)
			cur = c.Sel(cur.Sort.Ctors[0], e.N, cur)
			ct = u.Field(e.N).Type()
		default:
			x.unsupported(st, "path into symbolic array")
		}
	}
	return x.fromTerm(st, cur, ct)
}

// storePtr writes through a (non-nil) pointer.
func (x *Exec) storePtr(st *State, p *PtrV, v Value) {
	o := st.obj(p.Obj)
	if o.Pub {
		x.violate(st, "frozen", "write to a task that is already stored in the database ("+o.Name+")")
	}
	if o.Boxed {
		x.unsupported(st, "write to a value that was copied by reference")
	}
	n := st.mut(p.Obj)
	if o.Arr != nil {
		n.Arr = x.storeArr(st, o, o.Arr, p.Path, v, o.ElemT)
		return
	}
	n.Val = x.update(st, o.Val, p.Path, v)
}

func (x *Exec) storeArr(st *State, o *Obj, cur *Term, path []PathElem, v Value, t types.Type) *Term {
	c := x.c
	if len(path) == 0 {
		return x.toTerm(st, v, t, true)
	}
	e := path[0]
	switch e.Kind {
	case 's':
		return c.Store(cur, e.Idx, x.storeArr(st, o, c.Select(cur, e.Idx), path[1:], v, o.ElemT))
	case 'd':
		return c.Some(x.storeArr(st, o, c.Val(cur), path[1:], v, deref(t)))
	case 'f':
		ct := cur.Sort.Ctors[0]
		u := t.Underlying().(*types.Struct)
		var as []*Term
		for i := range ct.Fields {
			f := c.Sel(ct, i, cur)
			if i == e.N {
				f = x.storeArr(st, o, f, path[1:], v, u.Field(i).Type())
			}
			as = append(as, f)
		}
		return c.Mk(ct, as...)
	}
	x.unsupported(st, "store path")
	return nil
}

func (x *Exec) update(st *State, cur Value, path []PathElem, v Value) Value {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	switch s := cur.(type) {
	case *StructV:
		n := &StructV{T: s.T, F: append([]Value{}, s.F...), Lazy: s.Lazy}
		old := Value(nil)
		if len(path) > 1 {
			old = x.field(st, s, e.N)
		}
		n.F[e.N] = x.update(st, old, path[1:], v)
		return n
	case *ArrayV:
		if e.Kind == 'i' {
			n := &ArrayV{T: s.T, E: append([]Value{}, s.E...)}
			n.E[e.N] = x.update(st, s.E[e.N], path[1:], v)
			return n
		}
	}
	x.unsupported(st, fmt.Sprintf("update path into %T", cur))
	return nil
}
