package main

// Contract of github.com/hashicorp/go-memdb, as assumed by this verifier:
// tables are maps from task IDs to tasks, transactions work on a private copy
// that replaces the table on commit, at most one write transaction is open at
// a time, and iterators enumerate the rows selected by an index in the order
// of the index keys, as of the time the iterator was created.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const memdbPkg = "github.com/hashicorp/go-memdb"

type indexPart struct {
	kind   string // str state time
	field  string
	fi     int
	filter *Term
	lower  bool
}

type indexDef struct {
	name     string
	unique   bool
	missing  bool // rows that lack the key are left out
	compound bool
	parts    []indexPart
}

type dbSchema struct {
	table   string
	indexes map[string]*indexDef
	id      *indexDef
}

func (d *indexDef) canon(n int) string {
	var b strings.Builder
	for i, p := range d.parts {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(p.kind + "." + p.field)
		if p.filter != nil {
			b.WriteString("=" + p.filter.I.String())
		}
	}
	return b.String()
}

func (x *Exec) taskType() types.Type {
	if x.taskT == nil {
		x.taskT = x.prog.typ(x.repoMod, "Task")
		if x.taskT == nil {
			panic(unsup{"type ratus.Task not found"})
		}
	}
	return x.taskT
}

func (x *Exec) taskSort() *Sort { return x.sortOf(x.taskType()) }

func (x *Exec) dbSort() *Sort { return x.c.ArrSort(x.c.Str, x.c.OptSort(x.taskSort())) }

// schema obtains the database schema by executing memdb.New of the repository.
func (x *Exec) schema(st *State) *dbSchema {
	if x.dbs != nil {
		return x.dbs
	}
	fn := x.prog.funcs[x.repoMod+"/internal/engine/memdb.New"]
	if fn == nil {
		x.unsupported(st, "constructor of the MemDB engine not found")
	}
	s := x.freshState()
	x.mute++
	outs := x.callFunc(s, nil, fn, []Value{x.freshVal(s, fn.Params[0].Type(), "cfg")}, nil)
	x.mute--
	for _, o := range outs {
		e, ok := o.res[0].(*PtrV)
		if !ok || e.Obj == 0 {
			continue
		}
		sv, ok := x.loadPtr(o.st, e, e.Elem).(*StructV)
		if !ok {
			continue
		}
		i := fieldIndex(sv.T, "schema")
		if i < 0 {
			break
		}
		if sp, ok := x.field(o.st, sv, i).(*PtrV); ok && sp.Obj != 0 {
			x.dbs = x.parseSchema(o.st, sp)
			return x.dbs
		}
	}
	x.unsupported(st, "database schema not found")
	return nil
}

func (x *Exec) getField(st *State, v Value, name string) Value {
	if p, ok := v.(*PtrV); ok {
		if p.Obj == 0 {
			x.unsupported(st, "nil in schema")
		}
		v = x.loadPtr(st, p, p.Elem)
	}
	s, ok := v.(*StructV)
	if !ok {
		x.unsupported(st, fmt.Sprintf("schema element %T", v))
	}
	i := fieldIndex(s.T, name)
	if i < 0 {
		x.unsupported(st, "schema field "+name)
	}
	return x.field(st, s, i)
}

func constStr(x *Exec, st *State, v Value) string {
	t, ok := v.(*Term)
	if !ok || t.Op != OStr {
		x.unsupported(st, "schema is not constant")
	}
	return t.Name
}

func (x *Exec) parseSchema(st *State, p *PtrV) *dbSchema {
	tm, ok := x.getField(st, p, "Tables").(*MapV)
	if !ok || tm.Obj == 0 {
		x.unsupported(st, "schema tables")
	}
	o := st.obj(tm.Obj)
	if len(o.MapK) != 1 {
		x.unsupported(st, "schema with several tables")
	}
	d := &dbSchema{table: constStr(x, st, o.MapK[0]), indexes: map[string]*indexDef{}}
	im, ok := x.getField(st, o.MapV_[0], "Indexes").(*MapV)
	if !ok || im.Obj == 0 {
		x.unsupported(st, "schema indexes")
	}
	io := st.obj(im.Obj)
	for i, k := range io.MapK {
		name := constStr(x, st, k)
		iv := io.MapV_[i]
		def := &indexDef{name: name}
		def.unique = x.getField(st, iv, "Unique") == x.c.True
		def.missing = x.getField(st, iv, "AllowMissing") == x.c.True
		def.parts = x.indexParts(st, x.getField(st, iv, "Indexer"), def, true)
		d.indexes[name] = def
		if name == "id" {
			d.id = def
		}
	}
	if d.id == nil || d.id.compound || d.id.parts[0].kind != "str" || d.id.parts[0].field != "ID" || d.id.missing {
		x.unsupported(st, "the primary index is not the task ID")
	}
	return d
}

func (x *Exec) indexParts(st *State, v Value, def *indexDef, top bool) []indexPart {
	i, ok := v.(*IfaceV)
	if !ok || i.Dyn == nil {
		x.unsupported(st, "indexer")
	}
	p := indexPart{}
	tn := typeName(deref(i.Dyn))
	switch tn {
	case memdbPkg + ".CompoundIndex":
		if !top {
			x.unsupported(st, "nested compound index")
		}
		if x.getField(st, i.V, "AllowMissing") == x.c.True {
			x.unsupported(st, "partial compound index")
		}
		es, ok := x.sliceElems(st, x.getField(st, i.V, "Indexes"))
		if !ok {
			x.unsupported(st, "compound index")
		}
		def.compound = true
		var ps []indexPart
		for _, e := range es {
			ps = append(ps, x.indexParts(st, e, def, false)...)
		}
		return ps
	case memdbPkg + ".StringFieldIndex":
		p.kind = "str"
		p.lower = x.getField(st, i.V, "Lowercase") == x.c.True
	case x.repoMod + "/internal/engine/memdb.StateFieldIndex":
		p.kind = "state"
		f, ok := x.getField(st, i.V, "Filter").(*Term)
		if !ok || f.Op != OInt {
			x.unsupported(st, "state filter")
		}
		p.filter = f
	case x.repoMod + "/internal/engine/memdb.TimeFieldIndex":
		p.kind = "time"
	default:
		x.unsupported(st, "indexer "+tn)
	}
	p.field = constStr(x, st, x.getField(st, i.V, "Field"))
	p.fi = fieldIndex(x.taskType(), p.field)
	if p.fi < 0 || p.lower {
		x.unsupported(st, "index on field "+p.field)
	}
	ft := x.taskType().Underlying().(*types.Struct).Field(p.fi).Type()
	want := map[string]string{"str": "string", "state": x.repoMod + ".TaskState", "time": "*time.Time"}[p.kind]
	if typeName(ft) != want {
		x.unsupported(st, "index "+p.kind+" on field of type "+typeName(ft))
	}
	return []indexPart{p}
}

// memberRow: a row (not an option) is contained in the index.
func (x *Exec) inIndex(def *indexDef, row *Term) *Term {
	c := x.c
	ct := row.Sort.Ctors[0]
	r := c.True
	for _, p := range def.parts {
		f := c.Sel(ct, p.fi, row)
		switch p.kind {
		case "str":
			r = c.And(r, c.Not(c.Eq(f, c.StrV(""))))
		case "state":
			r = c.And(r, c.Eq(f, p.filter))
		case "time":
			r = c.And(r, c.IsSome(f))
		}
	}
	return r
}

// partKey is the integer by which rows are ordered at an index part.
func (x *Exec) partKey(p indexPart, row *Term) *Term {
	c := x.c
	f := c.Sel(row.Sort.Ctors[0], p.fi, row)
	switch p.kind {
	case "str":
		return c.SRank(f)
	case "time":
		return x.ms(c.Val(f))
	}
	return f
}

// rowAt reads a row and instantiates what is known about the table at that key.
func (x *Exec) rowAt(st *State, d, k *Term) *Term {
	c := x.c
	v := c.Select(d, k)
	x.rowFacts(st, d, k)
	return v
}

type rowKey struct {
	st   *State
	d, k *Term
}

func (x *Exec) rowFacts(st *State, d, k *Term) {
	c := x.c
	key := rowKey{st, d, k}
	if x.rowDone[key] {
		return
	}
	x.rowDone[key] = true
	v := c.Select(d, k)
	if v.Op == OCtor && len(v.Args) == 0 {
		return
	}
	if x.mongoUnit() {
		x.mongoKey(st, k)
		if v.Op != OCtor {
			x.mongoRowFacts(st, v, k)
		}
		x.tableFacts(st, d, k)
		return
	}
	sch := x.schema(st)
	// row invariant
	if v.Op != OCtor {
		row := c.Val(v)
		inv := c.Eq(c.Sel(row.Sort.Ctors[0], sch.id.parts[0].fi, row), k)
		var names []string
		for n := range sch.indexes {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if def := sch.indexes[n]; !def.missing {
				inv = c.And(inv, x.inIndex(def, row))
			}
		}
		st.assume(c.Imp(c.IsSome(v), inv))
	}
	// times of stored tasks are representable in milliseconds
	if v.Op != OCtor {
		row := c.Val(v)
		ct := row.Sort.Ctors[0]
		u := x.taskType().Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if typeName(u.Field(i).Type()) != "*time.Time" {
				continue
			}
			f := c.Sel(ct, i, row)
			m := x.ms(c.Val(f))
			st.assume(c.Imp(c.And(c.IsSome(v), c.IsSome(f)), c.And(c.Le(c.IntB(mustBig("-9223372036854775808")), m), c.Le(m, c.IntB(mustBig("9223372036854775807"))))))
		}
		x.assumption("times of stored tasks are within the range of int64 milliseconds (about 292 million years around 1970)")
	}
	x.tableFacts(st, d, k)
}

// tableFacts: definitions and invariants of the underlying tables.
func (x *Exec) tableFacts(st *State, d, k *Term) {
	for b := d; ; {
		if f, ok := x.arrDef[b]; ok {
			f(st, k)
		}
		for _, q := range x.quants[b] {
			m := map[*Term]*Term{q.v: k}
			for _, f := range q.facts {
				st.assume(x.c.Subst(f, m))
			}
			st.assume(x.c.Subst(q.goal, m))
		}
		if b.Op == OStore {
			b = b.Args[0]
			x.rowFacts(st, b, k)
			return
		}
		return
	}
}

func (x *Exec) assumption(s string) {
	if x.assumed == nil {
		x.assumed = map[string]bool{}
	}
	x.assumed[s] = true
}

func (x *Exec) dbSortOrNil() *Sort {
	if x.taskTypeOrNil() == nil {
		return nil
	}
	return x.dbSort()
}

// anyConstrained: the precondition restricts the variable.
func (x *Exec) anyConstrained(q *Term) bool {
	for _, t := range x.reqTerms {
		if x.c.Occurs(q, t) {
			return true
		}
	}
	return false
}

type quant struct {
	v     *Term
	goal  *Term
	facts []*Term
}

// --- enumerations ---

type seqInfo struct {
	def  *indexDef
	d    *Term
	args []*Term
	lb   bool
	memb func(row *Term) *Term // membership, if there is no index
}

func (x *Exec) seqSortT() *Sort { return x.c.UnintSort("Enum") }

func (x *Exec) mkSeq(st *State, def *indexDef, d *Term, args []*Term, lb bool) *Term {
	c := x.c
	name := "enum"
	if lb {
		name = "enumLB"
	}
	s := c.App(fmt.Sprintf("%s%d[%s]", name, len(args), def.canon(0)), x.seqSortT(), append([]*Term{d}, args...)...)
	if s.Op == OApp {
		x.seqDefs[s.Name] = &seqInfo{def: def, lb: lb}
	}
	st.assume(c.Le(c.IntV(0), x.seqN(s)))
	if sch := x.dbs; sch != nil && def == sch.id && len(args) == 1 && !lb {
		// the unique index with its full key selects at most one row
		st.assume(c.Eq(x.seqN(s), c.Ite(c.IsSome(x.rowAt(st, d, args[0])), c.IntV(1), c.IntV(0))))
	}
	x.useSeq(st, s)
	return s
}

func (x *Exec) seqOf(s *Term) *seqInfo {
	if s.Op != OApp {
		panic(unsup{"enumeration " + x.c.Show(s)})
	}
	i := x.seqDefs[s.Name]
	if i == nil {
		panic(unsup{"enumeration " + s.Name})
	}
	return &seqInfo{def: i.def, lb: i.lb, memb: i.memb, d: s.Args[0], args: s.Args[1:]}
}

func (x *Exec) seqN(s *Term) *Term      { return x.c.App("enum_n", x.c.Int, s) }
func (x *Exec) seqKey(s, p *Term) *Term { return x.c.App("enum_key", x.c.Str, s, p) }
func (x *Exec) seqIdx(s, k *Term) *Term { return x.c.App("enum_idx", x.c.Int, s, k) }

// member: row (not an option) is enumerated.
func (x *Exec) seqMember(s, row *Term) *Term {
	c := x.c
	i := x.seqOf(s)
	if i.memb != nil {
		return i.memb(row)
	}
	m := x.inIndex(i.def, row)
	ct := row.Sort.Ctors[0]
	if !i.lb {
		for j, a := range i.args {
			p := i.def.parts[j]
			f := c.Sel(ct, p.fi, row)
			switch p.kind {
			case "time":
				m = c.And(m, c.Eq(x.ms(c.Val(f)), a))
			default:
				m = c.And(m, c.Eq(f, a))
			}
		}
		return m
	}
	// lexicographic lower bound
	ge := c.True
	for j := len(i.args) - 1; j >= 0; j-- {
		p := i.def.parts[j]
		k := x.partKey(p, row)
		a := i.args[j]
		if p.kind == "str" {
			a = c.SRank(a)
		}
		if p.kind == "state" {
			continue // constant within the index
		}
		ge = c.Or(c.Lt(a, k), c.And(c.Eq(a, k), ge))
	}
	return c.And(m, ge)
}

// lexLE orders two rows of an index.
func (x *Exec) lexLE(def *indexDef, a, b *Term) *Term {
	c := x.c
	r := c.True
	for j := len(def.parts) - 1; j >= 0; j-- {
		p := def.parts[j]
		if p.kind == "state" {
			continue
		}
		ka, kb := x.partKey(p, a), x.partKey(p, b)
		r = c.Or(c.Lt(ka, kb), c.And(c.Eq(ka, kb), r))
	}
	return r
}

// cover relates an enumeration to a key.
func (x *Exec) seqCover(st *State, s, k *Term) {
	c := x.c
	kk := rowKey{st, s, k}
	if x.rowDone[kk] {
		return
	}
	x.rowDone[kk] = true
	i := x.seqOf(s)
	v := x.rowAt(st, i.d, k)
	mem := c.And(c.IsSome(v), x.seqMember(s, c.Val(v)))
	ix := x.seqIdx(s, k)
	n := x.seqN(s)
	st.assume(c.Le(c.IntV(0), n))
	st.assume(c.Imp(mem, c.And(c.Le(c.IntV(0), ix), c.Lt(ix, n), c.Eq(x.seqKey(s, ix), k))))
	st.assume(c.Imp(c.Not(mem), c.Eq(ix, c.IntV(-1))))
}

// seqElem instantiates what is known about the element at a position.
func (x *Exec) seqElem(st *State, s, p *Term) *Term {
	k := x.seqElem1(st, s, p)
	x.seqElems = append(x.seqElems, seqPos{st, s, p})
	for _, q := range x.keys {
		x.seqOrder(st, s, q, p)
	}
	return k
}

type seqPos struct {
	st   *State
	s, p *Term
}

func (x *Exec) seqElem1(st *State, s, p *Term) *Term {
	c := x.c
	k := x.seqKey(s, p)
	i := x.seqOf(s)
	n := x.seqN(s)
	in := c.And(c.Le(c.IntV(0), p), c.Lt(p, n))
	v := x.rowAt(st, i.d, k)
	st.assume(c.Imp(in, c.And(c.IsSome(v), x.seqMember(s, c.Val(v)), c.Eq(x.seqIdx(s, k), p))))
	return k
}

// seqOrder relates the position of key q to the element at position p.
func (x *Exec) seqOrder(st *State, s, q, p *Term) {
	c := x.c
	i := x.seqOf(s)
	x.seqCover(st, s, q)
	k := x.seqKey(s, p)
	n := x.seqN(s)
	in := c.And(c.Le(c.IntV(0), p), c.Lt(p, n))
	ix := x.seqIdx(s, q)
	rq, rk := c.Val(x.rowAt(st, i.d, q)), c.Val(x.rowAt(st, i.d, k))
	if i.memb == nil {
		st.assume(c.Imp(c.And(in, c.Le(c.IntV(0), ix), c.Lt(ix, p)), x.lexLE(i.def, rq, rk)))
		st.assume(c.Imp(c.And(in, c.Lt(p, ix)), x.lexLE(i.def, rk, rq)))
	}
	st.assume(c.Imp(c.And(in, c.Eq(ix, p)), c.Eq(k, q)))
}

// useSeq instantiates coverage of the registered keys.
func (x *Exec) useSeq(st *State, s *Term) {
	for _, q := range x.keys {
		x.seqCover(st, s, q)
	}
}

// --- library contract ---

func (x *Exec) libErr(st *State, name string) Value {
	e := &SymIface{T: x.c.Fresh("err_"+name, x.c.Any), St: errorType}
	st.assume(x.c.Not(x.c.Eq(e.T, x.c.Nil())))
	// library errors are not the sentinel errors of the repository
	st.assume(x.c.App("liberr", x.c.Bool, e.T))
	return e
}

func (x *Exec) newDB(st *State, name string, cur *Term) *OpaqueV {
	id := st.alloc(&Obj{Kind: "db", Name: name, G: map[string]Value{"cur": cur, "locked": x.c.False, "frozen": x.c.False}})
	return &OpaqueV{Kind: "db", Obj: id}
}

func (x *Exec) dbArg(st *State, v Value, kind string) int {
	o, ok := v.(*OpaqueV)
	if !ok || (o.Obj != 0 && st.obj(o.Obj).Kind != kind) {
		x.unsupported(st, fmt.Sprintf("%s expected, have %T", kind, v))
	}
	if o.Obj == 0 {
		x.oblige(st, "panic-free", x.c.False, "use of a nil database")
		panic(deadPath{})
	}
	x.nonNil(st, v, "use of a "+kind)
	return o.Obj
}

// dbEnv: other operations may have taken effect since the database was last seen.
func (x *Exec) dbEnv(st *State, id int) *Term {
	o := st.obj(id)
	if o.G["frozen"] == x.c.True || o.Kind == "db" && o.G["local"] == x.c.True {
		return st.gterm(id, "cur")
	}
	n := x.c.Fresh("DB", x.dbSort())
	st.gset(id, "cur", n)
	return n
}

// setSnap records the state of the database last seen by a reader.
func (x *Exec) setSnap(st *State, id int, cur *Term) {
	if x.ghostObj != 0 {
		st.gset(x.ghostObj, "snap", cur)
	}
}

func (x *Exec) indexArg(st *State, table, index Value) (*indexDef, bool, bool) {
	sch := x.schema(st)
	t, i := T(table), T(index)
	if t.Op != OStr || i.Op != OStr {
		x.unsupported(st, "symbolic table or index name")
	}
	if t.Name != sch.table {
		return nil, false, false
	}
	if d := sch.indexes[i.Name]; d != nil {
		return d, true, true
	}
	if strings.HasSuffix(i.Name, "_prefix") {
		x.unsupported(st, "prefix lookup")
	}
	return nil, true, false
}

// indexArgs converts lookup arguments to key parts; ok=false: the library reports an error.
func (x *Exec) indexArgs(st *State, def *indexDef, args []Value, lb bool) (ks []*Term, ok bool) {
	c := x.c
	if len(args) == 0 {
		return nil, true
	}
	if len(args) != len(def.parts) {
		return nil, false
	}
	for j, a := range args {
		p := def.parts[j]
		i, isI := a.(*IfaceV)
		if !isI || i.Dyn == nil {
			x.unsupported(st, "index argument")
		}
		v := i.V
		dt := i.Dyn
		if pt, isP := dt.Underlying().(*types.Pointer); isP && p.kind != "str" {
			// indexers dereference pointers
			v = x.load(st, v, pt.Elem())
			dt = pt.Elem()
		}
		t, isT := v.(*Term)
		if !isT {
			return nil, false
		}
		switch p.kind {
		case "str":
			if b, ok := dt.(*types.Basic); !ok || b.Kind() != types.String {
				if _, isB := types.Unalias(dt).(*types.Basic); !isB || t.Sort != c.Str {
					return nil, false
				}
			}
			ks = append(ks, t)
		case "state":
			b, ok := dt.Underlying().(*types.Basic)
			if !ok || b.Kind() != types.Int32 {
				return nil, false
			}
			if t.Op != OInt {
				x.unsupported(st, "symbolic state argument")
			}
			if t != p.filter {
				return nil, false
			}
			ks = append(ks, t)
		case "time":
			if !isTime(dt) {
				return nil, false
			}
			ks = append(ks, x.ms(t))
		}
	}
	return ks, true
}

func (x *Exec) txnTable(st *State, id int) *Term {
	o := st.obj(id)
	if o.G["open"] != x.c.True {
		if o.G["write"] == x.c.True {
			x.oblige(st, "panic-free", x.c.False, "use of a finished write transaction")
			panic(deadPath{})
		}
	}
	return st.gterm(id, "work")
}

func (x *Exec) varargs(st *State, v Value) []Value {
	es, ok := x.sliceElems(st, v)
	if !ok {
		x.unsupported(st, "variadic arguments")
	}
	return es
}

func (x *Exec) rowValue(st *State, d, k *Term, nilIf *Term) Value {
	return &IfaceV{Dyn: types.NewPointer(x.taskType()), V: &BoxPtr{Opt: x.rowAt(st, d, k), Elem: x.taskType(), Row: true}, NilIf: nilIf}
}

func init() {
	m := libModels
	fork2 := func(x *Exec, st *State, cond *Term, yes, no func(*State) []*Outcome) []*Outcome {
		return x.fork(st, &Frame{regs: map[ssa.Value]Value{}, unroll: map[*ssa.BasicBlock]int{}}, cond,
			func(s *State, _ *Frame) []*Outcome { return yes(s) },
			func(s *State, _ *Frame) []*Outcome { return no(s) })
	}
	m[memdbPkg+".NewMemDB"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		if p, ok := a[0].(*PtrV); ok && p.Obj != 0 && !x.isSchemaField(st, p) {
			x.parseSchema(st, p)
			x.unsupported(st, "database with another schema")
		}
		s2 := st.clone()
		db := x.newDB(st, "newdb", c.ConstArr(x.dbSort(), c.None(x.taskSort())))
		st.gset(db.Obj, "local", c.True)
		return []*Outcome{{st: st, res: []Value{db, &IfaceV{}}}, {st: s2, res: []Value{&OpaqueV{Kind: "db"}, x.libErr(s2, "NewMemDB")}}}
	}
	m["(*"+memdbPkg+".MemDB).Txn"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.dbArg(st, a[0], "db")
		w := T(a[1])
		if w != c.True && w != c.False {
			x.unsupported(st, "symbolic transaction mode")
		}
		if w == c.True {
			o := st.obj(id)
			if o.G["frozen"] == c.True {
				x.unsupported(st, "write transaction on a snapshot")
			}
			if o.G["locked"] == c.True {
				x.oblige(st, "usable", c.False, "deadlock: a write transaction is opened while this operation still has one open"+x.where())
				panic(deadPath{})
			}
			st.gset(id, "locked", c.True)
		}
		cur := x.dbEnv(st, id)
		t := st.alloc(&Obj{Kind: "txn", G: map[string]Value{"start": cur, "work": cur, "open": c.True, "write": w, "db": c.IntV(int64(id))}})
		if x.ghostObj != 0 {
			if st.gterm(x.ghostObj, "committed") == c.False && st.obj(id).G["frozen"] != c.True && st.obj(id).G["local"] != c.True {
				st.gset(x.ghostObj, "db0", cur)
				st.gset(x.ghostObj, "db1", cur)
			}
			if w == c.False && st.obj(id).G["frozen"] != c.True {
				x.setSnap(st, id, cur)
			}
			n := st.gterm(x.ghostObj, "txns")
			st.gset(x.ghostObj, "txns", c.Add(n, c.IntV(1)))
		}
		return ret(st, &OpaqueV{Kind: "txn", Obj: t})
	}
	m["(*"+memdbPkg+".MemDB).Snapshot"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		id := x.dbArg(st, a[0], "db")
		cur := x.dbEnv(st, id)
		db := x.newDB(st, "snapshot", cur)
		x.setSnap(st, id, cur)
		st.gset(db.Obj, "frozen", x.c.True)
		return ret(st, db)
	}
	abort := func(x *Exec, st *State, id int) {
		o := st.obj(id)
		if o.G["open"] != x.c.True {
			return
		}
		st.gset(id, "open", x.c.False)
		if o.G["write"] == x.c.True {
			st.gset(int(o.G["db"].(*Term).I.Int64()), "locked", x.c.False)
		}
	}
	m["(*"+memdbPkg+".Txn).Abort"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		id := x.dbArg(st, a[0], "txn")
		if st.obj(id).G["write"] == x.c.True {
			abort(x, st, id)
		}
		return ret(st)
	}
	m["(*"+memdbPkg+".Txn).Commit"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.dbArg(st, a[0], "txn")
		o := st.obj(id)
		if o.G["write"] != c.True || o.G["open"] != c.True {
			return ret(st)
		}
		db := int(o.G["db"].(*Term).I.Int64())
		start, work := st.gterm(id, "start"), st.gterm(id, "work")
		local := st.obj(db).G["local"] == c.True
		st.gset(db, "cur", work)
		abort(x, st, id)
		if x.ghostObj != 0 && !local {
			if st.gterm(x.ghostObj, "committed") == c.True {
				if start != work {
					x.oblige(st, "atomic", c.Eq(start, work), "the operation takes effect in more than one step"+x.where())
				}
			} else {
				st.gset(x.ghostObj, "db0", start)
				st.gset(x.ghostObj, "db1", work)
				if start != work {
					st.gset(x.ghostObj, "committed", c.True)
				}
			}
		}
		return ret(st)
	}
	lookup := func(lb bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			id := x.dbArg(st, a[0], "txn")
			d := x.txnTable(st, id)
			def, okT, okI := x.indexArg(st, a[1], a[2])
			if !okT || !okI {
				return ret(st, &IfaceV{}, x.libErr(st, "Get"))
			}
			ks, ok := x.indexArgs(st, def, x.varargs(st, a[3]), lb)
			if !ok {
				return ret(st, &IfaceV{}, x.libErr(st, "Get"))
			}
			s := x.mkSeq(st, def, d, ks, lb)
			it := st.alloc(&Obj{Kind: "iter", G: map[string]Value{"pos": x.c.IntV(0), "seq": s}})
			return ret(st, &OpaqueV{Kind: "iter", Obj: it}, &IfaceV{})
		}
	}
	m["(*"+memdbPkg+".Txn).Get"] = lookup(false)
	m["(*"+memdbPkg+".Txn).LowerBound"] = lookup(true)
	m["("+memdbPkg+".ResultIterator).Next"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.dbArg(st, a[0], "iter")
		s := st.gterm(id, "seq")
		p := st.gterm(id, "pos")
		st.gset(id, "pos", c.Add(p, c.IntV(1)))
		st.assume(c.Le(c.IntV(0), p))
		k := x.seqElem(st, s, p)
		if p.Op != OInt || p.I.Sign() > 0 {
			x.seqAdjacent(st, s, p)
		}
		return ret(st, x.rowValue(st, x.seqOf(s).d, k, c.Le(x.seqN(s), p)))
	}
	first := func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.dbArg(st, a[0], "txn")
		d := x.txnTable(st, id)
		def, okT, okI := x.indexArg(st, a[1], a[2])
		if !okT || !okI {
			return ret(st, &IfaceV{}, x.libErr(st, "First"))
		}
		ks, ok := x.indexArgs(st, def, x.varargs(st, a[3]), false)
		if !ok {
			return ret(st, &IfaceV{}, x.libErr(st, "First"))
		}
		if def == x.schema(st).id && len(ks) == 1 {
			v := x.rowAt(st, d, ks[0])
			return ret(st, x.rowValue(st, d, ks[0], c.IsNone(v)), &IfaceV{})
		}
		s := x.mkSeq(st, def, d, ks, false)
		k := x.seqElem(st, s, c.IntV(0))
		return ret(st, x.rowValue(st, d, k, c.Le(x.seqN(s), c.IntV(0))), &IfaceV{})
	}
	m["(*"+memdbPkg+".Txn).First"] = first
	m["(*"+memdbPkg+".Txn).Insert"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.dbArg(st, a[0], "txn")
		sch := x.schema(st)
		if st.obj(id).G["write"] != c.True || T(a[1]).Op != OStr || T(a[1]).Name != sch.table {
			return ret(st, x.libErr(st, "Insert"))
		}
		d := x.txnTable(st, id)
		row, opt := x.taskArg(st, a[2], true)
		_ = opt
		valid := c.True
		var names []string
		for n := range sch.indexes {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if def := sch.indexes[n]; !def.missing {
				valid = c.And(valid, x.inIndex(def, row))
			}
		}
		return fork2(x, st, valid, func(s *State) []*Outcome {
			key := c.Sel(row.Sort.Ctors[0], sch.id.parts[0].fi, row)
			x.rowFacts(s, d, key)
			s.gset(id, "work", c.Store(d, key, c.Some(row)))
			return ret(s, &IfaceV{})
		}, func(s *State) []*Outcome {
			// a failed insert may leave the transaction partially modified
			s.gset(id, "work", c.Fresh("broken", x.dbSort()))
			return ret(s, x.libErr(s, "Insert"))
		})
	}
	m["(*"+memdbPkg+".Txn).Delete"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.dbArg(st, a[0], "txn")
		sch := x.schema(st)
		if st.obj(id).G["write"] != c.True || T(a[1]).Op != OStr || T(a[1]).Name != sch.table {
			return ret(st, x.libErr(st, "Delete"))
		}
		d := x.txnTable(st, id)
		row, _ := x.taskArg(st, a[2], false)
		key := c.Sel(row.Sort.Ctors[0], sch.id.parts[0].fi, row)
		v := x.rowAt(st, d, key)
		return fork2(x, st, c.IsSome(v), func(s *State) []*Outcome {
			s.gset(id, "work", c.Store(d, key, c.None(x.taskSort())))
			return ret(s, &IfaceV{})
		}, func(s *State) []*Outcome {
			return ret(s, x.libErr(s, "Delete"))
		})
	}
	m["(*"+memdbPkg+".Txn).DeleteAll"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.dbArg(st, a[0], "txn")
		if st.obj(id).G["write"] != c.True {
			return ret(st, c.IntV(0), x.libErr(st, "DeleteAll"))
		}
		d := x.txnTable(st, id)
		def, okT, okI := x.indexArg(st, a[1], a[2])
		if !okT || !okI {
			return ret(st, c.IntV(0), x.libErr(st, "DeleteAll"))
		}
		ks, ok := x.indexArgs(st, def, x.varargs(st, a[3]), false)
		if !ok {
			return ret(st, c.IntV(0), x.libErr(st, "DeleteAll"))
		}
		s := x.mkSeq(st, def, d, ks, false)
		w := c.Fresh("DBdel", x.dbSort())
		x.arrDef[w] = func(st2 *State, k *Term) {
			v := x.rowAt(st2, d, k)
			st2.assume(c.Eq(c.Select(w, k), c.Ite(c.And(c.IsSome(v), x.seqMember(s, c.Val(v))), c.None(x.taskSort()), v)))
		}
		st.gset(id, "work", w)
		return ret(st, x.seqN(s), &IfaceV{})
	}
	// specification functions
	specFuncs["row"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		d, k := x.evalTerm(env, n.Args[0]), x.evalTerm(env, n.Args[1])
		return &BoxPtr{Opt: x.rowAt(env.st, d, k), Elem: x.taskType()}
	}
	specFuncs["has"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		d, k := x.evalTerm(env, n.Args[0]), x.evalTerm(env, n.Args[1])
		return x.c.IsSome(x.rowAt(env.st, d, k))
	}
	// visited(it, q, k): q is enumerated at a position before k
	specFuncs["visited"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		c := x.c
		s := x.iterSeq(env, n.Args[0])
		q, k := x.evalTerm(env, n.Args[1]), x.evalTerm(env, n.Args[2])
		x.seqCover(env.st, s, q)
		ix := x.seqIdx(s, q)
		return c.And(c.Le(c.IntV(0), ix), c.Lt(ix, k))
	}
	specFuncs["pos"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		o, ok := x.eval(env, n.Args[0]).(*OpaqueV)
		if !ok || o.Kind != "iter" && o.Kind != "symrange" {
			x.specErr("pos of what is not an iterator")
		}
		return env.st.gterm(o.Obj, "pos")
	}
	specFuncs["count"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		s := x.iterSeq(env, n.Args[0])
		env.st.assume(x.c.Le(x.c.IntV(0), x.seqN(s)))
		return x.seqN(s)
	}
	specFuncs["elem"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		s := x.iterSeq(env, n.Args[0])
		p := x.evalTerm(env, n.Args[1])
		k := x.seqElem1(env.st, s, p)
		return &BoxPtr{Opt: x.rowAt(env.st, x.seqOf(s).d, k), Elem: x.taskType()}
	}
	specFuncs["indexof"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		s := x.iterSeq(env, n.Args[0])
		q := x.evalTerm(env, n.Args[1])
		x.seqCover(env.st, s, q)
		return x.seqIdx(s, q)
	}
	// enum(db, "Topic", topic): the enumeration of the rows by an index
	specFuncs["enum"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		d := x.evalTerm(env, n.Args[0])
		want := x.evalTerm(env, n.Args[1]).Name
		var args []*Term
		for _, a := range n.Args[2:] {
			args = append(args, x.evalTerm(env, a))
		}
		sch := x.schema(env.st)
		var names []string
		for k := range sch.indexes {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if sch.indexes[k].canon(0) == want {
				return x.mkSeq(env.st, sch.indexes[k], d, args, false)
			}
		}
		x.specErr("no index on %s", want)
		return nil
	}
}

// seqAdjacent: consecutive elements are ordered.
func (x *Exec) seqAdjacent(st *State, s, p *Term) {
	c := x.c
	i := x.seqOf(s)
	q := c.Sub(p, c.IntV(1))
	k1 := x.seqElem1(st, s, q)
	k2 := x.seqElem1(st, s, p)
	in := c.And(c.Lt(c.IntV(0), p), c.Lt(p, x.seqN(s)))
	st.assume(c.Imp(in, x.lexLE(i.def, c.Val(x.rowAt(st, i.d, k1)), c.Val(x.rowAt(st, i.d, k2)))))
}

func (x *Exec) iterSeq(env *Env, e ast.Expr) *Term {
	switch o := x.eval(env, e).(type) {
	case *OpaqueV:
		if o.Kind == "iter" {
			return env.st.gterm(o.Obj, "seq")
		}
	case *Term:
		if o.Sort == x.seqSortT() {
			return o
		}
	}
	x.specErr("enumeration expected")
	return nil
}

// isSchemaField: the schema pointer stored in the engine by its constructor.
func (x *Exec) isSchemaField(st *State, p *PtrV) bool {
	o := st.obj(p.Obj)
	return o.Caller && strings.Contains(o.Name, "schema")
}

// taskArg decodes a task passed to the library. Inserted objects become
// part of the database: they must not be reachable by the caller, and not be
// written anymore.
func (x *Exec) taskArg(st *State, v Value, insert bool) (*Term, *Term) {
	c := x.c
	i, ok := v.(*IfaceV)
	if !ok || i.Dyn == nil {
		x.unsupported(st, "record of unknown type")
	}
	switch p := i.V.(type) {
	case *BoxPtr:
		if typeName(p.Elem) != typeName(x.taskType()) {
			x.unsupported(st, "record of another type")
		}
		x.nonNil(st, p, "record")
		if insert && !p.Row {
			x.violate(st, "private", "the database stores an object that the caller can still change"+x.where())
		}
		return c.Val(p.Opt), p.Opt
	case *PtrV:
		if typeName(p.Elem) != typeName(x.taskType()) {
			x.unsupported(st, "record of another type")
		}
		x.nonNil(st, p, "record")
		t := x.toTerm(st, p, types.NewPointer(p.Elem), true)
		if insert {
			o := st.mut(p.Obj)
			if o.Caller {
				x.violate(st, "private", "the database stores an object that the caller can still change"+x.where())
			}
			if len(p.Path) > 0 {
				x.unsupported(st, "record inside another object")
			}
			o.Pub, o.Boxed = true, false
		}
		return c.Val(t), t
	}
	x.unsupported(st, fmt.Sprintf("record %T", i.V))
	return nil, nil
}

// modelCandidates relates iterators to the rows they returned.
func (x *Exec) modelCandidates(l *loopSt, st *State, entry map[*ssa.Phi]Value) []*cand {
	c := x.c
	var out []*cand
	var ids []int
	for id := range l.st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	try := func(name string, f func(s *State) *Term) {
		s := l.st.clone()
		n0 := len(s.pc)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsup); !ok {
					panic(r)
				}
			}
		}()
		g := f(s)
		out = append(out, &cand{goal: g, facts: append([]*Term{}, s.pc[n0:]...), name: name})
	}
	for _, id := range ids {
		o := l.st.heap[id]
		if o.Kind != "iter" || l.objs[id] == nil {
			continue
		}
		pos, ok := o.G["pos"].(*Term)
		seq, ok2 := o.G["seq"].(*Term)
		if !ok || !ok2 {
			continue
		}
		prev := c.Sub(pos, c.IntV(1))
		n := x.seqN(seq)
		try("iterator started", func(s *State) *Term { return c.Le(c.IntV(1), pos) })
		try("iterator in range", func(s *State) *Term { return c.Le(prev, n) })
		try("iterator not exhausted", func(s *State) *Term { return c.Le(pos, n) })
		for p, v := range l.phis {
			i, ok := v.(*IfaceV)
			if !ok || i.NilIf == nil {
				continue
			}
			b, ok := i.V.(*BoxPtr)
			if !ok || !b.Row {
				continue
			}
			try("row "+p.Name()+" exhausted", func(s *State) *Term { return c.Eq(i.NilIf, c.Le(n, prev)) })
			try("row "+p.Name()+" current", func(s *State) *Term {
				k := x.seqElem(s, seq, prev)
				return c.Or(i.NilIf, c.Eq(b.Opt, x.rowAt(s, x.seqOf(seq).d, k)))
			})
		}
	}
	return out
}
