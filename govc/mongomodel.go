package main

// Contract of go.mongodb.org/mongo-driver and of the MongoDB server behind
// it, as assumed by this verifier: a collection is a map from IDs to documents;
// each command works on the state of the collection at one instant, and other
// clients may have changed the collection arbitrarily between two commands;
// findAndModify, updateOne, deleteOne, replaceOne and insertOne change at most
// one document, in one step; a command may fail before or after it has taken
// effect. Times are stored with a resolution of one millisecond.

import (
	"fmt"
	"go/ast"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const mongoPkg = "go.mongodb.org/mongo-driver/mongo"

func (x *Exec) mongoUnit() bool {
	return strings.Contains(x.unit.target, "/internal/engine/mongodb.")
}

// mongoPartial gives the states of the documents in the partial indexes; the
// contract of createIndexes proves that they are created like this.
var mongoPartial = map[string]int64{"_id_": -1, "topic_hashed": -1, "topic_1_scheduled_1": 0, "deadline_1": 1, "topic_1": 1, "consumed_1": 2}

// --- documents ---

type bsonField struct {
	name string
	omit bool
	skip bool
}

func bsonTag(u *types.Struct, i int) bsonField {
	t := reflect.StructTag(u.Tag(i)).Get("bson")
	p := strings.Split(t, ",")
	f := bsonField{name: p[0]}
	if f.name == "-" {
		f.skip = true
	}
	if f.name == "" {
		f.name = strings.ToLower(u.Field(i).Name())
	}
	for _, o := range p[1:] {
		if o == "omitempty" {
			f.omit = true
		}
	}
	return f
}

// docField finds the field of a task by its key.
func (x *Exec) docField(key string) (int, types.Type, bsonField, bool) {
	u := x.taskType().Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if b := bsonTag(u, i); !b.skip && b.name == key {
			return i, u.Field(i).Type(), b, true
		}
	}
	return 0, nil, bsonField{}, false
}

func (x *Exec) msTrunc(t *Term) *Term { return x.c.Mul(x.ms(t), x.c.IntV(million)) }

func (x *Exec) msTruncOpt(o *Term) *Term {
	c := x.c
	if o.Op == OCtor && len(o.Args) == 0 {
		return o
	}
	return c.Ite(c.IsSome(o), c.Some(x.msTrunc(c.Val(o))), o)
}

func (x *Exec) storedAny(t *Term) *Term {
	c := x.c
	if t == c.Nil() {
		return t
	}
	return c.Ite(c.Eq(t, c.Nil()), c.Nil(), c.App("bson_value", c.Any, t))
}

// storedField is a value as it comes back from the database.
func (x *Exec) storedField(t *Term, ty types.Type) *Term {
	switch {
	case typeName(ty) == "*time.Time":
		return x.msTruncOpt(t)
	case types.IsInterface(ty):
		return x.storedAny(t)
	}
	return t
}

// storedTask is a task (not an option) as it comes back from the database.
func (x *Exec) storedTask(st *State, row *Term) *Term {
	c := x.c
	ct := row.Sort.Ctors[0]
	u := x.taskType().Underlying().(*types.Struct)
	var as []*Term
	for i := 0; i < u.NumFields(); i++ {
		f := c.Sel(ct, i, row)
		if bsonTag(u, i).skip {
			f = x.toTerm(st, x.zero(st, u.Field(i).Type()), u.Field(i).Type(), false)
		} else {
			f = x.storedField(f, u.Field(i).Type())
		}
		as = append(as, f)
	}
	return c.Mk(ct, as...)
}

// mongoRowFacts: documents were written by this engine.
func (x *Exec) mongoRowFacts(st *State, v, k *Term) {
	c := x.c
	row := c.Val(v)
	ct := row.Sort.Ctors[0]
	u := x.taskType().Underlying().(*types.Struct)
	inv := c.True
	for i := 0; i < u.NumFields(); i++ {
		f := c.Sel(ct, i, row)
		b := bsonTag(u, i)
		switch {
		case b.skip:
			inv = c.And(inv, c.Eq(f, x.toTerm(st, x.zero(st, u.Field(i).Type()), u.Field(i).Type(), false)))
		case b.name == "_id":
			inv = c.And(inv, c.Eq(f, k))
		case typeName(u.Field(i).Type()) == "*time.Time":
			m := c.Val(f)
			inv = c.And(inv, c.Imp(c.IsSome(f), c.And(c.Eq(m, x.msTrunc(m)),
				c.Le(c.IntB(mustBig("-9223372036854775808")), x.ms(m)), c.Le(x.ms(m), c.IntB(mustBig("9223372036854775807"))))))
		}
	}
	st.assume(c.Imp(c.IsSome(v), inv))
	x.assumption("the documents of the collection are tasks as this engine writes them, with their times in milliseconds")
}

// --- states of the collection ---

// mongoStep is the state of the collection at the time of the next command.
func (x *Exec) mongoStep(st *State) *Term {
	c := x.c
	g := x.ghostObj
	d := c.Fresh("MDB", x.dbSort())
	var hist valueList
	if h, ok := st.obj(g).G["hist"].(valueList); ok {
		hist = h
	}
	x.mongoSeen(st, d, c.True)
	st.gset(g, "hist", append(append(valueList{}, hist...), d))
	st.gset(g, "txns", c.Add(st.gterm(g, "txns"), c.IntV(1)))
	st.gset(g, "snap", d)
	if st.gterm(g, "committed") == c.False {
		st.gset(g, "db0", d)
		st.gset(g, "db1", d)
	}
	x.mongoInst(st)
	return d
}

// mongoSeen: the next command of the operation sees the state d.
func (x *Exec) mongoSeen(st *State, d, stable *Term) {
	c := x.c
	g := x.ghostObj
	seen := st.gterm(g, "seen")
	st.gset(g, "stable", c.And(st.gterm(g, "stable"), stable, c.Or(c.Not(seen), c.Eq(d, st.gterm(g, "first")))))
	st.gset(g, "first", c.Ite(seen, st.gterm(g, "first"), d))
	st.gset(g, "seen", c.True)
}

// mongoKey makes the states of the collection known at a key.
func (x *Exec) mongoKey(st *State, k *Term) {
	var ks valueList
	if h, ok := st.obj(x.ghostObj).G["mkeys"].(valueList); ok {
		ks = h
	}
	for _, q := range ks {
		if q == k {
			return
		}
	}
	st.gset(x.ghostObj, "mkeys", append(append(valueList{}, ks...), k))
	x.mongoInst(st)
}

func (x *Exec) mongoInst(st *State) {
	h, _ := st.obj(x.ghostObj).G["hist"].(valueList)
	ks, _ := st.obj(x.ghostObj).G["mkeys"].(valueList)
	for _, d := range h {
		for _, k := range x.keys {
			x.rowFacts(st, T(d), k)
		}
		for _, k := range ks {
			x.rowFacts(st, T(d), T(k))
		}
	}
}

// mongoCommit: a command has changed the collection from d to w.
func (x *Exec) mongoCommit(st *State, d, w *Term) {
	c := x.c
	g := x.ghostObj
	if st.gterm(g, "committed") != c.False {
		x.oblige(st, "atomic", c.Not(st.gterm(g, "committed")), "the operation takes effect in more than one step"+x.where())
	}
	st.gset(g, "db0", d)
	st.gset(g, "db1", w)
	st.gset(g, "committed", c.True)
	x.mongoInst(st)
}

// noSeq stands for the results of a query that failed.
func (x *Exec) noSeq(d *Term) *Term {
	s := x.c.App("enumNone", x.seqSortT(), d)
	x.seqDefs[s.Name] = &seqInfo{memb: func(*Term) *Term { return x.c.False }}
	return s
}

func (x *Exec) mongoFailed(st *State) { st.gset(x.ghostObj, "dberr", x.c.True) }

// card is the number of rows of a table.
func (x *Exec) card(st *State, s *Term) *Term {
	c := x.c
	if s.Op == OConstArr {
		return c.IntV(0)
	}
	if s.Op == OStore && s.Args[0].Op == OConstArr {
		if s.Args[2].Op == OCtor && len(s.Args[2].Args) > 0 {
			return c.IntV(1)
		}
		return c.Ite(c.IsSome(s.Args[2]), c.IntV(1), c.IntV(0))
	}
	n := c.App("card", c.Int, s)
	if x.arrDef[s] != nil {
		x.mongoRedo(st, s)
	}
	st.assume(c.Le(c.IntV(0), n))
	w := c.App("card_witness", c.Str, s)
	st.assume(c.Imp(c.Lt(c.IntV(0), n), c.IsSome(x.rowAt(st, s, w))))
	x.mongoKey(st, w)
	return n
}

// cardFact relates the number of rows to a key.
func (x *Exec) cardFact(st *State, s, k *Term) {
	c := x.c
	st.assume(c.Imp(c.Eq(c.App("card", c.Int, s), c.IntV(0)), c.IsNone(c.Select(s, k))))
}

// tableOf defines a table by what it holds at each key.
func (x *Exec) tableOf(st *State, name string, f func(st *State, k *Term) *Term) *Term {
	w := x.c.Fresh(name, x.dbSort())
	x.arrDef[w] = func(s *State, k *Term) {
		s.assume(x.c.Eq(x.c.Select(w, k), f(s, k)))
		x.cardFact(s, w, k)
	}
	return w
}

func (x *Exec) emptyTable() *Term { return x.c.ConstArr(x.dbSort(), x.c.None(x.taskSort())) }

// orderedDoc is a document in which the order of the elements matters.
func (x *Exec) orderedDoc(st *State, v Value) ([]bsonElem, bool) {
	es, ok := x.bsonDoc(st, v)
	if i, isI := v.(*IfaceV); isI {
		v = i.V
	}
	if _, isMap := v.(*MapV); isMap && len(es) > 1 {
		x.unsupported(st, "document without an order")
	}
	return es, ok
}

// --- filters, updates and options ---

type mongoFilter struct {
	match  func(row *Term) *Term
	id     *Term // the only ID that can match
	fields map[string]bool
	hint   string
	conds  int
}

type bsonElem struct {
	key string
	v   Value
}

func (x *Exec) bsonDoc(st *State, v Value) ([]bsonElem, bool) {
	if i, ok := v.(*IfaceV); ok {
		if i.Dyn == nil {
			return nil, true
		}
		v = i.V
	}
	if m, ok := v.(*MapV); ok {
		if n := typeName(m.T); !strings.HasSuffix(n, "primitive.M") && !strings.HasSuffix(n, "bson.M") && n != "map[string]interface{}" && n != "map[string]any" {
			return nil, false
		}
		if m.Obj == 0 {
			return nil, true
		}
		o := st.obj(m.Obj)
		if o.Kind != "map" {
			x.unsupported(st, "document from an unknown map")
		}
		var r []bsonElem
		for i, k := range o.MapK {
			if T(k).Op != OStr {
				x.unsupported(st, "document with an unknown key")
			}
			r = append(r, bsonElem{T(k).Name, o.MapV_[i]})
		}
		sort.SliceStable(r, func(i, j int) bool { return r[i].key < r[j].key })
		return r, true
	}
	s, ok := v.(*SliceV)
	if !ok || typeName(s.T.Underlying().(*types.Slice).Elem()) != "go.mongodb.org/mongo-driver/bson/primitive.E" {
		return nil, false
	}
	es, ok := x.sliceElems(st, s)
	if !ok {
		x.unsupported(st, "document of unknown length")
	}
	var r []bsonElem
	for _, e := range es {
		sv, ok := e.(*StructV)
		if !ok {
			x.unsupported(st, fmt.Sprintf("document element %T", e))
		}
		k := T(x.field(st, sv, 0))
		if k.Op != OStr {
			x.unsupported(st, "document with an unknown key")
		}
		r = append(r, bsonElem{k.Name, x.field(st, sv, 1)})
	}
	return r, true
}

// bsonVal is a plain value as a term of the sort of a field; null: no value.
func (x *Exec) bsonVal(st *State, v Value, ft types.Type) (t *Term, null *Term) {
	c := x.c
	i, ok := v.(*IfaceV)
	if !ok {
		if s, isS := v.(*SymIface); isS && types.IsInterface(ft) {
			return s.T, c.False
		}
		x.unsupported(st, fmt.Sprintf("document value %T", v))
	}
	if i.Dyn == nil {
		return nil, c.True
	}
	if types.IsInterface(ft) {
		return x.anyTerm(st, i, true), c.False
	}
	base := ft
	if p, ok := ft.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	dt := i.Dyn
	val := i.V
	null = c.False
	if p, ok := dt.Underlying().(*types.Pointer); ok {
		null = x.isNil(st, val)
		dt = p.Elem()
		if null != c.True {
			o := x.toTerm(st, val, p, true)
			val = c.Val(o)
		} else {
			return nil, null
		}
	}
	same := types.Identical(dt, base) || isTime(dt) && isTime(base)
	if !same {
		a, okA := dt.Underlying().(*types.Basic)
		b, okB := base.Underlying().(*types.Basic)
		same = okA && okB && !isTime(dt) && !isTime(base) && (a.Info()&types.IsInteger != 0 && b.Info()&types.IsInteger != 0 || a.Info()&types.IsString != 0 && b.Info()&types.IsString != 0)
	}
	if !same {
		return nil, c.False
	}
	return T(val), null
}

func (x *Exec) mongoFilter(st *State, v Value, opts map[string]Value) *mongoFilter {
	c := x.c
	es, ok := x.bsonDoc(st, v)
	if !ok {
		x.unsupported(st, fmt.Sprintf("filter %T", v))
	}
	f := &mongoFilter{fields: map[string]bool{}}
	type cond func(row *Term) *Term
	var conds []cond
	for _, e := range es {
		fi, ft, tag, ok := x.docField(e.key)
		if !ok {
			x.unsupported(st, "filter on "+e.key)
		}
		if i, isI := e.v.(*IfaceV); isI && i.Dyn != nil {
			if ops, isDoc := x.bsonDoc(st, i); isDoc {
				for _, op := range ops {
					t, null := x.bsonVal(st, op.v, ft)
					if null != c.False && x.must(st, c.Not(null)) {
						null = c.False
					}
					if null != c.False || t == nil {
						x.unsupported(st, "comparison with another kind of value")
					}
					op := op
					conds = append(conds, func(row *Term) *Term {
						a := c.Sel(row.Sort.Ctors[0], fi, row)
						b := t
						has := c.True
						if typeName(ft) == "*time.Time" {
							has = c.IsSome(a)
							a, b = x.ms(c.Val(a)), x.ms(b)
						} else if a.Sort != c.Int && op.key != "$eq" && op.key != "$ne" {
							x.unsupported(st, "comparison of "+e.key)
						} else if tag.omit && a.Sort == c.Str {
							has = c.Not(c.Eq(a, c.StrV("")))
						}
						switch op.key {
						case "$lt":
							return c.And(has, c.Lt(a, b))
						case "$lte":
							return c.And(has, c.Le(a, b))
						case "$gt":
							return c.And(has, c.Lt(b, a))
						case "$gte":
							return c.And(has, c.Le(b, a))
						case "$eq":
							return c.And(has, c.Eq(a, b))
						case "$ne":
							return c.Not(c.And(has, c.Eq(a, b)))
						}
						x.unsupported(st, "operator "+op.key)
						return nil
					})
				}
				continue
			}
		}
		t, null := x.bsonVal(st, e.v, ft)
		if null != c.False && x.must(st, c.Not(null)) {
			null = c.False
		}
		if null != c.False {
			x.unsupported(st, "filter on a null value of "+e.key)
		}
		if t == nil {
			conds = append(conds, func(*Term) *Term { return c.False })
			continue
		}
		f.fields[e.key] = true
		if e.key == "_id" {
			f.id = t
		}
		conds = append(conds, func(row *Term) *Term {
			a := c.Sel(row.Sort.Ctors[0], fi, row)
			if typeName(ft) == "*time.Time" {
				return c.And(c.IsSome(a), c.Eq(x.ms(c.Val(a)), x.ms(t)))
			}
			if types.IsInterface(ft) {
				x.unsupported(st, "filter on the payload")
			}
			r := c.Eq(a, t)
			if tag.omit && a.Sort == c.Str {
				r = c.And(r, c.Not(c.Eq(a, c.StrV(""))))
			}
			return r
		})
	}
	if h := opts["Hint"]; h != nil {
		if i, ok := h.(*IfaceV); ok && i.Dyn != nil {
			s, ok := i.V.(*Term)
			if !ok || s.Op != OStr {
				x.unsupported(st, "hint")
			}
			f.hint = s.Name
			p, known := mongoPartial[s.Name]
			if !known {
				// the server rejects the command
				conds = append(conds, func(*Term) *Term { return c.False })
			} else if p >= 0 {
				fi, _, _, _ := x.docField("state")
				conds = append(conds, func(row *Term) *Term { return c.Eq(c.Sel(row.Sort.Ctors[0], fi, row), c.IntV(p)) })
			}
		}
	}
	f.conds = len(conds)
	f.match = func(row *Term) *Term {
		r := c.True
		for _, k := range conds {
			r = c.And(r, k(row))
		}
		return r
	}
	if f.id != nil && x.noKeys == 0 {
		x.mongoKey(st, f.id)
	}
	return f
}

// at: the row at a key matches.
func (f *mongoFilter) at(x *Exec, st *State, d, k *Term) *Term {
	v := x.rowAt(st, d, k)
	return x.c.And(x.c.IsSome(v), f.match(x.c.Val(v)))
}

// mongoUpdate interprets update operators.
func (x *Exec) mongoUpdate(st *State, v Value) func(row *Term) *Term {
	c := x.c
	es, ok := x.bsonDoc(st, v)
	if !ok || len(es) == 0 {
		x.unsupported(st, fmt.Sprintf("update %T", v))
	}
	set := map[int]*Term{}
	for _, e := range es {
		fs, ok := x.bsonDoc(st, e.v)
		if !ok || e.key != "$set" && e.key != "$unset" {
			x.unsupported(st, "update operator "+e.key)
		}
		for _, f := range fs {
			fi, ft, _, ok := x.docField(f.key)
			if !ok || f.key == "_id" || set[fi] != nil {
				x.unsupported(st, "update of "+f.key)
			}
			if e.key == "$unset" {
				set[fi] = x.toTerm(st, x.zero(st, ft), ft, false)
				continue
			}
			t, null := x.bsonVal(st, f.v, ft)
			if t == nil && null != c.True {
				x.unsupported(st, "update of "+f.key+" with another kind of value")
			}
			zero := x.toTerm(st, x.zero(st, ft), ft, false)
			switch {
			case null == c.True:
				t = zero
			case typeName(ft) == "*time.Time":
				t = c.Ite(null, zero, c.Some(x.msTrunc(t)))
			case types.IsInterface(ft):
				t = x.storedAny(t)
			case null != c.False:
				// null is decoded as the zero value
				t = c.Ite(null, zero, t)
			}
			set[fi] = t
		}
	}
	return func(row *Term) *Term {
		ct := row.Sort.Ctors[0]
		var as []*Term
		for i := range ct.Fields {
			if t := set[i]; t != nil {
				as = append(as, t)
			} else {
				as = append(as, c.Sel(ct, i, row))
			}
		}
		return c.Mk(ct, as...)
	}
}

// mongoOpts merges the options of a command.
func (x *Exec) mongoOpts(st *State, v Value) map[string]Value {
	r := map[string]Value{}
	es, ok := x.sliceElems(st, v)
	if !ok {
		x.unsupported(st, "options")
	}
	for _, e := range es {
		if i, ok := e.(*IfaceV); ok {
			e = i.V
		}
		o, ok := e.(*OpaqueV)
		if !ok || o.Obj == 0 || st.obj(o.Obj).Kind != "mopt" {
			x.unsupported(st, fmt.Sprintf("options %T", e))
		}
		for k, v := range st.obj(o.Obj).G {
			r[k] = v
		}
	}
	return r
}

func (x *Exec) optBool(st *State, o map[string]Value, k string, def bool) bool {
	v := o[k]
	if v == nil {
		return def
	}
	switch T(v) {
	case x.c.True:
		return true
	case x.c.False:
		return false
	}
	x.unsupported(st, "symbolic option "+k)
	return def
}

func (x *Exec) onlyOpts(st *State, o map[string]Value, ok ...string) {
	for k := range o {
		found := false
		for _, n := range ok {
			found = found || n == k
		}
		if !found {
			x.unsupported(st, "option "+k)
		}
	}
}

// mongoSort gives the sort key of a row, or nil.
func (x *Exec) mongoSort(st *State, v Value) func(row *Term) *Term {
	c := x.c
	if v == nil {
		return nil
	}
	es, ok := x.orderedDoc(st, v)
	if !ok {
		x.unsupported(st, "sort order")
	}
	if len(es) == 0 {
		return nil
	}
	if len(es) != 1 {
		x.unsupported(st, "sort order of several keys")
	}
	fi, ft, _, ok := x.docField(es[0].key)
	i, ok2 := es[0].v.(*IfaceV)
	if !ok || !ok2 || i.Dyn == nil {
		x.unsupported(st, "sort order")
	}
	dir := T(i.V)
	if dir.Op != OInt {
		x.unsupported(st, "sort order")
	}
	neg := dir.I.Sign() < 0
	return func(row *Term) *Term {
		f := c.Sel(row.Sort.Ctors[0], fi, row)
		switch {
		case typeName(ft) == "*time.Time":
			f = c.Ite(c.IsSome(f), x.ms(c.Val(f)), c.IntB(mustBig("-99223372036854775808")))
		case f.Sort == c.Str:
			f = c.SRank(f)
		case f.Sort != c.Int:
			x.unsupported(st, "sort order by "+es[0].key)
		}
		if neg {
			return c.Sub(c.IntV(0), f)
		}
		return f
	}
}

// --- results ---

func (x *Exec) mongoErr(st *State, name string) Value {
	e := x.driverErr(st, name)
	st.assume(x.c.Not(x.c.App("mongo_dup", x.c.Bool, e.T)))
	return e
}

// driverErr is an error of the driver: none of the repository's, and not
// that of a query without results.
func (x *Exec) driverErr(st *State, name string) *SymIface {
	e := x.libErr(st, name).(*SymIface)
	x.noSentinel(st, e)
	return e
}

// noSentinel: see driverErr.
func (x *Exec) noSentinel(st *State, e Value) {
	none := func(v Value) {
		st.assume(x.c.Not(x.errIs(st, e, v)))
	}
	none(x.globalVal(st, mongoPkg, "ErrNoDocuments"))
	if p := x.prog.pkgs[x.repoMod]; p != nil {
		var names []string
		for n, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			none(x.globalVal(st, x.repoMod, n))
		}
	}
}

func (x *Exec) mongoResult(st *State, err Value, row *Term, proj map[string]bool) Value {
	g := map[string]Value{"err": err}
	if row != nil {
		g["row"] = row
	}
	if proj != nil {
		g["proj"] = proj
	}
	return &OpaqueV{Kind: "mres", Obj: st.alloc(&Obj{Kind: "mres", G: g})}
}

// libStruct creates a result structure of the driver.
func (x *Exec) libStruct(st *State, name string, set map[string]Value) Value {
	t := x.globType(mongoPkg, name)
	u := t.Underlying().(*types.Struct)
	sv := &StructV{T: t, F: make([]Value, u.NumFields())}
	for k, v := range set {
		i := fieldIndex(t, k)
		if i < 0 {
			x.unsupported(st, "field "+name+"."+k)
		}
		sv.F[i] = v
	}
	id := st.alloc(&Obj{T: t, Val: sv})
	return &PtrV{Obj: id, Elem: t}
}

func (x *Exec) nilPtr(pkg, name string) Value { return &PtrV{Elem: x.globType(pkg, name)} }

// decodeInto is a row decoded into a structure whose previous value is old.
func (x *Exec) decodeInto(st *State, row *Term, t types.Type, old Value, proj map[string]bool) Value {
	c := x.c
	u, ok := t.Underlying().(*types.Struct)
	if !ok || !x.repoType(t) {
		x.unsupported(st, "decode into "+t.String())
	}
	sv, ok := old.(*StructV)
	if !ok {
		x.unsupported(st, fmt.Sprintf("decode into %T", old))
	}
	r := &StructV{T: t, F: make([]Value, u.NumFields())}
	for i := range r.F {
		r.F[i] = x.field(st, sv, i)
		b := bsonTag(u, i)
		if b.skip || proj != nil && !proj[b.name] {
			continue
		}
		fi, ft, tag, ok := x.docField(b.name)
		if !ok {
			continue
		}
		if !types.Identical(ft, u.Field(i).Type()) {
			x.unsupported(st, "decode "+b.name)
		}
		f := c.Sel(row.Sort.Ctors[0], fi, row)
		if tag.omit {
			prev := x.toTerm(st, r.F[i], ft, false)
			zero := x.toTerm(st, x.zero(st, ft), ft, false)
			if prev != zero {
				f = c.Ite(c.Eq(f, zero), prev, f)
			}
		}
		r.F[i] = x.fromTerm(st, f, ft)
	}
	return r
}

func (x *Exec) destPtr(st *State, v Value) *PtrV {
	i, ok := v.(*IfaceV)
	if !ok || i.Dyn == nil {
		x.unsupported(st, "decode into an unknown value")
	}
	p, ok := i.V.(*PtrV)
	if !ok || p.Obj == 0 {
		x.unsupported(st, fmt.Sprintf("decode into %T", i.V))
	}
	return p
}

func (x *Exec) collArg(st *State, v Value) {
	x.dbArg(st, v, "coll")
}

func (x *Exec) mongoEvent(st *State, kind string, data map[string]Value) {
	x.emit(st, &Event{Kind: kind, Data: data})
}

func init() {
	for _, n := range []string{"Client", "Database", "Collection", "IndexView"} {
		kind := map[string]string{"Client": "mclient", "Database": "mdatabase", "Collection": "coll", "IndexView": "mindexes"}[n]
		opaqueTypes[mongoPkg+"."+n] = func(x *Exec, st *State, elem types.Type, name string) Value {
			id := st.alloc(&Obj{Kind: kind, Name: name, G: map[string]Value{"nil": x.c.Fresh("isnil_"+name, x.c.Bool)}})
			return &OpaqueV{Kind: kind, Obj: id}
		}
	}
	const op = "go.mongodb.org/mongo-driver/mongo/options."
	modelPrefixes = append(modelPrefixes, prefixModel{op, func(x *Exec, st *State, fr *Frame, name string, a []Value, cc *ssa.CallCommon) ([]*Outcome, bool) {
		if len(a) != 0 {
			return nil, false
		}
		id := st.alloc(&Obj{Kind: "mopt", G: map[string]Value{}})
		return ret(st, &OpaqueV{Kind: "mopt", Obj: id}), true
	}}, prefixModel{"(*" + op, func(x *Exec, st *State, fr *Frame, name string, a []Value, cc *ssa.CallCommon) ([]*Outcome, bool) {
		_, m, ok := strings.Cut(name[len(op):], ").")
		if !ok || !strings.HasPrefix(m, "Set") && !strings.HasPrefix(m, "Apply") || len(a) != 2 {
			return nil, false
		}
		o, ok := a[0].(*OpaqueV)
		if !ok {
			return nil, false
		}
		x.nonNil(st, o, "options")
		st.gset(o.Obj, strings.TrimPrefix(m, "Set"), a[1])
		return ret(st, o), true
	}})
	m := libModels
	coll := "(*" + mongoPkg + ".Collection)."

	m[mongoPkg+".IsDuplicateKeyError"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		if sv, n := mongoStruct(a[0]); sv != nil {
			switch n {
			case "BulkWriteError", "WriteError":
				return ret(st, x.dupError(st, sv))
			case "BulkWriteException":
				return ret(st, x.c.App("bulk_dup", x.c.Bool, x.bulkID(sv)))
			}
		}
		switch e := a[0].(type) {
		case *SymIface:
			return ret(st, x.c.And(x.c.Not(x.c.Eq(e.T, x.c.Nil())), x.c.App("mongo_dup", x.c.Bool, e.T)))
		case *IfaceV:
			if e.Dyn == nil {
				return ret(st, x.c.False)
			}
		case *ErrObj:
			return ret(st, x.c.False)
		}
		x.unsupported(st, "IsDuplicateKeyError")
		return nil
	}
	for _, n := range []string{"BulkWriteException", "CommandError", "WriteException", "BulkWriteError", "WriteError"} {
		m["("+mongoPkg+"."+n+").HasErrorCode"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			sv, ok := a[0].(*StructV)
			if !ok {
				x.unsupported(st, "HasErrorCode")
			}
			return ret(st, x.bulkCode(st, sv, T(a[1])))
		}
	}
	// bulk writes
	for _, n := range []string{"InsertOneModel", "ReplaceOneModel", "DeleteOneModel"} {
		opaqueTypes[mongoPkg+"."+n] = func(x *Exec, st *State, elem types.Type, name string) Value {
			id := st.alloc(&Obj{Kind: "anymodel", Name: name, G: map[string]Value{"nil": x.c.Fresh("isnil_"+name, x.c.Bool)}})
			return &OpaqueV{Kind: "anymodel", Obj: id}
		}
		m[mongoPkg+".New"+n] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			id := st.alloc(&Obj{Kind: "wmodel", Name: n, G: map[string]Value{}})
			return ret(st, &OpaqueV{Kind: "wmodel", Obj: id})
		}
		modelPrefixes = append(modelPrefixes, prefixModel{"(*" + mongoPkg + "." + n + ").Set", func(x *Exec, st *State, fr *Frame, name string, a []Value, cc *ssa.CallCommon) ([]*Outcome, bool) {
			_, f, _ := strings.Cut(name, ").Set")
			o, ok := a[0].(*OpaqueV)
			if !ok || o.Obj == 0 || st.obj(o.Obj).Kind != "wmodel" || len(a) != 2 || st.obj(o.Obj).G["used"] != nil {
				return nil, false
			}
			st.gset(o.Obj, f, a[1])
			return ret(st, o), true
		}})
	}
	m[coll+"BulkWrite"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		x.collArg(st, a[0])
		o := x.mongoOpts(st, a[3])
		x.onlyOpts(st, o, "Ordered")
		ms, ok := a[2].(*SliceV)
		if !ok {
			x.unsupported(st, "bulk write")
		}
		st.assume(c.Lt(c.IntV(0), ms.Len)) // the driver rejects an empty batch; see the contract
		if ob := st.obj(ms.Obj); ob.Arr != nil {
			cp := *ms
			cp.Obj = st.alloc(&Obj{T: ob.T, Arr: ob.Arr, ElemT: ob.ElemT, Own: ob.Own, HasRow: ob.HasRow, Name: "models"})
			ms = &cp
		}
		ordered := c.BoolV(x.optBool(st, o, "Ordered", true))
		bt := x.globType(mongoPkg, "BulkWriteException")
		names := []string{"InsertedCount", "ModifiedCount", "DeletedCount", "UpsertedCount", "MatchedCount"}
		ev := func(s *State, d *Term, err Value, exc *StructV, cnt map[string]Value) {
			data := map[string]Value{"pre": d, "models": ms, "ordered": ordered, "ok": x.isNil(s, err), "err": err, "exc": c.BoolV(exc != nil)}
			for _, n := range names {
				data[strings.ToLower(n[:len(n)-5])] = c.IntV(0)
				if cnt != nil {
					data[strings.ToLower(n[:len(n)-5])] = cnt[n]
				}
			}
			e := exc
			if e == nil {
				e = x.zero(s, bt).(*StructV)
			}
			data["wce"] = x.field(s, e, fieldIndex(bt, "WriteConcernError"))
			data["errs"] = x.field(s, e, fieldIndex(bt, "WriteErrors"))
			x.mongoEvent(s, "BulkWrite", data)
		}
		counts := func(s *State) map[string]Value {
			r := map[string]Value{}
			for _, n := range names {
				t := c.Fresh("bulk"+n, c.Int)
				s.assume(c.And(c.Le(c.IntV(0), t), c.Le(t, ms.Len)))
				r[n] = t
			}
			return r
		}
		// rejected as a whole, or the connection is lost
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "bulk")
		s1.assume(c.Not(c.App("istype_"+sanitize(mongoPkg+".BulkWriteException"), c.Bool, T(e1.(*SymIface).T))))
		x.mongoCommit(s1, d1, c.Fresh("bulkpartly", x.dbSort()))
		ev(s1, d1, e1, nil, nil)
		outs := ret(s1, x.nilPtr(mongoPkg, "BulkWriteResult"), e1)
		// some of the writes failed
		s2 := st.clone()
		d2 := x.mongoStep(s2)
		x.mongoFailed(s2)
		x.mongoCommit(s2, d2, c.Fresh("bulkpartly", x.dbSort()))
		exc, ok := x.freshVal(s2, bt, "bulk").(*StructV)
		if !ok {
			x.unsupported(st, "bulk write exception")
		}
		for i := range exc.F {
			x.field(s2, exc, i)
		}
		e2 := &IfaceV{Dyn: bt, V: exc}
		x.noSentinel(s2, e2)
		cn := counts(s2)
		ev(s2, d2, e2, exc, cn)
		outs = append(outs, ret(s2, x.libStruct(s2, "BulkWriteResult", cn), e2)...)
		// all of the writes succeeded
		d := x.mongoStep(st)
		x.mongoCommit(st, d, c.Fresh("bulk", x.dbSort()))
		cn = counts(st)
		ev(st, d, &IfaceV{}, nil, cn)
		return append(outs, ret(st, x.libStruct(st, "BulkWriteResult", cn), &IfaceV{})...)
	}
	taskOf := func(x *Exec, env *Env, e ast.Expr) *Term {
		v := x.derefSpec(env, x.eval(env, e))
		return x.toTerm(env.st, v, x.taskType(), false)
	}
	// winsert(t), wreplace(id, t), wdelete(id): what a write of a batch does
	specFuncs["winsert"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.App("wm_insert", x.c.Any, taskOf(x, env, n.Args[0]))
	}
	specFuncs["wreplace"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.App("wm_replace", x.c.Any, x.evalTerm(env, n.Args[0]), taskOf(x, env, n.Args[1]))
	}
	specFuncs["wdelete"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.App("wm_delete", x.c.Any, x.evalTerm(env, n.Args[0]))
	}
	// isdup(e): a write failed because the document exists
	specFuncs["isdup"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		sv, ok := x.eval(env, n.Args[0]).(*StructV)
		if !ok {
			x.specErr("isdup")
		}
		return x.dupError(env.st, sv)
	}
	m["("+mongoPkg+".ServerError).HasErrorCode"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		e, ok := a[0].(*SymIface)
		if !ok {
			x.unsupported(st, "HasErrorCode")
		}
		return ret(st, x.c.App("mongo_code", x.c.Bool, e.T, T(a[1])))
	}

	m[coll+"FindOneAndUpdate"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		x.collArg(st, a[0])
		o := x.mongoOpts(st, a[4])
		x.onlyOpts(st, o, "Upsert", "Sort", "ReturnDocument", "Hint")
		if x.optBool(st, o, "Upsert", false) {
			x.unsupported(st, "findAndModify with upsert")
		}
		f := x.mongoFilter(st, a[2], o)
		u := x.mongoUpdate(st, a[3])
		key := x.mongoSort(st, o["Sort"])
		after := false
		if r := o["ReturnDocument"]; r != nil {
			after = T(r) == c.IntV(1)
		}
		ev := func(s *State, d *Term, ok bool, err Value) {
			x.mongoEvent(s, "FindOneAndUpdate", map[string]Value{"pre": d, "ok": c.BoolV(ok), "err": err, "pinned": c.BoolV(f.fields["_id"] && f.fields["topic"])})
		}
		match := func(s *State) (d, row, k *Term) {
			d = x.mongoStep(s)
			k = f.id
			if k == nil {
				k = c.Fresh("mkey", c.Str)
				x.mongoKey(s, k)
			}
			s.assume(f.at(x, s, d, k))
			row = c.Val(x.rowAt(s, d, k))
			if key != nil && f.id == nil {
				prev := x.arrDef[d]
				x.arrDef[d] = func(s2 *State, q *Term) {
					if prev != nil {
						prev(s2, q)
					}
					v := c.Select(d, q)
					s2.assume(c.Imp(c.And(c.IsSome(v), f.match(c.Val(v))), c.Le(key(row), key(c.Val(v)))))
				}
				x.mongoRedo(s, d)
			}
			x.mongoCommit(s, d, c.Store(d, k, c.Some(u(row))))
			return d, row, k
		}
		var outs []*Outcome
		// rejected
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "findAndModify")
		ev(s1, d1, false, e1)
		outs = append(outs, ret(s1, x.mongoResult(s1, e1, nil, nil))...)
		// performed, but the answer is lost
		s2 := st.clone()
		d2, _, _ := match(s2)
		x.mongoFailed(s2)
		e2 := x.mongoErr(s2, "findAndModifyLost")
		s2.assume(c.Not(x.unsupportedOp(e2)))
		if x.feasible(s2) {
			ev(s2, d2, false, e2)
			outs = append(outs, ret(s2, x.mongoResult(s2, e2, nil, nil))...)
		}
		// no document matches
		s3 := st.clone()
		d3 := x.mongoStep(s3)
		x.noMatch(s3, d3, f)
		if x.feasible(s3) {
			e3 := x.globalVal(s3, mongoPkg, "ErrNoDocuments")
			ev(s3, d3, false, e3)
			outs = append(outs, ret(s3, x.mongoResult(s3, e3, nil, nil))...)
		}
		// one document
		s4 := st.clone()
		d4, row, _ := match(s4)
		if x.feasible(s4) {
			doc := row
			if after {
				doc = u(row)
			}
			ev(s4, d4, true, &IfaceV{})
			outs = append(outs, ret(s4, x.mongoResult(s4, &IfaceV{}, doc, nil))...)
		}
		return outs
	}
	m[coll+"FindOne"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		x.collArg(st, a[0])
		o := x.mongoOpts(st, a[3])
		x.onlyOpts(st, o, "AllowPartialResults", "Sort", "Projection", "Hint")
		f := x.mongoFilter(st, a[2], o)
		key := x.mongoSort(st, o["Sort"])
		var proj map[string]bool
		if p := o["Projection"]; p != nil {
			es, ok := x.bsonDoc(st, p)
			if !ok {
				x.unsupported(st, "projection")
			}
			proj = map[string]bool{"_id": true}
			for _, e := range es {
				i, ok := e.v.(*IfaceV)
				if !ok || i.Dyn == nil || T(i.V) != c.IntV(1) && T(i.V) != c.True {
					x.unsupported(st, "projection")
				}
				proj[e.key] = true
			}
		}
		ev := func(s *State, d *Term, ok bool, err Value) {
			x.mongoEvent(s, "FindOne", map[string]Value{"pre": d, "ok": c.BoolV(ok), "err": err})
		}
		var outs []*Outcome
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "find")
		ev(s1, d1, false, e1)
		outs = append(outs, ret(s1, x.mongoResult(s1, e1, nil, nil))...)
		s3 := st.clone()
		d3 := x.mongoStep(s3)
		x.noMatch(s3, d3, f)
		if x.feasible(s3) {
			e3 := x.globalVal(s3, mongoPkg, "ErrNoDocuments")
			ev(s3, d3, false, e3)
			outs = append(outs, ret(s3, x.mongoResult(s3, e3, nil, nil))...)
		}
		s4 := st.clone()
		d4 := x.mongoStep(s4)
		k := f.id
		if k == nil {
			k = c.Fresh("mkey", c.Str)
			x.mongoKey(s4, k)
		}
		s4.assume(f.at(x, s4, d4, k))
		row := c.Val(x.rowAt(s4, d4, k))
		if key != nil && f.id == nil {
			x.arrDef[d4] = func(s2 *State, q *Term) {
				v := c.Select(d4, q)
				s2.assume(c.Imp(c.And(c.IsSome(v), f.match(c.Val(v))), c.Le(key(row), key(c.Val(v)))))
			}
			x.mongoRedo(s4, d4)
		}
		if x.feasible(s4) {
			ev(s4, d4, true, &IfaceV{})
			outs = append(outs, ret(s4, x.mongoResult(s4, &IfaceV{}, row, proj))...)
		}
		return outs
	}
	m["(*"+mongoPkg+".SingleResult).Decode"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		id := x.dbArg(st, a[0], "mres")
		g := st.obj(id).G
		if g["row"] == nil {
			return ret(st, g["err"])
		}
		p := x.destPtr(st, a[1])
		proj, _ := g["proj"].(map[string]bool)
		x.storePtr(st, p, x.decodeInto(st, T(g["row"]), p.Elem, x.loadPtr(st, p, p.Elem), proj))
		return ret(st, &IfaceV{})
	}
	m["(*"+mongoPkg+".SingleResult).Err"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		id := x.dbArg(st, a[0], "mres")
		return ret(st, st.obj(id).G["err"])
	}

	// commands on several documents
	changed := func(x *Exec, st *State, d, w *Term) *Term {
		c := x.c
		return x.tableOf(st, "changed", func(s *State, k *Term) *Term {
			v, n := x.rowAt(s, d, k), x.rowAt(s, w, k)
			return c.Ite(c.Eq(v, n), c.None(x.taskSort()), v)
		})
	}
	matched := func(x *Exec, st *State, d *Term, f *mongoFilter) *Term {
		c := x.c
		return x.tableOf(st, "matched", func(s *State, k *Term) *Term {
			return c.Ite(f.at(x, s, d, k), x.rowAt(s, d, k), c.None(x.taskSort()))
		})
	}
	// many runs a command that changes all matching documents.
	many := func(x *Exec, st *State, name, rt string, f *mongoFilter, change func(row *Term) *Term, result func(s *State, d, w *Term) Value) []*Outcome {
		c := x.c
		ev := func(s *State, d *Term, ok bool, err Value) {
			x.mongoEvent(s, name, map[string]Value{"pre": d, "ok": c.BoolV(ok), "err": err})
		}
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, name)
		x.nlost++
		part := fmt.Sprintf("applied%d", x.nlost)
		w1 := x.tableOf(s1, "partly", func(s *State, k *Term) *Term {
			v := x.rowAt(s, d1, k)
			return c.Ite(c.And(f.at(x, s, d1, k), c.App(part, c.Bool, k)), change(c.Val(v)), v)
		})
		x.mongoCommit(s1, d1, w1)
		ev(s1, d1, false, e1)
		outs := ret(s1, x.nilPtr(mongoPkg, rt), e1)
		d := x.mongoStep(st)
		w := x.tableOf(st, "updated", func(s *State, k *Term) *Term {
			v := x.rowAt(s, d, k)
			return c.Ite(f.at(x, s, d, k), change(c.Val(v)), v)
		})
		x.mongoCommit(st, d, w)
		ev(st, d, true, &IfaceV{})
		r := result(st, d, w)
		return append(outs, ret(st, r, &IfaceV{})...)
	}
	// one runs a command that changes one matching document.
	one := func(x *Exec, st *State, name, rt string, f *mongoFilter, change func(row *Term) *Term, result func(s *State, n, m *Term) Value) []*Outcome {
		c := x.c
		ev := func(s *State, d *Term, ok bool, err Value) {
			x.mongoEvent(s, name, map[string]Value{"pre": d, "ok": c.BoolV(ok), "err": err})
		}
		pick := func(s *State) (d, k, w *Term) {
			d = x.mongoStep(s)
			k = f.id
			if k == nil {
				k = c.Fresh("mkey", c.Str)
				x.mongoKey(s, k)
			}
			s.assume(f.at(x, s, d, k))
			w = c.Store(d, k, change(c.Val(x.rowAt(s, d, k))))
			x.mongoCommit(s, d, w)
			return
		}
		var outs []*Outcome
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, name)
		ev(s1, d1, false, e1)
		outs = append(outs, ret(s1, x.nilPtr(mongoPkg, rt), e1)...)
		s2 := st.clone()
		d2, _, _ := pick(s2)
		x.mongoFailed(s2)
		e2 := x.mongoErr(s2, name+"Lost")
		s2.assume(c.Not(x.unsupportedOp(e2)))
		if x.feasible(s2) {
			ev(s2, d2, false, e2)
			outs = append(outs, ret(s2, x.nilPtr(mongoPkg, rt), e2)...)
		}
		s3 := st.clone()
		d3 := x.mongoStep(s3)
		x.noMatch(s3, d3, f)
		if x.feasible(s3) {
			ev(s3, d3, true, &IfaceV{})
			outs = append(outs, ret(s3, result(s3, x.emptyTable(), x.emptyTable()), &IfaceV{})...)
		}
		d, k, w := pick(st)
		if x.feasible(st) {
			ev(st, d, true, &IfaceV{})
			v := x.rowAt(st, d, k)
			ch := c.Ite(c.Eq(v, c.Select(w, k)), c.None(x.taskSort()), v)
			outs = append(outs, ret(st, result(st, c.Store(x.emptyTable(), k, v), c.Store(x.emptyTable(), k, ch)), &IfaceV{})...)
		}
		return outs
	}
	update := func(isMany bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			x.collArg(st, a[0])
			o := x.mongoOpts(st, a[4])
			x.onlyOpts(st, o, "Upsert", "Hint")
			if x.optBool(st, o, "Upsert", false) {
				x.unsupported(st, "update with upsert")
			}
			f := x.mongoFilter(st, a[2], o)
			u := x.mongoUpdate(st, a[3])
			ch := func(row *Term) *Term { return x.c.Some(u(row)) }
			if isMany {
				return many(x, st, "UpdateMany", "UpdateResult", f, ch, func(s *State, d, w *Term) Value {
					return x.libStruct(s, "UpdateResult", map[string]Value{"MatchedCount": x.card(s, matched(x, s, d, f)), "ModifiedCount": x.card(s, changed(x, s, d, w))})
				})
			}
			return one(x, st, "UpdateOne", "UpdateResult", f, ch, func(s *State, n, m *Term) Value {
				return x.libStruct(s, "UpdateResult", map[string]Value{"MatchedCount": x.card(s, n), "ModifiedCount": x.card(s, m)})
			})
		}
	}
	m[coll+"UpdateMany"] = update(true)
	m[coll+"UpdateOne"] = update(false)
	remove := func(isMany bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			x.collArg(st, a[0])
			o := x.mongoOpts(st, a[3])
			x.onlyOpts(st, o, "Hint")
			f := x.mongoFilter(st, a[2], o)
			ch := func(row *Term) *Term { return x.c.None(x.taskSort()) }
			if isMany {
				return many(x, st, "DeleteMany", "DeleteResult", f, ch, func(s *State, d, w *Term) Value {
					return x.libStruct(s, "DeleteResult", map[string]Value{"DeletedCount": x.card(s, matched(x, s, d, f))})
				})
			}
			return one(x, st, "DeleteOne", "DeleteResult", f, ch, func(s *State, n, _ *Term) Value {
				return x.libStruct(s, "DeleteResult", map[string]Value{"DeletedCount": x.card(s, n)})
			})
		}
	}
	m[coll+"DeleteMany"] = remove(true)
	m[coll+"DeleteOne"] = remove(false)
	m[coll+"CountDocuments"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.collArg(st, a[0])
		o := x.mongoOpts(st, a[3])
		x.onlyOpts(st, o, "Hint")
		f := x.mongoFilter(st, a[2], o)
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "count")
		x.mongoEvent(s1, "CountDocuments", map[string]Value{"pre": d1, "ok": x.c.False, "err": e1})
		d := x.mongoStep(st)
		x.mongoEvent(st, "CountDocuments", map[string]Value{"pre": d, "ok": x.c.True, "err": &IfaceV{}})
		n := x.card(st, matched(x, st, d, f))
		return two(st, s1, []Value{n, &IfaceV{}}, []Value{x.c.IntV(0), e1})
	}
	m[coll+"InsertOne"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		x.collArg(st, a[0])
		x.onlyOpts(st, x.mongoOpts(st, a[3]))
		row, _ := x.taskArg(st, a[2], false)
		row = x.storedTask(st, row)
		id := c.Sel(row.Sort.Ctors[0], mustField(x, "_id"), row)
		x.mongoKey(st, id)
		ev := func(s *State, d *Term, ok bool, err Value) {
			x.mongoEvent(s, "InsertOne", map[string]Value{"pre": d, "ok": c.BoolV(ok), "err": err})
		}
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "insert")
		ev(s1, d1, false, e1)
		outs := ret(s1, x.nilPtr(mongoPkg, "InsertOneResult"), e1)
		s2 := st.clone()
		d2 := x.mongoStep(s2)
		s2.assume(c.IsNone(x.rowAt(s2, d2, id)))
		x.mongoCommit(s2, d2, c.Store(d2, id, c.Some(row)))
		x.mongoFailed(s2)
		e2 := x.mongoErr(s2, "insertLost")
		ev(s2, d2, false, e2)
		outs = append(outs, ret(s2, x.nilPtr(mongoPkg, "InsertOneResult"), e2)...)
		s3 := st.clone()
		d3 := x.mongoStep(s3)
		s3.assume(c.IsSome(x.rowAt(s3, d3, id)))
		e3 := x.driverErr(s3, "duplicate")
		s3.assume(c.App("mongo_dup", c.Bool, e3.T))
		ev(s3, d3, false, e3)
		outs = append(outs, ret(s3, x.nilPtr(mongoPkg, "InsertOneResult"), e3)...)
		d := x.mongoStep(st)
		st.assume(c.IsNone(x.rowAt(st, d, id)))
		x.mongoCommit(st, d, c.Store(d, id, c.Some(row)))
		ev(st, d, true, &IfaceV{})
		return append(outs, ret(st, x.libStruct(st, "InsertOneResult", map[string]Value{}), &IfaceV{})...)
	}
	m[coll+"ReplaceOne"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		x.collArg(st, a[0])
		o := x.mongoOpts(st, a[4])
		x.onlyOpts(st, o, "Upsert", "Hint")
		f := x.mongoFilter(st, a[2], o)
		row, _ := x.taskArg(st, a[3], false)
		row = x.storedTask(st, row)
		id := c.Sel(row.Sort.Ctors[0], mustField(x, "_id"), row)
		if f.id != id || len(f.fields) != 1 {
			x.unsupported(st, "replacement addressed by other than its ID")
		}
		up := x.optBool(st, o, "Upsert", false)
		ev := func(s *State, d *Term, ok bool, err Value) {
			x.mongoEvent(s, "ReplaceOne", map[string]Value{"pre": d, "ok": c.BoolV(ok), "err": err})
		}
		zero := map[string]Value{"MatchedCount": c.IntV(0), "ModifiedCount": c.IntV(0), "UpsertedCount": c.IntV(0)}
		res := func(s *State, set map[string]Value) Value {
			r := map[string]Value{}
			for k, v := range zero {
				r[k] = v
			}
			for k, v := range set {
				r[k] = v
			}
			return x.libStruct(s, "UpdateResult", r)
		}
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "replace")
		ev(s1, d1, false, e1)
		outs := ret(s1, x.nilPtr(mongoPkg, "UpdateResult"), e1)
		s2 := st.clone()
		d2 := x.mongoStep(s2)
		if !up {
			s2.assume(c.IsSome(x.rowAt(s2, d2, id)))
		}
		x.mongoCommit(s2, d2, c.Store(d2, id, c.Some(row)))
		x.mongoFailed(s2)
		e2 := x.mongoErr(s2, "replaceLost")
		s2.assume(c.Not(x.unsupportedOp(e2)))
		ev(s2, d2, false, e2)
		outs = append(outs, ret(s2, x.nilPtr(mongoPkg, "UpdateResult"), e2)...)
		s3 := st.clone()
		d3 := x.mongoStep(s3)
		s3.assume(c.IsNone(x.rowAt(s3, d3, id)))
		if up {
			x.mongoCommit(s3, d3, c.Store(d3, id, c.Some(row)))
			ev(s3, d3, true, &IfaceV{})
			outs = append(outs, ret(s3, res(s3, map[string]Value{"UpsertedCount": c.IntV(1)}), &IfaceV{})...)
		} else {
			ev(s3, d3, true, &IfaceV{})
			outs = append(outs, ret(s3, res(s3, nil), &IfaceV{})...)
		}
		d := x.mongoStep(st)
		v := x.rowAt(st, d, id)
		st.assume(c.IsSome(v))
		x.mongoCommit(st, d, c.Store(d, id, c.Some(row)))
		ev(st, d, true, &IfaceV{})
		// a replacement by an equal document is not counted as a modification
		mod := c.Ite(c.Eq(c.Val(v), row), c.IntV(0), c.IntV(1))
		return append(outs, ret(st, res(st, map[string]Value{"MatchedCount": c.IntV(1), "ModifiedCount": mod}), &IfaceV{})...)
	}

	// cursors
	m[coll+"Find"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		x.collArg(st, a[0])
		o := x.mongoOpts(st, a[3])
		x.onlyOpts(st, o, "Limit", "Skip", "Hint", "AllowPartialResults")
		f := x.mongoFilter(st, a[2], o)
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "find")
		x.mongoEvent(s1, "Find", map[string]Value{"pre": d1, "ok": c.False, "err": e1, "enum": x.noSeq(d1)})
		outs := ret(s1, &OpaqueV{Kind: "mcur"}, e1)
		d := x.mongoStep(st)
		x.nlost++
		seq := c.App(fmt.Sprintf("enumM%d", x.nlost), x.seqSortT(), d)
		x.seqDefs[seq.Name] = &seqInfo{memb: f.match}
		st.assume(c.Le(c.IntV(0), x.seqN(seq)))
		x.useSeq(st, seq)
		lo, hi := c.IntV(0), x.seqN(seq)
		if s := o["Skip"]; s != nil {
			lo = T(s)
			st.assume(c.Le(c.IntV(0), lo)) // the server rejects negative values
		}
		if l := o["Limit"]; l != nil {
			lim := T(l)
			abs := c.Ite(c.Lt(lim, c.IntV(0)), c.Sub(c.IntV(0), lim), lim)
			hi = c.Ite(c.Eq(lim, c.IntV(0)), hi, c.Min(hi, c.Add(lo, abs)))
		}
		cur := st.alloc(&Obj{Kind: "mcur", G: map[string]Value{"seq": seq, "lo": lo, "hi": hi}})
		x.mongoEvent(st, "Find", map[string]Value{"pre": d, "ok": c.True, "err": &IfaceV{}, "enum": seq})
		return append(outs, ret(st, &OpaqueV{Kind: "mcur", Obj: cur}, &IfaceV{})...)
	}
	m[coll+"Aggregate"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		x.collArg(st, a[0])
		o := x.mongoOpts(st, a[3])
		x.onlyOpts(st, o, "Hint")
		x.mongoFilter(st, &IfaceV{}, o)
		s1 := st.clone()
		d1 := x.mongoStep(s1)
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "aggregate")
		x.mongoEvent(s1, "Aggregate", map[string]Value{"pre": d1, "ok": c.False, "err": e1, "enum": x.noSeq(d1)})
		outs := ret(s1, &OpaqueV{Kind: "mcur"}, e1)
		d := x.mongoStep(st)
		pv := a[2]
		if i, ok := pv.(*IfaceV); ok && i.Dyn != nil {
			pv = i.V
		}
		stages, ok := x.sliceElems(st, pv)
		if !ok {
			x.unsupported(st, "pipeline")
		}
		var seq, lo, hi *Term
		for _, s := range stages {
			es, ok := x.bsonDoc(st, s)
			if !ok || len(es) != 1 {
				x.unsupported(st, "pipeline stage")
			}
			num := func() *Term {
				i, ok := es[0].v.(*IfaceV)
				if !ok || i.Dyn == nil {
					x.unsupported(st, "pipeline stage")
				}
				return T(i.V)
			}
			switch es[0].key {
			case "$group":
				g, ok := x.bsonDoc(st, es[0].v)
				if !ok || len(g) != 1 || g[0].key != "_id" || seq != nil {
					x.unsupported(st, "grouping")
				}
				i, ok := g[0].v.(*IfaceV)
				if !ok || i.Dyn == nil || T(i.V).Op != OStr || !strings.HasPrefix(T(i.V).Name, "$") {
					x.unsupported(st, "grouping")
				}
				_, ft, _, ok := x.docField(T(i.V).Name[1:])
				if !ok || x.scalarSort(ft) != c.Str {
					x.unsupported(st, "grouping by "+T(i.V).Name)
				}
				seq = x.groupsOf(st, d, T(i.V).Name[1:])
				lo, hi = c.IntV(0), x.seqN(seq)
			case "$skip":
				if seq == nil {
					x.unsupported(st, "skipped documents")
				}
				lo = c.Add(lo, num())
				st.assume(c.Le(c.IntV(0), num()))
			case "$limit":
				if seq == nil {
					x.unsupported(st, "limited documents")
				}
				st.assume(c.Lt(c.IntV(0), num())) // the server rejects others
				hi = c.Min(hi, c.Add(lo, num()))
			default:
				x.unsupported(st, "pipeline stage "+es[0].key)
			}
		}
		if seq == nil {
			x.unsupported(st, "pipeline without grouping")
		}
		if !x.feasible(st) {
			return outs
		}
		cur := st.alloc(&Obj{Kind: "mcur", G: map[string]Value{"seq": seq, "lo": lo, "hi": hi, "groups": c.True}})
		x.mongoEvent(st, "Aggregate", map[string]Value{"pre": d, "ok": c.True, "err": &IfaceV{}, "enum": seq})
		return append(outs, ret(st, &OpaqueV{Kind: "mcur", Obj: cur}, &IfaceV{})...)
	}
	m["(*"+mongoPkg+".Cursor).All"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := x.dbArg(st, a[0], "mcur")
		g := st.obj(id).G
		p := x.destPtr(st, a[2])
		s1 := st.clone()
		x.mongoFailed(s1)
		e1 := x.mongoErr(s1, "cursor")
		sl, ok := p.Elem.Underlying().(*types.Slice)
		if !ok {
			x.unsupported(st, "result of a query")
		}
		old, ok := x.loadPtr(st, p, p.Elem).(*SliceV)
		if !ok {
			x.unsupported(st, "result of a query")
		}
		pt, ok := sl.Elem().Underlying().(*types.Pointer)
		es := x.sortOf(sl.Elem())
		if !ok || es == nil {
			x.unsupported(st, "result of a query")
		}
		seq, lo, hi := T(g["seq"]), T(g["lo"]), T(g["hi"])
		n := c.Max(c.IntV(0), c.Sub(hi, lo))
		arr := c.Fresh("results", c.ArrSort(c.Int, es))
		i := c.Bound("i", c.Int)
		s := st.clone()
		k := x.seqKey(seq, c.Add(lo, i))
		var val Value
		zero := x.zero(st, pt.Elem())
		if g["groups"] != nil {
			zv, ok := zero.(*StructV)
			if !ok || !x.repoType(pt.Elem()) {
				x.unsupported(st, "result of a query")
			}
			u := pt.Elem().Underlying().(*types.Struct)
			r := &StructV{T: zv.T, F: append([]Value{}, zv.F...)}
			for j := range r.F {
				if b := bsonTag(u, j); b.name == "_id" && !b.skip {
					r.F[j] = k
				}
			}
			val = r
		} else {
			d := seq.Args[0]
			val = x.decodeInto(s, c.Val(c.Select(d, k)), pt.Elem(), zero, nil)
		}
		el := c.Some(x.toTerm(s, val, pt.Elem(), false))
		at := c.Select(arr, i)
		st.assume(c.Forall([]*Term{i}, []*Term{at}, c.Imp(c.And(c.Le(c.IntV(0), i), c.Lt(i, n)), c.Eq(at, el))))
		so := st.alloc(&Obj{T: p.Elem, Arr: arr, ElemT: sl.Elem(), Own: true, Name: "results"})
		nv := &SliceV{Obj: so, Off: c.IntV(0), Len: n, Cap: n, T: old.T}
		if old.Obj == 0 || old.Nil != nil {
			// a nil slice stays nil if there are no results
			nv.Nil = c.Eq(n, c.IntV(0))
		}
		x.storePtr(st, p, nv)
		return append(ret(s1, e1), ret(st, &IfaceV{})...)
	}

	// connections
	simple := func(kind, name string) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			x.dbArg(st, a[0], kind)
			s1 := st.clone()
			e := x.mongoErr(s1, name)
			x.mongoEvent(s1, name, map[string]Value{"ok": x.c.False, "err": e})
			x.mongoEvent(st, name, map[string]Value{"ok": x.c.True, "err": &IfaceV{}})
			return append(ret(st, &IfaceV{}), ret(s1, e)...)
		}
	}
	m["(*"+mongoPkg+".Client).Connect"] = simple("mclient", "Connect")
	m["(*"+mongoPkg+".Client).Disconnect"] = simple("mclient", "Disconnect")
	m["(*"+mongoPkg+".Client).Ping"] = simple("mclient", "Ping")
	m[coll+"Drop"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.collArg(st, a[0])
		s1 := st.clone()
		x.mongoStep(s1)
		x.mongoFailed(s1)
		e := x.mongoErr(s1, "Drop")
		x.mongoEvent(s1, "Drop", map[string]Value{"ok": x.c.False, "err": e})
		d := x.mongoStep(st)
		x.mongoCommit(st, d, x.emptyTable())
		x.mongoEvent(st, "Drop", map[string]Value{"ok": x.c.True, "err": &IfaceV{}})
		return append(ret(st, &IfaceV{}), ret(s1, e)...)
	}
	m[coll+"Name"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		id := x.dbArg(st, a[0], "coll")
		return ret(st, x.c.Var(fmt.Sprintf("collname%d", id), x.c.Str))
	}

	// set-up
	opq := func(kind string, set func(x *Exec, st *State, a []Value) map[string]Value) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			g := map[string]Value{}
			if set != nil {
				g = set(x, st, a)
			}
			return ret(st, &OpaqueV{Kind: kind, Obj: st.alloc(&Obj{Kind: kind, G: g})})
		}
	}
	for _, p := range []string{"go.mongodb.org/mongo-driver/bson.", "go.mongodb.org/mongo-driver/bson/bsoncodec."} {
		m[p+"NewRegistryBuilder"] = opq("mregistry", nil)
		m[p+"NewRegistry"] = opq("mregistry", nil)
	}
	for _, n := range []string{"Registry", "RegistryBuilder"} {
		opaqueTypes["go.mongodb.org/mongo-driver/bson/bsoncodec."+n] = func(x *Exec, st *State, elem types.Type, name string) Value {
			return &OpaqueV{Kind: "mregistry", Obj: st.alloc(&Obj{Kind: "mregistry", Name: name, G: map[string]Value{}})}
		}
		modelPrefixes = append(modelPrefixes, prefixModel{"(*go.mongodb.org/mongo-driver/bson/bsoncodec." + n + ").", func(x *Exec, st *State, fr *Frame, name string, a []Value, cc *ssa.CallCommon) ([]*Outcome, bool) {
			return ret(st, a[0]), true
		}})
	}
	m["go.mongodb.org/mongo-driver/mongo/readpref.Primary"] = opq("mreadpref", nil)
	opaqueTypes["go.mongodb.org/mongo-driver/mongo/readpref.ReadPref"] = func(x *Exec, st *State, elem types.Type, name string) Value {
		return &OpaqueV{Kind: "mreadpref", Obj: st.alloc(&Obj{Kind: "mreadpref", Name: name, G: map[string]Value{}})}
	}
	m[mongoPkg+".NewClient"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		o := x.mongoOpts(st, a[0])
		uri := o["ApplyURI"]
		if uri == nil {
			x.unsupported(st, "client without a URI")
		}
		s1 := st.clone()
		e := x.mongoErr(s1, "NewClient")
		x.mongoEvent(s1, "NewClient", map[string]Value{"ok": x.c.False, "err": e, "uri": uri})
		x.mongoEvent(st, "NewClient", map[string]Value{"ok": x.c.True, "err": &IfaceV{}, "uri": uri})
		id := st.alloc(&Obj{Kind: "mclient", G: map[string]Value{}})
		return append(ret(s1, &OpaqueV{Kind: "mclient"}, e), ret(st, &OpaqueV{Kind: "mclient", Obj: id}, &IfaceV{})...)
	}
	m["(*"+mongoPkg+".Client).Database"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.dbArg(st, a[0], "mclient")
		x.mongoOpts(st, a[2])
		x.mongoEvent(st, "Database", map[string]Value{"name": a[1]})
		id := st.alloc(&Obj{Kind: "mdatabase", G: map[string]Value{}})
		return ret(st, &OpaqueV{Kind: "mdatabase", Obj: id})
	}
	m["(*"+mongoPkg+".Database).Collection"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.dbArg(st, a[0], "mdatabase")
		x.mongoOpts(st, a[2])
		x.mongoEvent(st, "Collection", map[string]Value{"name": a[1]})
		id := st.alloc(&Obj{Kind: "coll", G: map[string]Value{}})
		return ret(st, &OpaqueV{Kind: "coll", Obj: id})
	}

	// indexes
	m[coll+"Indexes"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		x.collArg(st, a[0])
		id := st.alloc(&Obj{Kind: "mindexes", G: map[string]Value{}})
		return ret(st, &OpaqueV{Kind: "mindexes", Obj: id})
	}
	pattern := func(x *Exec, st *State, v Value) *Term {
		es, ok := x.orderedDoc(st, v)
		if !ok {
			x.unsupported(st, "index keys")
		}
		var r []string
		for _, e := range es {
			i, ok := e.v.(*IfaceV)
			if !ok || i.Dyn == nil {
				x.unsupported(st, "index keys")
			}
			switch t := T(i.V); t.Op {
			case OStr:
				r = append(r, e.key+":"+t.Name)
			case OInt:
				r = append(r, e.key+":"+t.I.String())
			default:
				x.unsupported(st, "index keys")
			}
		}
		return x.c.StrV(strings.Join(r, ","))
	}
	index := func(x *Exec, st *State, v Value) map[string]Value {
		c := x.c
		sv, ok := v.(*StructV)
		if !ok {
			x.unsupported(st, "index model")
		}
		d := map[string]Value{"keys": pattern(x, st, x.field(st, sv, fieldIndex(sv.T, "Keys"))), "name": c.StrV(""), "partial": c.IntV(-1), "expires": c.False, "expire": c.IntV(0)}
		o, ok := x.field(st, sv, fieldIndex(sv.T, "Options")).(*OpaqueV)
		if !ok {
			x.unsupported(st, "index options")
		}
		if o.Obj == 0 {
			return d
		}
		g := st.obj(o.Obj).G
		x.onlyOpts(st, g, "Name", "PartialFilterExpression", "ExpireAfterSeconds")
		if g["Name"] != nil {
			d["name"] = g["Name"]
		}
		if e := g["ExpireAfterSeconds"]; e != nil {
			d["expires"], d["expire"] = c.True, e
		}
		if p := g["PartialFilterExpression"]; p != nil {
			es, ok := x.bsonDoc(st, p)
			if !ok || len(es) != 1 || es[0].key != "state" {
				x.unsupported(st, "partial index")
			}
			_, ft, _, _ := x.docField("state")
			t, null := x.bsonVal(st, es[0].v, ft)
			if t == nil || null != c.False {
				x.unsupported(st, "partial index")
			}
			d["partial"] = t
		}
		return d
	}
	create := func(isMany bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
			x.dbArg(st, a[0], "mindexes")
			models := []Value{a[2]}
			var t types.Type = types.Typ[types.String]
			if isMany {
				var ok bool
				if models, ok = x.sliceElems(st, a[2]); !ok {
					x.unsupported(st, "indexes of unknown number")
				}
				t = types.NewSlice(t)
			}
			s1 := st.clone()
			e := x.mongoErr(s1, "createIndexes")
			for _, v := range models {
				d := index(x, st, v)
				d["ok"], d["err"] = x.c.True, &IfaceV{}
				x.mongoEvent(st, "Index", d)
				d = index(x, s1, v)
				d["ok"], d["err"] = x.c.False, e
				x.mongoEvent(s1, "Index", d)
			}
			r := x.freshVal(st, t, "indexes")
			return append(ret(s1, x.zero(s1, t), e), ret(st, r, &IfaceV{})...)
		}
	}
	m["("+mongoPkg+".IndexView).CreateOne"] = create(false)
	m["("+mongoPkg+".IndexView).CreateMany"] = create(true)
	m["(*"+mongoPkg+".Database).RunCommand"] = func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		x.dbArg(st, a[0], "mdatabase")
		x.mongoOpts(st, a[3])
		es, ok := x.orderedDoc(st, a[2])
		if !ok || len(es) != 2 || es[0].key != "collMod" || es[1].key != "index" {
			x.unsupported(st, "command")
		}
		ix, ok := x.bsonDoc(st, es[1].v)
		if !ok || len(ix) != 2 || ix[0].key != "keyPattern" || ix[1].key != "expireAfterSeconds" {
			x.unsupported(st, "collMod")
		}
		d := map[string]Value{"keys": pattern(x, st, ix[0].v)}
		for k, v := range map[string]Value{"coll": es[0].v, "expire": ix[1].v} {
			i, ok := v.(*IfaceV)
			if !ok || i.Dyn == nil {
				x.unsupported(st, "collMod")
			}
			d[k] = i.V
		}
		ev := func(s *State, ok *Term, err Value) {
			r := map[string]Value{"ok": ok, "err": err}
			for k, v := range d {
				r[k] = v
			}
			x.mongoEvent(s, "CollMod", r)
		}
		s1, s2 := st.clone(), st.clone()
		e := x.mongoErr(s1, "collMod")
		ev(s1, c.False, e)
		outs := ret(s1, x.mongoResult(s1, e, nil, nil))
		ev(s2, c.True, &IfaceV{})
		outs = append(outs, ret(s2, x.mongoResult(s2, x.globalVal(s2, mongoPkg, "ErrNoDocuments"), nil, nil))...)
		ev(st, c.True, &IfaceV{})
		return append(outs, ret(st, x.mongoResult(st, &IfaceV{}, nil, nil))...)
	}
	// collname(c): the name of a collection
	specFuncs["collname"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		o, ok := x.eval(env, n.Args[0]).(*OpaqueV)
		if !ok {
			x.specErr("collname")
		}
		return x.c.Var(fmt.Sprintf("collname%d", o.Obj), x.c.Str)
	}

	// --- specification functions ---
	// dbtime(t): a time as it comes back from the database
	specFuncs["dbtime"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		v := x.eval(env, n.Args[0])
		t := x.enc(env, v)
		if t.Sort == x.c.Int {
			return x.msTrunc(t)
		}
		return &BoxPtr{Opt: x.msTruncOpt(t), Elem: x.globType("time", "Time")}
	}
	// stored(v): a task or payload as it comes back from the database
	specFuncs["stored"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		v := x.derefSpec(env, x.eval(env, n.Args[0]))
		if s, ok := v.(*StructV); ok {
			return x.fromTerm(env.st, x.storedTask(env.st, x.toTerm(env.st, s, x.taskType(), false)), x.taskType())
		}
		return x.fromTerm(env.st, x.storedAny(x.enc(env, v)), x.globAny())
	}
	// counted(n, q): n is the number of the rows of a set that contains q
	specFuncs["dbcounted"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		t, q := x.evalTerm(env, n.Args[0]), x.evalTerm(env, n.Args[1])
		return x.countedBy(env.st, t, q)
	}
	specFuncs["unsupportedop"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.unsupportedOp(x.eval(env, n.Args[0]))
	}
	// flag(p): the value of an atomic counter
	specFuncs["flag"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		id, key := x.atomicCell(env.st, x.eval(env, n.Args[0]))
		return env.st.gterm(id, key)
	}
	// everhad(q): the collection had a document at the time of a command
	specFuncs["everhad"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		q := x.evalTerm(env, n.Args[0])
		h, _ := env.st.obj(x.ghostObj).G["hist"].(valueList)
		r := x.c.False
		for _, d := range h {
			r = x.c.Or(r, x.c.IsSome(x.rowAt(env.st, T(d), q)))
		}
		return r
	}
	// groups(db, "topic"): the distinct values of a field
	specFuncs["groups"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.groupsOf(env.st, x.evalTerm(env, n.Args[0]), x.evalTerm(env, n.Args[1]).Name)
	}
	specFuncs["groupat"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.seqKey(x.evalTerm(env, n.Args[0]), x.evalTerm(env, n.Args[1]))
	}
}

func (x *Exec) globAny() types.Type { return types.NewInterfaceType(nil, nil) }

// countedBy: see counted above.
func (x *Exec) countedBy(st *State, t, q *Term) *Term {
	c := x.c
	switch {
	case t.Op == OApp && t.Name == "card":
		return c.IsSome(x.rowAt(st, t.Args[0], q))
	case t == c.IntV(0):
		return c.False
	}
	return c.App("counted", c.Bool, t, q)
}

// groupsOf: the distinct values of a field, in no particular order.
func (x *Exec) groupsOf(st *State, d *Term, field string) *Term {
	s := x.c.App("groups_"+field, x.seqSortT(), d)
	st.assume(x.c.Le(x.c.IntV(0), x.seqN(s)))
	return s
}

func mustField(x *Exec, key string) int {
	i, _, _, ok := x.docField(key)
	if !ok {
		panic(unsup{"no document field " + key})
	}
	return i
}

// unsupportedOp: the error says that the operation is not supported by a sharded deployment.
func (x *Exec) unsupportedOp(v Value) *Term {
	c := x.c
	if sv, _ := mongoStruct(v); sv != nil {
		return c.Or(x.bulkCode(nil, sv, c.IntV(61)), x.bulkCode(nil, sv, c.IntV(31025)))
	}
	e, ok := v.(*SymIface)
	if !ok {
		return c.False
	}
	return c.And(c.Not(c.Eq(e.T, c.Nil())), c.App("istype_"+sanitize(mongoPkg+".ServerError"), c.Bool, e.T),
		c.Or(c.App("mongo_code", c.Bool, e.T, c.IntV(61)), c.App("mongo_code", c.Bool, e.T, c.IntV(31025))))
}

// noMatch: no document matches.
func (x *Exec) noMatch(st *State, d *Term, f *mongoFilter) {
	c := x.c
	x.arrDef[d] = func(s *State, k *Term) {
		v := c.Select(d, k)
		s.assume(c.Not(c.And(c.IsSome(v), f.match(c.Val(v)))))
	}
	x.mongoRedo(st, d)
}

// mongoRedo instantiates a new fact about a state of the collection.
func (x *Exec) mongoRedo(st *State, d *Term) {
	ks, _ := st.obj(x.ghostObj).G["mkeys"].(valueList)
	for _, k := range x.keys {
		x.arrDef[d](st, k)
	}
	for _, k := range ks {
		x.arrDef[d](st, T(k))
	}
}

// mongoRecursive replaces a recursive call by the contract of the function:
// any number of commands may have been run by it.
func (x *Exec) mongoRecursive(st *State, fr *Frame, ct *Contract, fn *ssa.Function, args []Value) []*Outcome {
	c := x.c
	g := x.ghostObj
	start := st.gterm(x.clockObj, "now")
	before := map[string]*Term{}
	for _, k := range []string{"stable", "dberr", "committed", "db0", "db1", "seen"} {
		before[k] = st.gterm(g, k)
	}
	if before["committed"] != c.False {
		x.unsupported(st, "recursive call after a change of the collection")
	}
	x.now(st)
	hist, _ := st.obj(g).G["hist"].(valueList)
	d0, d1, sn := c.Fresh("MDBr0", x.dbSort()), c.Fresh("MDBr1", x.dbSort()), c.Fresh("MDBrs", x.dbSort())
	stable, dberr, comm := c.Fresh("stable", c.Bool), c.Fresh("dberr", c.Bool), c.Fresh("committed", c.Bool)
	st.gset(g, "db0", d0)
	st.gset(g, "db1", d1)
	st.gset(g, "snap", sn)
	st.gset(g, "stable", stable)
	st.gset(g, "dberr", dberr)
	st.gset(g, "committed", comm)
	st.gset(g, "hist", append(append(valueList{}, hist...), d0, d1, sn))
	st.assume(c.Imp(c.Not(comm), c.And(c.Eq(d0, d1), c.Eq(d0, sn))))
	// a state seen by the call, and all of them if the collection was stable
	st.assume(c.Imp(c.And(before["seen"], stable), c.Eq(d0, sn)))
	x.mongoInst(st)
	env := &Env{vars: map[string]Value{}, st: st}
	for _, a := range x.unit.ct.Any {
		env.vars[a.Name] = x.unitVars[a.Name]
	}
	env.ghost = func(name string) Value {
		if name == "now0" {
			return start
		}
		return x.ghostVar(st, name)
	}
	for i, n := range ct.Params {
		if i < len(args) {
			env.vars[n] = args[i]
		}
	}
	for _, r := range ct.Requires {
		if r.Name != "assume" {
			x.oblige(st, "precondition", x.evalBool(env, r.Expr), "precondition of "+ct.Short+": "+r.Src+x.where())
		}
	}
	env.old = st.clone()
	sig := fn.Signature
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		v := x.freshVal(st, sig.Results().At(i).Type(), ct.Short+"."+ct.Results[i])
		res = append(res, v)
		env.vars[ct.Results[i]] = v
	}
	for _, e := range ct.Ensures {
		st.assume(x.evalBool(env, e.Expr))
	}
	// the collection was stable during the whole call only if it was before
	st.gset(g, "stable", before["stable"])
	x.mongoSeen(st, d0, stable)
	st.gset(g, "dberr", c.Or(before["dberr"], dberr))
	return []*Outcome{{st: st, res: res}}
}

// plainLib are structures of libraries that are treated as plain data.
var plainLib = map[string]bool{mongoPkg + ".BulkWriteError": true, mongoPkg + ".WriteError": true}

// mongoStruct: a structure of the driver in an interface.
func mongoStruct(v Value) (*StructV, string) {
	i, ok := v.(*IfaceV)
	if !ok || i.Dyn == nil {
		return nil, ""
	}
	s, ok := i.V.(*StructV)
	if !ok {
		return nil, ""
	}
	n, ok := types.Unalias(i.Dyn).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != mongoPkg {
		return nil, ""
	}
	return s, n.Obj().Name()
}

func (x *Exec) bulkID(sv *StructV) *Term { return x.c.Var("bulkerr_"+x.identKey(sv), x.c.Int) }

func (x *Exec) bulkCode(st *State, sv *StructV, code *Term) *Term {
	return x.c.App("bulk_code", x.c.Bool, x.bulkID(sv), code)
}

// dupError: the code of a write error is that of a duplicate key.
func (x *Exec) dupError(st *State, sv *StructV) *Term {
	c := x.c
	if i := fieldIndex(sv.T, "WriteError"); i >= 0 {
		sv = x.field(st, sv, i).(*StructV)
	}
	code := T(x.field(st, sv, fieldIndex(sv.T, "Code")))
	msg := T(x.field(st, sv, fieldIndex(sv.T, "Message")))
	r := c.And(c.Eq(code, c.IntV(16460)), c.App("str_has", c.Bool, msg, c.StrV(" E11000 ")))
	for _, n := range []int64{11000, 11001, 12582} {
		r = c.Or(r, c.Eq(code, c.IntV(n)))
	}
	return r
}

// writeModelTerm is a write of a batch by its contents.
func (x *Exec) writeModelTerm(st *State, v Value) *Term {
	c := x.c
	o, ok := v.(*OpaqueV)
	if !ok || o.Obj == 0 || o.Kind != "wmodel" {
		return nil
	}
	ob := st.obj(o.Obj)
	if ob.G["used"] == nil {
		st.gset(o.Obj, "used", c.True)
	}
	g := st.obj(o.Obj).G
	only := func(ks ...string) {
		for k := range g {
			found := k == "used"
			for _, q := range ks {
				found = found || q == k
			}
			if !found {
				x.unsupported(st, "write model with "+k)
			}
		}
		for _, k := range ks {
			if g[k] == nil && k != "Hint" && k != "Upsert" {
				x.unsupported(st, "write model without "+k)
			}
		}
	}
	id := func() *Term {
		opts := map[string]Value{}
		if g["Hint"] != nil {
			opts["Hint"] = g["Hint"]
		}
		x.noKeys++
		defer func() { x.noKeys-- }()
		f := x.mongoFilter(st, g["Filter"], opts)
		if f.id == nil || len(f.fields) != 1 || f.hint != "" && mongoPartial[f.hint] >= 0 || f.conds != 1 {
			x.unsupported(st, "write addressed by other than its ID")
		}
		return f.id
	}
	row := func(k string) *Term {
		r, _ := x.taskArg(st, g[k], false)
		return r
	}
	var t *Term
	switch ob.Name {
	case "InsertOneModel":
		only("Document")
		t = c.App("wm_insert", c.Any, row("Document"))
	case "ReplaceOneModel":
		only("Filter", "Replacement", "Upsert", "Hint")
		name := "wm_replace"
		if !x.optBool(st, g, "Upsert", false) {
			name = "wm_replace_existing"
		}
		t = c.App(name, c.Any, id(), row("Replacement"))
	case "DeleteOneModel":
		only("Filter", "Hint")
		t = c.App("wm_delete", c.Any, id())
	}
	st.assume(c.Not(c.Eq(t, c.Nil())))
	return t
}
