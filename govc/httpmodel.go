package main

// Contracts of the web framework (gin), of request binding and of the metrics
// library (prometheus).

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"path"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ginPkg  = "github.com/gin-gonic/gin"
	promPkg = "github.com/prometheus/client_golang/prometheus"
)

func mustRat(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("bad number " + s)
	}
	return r
}

// seconds converts a duration to a number of seconds.
func (x *Exec) seconds(d *Term) *Term {
	return x.c.Mul(x.c.App("toreal", x.c.Real, d), x.c.RatV(mustRat("1/1000000000")))
}

// sameChain: two routes run the same handlers.
func (x *Exec) sameChain(st *State, a, b ginRoute) bool {
	if len(a.chain) != len(b.chain) || a.method != b.method {
		return false
	}
	names := func(p string) (r string) {
		for _, s := range strings.Split(p, "/") {
			if strings.HasPrefix(s, ":") || strings.HasPrefix(s, "*") {
				r += s + "/"
			}
		}
		return
	}
	if names(a.path) != names(b.path) {
		return false
	}
	for i := range a.chain {
		if !x.sameFunc(st, a.chain[i], b.chain[i], 0) {
			return false
		}
	}
	return true
}

// sameFunc: two function values that behave alike.
func (x *Exec) sameFunc(st *State, a, b Value, d int) bool {
	if sameValue(a, b) {
		return true
	}
	f, ok := a.(*FuncV)
	g, ok2 := b.(*FuncV)
	if !ok || !ok2 || f.Fn != g.Fn || f.Name != g.Name || f.Sym != g.Sym || len(f.Bind) != len(g.Bind) || d > 3 {
		return false
	}
	if (f.Recv == nil) != (g.Recv == nil) || f.Recv != nil && !sameValue(f.Recv, g.Recv) {
		return false
	}
	for i := range f.Bind {
		if !x.sameFunc(st, f.Bind[i], g.Bind[i], d+1) {
			return false
		}
	}
	return true
}

type ginRoute struct {
	method, path string
	chain        []Value
}

type ginRoutes []ginRoute

type valueList []Value

// snapshot gives the content of a value, independent of later writes.
func (x *Exec) snapshot(st *State, v Value, t types.Type) Value {
	switch p := v.(type) {
	case *PtrV:
		if p.Obj == 0 {
			return p
		}
		if _, ok := t.Underlying().(*types.Pointer); ok && x.sortOf(t) != nil {
			return &BoxPtr{Opt: x.toTerm(st, p, t, false), Elem: t.Underlying().(*types.Pointer).Elem()}
		}
	case *SliceV:
		if x.sortOf(t) != nil && p.Obj != 0 {
			return x.fromTerm(st, x.toTerm(st, p, t, false), t)
		}
	case *StructV:
		if x.sortOf(t) != nil {
			return x.fromTerm(st, x.toTerm(st, p, t, false), t)
		}
	case *IfaceV:
		if p.Dyn != nil {
			return &IfaceV{Dyn: p.Dyn, V: x.snapshot(st, p.V, p.Dyn), NilIf: p.NilIf}
		}
	}
	return v
}

func (x *Exec) constStr(st *State, v Value, what string) string {
	if t, ok := v.(*Term); ok && t.Op == OStr {
		return t.Name
	}
	x.unsupported(st, what+" that is not a constant")
	return ""
}

// --- router ---

// ginGroupOf resolves a *gin.RouterGroup or *gin.Engine.
func (x *Exec) ginGroupOf(st *State, v Value) (id int) {
	p, ok := v.(*PtrV)
	if i, isI := v.(*IfaceV); isI {
		p, ok = i.V.(*PtrV)
	}
	if !ok || p.Obj == 0 || st.obj(p.Obj).Kind != "gingroup" {
		x.unsupported(st, fmt.Sprintf("router group %T", v))
	}
	return p.Obj
}

func (x *Exec) ginList(st *State, id int, k string) []Value {
	if l, ok := st.obj(id).G[k].(valueList); ok {
		return l
	}
	return nil
}

// ginHandle registers a route.
func (x *Exec) ginHandle(st *State, grp int, method, rel string, hs []Value) {
	o := st.obj(grp)
	full := joinPaths(o.G["base"].(*Term).Name, rel)
	chain := append(append([]Value{}, x.ginList(st, grp, "handlers")...), hs...)
	if len(hs) == 0 {
		x.oblige(st, "panic-free", x.c.False, "route without a handler"+x.where())
	}
	eng := int(o.G["engine"].(*Term).I.Int64())
	rs, _ := st.obj(eng).G["routes"].(ginRoutes)
	for _, r := range rs {
		if r.method == method && sameRoute(r.path, full) {
			x.oblige(st, "panic-free", x.c.False, "route "+method+" "+full+" registered twice"+x.where())
		}
	}
	st.gset(eng, "routes", append(append(ginRoutes{}, rs...), ginRoute{method, full, chain}))
}

// joinPaths joins paths like gin does.
func joinPaths(base, rel string) string {
	if rel == "" {
		return base
	}
	p := path.Join(base, rel)
	if strings.HasSuffix(rel, "/") && !strings.HasSuffix(p, "/") {
		p += "/"
	}
	return p
}

// sameRoute: two patterns match the same paths.
func sameRoute(a, b string) bool {
	as, bs := strings.Split(a, "/"), strings.Split(b, "/")
	if len(as) != len(bs) {
		return false
	}
	for i := range as {
		wa, wb := strings.HasPrefix(as[i], ":") || strings.HasPrefix(as[i], "*"), strings.HasPrefix(bs[i], ":") || strings.HasPrefix(bs[i], "*")
		if wa != wb || !wa && as[i] != bs[i] {
			return false
		}
	}
	return true
}

// ginServe handles one request with the registered routes.
func (x *Exec) ginServe(st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
	c := x.c
	eng := x.ginGroupOf(st, a[0])
	cp, ok := a[1].(*PtrV)
	if !ok || cp.Obj == 0 {
		x.unsupported(st, "request context")
	}
	method := x.unit.ct.Opts["method"]
	var outs []*Outcome
	paths := splitList(x.unit.ct.Opts["path"])
	base := st
	// prefixes with the same handlers are handled together
	route := func(full string) *ginRoute {
		rs, _ := st.obj(eng).G["routes"].(ginRoutes)
		for i := range rs {
			if rs[i].method == method && rs[i].path == full {
				return &rs[i]
			}
		}
		return nil
	}
	together := len(paths) > 1 && route(paths[0]) != nil
	for _, p := range paths {
		together = together && route(p) != nil && x.sameChain(st, *route(p), *route(paths[0]))
	}
	anyOf := paths
	if together {
		paths = paths[:1]
	}
	for i, full := range paths {
		st := base
		if i < len(paths)-1 {
			st = base.clone()
		}
		rs, _ := st.obj(eng).G["routes"].(ginRoutes)
		var chain []Value
		found := false
		for _, r := range rs {
			if r.method == method && r.path == full {
				chain, found = r.chain, true
			}
		}
		status := int64(200)
		fp := full
		if !found {
			if !strings.HasPrefix(full, "/unknown") {
				// the documented endpoint does not exist
				x.oblige(st, "route", c.False, "there is no route "+method+" "+full)
			}
			chain = append(append([]Value{}, x.ginList(st, eng, "handlers")...), x.ginList(st, eng, "noroute")...)
			status, fp = 404, ""
		}
		raw := x.ginFlag(st, eng, "UseRawPath")
		unesc := x.ginFlag(st, eng, "UnescapePathValues")
		// the path parameters are segments of the escaped path, decoded once
		if found && strings.Contains(full, ":") {
			x.oblige(st, "route", c.And(raw, unesc), "path parameters are taken from the escaped path and decoded")
		}
		// nor is a request with an empty parameter redirected to the collection
		if found && method != "GET" && strings.LastIndex(full, "/:") == strings.LastIndex(full, "/") {
			for _, r := range rs {
				if r.method == method && r.path == full[:strings.LastIndex(full, "/")] {
					x.oblige(st, "route", c.Not(x.ginFlag(st, eng, "RedirectTrailingSlash")), "an empty path parameter leads to the endpoint of the collection")
				}
			}
		}
		st.gset(cp.Obj, "chain", valueList(chain))
		st.gset(cp.Obj, "index", c.IntV(0))
		st.gset(cp.Obj, "status", c.IntV(status))
		st.gset(cp.Obj, "written", c.IntV(0))
		st.gset(cp.Obj, "pattern", c.StrV(fp))
		st.gset(cp.Obj, "fullpath", c.StrV(fp))
		if together {
			f := c.Var("fullpath", c.Str)
			is := c.False
			for _, p := range anyOf {
				is = c.Or(is, c.Eq(f, c.StrV(p)))
			}
			st.assume(is)
			st.assume(c.App("validutf8", c.Bool, f))
			st.gset(cp.Obj, "fullpath", f)
		}
		st.gset(cp.Obj, "method", c.StrV(method))
		st.gset(cp.Obj, "bodyread", c.False)
		st.gset(cp.Obj, "body", nil)
		x.ginCtx = cp.Obj
		x.setField(st, cp, "Request", x.newRequest(st, "req", method))
		o := x.globType(ginPkg, "ResponseWriter")
		x.setField(st, cp, "Writer", &SymIface{T: c.Var("@ginwriter", c.Any), St: o})
		for _, o := range x.ginRun(st, fr, cp, cc) {
			outs = append(outs, &Outcome{st: o.st})
		}
	}
	return outs
}

func (x *Exec) ginFlag(st *State, eng int, name string) *Term {
	s, ok := st.obj(eng).Val.(*StructV)
	if !ok {
		return x.c.False
	}
	i := fieldIndex(s.T, name)
	if i < 0 {
		return x.c.False
	}
	t, ok := x.field(st, s, i).(*Term)
	if !ok {
		return x.c.False
	}
	return t
}

func (x *Exec) globType(pkg, name string) types.Type {
	t := x.prog.typ(pkg, name)
	if t == nil {
		panic(unsup{"type " + pkg + "." + name + " not found"})
	}
	return t
}

func (x *Exec) setField(st *State, p *PtrV, name string, v Value) {
	i := fieldIndex(p.Elem, name)
	if i < 0 {
		x.unsupported(st, "field "+name)
	}
	q := &PtrV{Obj: p.Obj, Path: append(append([]PathElem{}, p.Path...), PathElem{Kind: 'f', N: i})}
	x.storePtr(st, q, v)
}

// newRequest is an incoming request.
func (x *Exec) newRequest(st *State, name, method string) Value {
	t := x.globType("net/http", "Request")
	sv := &StructV{T: t, F: make([]Value, t.Underlying().(*types.Struct).NumFields()), Lazy: x.lazyName(name)}
	set := func(f string, v Value) { sv.F[fieldIndex(t, f)] = v }
	set("Method", x.c.StrV(method))
	ut := x.globType("net/url", "URL")
	uid := st.alloc(&Obj{T: ut, Val: &StructV{T: ut, F: make([]Value, ut.Underlying().(*types.Struct).NumFields()), Lazy: x.lazyName(name + ".URL")}})
	set("URL", &PtrV{Obj: uid, Elem: ut})
	id := st.alloc(&Obj{T: t, Val: sv, Name: name})
	return &PtrV{Obj: id, Elem: t}
}

// ginRun runs the remaining handlers of the chain.
func (x *Exec) ginRun(st *State, fr *Frame, cp *PtrV, cc *ssa.CallCommon) []*Outcome {
	chain := x.ginList(st, cp.Obj, "chain")
	idx := int(st.gterm(cp.Obj, "index").I.Int64())
	if idx >= len(chain) {
		return []*Outcome{{st: st}}
	}
	f, ok := chain[idx].(*FuncV)
	if !ok {
		x.unsupported(st, "handler")
	}
	var outs []*Outcome
	for _, o := range x.callValue(st, fr, f, []Value{cp}, cc) {
		o.st.gset(cp.Obj, "index", x.c.Add(o.st.gterm(cp.Obj, "index"), x.c.IntV(1)))
		outs = append(outs, x.ginRun(o.st, fr, cp, cc)...)
	}
	return outs
}

const abortIndex = 63

func (x *Exec) ginC(st *State, v Value) *PtrV {
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 || st.obj(p.Obj).G["chain"] == nil {
		x.unsupported(st, "request context")
	}
	return p
}

// ginStatus sets the status of the response, unless it was sent already.
func (x *Exec) ginStatus(st *State, id int, code *Term) {
	c := x.c
	ok := c.And(c.Le(c.IntV(100), code), c.Le(code, c.IntV(999)))
	x.oblige(st, "panic-free", c.Or(c.Eq(code, c.IntV(-1)), ok), "status code out of range"+x.where())
	if st.gterm(id, "written") == c.IntV(0) {
		st.gset(id, "status", code)
	}
}

// ginBody writes a response body.
func (x *Exec) ginBody(st *State, id int, body Value) {
	st.gset(id, "written", x.c.Add(st.gterm(id, "written"), x.c.IntV(1)))
	st.gset(id, "body", body)
}

// --- binding ---

func fieldTag(u *types.Struct, i int, key string) (name string, skip bool) {
	tag := reflect.StructTag(u.Tag(i)).Get(key)
	n, _, _ := strings.Cut(tag, ",")
	if tag == "-" || !u.Field(i).Exported() {
		return "", true
	}
	if n == "" {
		n = u.Field(i).Name()
	}
	return n, false
}

// bindTarget resolves the destination of a binding.
func (x *Exec) bindTarget(st *State, v Value) *PtrV {
	i, ok := v.(*IfaceV)
	if !ok {
		x.unsupported(st, "binding target")
	}
	p, ok := i.V.(*PtrV)
	if !ok || p.Obj == 0 {
		x.unsupported(st, "binding target")
	}
	if _, ok := p.Elem.Underlying().(*types.Struct); !ok {
		x.unsupported(st, "binding target of type "+p.Elem.String())
	}
	return p
}

// jsonName names the type in terms that stand for the request body.
func (x *Exec) jsonName(t types.Type) string { return x.structSortName(t) }

// jsonSent is the content of the request body, read as a value of type t, with
// zero values for absent fields.
func (x *Exec) jsonSent(st *State, t types.Type) Value {
	s := x.sortOf(t)
	if s == nil {
		x.unsupported(st, "request body of type "+t.String())
	}
	return x.fromTerm(st, x.c.Var("json_"+x.jsonName(t), s), t)
}

// jsonMerge decodes the request body into a structure.
func (x *Exec) jsonMerge(st *State, p *PtrV) {
	c := x.c
	t := p.Elem
	u := t.Underlying().(*types.Struct)
	sent := x.jsonSent(st, t).(*StructV)
	pre, ok := x.loadPtr(st, p, t).(*StructV)
	if !ok {
		x.unsupported(st, "binding target")
	}
	r := &StructV{T: t, F: make([]Value, u.NumFields())}
	for i := range r.F {
		ft := u.Field(i).Type()
		old := x.field(st, pre, i)
		r.F[i] = old
		if _, skip := fieldTag(u, i, "json"); skip {
			continue
		}
		so := x.sortOf(ft)
		if so == nil {
			x.unsupported(st, "request field of type "+ft.String())
		}
		zt := x.toTerm(st, x.zero(st, ft), ft, false)
		stm := x.toTerm(st, sent.F[i], ft, false)
		has := c.Var("json_has_"+x.jsonName(t)+"_"+u.Field(i).Name(), c.Bool)
		st.assume(c.Or(has, c.Eq(stm, zt)))
		ot := x.toTerm(st, old, ft, false)
		if sl, isSl := ft.Underlying().(*types.Slice); isSl {
			if ot != zt {
				x.unsupported(st, "decoding into a list that is not empty")
			}
			// the elements are new objects
			cs := stm.Sort.Ctors[0]
			_, ptrs := sl.Elem().Underlying().(*types.Pointer)
			n := c.Sel(cs, 0, stm)
			st.assume(c.Le(c.IntV(0), n))
			nl := c.Sel(cs, 2, stm)
			st.assume(c.Imp(nl, c.Eq(n, c.IntV(0))))
			id := st.alloc(&Obj{T: ft, Arr: c.Sel(cs, 1, stm), ElemT: sl.Elem(), Own: ptrs, Name: "json"})
			r.F[i] = &SliceV{Obj: id, Off: c.IntV(0), Len: n, Cap: n, Nil: nl, T: ft}
			continue
		}
		if ot == zt {
			r.F[i] = x.fromTerm(st, stm, ft)
			continue
		}
		r.F[i] = x.fromTerm(st, c.Ite(has, stm, ot), ft)
	}
	x.storePtr(st, p, r)
}

// queryMerge decodes the query parameters into a structure.
func (x *Exec) queryMerge(st *State, p *PtrV) {
	c := x.c
	t := p.Elem
	u := t.Underlying().(*types.Struct)
	pre, ok := x.loadPtr(st, p, t).(*StructV)
	if !ok {
		x.unsupported(st, "binding target")
	}
	r := &StructV{T: t, F: make([]Value, u.NumFields())}
	for i := range r.F {
		ft := u.Field(i).Type()
		old := x.field(st, pre, i)
		r.F[i] = old
		name, skip := fieldTag(u, i, "form")
		if skip {
			continue
		}
		so := x.sortOf(ft)
		if so == nil {
			x.unsupported(st, "query field of type "+ft.String())
		}
		has := c.Var("hasquery_"+name, c.Bool)
		et := deref(ft)
		q := c.Var("query_"+name, x.sortOf(et))
		if et != ft {
			q = c.Some(q)
		}
		ot := x.toTerm(st, old, ft, false)
		r.F[i] = x.fromTerm(st, c.Ite(has, q, ot), ft)
	}
	x.storePtr(st, p, r)
}

// --- metrics ---

func (x *Exec) promLabels(st *State, vec int, ls []Value) {
	c := x.c
	n := st.gterm(vec, "n")
	x.oblige(st, "panic-free", c.Eq(n, c.IntV(int64(len(ls)))), "number of label values"+x.where())
	for _, l := range ls {
		x.oblige(st, "panic-free", x.validUTF8(l.(*Term)), "label values must be valid UTF-8"+x.where())
	}
}

// validUTF8: literals and decimal numbers are valid.
func (x *Exec) validUTF8(t *Term) *Term {
	if t.Op == OStr {
		return x.c.BoolV(strings.ToValidUTF8(t.Name, "") == t.Name)
	}
	if t.Op == OApp && t.Name == "itoa" {
		return x.c.True
	}
	return x.c.App("validutf8", x.c.Bool, t)
}

func (x *Exec) metricOp(op string) modelFn {
	return func(x *Exec, st *State, fr *Frame, a []Value, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		o, ok := a[0].(*OpaqueV)
		if !ok || o.Kind != "metric" {
			x.unsupported(st, "metric")
		}
		val := c.RatV(mustRat("1"))
		if len(a) > 1 {
			val = T(a[1])
		}
		mo := st.obj(o.Obj)
		kind, _ := mo.G["kind"].(*Term)
		if op == "Add" && kind != nil && kind.Name == "counter" {
			x.oblige(st, "panic-free", c.Le(c.RatV(mustRat("0")), val), "counters cannot decrease"+x.where())
		}
		x.emit(st, &Event{Kind: "metric." + op, Data: map[string]Value{"vec": mo.G["vec"], "labels": mo.G["labels"], "value": val}})
		return ret(st)
	}
}

func init() {
	m := libModels
	type A = []Value
	// --- router construction
	newEngine := func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		t := x.globType(ginPkg, "Engine")
		z := x.zero(st, t).(*StructV)
		for _, f := range []string{"RedirectTrailingSlash", "UnescapePathValues"} {
			if i := fieldIndex(t, f); i >= 0 {
				z.F[i] = x.c.True
			}
		}
		id := st.alloc(&Obj{T: t, Kind: "gingroup", Val: z, G: map[string]Value{"base": x.c.StrV("/"), "handlers": valueList(nil), "routes": ginRoutes(nil)}})
		st.gset(id, "engine", x.c.IntV(int64(id)))
		return ret(st, &PtrV{Obj: id, Elem: t})
	}
	m[ginPkg+".New"] = newEngine
	noop := func(name string) modelFn {
		return func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			return ret(st, &FuncV{Name: name})
		}
	}
	pass := func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome { return ret(st) }
	m["gin.pass"] = pass
	for _, n := range []string{ginPkg + ".Logger", ginPkg + ".Recovery", "github.com/gin-contrib/cors.Default", "github.com/gin-contrib/cors.New", "github.com/gin-contrib/gzip.Gzip"} {
		m[n] = noop("gin.pass")
	}
	m[ginPkg+".Mode"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.Var("ginmode", x.c.Str))
	}
	m[ginPkg+".SetMode"] = pass
	m["github.com/gin-contrib/pprof.Register"] = pass
	m["net/http.FS"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, &SymIface{T: x.c.Var("@http.FS", x.c.Any), St: x.globType("net/http", "FileSystem")})
	}
	use := func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		id := x.ginGroupOf(st, a[0])
		hs, ok := x.sliceElems(st, a[1])
		if !ok {
			x.unsupported(st, "list of handlers")
		}
		st.gset(id, "handlers", valueList(append(append([]Value{}, x.ginList(st, id, "handlers")...), hs...)))
		return ret(st, &IfaceV{})
	}
	m["(*"+ginPkg+".Engine).Use"] = use
	m["(*"+ginPkg+".RouterGroup).Use"] = use
	m["(*"+ginPkg+".Engine).NoRoute"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		hs, ok := x.sliceElems(st, a[1])
		if !ok {
			x.unsupported(st, "list of handlers")
		}
		st.gset(x.ginGroupOf(st, a[0]), "noroute", valueList(hs))
		return ret(st)
	}
	m["(*"+ginPkg+".RouterGroup).Group"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		id := x.ginGroupOf(st, a[0])
		hs, ok := x.sliceElems(st, a[2])
		if !ok {
			x.unsupported(st, "list of handlers")
		}
		o := st.obj(id)
		t := x.globType(ginPkg, "RouterGroup")
		n := st.alloc(&Obj{T: t, Kind: "gingroup", Val: x.zero(st, t), G: map[string]Value{
			"base":     x.c.StrV(joinPaths(o.G["base"].(*Term).Name, x.constStr(st, a[1], "path"))),
			"handlers": valueList(append(append([]Value{}, x.ginList(st, id, "handlers")...), hs...)),
			"engine":   o.G["engine"]}})
		return ret(st, &PtrV{Obj: n, Elem: t})
	}
	for _, meth := range []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"} {
		meth := meth
		m["(*"+ginPkg+".RouterGroup)."+meth] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			hs, ok := x.sliceElems(st, a[2])
			if !ok {
				x.unsupported(st, "list of handlers")
			}
			x.ginHandle(st, x.ginGroupOf(st, a[0]), meth, x.constStr(st, a[1], "path"), hs)
			return ret(st, &IfaceV{})
		}
	}
	m["(*"+ginPkg+".RouterGroup).Handle"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		hs, ok := x.sliceElems(st, a[3])
		if !ok {
			x.unsupported(st, "list of handlers")
		}
		x.ginHandle(st, x.ginGroupOf(st, a[0]), x.constStr(st, a[1], "method"), x.constStr(st, a[2], "path"), hs)
		return ret(st, &IfaceV{})
	}
	m["github.com/hyperonym/ratus/cmd/ratus.govcServe"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return x.ginServe(st, fr, a, cc)
	}
	// --- request context
	g := func(n string, f func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome) {
		m["(*"+ginPkg+".Context)."+n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			return f(x, st, fr, x.ginC(st, a[0]), a[1:], cc)
		}
	}
	g("Next", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		st.gset(p.Obj, "index", x.c.Add(st.gterm(p.Obj, "index"), x.c.IntV(1)))
		return x.ginRun(st, fr, p, cc)
	})
	abort := func(x *Exec, st *State, p *PtrV) { st.gset(p.Obj, "index", x.c.IntV(abortIndex)) }
	g("Abort", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		abort(x, st, p)
		return ret(st)
	})
	g("IsAborted", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.Le(x.c.IntV(abortIndex), st.gterm(p.Obj, "index")))
	})
	json := func(x *Exec, st *State, p *PtrV, code *Term, v Value) {
		x.ginStatus(st, p.Obj, code)
		var b Value = v
		if i, ok := v.(*IfaceV); ok {
			b = x.snapshot(st, i, nil)
		}
		x.ginBody(st, p.Obj, b)
	}
	for _, n := range []string{"JSON", "IndentedJSON", "PureJSON"} {
		g(n, func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
			json(x, st, p, T(a[0]), a[1])
			return ret(st)
		})
	}
	g("AbortWithStatusJSON", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		abort(x, st, p)
		json(x, st, p, T(a[0]), a[1])
		return ret(st)
	})
	g("Status", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		x.ginStatus(st, p.Obj, T(a[0]))
		return ret(st)
	})
	g("AbortWithStatus", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		x.ginStatus(st, p.Obj, T(a[0]))
		abort(x, st, p)
		return ret(st)
	})
	g("Error", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		x.oblige(st, "panic-free", x.c.Not(x.isNil(st, a[0])), "Context.Error with a nil error"+x.where())
		t := x.globType(ginPkg, "Error")
		id := st.alloc(&Obj{T: t, Val: &StructV{T: t, F: make([]Value, t.Underlying().(*types.Struct).NumFields()), Lazy: x.lazyName("ginerror")}})
		return ret(st, &PtrV{Obj: id, Elem: t})
	})
	g("Param", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.ginParam(st, p.Obj, x.constStr(st, a[0], "parameter name")))
	})
	g("FullPath", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, st.obj(p.Obj).G["fullpath"])
	})
	g("Set", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		st.gset(p.Obj, "key:"+x.constStr(st, a[0], "context key"), a[1])
		return ret(st)
	})
	g("MustGet", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		k := x.constStr(st, a[0], "context key")
		v := st.obj(p.Obj).G["key:"+k]
		if v == nil {
			x.oblige(st, "panic-free", x.c.False, "context key "+k+" was not set"+x.where())
			return nil
		}
		return ret(st, v)
	})
	g("Get", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		v := st.obj(p.Obj).G["key:"+x.constStr(st, a[0], "context key")]
		if v == nil {
			return ret(st, &IfaceV{}, x.c.False)
		}
		return ret(st, v, x.c.True)
	})
	typed := func(n string, t types.Type) {
		g(n, func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
			v := st.obj(p.Obj).G["key:"+x.constStr(st, a[0], "context key")]
			if i, ok := v.(*IfaceV); ok && i.Dyn != nil && types.Identical(i.Dyn, t) {
				return ret(st, i.V)
			}
			return ret(st, x.zero(st, t))
		})
	}
	typed("GetInt", types.Typ[types.Int])
	typed("GetInt64", types.Typ[types.Int64])
	typed("GetString", types.Typ[types.String])
	typed("GetBool", types.Typ[types.Bool])
	g("Header", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome { return ret(st) })
	g("GetHeader", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.App("reqheader", x.c.Str, T(a[0])))
	})
	g("ShouldBindJSON", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		tgt := x.bindTarget(st, a[0])
		eof := func(s *State) *Outcome { return &Outcome{st: s, res: A{x.globalVal(s, "io", "EOF")}} }
		if st.gterm(p.Obj, "bodyread") == c.True {
			return []*Outcome{eof(st)}
		}
		st.gset(p.Obj, "bodyread", c.True)
		n := x.jsonName(tgt.Elem)
		empty, ok := c.Var("body_empty", c.Bool), c.Var("body_ok_"+n, c.Bool)
		s1, s2 := st.clone(), st.clone()
		s1.assume(empty)
		s2.assume(c.And(c.Not(empty), c.Not(ok)))
		err := &SymIface{T: c.Fresh("binderr", c.Any), St: errorType}
		s2.assume(c.Not(c.Eq(err.T, c.Nil())))
		s2.assume(c.Not(x.errIs(s2, err, x.globalVal(s2, "io", "EOF"))))
		x.storePtr(s2, tgt, x.freshVal(s2, tgt.Elem, "partial"))
		st.assume(c.And(c.Not(empty), ok))
		x.jsonMerge(st, tgt)
		return []*Outcome{eof(s1), {st: s2, res: A{err}}, {st: st, res: A{&IfaceV{}}}}
	})
	g("ShouldBindQuery", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		tgt := x.bindTarget(st, a[0])
		ok := c.Var("query_ok", c.Bool)
		s2 := st.clone()
		s2.assume(c.Not(ok))
		err := &SymIface{T: c.Fresh("binderr", c.Any), St: errorType}
		s2.assume(c.Not(c.Eq(err.T, c.Nil())))
		x.storePtr(s2, tgt, x.freshVal(s2, tgt.Elem, "partial"))
		st.assume(ok)
		x.queryMerge(st, tgt)
		return []*Outcome{{st: s2, res: A{err}}, {st: st, res: A{&IfaceV{}}}}
	})
	g("FileFromFS", func(x *Exec, st *State, fr *Frame, p *PtrV, a A, cc *ssa.CallCommon) []*Outcome {
		st.gset(p.Obj, "status", x.c.Fresh("filestatus", x.c.Int))
		x.ginBody(st, p.Obj, nil)
		return ret(st)
	})
	m["("+ginPkg+".ResponseWriter).Status"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, st.gterm(x.ginCtx, "status"))
	}
	m["("+ginPkg+".ResponseWriter).Written"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.c.Lt(x.c.IntV(0), st.gterm(x.ginCtx, "written")))
	}
	m["("+ginPkg+".ResponseWriter).WriteHeader"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		x.ginStatus(st, x.ginCtx, T(a[1]))
		return ret(st)
	}
	for _, n := range []string{"Write", "WriteString"} {
		m["("+ginPkg+".ResponseWriter)."+n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			x.ginBody(st, x.ginCtx, a[1])
			return ret(st, x.c.Fresh("nwritten", x.c.Int), &SymIface{T: x.c.Fresh("werr", x.c.Any), St: errorType})
		}
	}
	m["(*net/http.Request).Context"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		x.nonNil(st, a[0], "request")
		return ret(st, &SymIface{T: x.c.Var("@ctx:request", x.c.Any), St: cc.Signature().Results().At(0).Type()})
	}
	// --- metrics endpoint
	handler := func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, &SymIface{T: x.c.Var("@promhandler", x.c.Any), St: x.globType("net/http", "Handler")})
	}
	m[promPkg+"/promhttp.HandlerFor"] = handler
	m[promPkg+"/promhttp.InstrumentMetricHandler"] = handler
	m[promPkg+"/promhttp.Handler"] = handler
	m["(net/http.Handler).ServeHTTP"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		x.ginBody(st, x.ginCtx, a[0])
		return ret(st)
	}
	// --- metrics
	vec := func(kind string, plain bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			n, names := int64(0), Value(nil)
			if !plain {
				ls, ok := x.sliceElems(st, a[1])
				if !ok {
					x.unsupported(st, "label names")
				}
				n, names = int64(len(ls)), valueList(ls)
			}
			id := st.alloc(&Obj{Kind: "promvec", G: map[string]Value{"n": x.c.IntV(n), "names": names, "kind": x.c.StrV(kind)}})
			if plain {
				mid := st.alloc(&Obj{Kind: "metric", G: map[string]Value{"vec": x.c.IntV(int64(id)), "labels": valueList(nil), "kind": x.c.StrV(kind)}})
				return ret(st, &OpaqueV{Kind: "metric", Obj: mid})
			}
			return ret(st, &OpaqueV{Kind: "promvec", Obj: id})
		}
	}
	for k, n := range map[string]string{"counter": "Counter", "gauge": "Gauge", "histogram": "Histogram", "summary": "Summary"} {
		for _, p := range []string{promPkg + "/promauto.New", promPkg + ".New"} {
			m[p+n+"Vec"] = vec(k, false)
			m[p+n] = vec(k, true)
		}
		m["(*"+promPkg+"."+n+"Vec).WithLabelValues"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			o, ok := a[0].(*OpaqueV)
			ls, ok2 := x.sliceElems(st, a[1])
			if !ok || o.Kind != "promvec" || !ok2 {
				x.unsupported(st, "metric")
			}
			x.promLabels(st, o.Obj, ls)
			id := st.alloc(&Obj{Kind: "metric", G: map[string]Value{"vec": x.c.IntV(int64(o.Obj)), "labels": valueList(ls), "kind": x.c.StrV(k)}})
			return ret(st, &OpaqueV{Kind: "metric", Obj: id})
		}
		m["(*"+promPkg+"."+n+"Vec).With"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			o, ok := a[0].(*OpaqueV)
			mv, ok2 := a[1].(*MapV)
			if !ok || o.Kind != "promvec" || !ok2 || mv.Obj == 0 || st.obj(mv.Obj).Kind != "map" {
				x.unsupported(st, "metric")
			}
			names, _ := st.obj(o.Obj).G["names"].(valueList)
			mo := st.obj(mv.Obj)
			var ls []Value
			for _, n := range names {
				for i, k := range mo.MapK {
					if k == n {
						ls = append(ls, mo.MapV_[i])
					}
				}
			}
			if len(ls) != len(mo.MapK) {
				ls = append(ls, x.c.StrV(""), x.c.StrV("")) // names do not fit
			}
			x.promLabels(st, o.Obj, ls)
			id := st.alloc(&Obj{Kind: "metric", G: map[string]Value{"vec": x.c.IntV(int64(o.Obj)), "labels": valueList(ls), "kind": x.c.StrV(k)}})
			return ret(st, &OpaqueV{Kind: "metric", Obj: id})
		}
	}
	for _, i := range []string{"Counter", "Gauge", "Observer", "Histogram", "Summary"} {
		for _, op := range []string{"Add", "Inc", "Set", "Observe", "Dec", "Sub"} {
			o := op
			if op == "Inc" {
				o = "Add"
			}
			m["("+promPkg+"."+i+")."+op] = (*Exec)(nil).metricOp(o)
		}
	}

	// --- specification functions
	ctxObj := func(x *Exec, env *Env) *Obj {
		if x.ginCtx == 0 || env.st.obj(x.ginCtx).G["status"] == nil {
			x.specErr("no request was handled")
		}
		return env.st.obj(x.ginCtx)
	}
	specFuncs["status"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return ctxObj(x, env).G["status"] }
	specFuncs["responses"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return ctxObj(x, env).G["written"] }
	specFuncs["fullpath"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return ctxObj(x, env).G["fullpath"] }
	specFuncs["method"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return ctxObj(x, env).G["method"] }
	specFuncs["param"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.ginParam(env.st, x.ginCtx, x.evalTerm(env, n.Args[0]).Name)
	}
	bodyOf := func(x *Exec, env *Env, n *ast.CallExpr) (Value, types.Type) {
		t := x.specType(x.evalTerm(env, n.Args[0]).Name)
		i, ok := ctxObj(x, env).G["body"].(*IfaceV)
		if ok && i.Dyn != nil && types.Identical(deref(i.Dyn), t) {
			return i.V, t
		}
		return nil, t
	}
	specFuncs["bodyis"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		v, _ := bodyOf(x, env, n)
		if v == nil {
			return x.c.False
		}
		if _, ok := v.(*StructV); ok {
			return x.c.True
		}
		return x.c.Not(x.isNil(env.st, v))
	}
	specFuncs["body"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		v, t := bodyOf(x, env, n)
		if v == nil {
			return x.freshVal(env.st, types.NewPointer(t), "nobody")
		}
		return v
	}
	specFuncs["sent"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.jsonSent(env.st, x.specType(x.evalTerm(env, n.Args[0]).Name))
	}
	specFuncs["bodyempty"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return x.c.Var("body_empty", x.c.Bool) }
	specFuncs["bodyok"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.And(x.c.Not(x.c.Var("body_empty", x.c.Bool)), x.c.Var("body_ok_"+x.jsonName(x.specType(x.evalTerm(env, n.Args[0]).Name)), x.c.Bool))
	}
	specFuncs["queryok"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return x.c.Var("query_ok", x.c.Bool) }
	specFuncs["hasquery"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.Var("hasquery_"+x.evalTerm(env, n.Args[0]).Name, x.c.Bool)
	}
	specFuncs["query"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		t := x.specType("string")
		if len(n.Args) > 1 {
			t = x.specType(x.evalTerm(env, n.Args[1]).Name)
		}
		return x.c.Var("query_"+x.evalTerm(env, n.Args[0]).Name, x.sortOf(t))
	}
	specFuncs["durok"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.App("durok", x.c.Bool, x.evalTerm(env, n.Args[0]))
	}
	specFuncs["dur"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.App("dur", x.c.Int, x.evalTerm(env, n.Args[0]))
	}
	specFuncs["validutf8"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return x.validUTF8(x.evalTerm(env, n.Args[0])) }
	specFuncs["itoa"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		t := x.evalTerm(env, n.Args[0])
		if t.Op == OInt {
			return x.c.StrV(t.I.String())
		}
		return x.c.App("itoa", x.c.Str, t)
	}
	specFuncs["real"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.App("toreal", x.c.Real, x.evalTerm(env, n.Args[0]))
	}
	specFuncs["seconds"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.seconds(x.evalTerm(env, n.Args[0]))
	}
	// islabel(l, s): the label value used for the string s
	islabel := func(x *Exec, l, s *Term) *Term {
		c := x.c
		return c.And(x.validUTF8(l), c.Imp(x.validUTF8(s), c.Eq(l, s)))
	}
	sum := func(op string, value bool) specFn {
		return func(x *Exec, env *Env, n *ast.CallExpr) Value {
			c := x.c
			o, ok := x.eval(env, n.Args[0]).(*OpaqueV)
			if !ok || o.Obj == 0 {
				x.specErr("metric expected")
			}
			id := int64(o.Obj)
			if o.Kind == "metric" {
				id = env.st.obj(o.Obj).G["vec"].(*Term).I.Int64()
			}
			var want []*Term
			for _, a := range n.Args[1:] {
				want = append(want, x.evalTerm(env, a))
			}
			r := c.RatV(mustRat("0"))
			ri := c.IntV(0)
			for _, e := range env.st.events {
				if e.Kind != "metric."+op || e.Data["vec"].(*Term).I.Int64() != id {
					continue
				}
				cond := c.True
				if len(want) > 0 {
					ls, _ := e.Data["labels"].(valueList)
					if len(ls) != len(want) {
						x.specErr("number of labels")
					}
					for i, l := range ls {
						cond = c.And(cond, islabel(x, l.(*Term), want[i]))
					}
				}
				r = c.Add(r, c.Ite(cond, e.Data["value"].(*Term), c.RatV(mustRat("0"))))
				ri = c.Add(ri, c.Ite(cond, c.IntV(1), c.IntV(0)))
			}
			if value {
				return r
			}
			return ri
		}
	}
	specFuncs["counted"] = sum("Add", true)
	specFuncs["gauge"] = sum("Set", true)
	specFuncs["gauges"] = sum("Set", false)
	specFuncs["observed"] = sum("Observe", true)
	specFuncs["observations"] = sum("Observe", false)
}

// ginParam is a path parameter of the request.
func (x *Exec) ginParam(st *State, id int, name string) *Term {
	fp, ok := st.obj(id).G["pattern"].(*Term)
	if ok {
		for _, seg := range strings.Split(fp.Name, "/") {
			if seg == ":"+name || seg == "*"+name {
				return x.c.Var("param_"+name, x.c.Str)
			}
		}
	}
	return x.c.StrV("")
}
