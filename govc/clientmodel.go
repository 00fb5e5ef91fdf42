package main

// Contracts of net/http (client side), net/url, encoding/json and context, as
// far as the Go client uses them.

import (
	"go/ast"
	"go/types"
	"net/textproto"
	"net/url"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// urlParts are the components of a URL that are functions of its text.
var urlParts = []string{"Scheme", "Opaque", "Host", "Path", "RawPath", "RawQuery", "Fragment", "RawFragment"}

func (x *Exec) urlPart(part string, s *Term) *Term {
	if s.Op == OStr {
		if u, err := url.Parse(s.Name); err == nil {
			switch part {
			case "Scheme":
				return x.c.StrV(u.Scheme)
			case "Host":
				return x.c.StrV(u.Host)
			}
		}
	}
	return x.c.App("url"+part, x.c.Str, s)
}

// newURL is a parsed URL.
func (x *Exec) newURL(st *State, s *Term) *PtrV {
	ut := x.globType("net/url", "URL")
	sv := &StructV{T: ut, F: make([]Value, ut.Underlying().(*types.Struct).NumFields()), Lazy: x.lazyName("url")}
	for _, p := range urlParts {
		sv.F[fieldIndex(ut, p)] = x.urlPart(p, s)
	}
	id := st.alloc(&Obj{T: ut, Val: sv, G: map[string]Value{"text": s}})
	return &PtrV{Obj: id, Elem: ut}
}

// urlText is the text a URL was parsed from, if only its scheme and host were
// changed since.
func (x *Exec) urlText(st *State, v Value, origin bool) *Term {
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 || st.obj(p.Obj).G["text"] == nil {
		return nil
	}
	s := st.gterm(p.Obj, "text")
	sv := st.obj(p.Obj).Val.(*StructV)
	for _, n := range urlParts {
		if !origin && (n == "Scheme" || n == "Host") {
			continue
		}
		if x.field(st, sv, fieldIndex(sv.T, n)) != Value(x.urlPart(n, s)) {
			return nil
		}
	}
	return s
}

func (x *Exec) newHeader(st *State, m *Term) *MapV {
	ht := x.globType("net/http", "Header")
	id := st.alloc(&Obj{T: ht, Kind: "symmap", Name: "header", MArr: m})
	return &MapV{Obj: id, T: ht}
}

func (x *Exec) headerSort() *Sort {
	mt := x.globType("net/http", "Header").Underlying().(*types.Map)
	return x.c.ArrSort(x.c.Str, x.c.OptSort(x.sortOf(mt.Elem())))
}

// canonHeader is the canonical form of a header key.
func (x *Exec) canonHeader(st *State, k *Term) *Term {
	c := x.c
	if k.Op == OStr {
		return c.StrV(textproto.CanonicalMIMEHeaderKey(k.Name))
	}
	r := c.App("canonheader", c.Str, k)
	st.assume(c.Eq(c.App("canonheader", c.Str, r), r))
	return r
}

// reader resolves a request body.
func (x *Exec) reader(st *State, v Value) *OpaqueV {
	if i, ok := v.(*IfaceV); ok {
		v = i.V
	}
	if o, ok := v.(*OpaqueV); ok && o.Kind == "reader" {
		return o
	}
	return nil
}

// jsonEncoded is the content of a value as seen by the receiver.
func (x *Exec) jsonEncoded(st *State, v Value) Value {
	i, ok := v.(*IfaceV)
	if !ok || i.Dyn == nil {
		return v
	}
	r := x.snapshot(st, i.V, i.Dyn)
	t := deref(i.Dyn)
	if sv, ok := r.(*StructV); ok && x.sortOf(t) != nil {
		r = &BoxPtr{Opt: x.c.Some(x.toTerm(st, sv, t, false)), Elem: t}
	}
	// fields hidden from the encoder are not sent
	if u, ok := t.Underlying().(*types.Struct); ok {
		if b, ok := r.(*BoxPtr); ok {
			v := x.fromTerm(st, x.c.Val(b.Opt), t).(*StructV)
			sv := &StructV{T: t, F: append([]Value{}, v.F...)}
			drop := false
			for k := range sv.F {
				if _, skip := fieldTag(u, k, "json"); skip {
					sv.F[k] = x.zero(st, u.Field(k).Type())
					drop = true
				}
			}
			if drop {
				r = &BoxPtr{Opt: x.c.Ite(x.c.IsNone(b.Opt), b.Opt, x.c.Some(x.toTerm(st, sv, t, false))), Elem: t}
			}
		}
	}
	return &IfaceV{Dyn: i.Dyn, V: r, NilIf: i.NilIf}
}

// field of a library structure reached through a pointer
func (x *Exec) ptrField(st *State, v Value, name string) Value {
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 {
		return nil
	}
	sv, ok := x.loadPtr(st, p, p.Elem).(*StructV)
	if !ok {
		return nil
	}
	return x.field(st, sv, fieldIndex(sv.T, name))
}

// wireEvent records a request that leaves the process.
func (x *Exec) wireEvent(st *State, kind string, req Value, ctx Value) *Event {
	c := x.c
	d := map[string]Value{}
	u := x.ptrField(st, req, "URL")
	d["method"] = x.ptrField(st, req, "Method")
	if t := x.urlText(st, u, kind == "HTTP"); t != nil {
		d["target"] = t
		d["kept"] = c.True
	} else {
		d["target"] = c.Fresh("target", c.Str)
		d["kept"] = c.False
	}
	for _, n := range []string{"Scheme", "Host", "Path", "RawPath", "RawQuery"} {
		d[strings.ToLower(n)] = x.ptrField(st, u, n)
	}
	if h, ok := x.ptrField(st, req, "Header").(*MapV); ok && h.Obj != 0 && st.obj(h.Obj).MArr != nil {
		d["header"] = st.obj(h.Obj).MArr
	}
	if p, ok := req.(*PtrV); ok {
		d["request"] = x.c.IntV(int64(p.Obj))
		o := st.obj(p.Obj)
		d["ctx"] = o.G["ctx"]
		d["hasbody"] = c.False
		if b := x.reader(st, x.ptrField(st, req, "Body")); b != nil {
			d["hasbody"] = c.True
			bo := st.obj(b.Obj)
			if i, ok := bo.G["json"].(*IfaceV); ok {
				d["body"] = i.V
				d["bodytype"] = c.StrV(shortType(deref(i.Dyn)))
			}
		}
	}
	e := &Event{Kind: kind, Data: d}
	x.emit(st, e)
	return e
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// newResponse is a response of the server.
func (x *Exec) newResponse(st *State) Value {
	t := x.globType("net/http", "Response")
	sv := &StructV{T: t, F: make([]Value, t.Underlying().(*types.Struct).NumFields()), Lazy: x.lazyName("response")}
	code := x.c.Var("resp_status", x.c.Int)
	sv.F[fieldIndex(t, "StatusCode")] = code
	bid := st.alloc(&Obj{Kind: "respbody", G: map[string]Value{}})
	bt := t.Underlying().(*types.Struct).Field(fieldIndex(t, "Body")).Type()
	sv.F[fieldIndex(t, "Body")] = &IfaceV{Dyn: bt, V: &OpaqueV{Kind: "respbody", Obj: bid}}
	id := st.alloc(&Obj{T: t, Val: sv, Name: "response"})
	return &PtrV{Obj: id, Elem: t}
}

func init() {
	type A = []Value
	m := libModels
	modelPure("net/url.PathEscape")
	modelPure("net/url.QueryEscape")
	pure := func(lib, fn string) {
		specFuncs[fn] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
			var as []*Term
			for _, a := range n.Args {
				as = append(as, x.evalTerm(env, a))
			}
			return x.c.App("fn_"+sanitize(lib)+".0/1", x.c.Str, as...)
		}
	}
	pure("net/url.PathEscape", "pathescape")
	repl := func(x *Exec, s, a, b *Term) *Term {
		if s.Op == OStr && a.Op == OStr && b.Op == OStr {
			return x.c.StrV(strings.ReplaceAll(s.Name, a.Name, b.Name))
		}
		return x.c.App("replaceall", x.c.Str, s, a, b)
	}
	m["strings.ReplaceAll"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, repl(x, T(a[0]), T(a[1]), T(a[2])))
	}
	m["strings.Replace"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		if n := T(a[3]); n.Op == OInt && n.I.Sign() < 0 {
			return ret(st, repl(x, T(a[0]), T(a[1]), T(a[2])))
		}
		return ret(st, x.c.App("replacen", x.c.Str, T(a[0]), T(a[1]), T(a[2]), T(a[3])))
	}
	specFuncs["replaceall"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return repl(x, x.evalTerm(env, n.Args[0]), x.evalTerm(env, n.Args[1]), x.evalTerm(env, n.Args[2]))
	}
	// encoding/json
	marshal := func(x *Exec, st *State, v Value) []*Outcome {
		s2 := st.clone()
		id := st.alloc(&Obj{T: types.NewSlice(types.Typ[types.Byte]), Arr: x.c.Fresh("json", x.c.ArrSort(x.c.Int, x.c.Int)), ElemT: types.Typ[types.Byte], G: map[string]Value{"json": x.jsonEncoded(st, v)}})
		n := x.c.Fresh("jsonlen", x.c.Int)
		st.assume(x.c.Lt(x.c.IntV(0), n))
		x.emit(st, &Event{Kind: "encoded"})
		x.emit(s2, &Event{Kind: "unsendable"})
		return two(st, s2, A{&SliceV{Obj: id, Off: x.c.IntV(0), Len: n, Cap: n, Nil: x.c.False, T: types.NewSlice(types.Typ[types.Byte])}, &IfaceV{}}, A{&SliceV{T: types.NewSlice(types.Typ[types.Byte]), Off: x.c.IntV(0), Len: x.c.IntV(0), Cap: x.c.IntV(0)}, x.libErr(s2, "Marshal")})
	}
	m["encoding/json.Marshal"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return marshal(x, st, a[0])
	}
	// readers over encoded values
	mkReader := func(x *Exec, st *State, j Value) *OpaqueV {
		id := st.alloc(&Obj{Kind: "reader", G: map[string]Value{"json": j}})
		return &OpaqueV{Kind: "reader", Obj: id}
	}
	fromBytes := func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		s, ok := a[0].(*SliceV)
		if !ok || s.Obj == 0 || st.obj(s.Obj).G["json"] == nil {
			x.unsupported(st, "reader of these bytes")
		}
		return ret(st, mkReader(x, st, st.obj(s.Obj).G["json"]))
	}
	m["bytes.NewBuffer"] = fromBytes
	m["bytes.NewReader"] = fromBytes
	m["encoding/json.NewDecoder"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		i, ok := a[0].(*IfaceV)
		if !ok {
			x.unsupported(st, "decoder")
		}
		o, ok := i.V.(*OpaqueV)
		if !ok || o.Kind != "respbody" {
			x.unsupported(st, "decoder of something else than a response body")
		}
		id := st.alloc(&Obj{Kind: "jsondec", G: map[string]Value{"from": o}})
		return ret(st, &OpaqueV{Kind: "jsondec", Obj: id})
	}
	m["(*encoding/json.Decoder).Decode"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		o, ok := a[0].(*OpaqueV)
		if !ok || o.Kind != "jsondec" {
			x.unsupported(st, "decoder")
		}
		b := st.obj(o.Obj).G["from"].(*OpaqueV)
		if st.obj(b.Obj).G["read"] != nil || st.obj(b.Obj).G["closed"] != nil {
			x.unsupported(st, "response body read twice or after being closed")
		}
		st.gset(b.Obj, "read", x.c.True)
		p := x.bindTarget(st, a[1])
		ok2 := x.c.And(x.c.Not(x.c.Var("body_empty", x.c.Bool)), x.c.Var("body_ok_"+x.jsonName(p.Elem), x.c.Bool))
		s2 := st.clone()
		st.assume(ok2)
		s2.assume(x.c.Not(ok2))
		x.jsonMerge(st, p)
		// what was decoded before the error remains
		s2.mut(p.Obj)
		if len(p.Path) == 0 {
			s2.obj(p.Obj).Val = x.freshVal(s2, p.Elem, "partial")
		}
		return two(st, s2, A{&IfaceV{}}, A{x.libErr(s2, "Decode")})
	}
	m["io.Copy"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		n := x.c.Fresh("copied", x.c.Int)
		s2 := st.clone()
		return two(st, s2, A{n, &IfaceV{}}, A{n, x.libErr(s2, "Copy")})
	}
	closeBody := func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		if o, ok := a[0].(*OpaqueV); ok && o.Obj != 0 {
			st.gset(o.Obj, "closed", x.c.True)
		}
		return ret(st, &SymIface{T: x.c.Fresh("closeerr", x.c.Any), St: errorType})
	}
	m["(io.ReadCloser).Close"] = closeBody
	m["(io.Closer).Close"] = closeBody
	// net/url
	m["net/url.Parse"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		s := T(a[0])
		bad := x.c.App("urlbad", x.c.Bool, s)
		s2 := st.clone()
		st.assume(x.c.Not(bad))
		s2.assume(bad)
		return two(st, s2, A{x.newURL(st, s), &IfaceV{}}, A{&PtrV{Elem: x.globType("net/url", "URL")}, x.libErr(s2, "Parse")})
	}
	specFuncs["urlbad"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.c.App("urlbad", x.c.Bool, x.evalTerm(env, n.Args[0]))
	}
	for _, p := range urlParts {
		p := p
		specFuncs["url"+strings.ToLower(p)] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
			return x.urlPart(p, x.evalTerm(env, n.Args[0]))
		}
	}
	// net/http
	newReq := func(x *Exec, st *State, ctx, method, target, body Value) []*Outcome {
		s := T(target)
		s2 := st.clone()
		t := x.globType("net/http", "Request")
		sv := &StructV{T: t, F: make([]Value, t.Underlying().(*types.Struct).NumFields()), Lazy: x.lazyName("request")}
		set := func(f string, v Value) { sv.F[fieldIndex(t, f)] = v }
		set("Method", method)
		set("URL", x.newURL(st, s))
		set("Host", x.urlPart("Host", s))
		set("Header", x.newHeader(st, x.c.ConstArr(x.headerSort(), x.c.None(x.headerSort().Elem.Elem))))
		bt := t.Underlying().(*types.Struct).Field(fieldIndex(t, "Body")).Type()
		if r := x.reader(st, body); r != nil {
			set("Body", &IfaceV{Dyn: bt, V: r})
		} else if i, ok := body.(*IfaceV); ok && i.Dyn == nil {
			set("Body", &IfaceV{})
		} else {
			x.unsupported(st, "request body")
		}
		id := st.alloc(&Obj{T: t, Val: sv, Name: "request", G: map[string]Value{"ctx": ctx}})
		x.emit(s2, &Event{Kind: "unsendable"})
		return two(st, s2, A{&PtrV{Obj: id, Elem: t}, &IfaceV{}}, A{&PtrV{Elem: t}, x.libErr(s2, "NewRequest")})
	}
	m["net/http.NewRequestWithContext"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return newReq(x, st, a[0], a[1], a[2], a[3])
	}
	m["net/http.NewRequest"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return newReq(x, st, &SymIface{T: x.c.Var("@ctx:background", x.c.Any), St: x.globType("context", "Context")}, a[0], a[1], a[2])
	}
	m["net/http.CanonicalHeaderKey"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, x.canonHeader(st, T(a[0])))
	}
	m["net/textproto.CanonicalMIMEHeaderKey"] = m["net/http.CanonicalHeaderKey"]
	hdr := func(x *Exec, st *State, v Value) *MapV {
		h, ok := v.(*MapV)
		if !ok || h.Obj == 0 || st.obj(h.Obj).MArr == nil {
			x.unsupported(st, "header")
		}
		return h
	}
	hv := func(x *Exec, st *State, vs ...*Term) Value {
		et := types.NewSlice(types.Typ[types.String])
		av := &ArrayV{T: types.NewArray(types.Typ[types.String], int64(len(vs)))}
		for _, v := range vs {
			av.E = append(av.E, v)
		}
		id := st.alloc(&Obj{T: av.T, Val: av})
		n := x.c.IntV(int64(len(vs)))
		return &SliceV{Obj: id, Off: x.c.IntV(0), Len: n, Cap: n, Nil: x.c.False, T: et}
	}
	m["(net/http.Header).Set"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		h := hdr(x, st, a[0])
		x.mapSet(st, h, x.canonHeader(st, T(a[1])), hv(x, st, T(a[2])))
		return ret(st)
	}
	m["(net/http.Header).Add"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		h := hdr(x, st, a[0])
		k := x.canonHeader(st, T(a[1]))
		opt := x.c.Select(st.obj(h.Obj).MArr, k)
		s2 := st.clone()
		st.assume(x.c.IsNone(opt))
		x.mapSet(st, h, k, hv(x, st, T(a[2])))
		s2.assume(x.c.IsSome(opt))
		s2.mut(h.Obj).MArr = x.c.Store(st.obj(h.Obj).MArr, k, x.c.Some(x.c.Fresh("added", opt.Sort.Elem)))
		return two(st, s2, A{}, A{})
	}
	m["(net/http.Header).Del"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		h := hdr(x, st, a[0])
		o := st.obj(h.Obj)
		st.mut(h.Obj).MArr = x.c.Store(o.MArr, x.canonHeader(st, T(a[1])), x.c.None(o.MArr.Sort.Elem.Elem))
		return ret(st)
	}
	get := func(x *Exec, st *State, h *MapV, k *Term) *Term {
		opt := x.c.Select(st.obj(h.Obj).MArr, k)
		s := x.c.Val(opt)
		ct := s.Sort.Ctors[0]
		return x.c.Ite(x.c.And(x.c.IsSome(opt), x.c.Lt(x.c.IntV(0), x.c.Sel(ct, 0, s))), x.c.Select(x.c.Sel(ct, 1, s), x.c.IntV(0)), x.c.StrV(""))
	}
	m["(net/http.Header).Get"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st, get(x, st, hdr(x, st, a[0]), x.canonHeader(st, T(a[1]))))
	}
	m["(net/http.Header).Values"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		h := hdr(x, st, a[0])
		opt := x.c.Select(st.obj(h.Obj).MArr, x.canonHeader(st, T(a[1])))
		et := types.NewSlice(types.Typ[types.String])
		s2 := st.clone()
		st.assume(x.c.IsSome(opt))
		s2.assume(x.c.IsNone(opt))
		return two(st, s2, A{x.fromTerm(st, x.c.Val(opt), et)}, A{x.zero(s2, et)})
	}
	specFuncs["canonheader"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		return x.canonHeader(env.st, x.evalTerm(env, n.Args[0]))
	}
	headers := func(x *Exec, env *Env, e ast.Expr) *Term {
		switch v := x.eval(env, e).(type) {
		case *Term:
			return v
		case *MapV:
			if v.Obj == 0 {
				return nil
			}
			return env.st.obj(v.Obj).MArr
		}
		x.specErr("map expected")
		return nil
	}
	// haskey(m, k), at(m, k): content of a map
	specFuncs["haskey"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		h := headers(x, env, n.Args[0])
		if h == nil {
			return x.c.False
		}
		return x.c.IsSome(x.c.Select(h, x.evalTerm(env, n.Args[1])))
	}
	specFuncs["at"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		h := headers(x, env, n.Args[0])
		if h == nil {
			x.specErr("content of a nil map")
		}
		return x.c.Val(x.c.Select(h, x.evalTerm(env, n.Args[1])))
	}
	// first(m, k): first value of a header
	specFuncs["first"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		h := headers(x, env, n.Args[0])
		if h == nil || h.Sort.Elem.Elem == nil || len(h.Sort.Elem.Elem.Ctors) != 1 {
			x.specErr("map of lists expected")
		}
		s := x.c.Val(x.c.Select(h, x.evalTerm(env, n.Args[1])))
		return x.c.Select(x.c.Sel(s.Sort.Ctors[0], 1, s), x.c.IntV(0))
	}
	specFuncs["values"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		h := headers(x, env, n.Args[0])
		if h == nil || h.Sort.Elem.Elem == nil || len(h.Sort.Elem.Elem.Ctors) != 1 {
			x.specErr("map of lists expected")
		}
		s := x.c.Val(x.c.Select(h, x.evalTerm(env, n.Args[1])))
		return x.c.Sel(s.Sort.Ctors[0], 0, s)
	}
	specFuncs["mapsize"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		h := headers(x, env, n.Args[0])
		if h == nil {
			return x.c.IntV(0)
		}
		return x.c.App("mapsize", x.c.Int, h)
	}
	specFuncs["mapkey"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		h := headers(x, env, n.Args[0])
		if h == nil {
			x.specErr("key of a nil map")
		}
		return x.c.App("mapkey", h.Sort.Key, h, x.evalTerm(env, n.Args[1]))
	}
	// Clone copies the settings of a transport.
	m["(*net/http.Transport).Clone"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		t := x.globType("net/http", "Transport")
		id := st.alloc(&Obj{T: t, Val: x.freshVal(st, t, "transport"), Name: "transport"})
		return ret(st, &PtrV{Obj: id, Elem: t})
	}
	trip := func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		e := x.wireEvent(st, "wire", a[1], nil)
		s2 := st.clone()
		e2 := *e
		e2.Data = map[string]Value{}
		for k, v := range e.Data {
			e2.Data[k] = v
		}
		e.Data["failed"], e2.Data["failed"] = x.c.False, x.c.True
		s2.events = append(append([]*Event{}, s2.events[:len(s2.events)-1]...), &e2)
		return two(st, s2, A{x.newResponse(st), &IfaceV{}}, A{&PtrV{Elem: x.globType("net/http", "Response")}, x.libErr(s2, "RoundTrip")})
	}
	m["(net/http.RoundTripper).RoundTrip"] = trip
	m["(*net/http.Transport).RoundTrip"] = trip
	m["(*net/http.Client).Do"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		x.nonNil(st, a[1], "request of Do")
		if tr, ok := x.ptrField(st, a[0], "Transport").(*IfaceV); ok && tr.Dyn != nil {
			// the transport handles the request
			rt := x.globType("net/http", "RoundTripper").Underlying().(*types.Interface)
			obj := rt.Method(0)
			if fn := x.prog.prog.LookupMethod(tr.Dyn, obj.Pkg(), "RoundTrip"); fn != nil {
				return x.callStatic(st, fr, fn, A{tr.V, a[1]}, nil, cc)
			}
		}
		e := x.wireEvent(st, "HTTP", a[1], nil)
		s2 := st.clone()
		e2 := *e
		e2.Data = map[string]Value{}
		for k, v := range e.Data {
			e2.Data[k] = v
		}
		e.Data["failed"], e2.Data["failed"] = x.c.False, x.c.True
		s2.events = append(append([]*Event{}, s2.events[:len(s2.events)-1]...), &e2)
		return two(st, s2, A{x.newResponse(st), &IfaceV{}}, A{&PtrV{Elem: x.globType("net/http", "Response")}, x.libErr(s2, "Do")})
	}
	specFuncs["respstatus"] = func(x *Exec, env *Env, n *ast.CallExpr) Value { return x.c.Var("resp_status", x.c.Int) }
	// context
	with := func(kind string) modelFn {
		return func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			ctx := x.newCtx(st, a[0])
			d := map[string]Value{"parent": a[0], "ctx": ctx}
			if kind == "bounded" {
				d["until"] = T(a[1])
				if isNamed(cc.Args[1].Type(), "time.Duration") {
					d["until"] = x.c.Add(x.now(st), T(a[1]))
				}
			}
			x.emit(st, &Event{Kind: kind, Data: d})
			cid := st.alloc(&Obj{Kind: "cancel", G: map[string]Value{"ctx": ctx}})
			return ret(st, ctx, &FuncV{Name: "cancel", Recv: &OpaqueV{Kind: "cancel", Obj: cid}})
		}
	}
	m["context.WithTimeout"] = with("bounded")
	m["context.WithDeadline"] = with("bounded")
	m["context.WithCancel"] = with("cancelable")
	m["cancel"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		x.emit(st, &Event{Kind: "cancel", Data: map[string]Value{}})
		return ret(st)
	}
}
