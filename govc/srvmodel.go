package main

// HTTP servers, as their operator sees them. A server that listens has
// requests in flight until Shutdown has drained it; ListenAndServe returns as
// soon as Shutdown or Close begins, which may be long before Shutdown returns.

import (
	"fmt"
	"go/ast"

	"golang.org/x/tools/go/ssa"
)

func init() {
	m := libModels
	type A = []Value
	m["github.com/alexflint/go-arg.MustParse"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		x.havocd["github.com/alexflint/go-arg.MustParse"] = true
		es, ok := x.sliceElems(st, a[0].(*SliceV))
		if !ok {
			x.unsupported(st, "arguments of MustParse")
		}
		data := map[string]Value{}
		for i, e := range es {
			x.havocArg(st, e)
			if iv, ok := e.(*IfaceV); ok && iv.Dyn != nil {
				if p, ok := iv.V.(*PtrV); ok && p.Obj != 0 {
					data[fmt.Sprintf("a%d", i)] = x.loadPtr(st, p, p.Elem)
				}
			}
		}
		x.emit(st, &Event{Kind: "parsed", Data: data})
		return ret(st, x.freshVal(st, cc.Signature().Results().At(0).Type(), "parser"))
	}
	m["os.Exit"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		x.emit(st, &Event{Kind: "fatal", Data: map[string]Value{"args": valueList{}, "code": a[0]}})
		return nil
	}
	server := func(x *Exec, st *State, v Value) int {
		x.nonNil(st, v, "server"+x.where())
		p, ok := v.(*PtrV)
		if !ok || p.Obj == 0 || len(p.Path) > 0 {
			x.unsupported(st, "server of unknown origin")
		}
		if st.obj(p.Obj).G["srv"] == nil {
			st.gset(p.Obj, "srv", x.c.True)
			st.gset(p.Obj, "closed", x.c.False)
		}
		return p.Obj
	}
	const closedErr = "ErrServerClosed"
	// listen: the outcomes of serving with the server object id
	listen := func(x *Exec, st *State, id int) []*Outcome {
		c := x.c
		sentinel := x.globalVal(st, "net/http", closedErr)
		outcome := func(s *State, ok *Term, err Value) []*Outcome {
			x.now(s)
			x.emit(s, &Event{Kind: "served", Data: map[string]Value{"ok": ok, "err": err}})
			return ret(s, err)
		}
		closed := func(s *State) *Term { return s.obj(id).G["closed"].(*Term) }
		var outs []*Outcome
		// closed beforehand
		s0 := st.clone()
		s0.assume(closed(s0))
		if x.feasible(s0) {
			outs = append(outs, x.safe(s0, func() []*Outcome { return outcome(s0, c.False, sentinel) })...)
		}
		st.assume(c.Not(closed(st)))
		if !x.feasible(st) {
			return outs
		}
		x.emit(st, &Event{Kind: "listen", Data: map[string]Value{}})
		// failure to listen or to accept
		s1 := st.clone()
		outs = append(outs, x.safe(s1, func() []*Outcome {
			e := x.libErr(s1, "listen")
			s1.assume(c.Not(x.errIs(s1, e, sentinel)))
			return outcome(s1, c.False, e)
		})...)
		// serves until somebody closes it
		if len(st.threads) > 0 {
			s2 := st.clone()
			outs = append(outs, x.safe(s2, func() []*Outcome {
				x.emit(s2, &Event{Kind: "accept", Data: map[string]Value{}})
				return outcome(s2, c.True, sentinel)
			})...)
			s3 := st.clone()
			outs = append(outs, x.safe(s3, func() []*Outcome {
				x.emit(s3, &Event{Kind: "accept", Data: map[string]Value{}})
				return x.runThreads(s3, func(s *State) []*Outcome {
					if x.inThread == 0 {
						x.oblige(s, "deadlock-free", closed(s), "server that is never shut down"+x.where())
					}
					s.assume(closed(s))
					if !x.feasible(s) {
						return nil
					}
					return outcome(s, c.True, sentinel)
				})
			})...)
		} else if x.inThread == 0 {
			x.oblige(st, "deadlock-free", c.False, "server that is never shut down"+x.where())
		}
		return outs
	}
	for _, n := range []string{"ListenAndServe", "Serve", "ListenAndServeTLS", "ServeTLS"} {
		m["(*net/http.Server)."+n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			return listen(x, st, server(x, st, a[0]))
		}
	}
	for _, n := range []string{"ListenAndServe", "Serve", "ListenAndServeTLS", "ServeTLS"} {
		m["net/http."+n] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
			id := st.alloc(&Obj{Kind: "server", G: map[string]Value{"srv": x.c.True, "closed": x.c.False}})
			return listen(x, st, id)
		}
	}
	m["(*net/http.Server).Close"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		id := server(x, st, a[0])
		st.gset(id, "closed", x.c.True)
		x.emit(st, &Event{Kind: "closed", Data: map[string]Value{}})
		return ret(st, &SymIface{T: x.c.Fresh("closeerr", x.c.Any), St: errorType})
	}
	m["(*net/http.Server).RegisterOnShutdown"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		return ret(st)
	}
	m["(*net/http.Server).Shutdown"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		c := x.c
		id := server(x, st, a[0])
		t := x.ctxTerm(st, a[1])
		st.gset(id, "closed", c.True)
		x.now(st)
		if s := x.suspend(st); s != nil {
			x.emit(s, &Event{Kind: "shutdown", Data: map[string]Value{"drained": c.False}})
		}
		// Shutdown returns an error when the context ends before the requests
		// do, or when closing the listener fails.
		e := c.Fresh("shutdownerr", c.Any)
		drained := c.Fresh("drained", c.Bool)
		st.assume(c.Imp(c.Eq(e, c.Nil()), drained))
		if x.endless(t) {
			st.assume(drained)
		}
		x.emit(st, &Event{Kind: "shutdown", Data: map[string]Value{"drained": drained}})
		return ret(st, &SymIface{T: e, St: errorType})
	}
	m["(*github.com/gin-gonic/gin.Engine).Handler"] = func(x *Exec, st *State, fr *Frame, a A, cc *ssa.CallCommon) []*Outcome {
		e := &SymIface{T: x.c.Fresh("handler", x.c.Any), St: cc.Signature().Results().At(0).Type()}
		st.assume(x.c.Not(x.c.Eq(e.T, x.c.Nil())))
		return ret(st, e)
	}
	// threads(): the number of goroutines that may still run
	specFuncs["threads"] = func(x *Exec, env *Env, n *ast.CallExpr) Value {
		k := len(env.st.threads)
		if env.st.suspended {
			k++
		}
		return x.c.IntV(int64(k))
	}
}

// endless: a context that never ends.
func (x *Exec) endless(t *Term) bool { return t.Name == "@ctx:background" }
