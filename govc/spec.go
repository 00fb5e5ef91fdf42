package main

// Contract files and the evaluation of specification expressions.

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func mustBig(s string) *big.Int {
	i, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad integer " + s)
	}
	return i
}

var errorType = types.Universe.Lookup("error").Type()

type Clause struct {
	Name  string
	Props []string
	Expr  ast.Expr
	Src   string
}

type anyDecl struct{ Name, Type string }

type Contract struct {
	Fn             string
	Short          string
	Params         []string
	Results        []string
	Any            []anyDecl
	Requires       []*Clause
	Trusts         []*eventClause // what an event is trusted to establish
	Ensures        []*Clause
	Defines        []*Clause // ghost postconditions: they define ghost predicates
	Hints          []*Clause
	Kinds          map[string][]string
	Opts           map[string]string
	Ghosts         []*ghostDecl
	Sets           []*eventClause
	Ons            []*eventClause
	Abstract       map[string]*abstractDecl
	File           string
	Line           int
	callByContract bool
}

type pkgInfo struct {
	kinds map[string][]string
}

type Define struct {
	Params []string
	Body   ast.Expr
}

type Rec struct {
	Name   string
	Params []string
	Res    string
	Init   ast.Expr
	Step   ast.Expr
	Mono   bool // never decreases with its last argument (proved by induction)
}

var keywords = map[string]bool{"package": true, "func": true, "any": true, "requires": true, "assume": true, "trust": true, "ensures": true, "hint": true, "define": true, "rec": true, "mono": true, "default": true, "kind": true, "opaque": true, "defines": true, "opt": true, "note": true, "ghost": true, "set": true, "on": true, "abstract": true}

func (p *Prog) readContracts(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := p.readContractFile(f); err != nil {
			return err
		}
	}
	return nil
}

type specLine struct {
	kw, text string
	line     int
}

func (p *Prog) readContractFile(file string) error {
	f, err := os.Open(file)
	if err != nil {
		return err
	}
	defer f.Close()
	var ls []specLine
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	n := 0
	for sc.Scan() {
		n++
		t := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(t, "//@") {
			continue
		}
		t = strings.TrimSpace(strings.TrimPrefix(t, "//@"))
		if t == "" {
			continue
		}
		kw, rest, _ := strings.Cut(t, " ")
		if keywords[kw] {
			ls = append(ls, specLine{kw, strings.TrimSpace(rest), n})
		} else {
			if len(ls) == 0 {
				return fmt.Errorf("%s:%d: continuation without clause", file, n)
			}
			ls[len(ls)-1].text += " " + t
		}
	}
	pkg := ""
	kinds := map[string][]string{}
	var ct *Contract
	for _, l := range ls {
		bad := func(e any) error { return fmt.Errorf("%s:%d: %v", filepath.Base(file), l.line, e) }
		switch l.kw {
		case "package":
			pkg = l.text
			kinds = map[string][]string{}
		case "default":
			fl := strings.Fields(l.text)
			kinds[fl[0]] = fl[1:]
		case "define":
			h, b, ok := strings.Cut(l.text, "=")
			if !ok {
				return bad("define")
			}
			m := regexp.MustCompile(`^\s*(\w+)\((.*)\)\s*$`).FindStringSubmatch(h)
			if m == nil {
				return bad("define header " + h)
			}
			e, err := parseSpec(b)
			if err != nil {
				return bad(err)
			}
			p.defs[m[1]] = &Define{Params: splitList(m[2]), Body: e}
		case "rec":
			m := regexp.MustCompile(`^(\w+)\(([^)]*)\)\s*(\S+)\s*:(.*?);(.*)$`).FindStringSubmatch(l.text)
			if m == nil {
				return bad("rec")
			}
			i, err := parseSpec(m[4])
			if err != nil {
				return bad(err)
			}
			s, err := parseSpec(m[5])
			if err != nil {
				return bad(err)
			}
			p.recs[m[1]] = &Rec{Name: m[1], Params: splitList(m[2]), Res: m[3], Init: i, Step: s}
		case "mono":
			if p.recs[l.text] == nil {
				return bad("mono " + l.text)
			}
			p.recs[l.text].Mono = true
		case "func":
			text, variant := l.text, ""
			if vm := regexp.MustCompile(`^([^(\[]*)\[([^\]]*)\](.*)$`).FindStringSubmatch(text); vm != nil {
				// one of several contracts of the function
				text, variant = vm[1]+vm[3], vm[2]
			}
			m := regexp.MustCompile(`^(.*?)\(([^()]*)\)\s*(\(([^()]*)\))?\s*$`).FindStringSubmatch(text)
			if m == nil {
				return bad("func")
			}
			name := strings.TrimSpace(m[1])
			full := ""
			switch {
			case strings.HasPrefix(name, "(*"):
				full = "(*" + pkg + "." + name[2:]
			case strings.HasPrefix(name, "("):
				full = "(" + pkg + "." + name[1:]
			default:
				full = pkg + "." + name
			}
			base := pkg[strings.LastIndex(pkg, "/")+1:]
			short := base + "." + strings.NewReplacer("(", "", ")", "", "*", "").Replace(name)
			ct = &Contract{Fn: full, Short: short, Params: splitList(m[2]), Results: splitList(m[4]), Kinds: map[string][]string{}, Opts: map[string]string{}, File: filepath.Base(file), Line: l.line}
			for k, v := range kinds {
				ct.Kinds[k] = v
			}
			key := full
			if variant != "" {
				ct.Short += "[" + variant + "]"
				key += "[" + variant + "]"
			}
			if p.contracts[key] != nil {
				return bad("duplicate contract for " + key)
			}
			p.contracts[key] = ct
			p.order = append(p.order, ct)
		case "any":
			a, b, _ := strings.Cut(l.text, " ")
			ct.Any = append(ct.Any, anyDecl{a, strings.TrimSpace(b)})
		case "requires", "assume":
			e, err := parseSpec(l.text)
			if err != nil {
				return bad(err)
			}
			ct.Requires = append(ct.Requires, &Clause{Name: l.kw, Expr: e, Src: l.text})
		case "hint":
			e, err := parseSpec(l.text)
			if err != nil {
				return bad(err)
			}
			ct.Hints = append(ct.Hints, &Clause{Expr: e, Src: l.text})
		case "defines":
			e, err := parseSpec(l.text)
			if err != nil {
				return bad(err)
			}
			ct.Defines = append(ct.Defines, &Clause{Expr: e, Src: l.text})
		case "ensures":
			h, b, ok := strings.Cut(l.text, ":")
			if !ok {
				return bad("ensures needs 'props name: expr'")
			}
			fl := strings.Fields(h)
			if len(fl) < 2 {
				return bad("ensures needs props and a name")
			}
			e, err := parseSpec(b)
			if err != nil {
				return bad(err)
			}
			ct.Ensures = append(ct.Ensures, &Clause{Props: fl[:len(fl)-1], Name: fl[len(fl)-1], Expr: e, Src: strings.TrimSpace(b)})
		case "ghost":
			h, b, ok := strings.Cut(l.text, "=")
			fl := strings.Fields(h)
			if !ok || len(fl) < 2 {
				return bad("ghost needs '[local] name type = expr'")
			}
			g := &ghostDecl{}
			if fl[0] == "local" {
				g.Local = true
				fl = fl[1:]
			}
			g.Name, g.Type = fl[0], fl[1]
			e, err := parseSpec(b)
			if err != nil {
				return bad(err)
			}
			g.Init = &Clause{Expr: e, Src: strings.TrimSpace(b)}
			ct.Ghosts = append(ct.Ghosts, g)
		case "set":
			h, b, ok := strings.Cut(l.text, "=")
			fl := strings.Fields(h)
			if !ok || len(fl) != 2 {
				return bad("set needs 'event name = expr'")
			}
			e, err := parseSpec(b)
			if err != nil {
				return bad(err)
			}
			ct.Sets = append(ct.Sets, &eventClause{Kind: fl[0], Clause: &Clause{Name: fl[1], Expr: e, Src: strings.TrimSpace(b)}})
		case "on":
			h, b, ok := strings.Cut(l.text, ":")
			fl := strings.Fields(h)
			if !ok || len(fl) < 3 {
				return bad("on needs 'event props name: expr'")
			}
			e, err := parseSpec(b)
			if err != nil {
				return bad(err)
			}
			ct.Ons = append(ct.Ons, &eventClause{Kind: fl[0], Clause: &Clause{Props: fl[1 : len(fl)-1], Name: fl[len(fl)-1], Expr: e, Src: strings.TrimSpace(b)}})
		case "trust":
			k, b, _ := strings.Cut(l.text, ":")
			e, err := parseSpec(b)
			if err != nil {
				return bad(err)
			}
			ct.Trusts = append(ct.Trusts, &eventClause{Kind: strings.TrimSpace(k), Clause: &Clause{Name: "trust", Expr: e, Src: strings.TrimSpace(b)}})
		case "abstract":
			fl := strings.Fields(l.text)
			if len(fl) < 2 {
				return bad("abstract needs 'function event'")
			}
			d := &abstractDecl{Event: fl[1], Names: map[string]bool{}}
			for _, n := range fl[2:] {
				d.Names[n] = true
			}
			if ct.Abstract == nil {
				ct.Abstract = map[string]*abstractDecl{}
			}
			ct.Abstract[fl[0]] = d
		case "kind":
			fl := strings.Fields(l.text)
			ct.Kinds[fl[0]] = fl[1:]
			if len(fl) == 2 && fl[1] == "-" {
				ct.Kinds[fl[0]] = nil
			}
		case "opaque":
			ct.callByContract = true
		case "opt":
			k, v, _ := strings.Cut(l.text, " ")
			ct.Opts[k] = strings.TrimSpace(v)
		}
	}
	return nil
}

func splitList(s string) []string {
	var r []string
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f != "" {
			r = append(r, f)
		}
	}
	return r
}

// parseSpec parses an expression with implications (==>, <==>) and $ variables.
func parseSpec(s string) (ast.Expr, error) {
	s = strings.ReplaceAll(s, "$", "meta_")
	r, err := rewriteImp(s)
	if err != nil {
		return nil, err
	}
	e, err := parser.ParseExpr(r)
	if err != nil {
		return nil, fmt.Errorf("%v in %s", err, s)
	}
	return e, nil
}

func rewriteImp(s string) (string, error) {
	// rewrite nested groups first
	var out strings.Builder
	i := 0
	for i < len(s) {
		ch := s[i]
		if ch == '"' || ch == '`' || ch == '\'' {
			j := i + 1
			for j < len(s) && s[j] != ch {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return "", fmt.Errorf("unterminated literal in %s", s)
			}
			out.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if ch == '(' || ch == '[' || ch == '{' {
			cl := map[byte]byte{'(': ')', '[': ']', '{': '}'}[ch]
			d := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '"' {
					for j++; j < len(s) && s[j] != '"'; j++ {
						if s[j] == '\\' {
							j++
						}
					}
					continue
				}
				if s[j] == '(' || s[j] == '[' || s[j] == '{' {
					d++
				}
				if s[j] == ')' || s[j] == ']' || s[j] == '}' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				return "", fmt.Errorf("unbalanced %q", s)
			}
			var parts []string
			for _, a := range topSplit(s[i+1:j], ",") {
				r, err := rewriteImp(a)
				if err != nil {
					return "", err
				}
				parts = append(parts, r)
			}
			out.WriteByte(ch)
			out.WriteString(strings.Join(parts, ","))
			out.WriteByte(cl)
			i = j + 1
			continue
		}
		out.WriteByte(ch)
		i++
	}
	t := out.String()
	if ps := topSplit(t, "<==>"); len(ps) == 2 {
		a, err := rewriteImp(ps[0])
		if err != nil {
			return "", err
		}
		b, err := rewriteImp(ps[1])
		if err != nil {
			return "", err
		}
		return "iff((" + a + "),(" + b + "))", nil
	}
	if ps := topSplit(t, "==>"); len(ps) > 1 {
		r := strings.TrimSpace(ps[len(ps)-1])
		for k := len(ps) - 2; k >= 0; k-- {
			r = "imp((" + strings.TrimSpace(ps[k]) + "),(" + r + "))"
		}
		return r, nil
	}
	return t, nil
}

// topSplit splits at a separator outside of brackets and literals.
func topSplit(s, sep string) []string {
	var out []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
			continue
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && strings.HasPrefix(s[i:], sep) {
			if sep == "==>" && i > 0 && s[i-1] == '<' {
				continue
			}
			out = append(out, s[last:i])
			last = i + len(sep)
			i += len(sep) - 1
		}
	}
	return append(out, s[last:])
}

// --- units ---

type Unit struct {
	Name    string
	target  string
	ct      *Contract
	fn      *ssa.Function
	trivial int
	only    string // property being checked; "" for all
}

func (u *Unit) props() map[string]bool {
	m := map[string]bool{}
	for _, e := range u.ct.Ensures {
		for _, p := range e.Props {
			m[p] = true
		}
	}
	for _, e := range u.ct.Ons {
		for _, p := range e.Props {
			m[p] = true
		}
	}
	for _, ps := range u.ct.Kinds {
		for _, p := range ps {
			m[p] = true
		}
	}
	return m
}

func (u *Unit) propsFor(kind string) []string {
	var ps []string
	if kind == "supported" || kind == "precondition" || kind == "lemma" {
		for p := range u.props() {
			ps = append(ps, p)
		}
		sort.Strings(ps)
	} else {
		ps = u.ct.Kinds[kind]
	}
	return u.filter(ps)
}

func (u *Unit) filter(ps []string) []string {
	if u.only == "" {
		return ps
	}
	for _, p := range ps {
		if p == u.only {
			return []string{p}
		}
	}
	return nil
}

// --- evaluation ---

type Env struct {
	vars  map[string]Value
	old   *State
	st    *State
	ghost func(name string) Value
}

func (e *Env) with(n string, v Value) *Env {
	m := &Env{vars: make(map[string]Value, len(e.vars)+1), old: e.old, st: e.st, ghost: e.ghost}
	for k, x := range e.vars {
		m.vars[k] = x
	}
	m.vars[n] = v
	return m
}

// specErr is an error in a specification (or a specification that does not
// apply to the code as it is now).
func (x *Exec) specErr(format string, a ...any) {
	panic(unsup{"specification: " + fmt.Sprintf(format, a...)})
}

func (x *Exec) evalBool(env *Env, e ast.Expr) *Term {
	v := x.eval(env, e)
	t, ok := v.(*Term)
	if !ok || t.Sort != x.c.Bool {
		x.specErr("not a truth value: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

type nilV struct{}

func (x *Exec) evalTerm(env *Env, e ast.Expr) *Term {
	v := x.scalar(env, x.eval(env, e))
	return v
}

// scalar strips pointers off a value.
func (x *Exec) scalar(env *Env, v Value) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case *BoxPtr:
		return x.scalar(env, x.fromTerm(env.st, x.c.Val(p.Opt), p.Elem))
	case *PtrV:
		if p.Obj == 0 {
			x.specErr("value of a nil pointer")
		}
		return x.scalar(env, x.loadPtr(env.st, p, p.Elem))
	}
	x.specErr("scalar expected, have %T", v)
	return nil
}

// derefSpec strips pointers down to a structure.
func (x *Exec) derefSpec(env *Env, v Value) Value {
	switch p := v.(type) {
	case *BoxPtr:
		return x.derefSpec(env, x.fromTerm(env.st, x.c.Val(p.Opt), p.Elem))
	case *PtrV:
		if p.Obj == 0 {
			// the value of a nil pointer is arbitrary
			return x.derefSpec(env, x.freshVal(env.st, p.Elem, "nilvalue"))
		}
		return x.derefSpec(env, x.loadPtr(env.st, p, p.Elem))
	case *IfaceV:
		if p.Dyn == nil {
			x.specErr("field of nil interface")
		}
		return x.derefSpec(env, p.V)
	}
	return v
}

func (x *Exec) eval(env *Env, e ast.Expr) Value {
	c := x.c
	st := env.st
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.eval(env, n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			return c.BigV(mustBig(n.Value))
		case token.STRING:
			return c.StrV(constant.StringVal(constant.MakeFromLiteral(n.Value, token.STRING, 0)))
		case token.CHAR:
			v, _ := constant.Int64Val(constant.MakeFromLiteral(n.Value, token.CHAR, 0))
			return c.IntV(v)
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			return c.True
		case "false":
			return c.False
		case "nil":
			return nilV{}
		}
		if v, ok := env.vars[n.Name]; ok {
			return v
		}
		if env.ghost != nil {
			if v := env.ghost(n.Name); v != nil {
				return v
			}
		}
		if d := x.prog.defs[n.Name]; d != nil && len(d.Params) == 0 {
			return x.eval(env, d.Body)
		}
		x.specErr("unknown name %s", n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return c.Not(x.evalBool(env, n.X))
		case token.SUB:
			return c.Neg(x.evalTerm(env, n.X))
		}
	case *ast.StarExpr:
		return x.derefSpec(env, x.eval(env, n.X))
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			a := x.evalBool(env, n.X)
			if a == c.False {
				return a
			}
			return c.And(a, x.evalBool(env, n.Y))
		case token.LOR:
			a := x.evalBool(env, n.X)
			if a == c.True {
				return a
			}
			return c.Or(a, x.evalBool(env, n.Y))
		case token.EQL:
			return x.eqSpec(env, x.eval(env, n.X), x.eval(env, n.Y))
		case token.NEQ:
			return c.Not(x.eqSpec(env, x.eval(env, n.X), x.eval(env, n.Y)))
		}
		a, b := x.evalTerm(env, n.X), x.evalTerm(env, n.Y)
		switch n.Op {
		case token.ADD:
			if a.Sort == c.Str {
				return c.Cat(a, b)
			}
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.Sort == c.Str {
				a, b = c.SRank(a), c.SRank(b)
			}
			switch n.Op {
			case token.LSS:
				return c.Lt(a, b)
			case token.LEQ:
				return c.Le(a, b)
			case token.GTR:
				return c.Lt(b, a)
			}
			return c.Le(b, a)
		}
	case *ast.IndexExpr:
		v := x.eval(env, n.X)
		i := x.evalTerm(env, n.Index)
		switch s := v.(type) {
		case *SliceV:
			return x.specIndex(env, s, i)
		case *Term:
			if s.Sort.Kind == kArray {
				return c.Select(s, i)
			}
		case TupleV:
			if i.Op == OInt {
				return s[i.I.Int64()]
			}
		}
		x.specErr("index of %T", v)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, bound := env.vars[id.Name]; !bound {
				if v, ok := x.pkgMember(st, id.Name, n.Sel.Name); ok {
					return v
				}
			}
		}
		v := x.derefSpec(env, x.eval(env, n.X))
		if ev, ok := v.(*EventV); ok {
			if d, ok := ev.e.Data[n.Sel.Name]; ok {
				return d
			}
			x.specErr("event %s has no %s", ev.e.Kind, n.Sel.Name)
		}
		if s, ok := v.(*StructV); ok {
			if i := fieldIndex(s.T, n.Sel.Name); i >= 0 {
				return x.field(st, s, i)
			}
			x.specErr("no field %s in %s", n.Sel.Name, s.T)
		}
		if o, ok := v.(*OpaqueV); ok && o.Obj != 0 {
			if g := st.obj(o.Obj).G[n.Sel.Name]; g != nil {
				return g
			}
		}
		x.specErr("field %s of %T", n.Sel.Name, v)
	case *ast.CallExpr:
		return x.evalCall(env, n)
	}
	x.specErr("expression %s", exprStr(e))
	return nil
}

func fieldIndex(t types.Type, name string) int {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// pkgMember resolves pkg.Name to a constant or variable.
func (x *Exec) pkgMember(st *State, pkg, name string) (Value, bool) {
	p := x.prog.pkgByName(pkg)
	if p == nil {
		return nil, false
	}
	o := p.Scope().Lookup(name)
	switch m := o.(type) {
	case *types.Const:
		return x.constVal(st, m.Val(), m.Type()), true
	case *types.Var:
		if sp := x.prog.prog.ImportedPackage(p.Path()); sp != nil {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				pv := x.global_(st, g).(*PtrV)
				return x.loadPtr(st, pv, pv.Elem), true
			}
		}
	}
	return nil, false
}

func (x *Exec) specIndex(env *Env, s *SliceV, i *Term) Value {
	c := x.c
	et := s.T.Underlying().(*types.Slice).Elem()
	if s.Obj == 0 {
		return x.freshVal(env.st, et, "outofrange")
	}
	o := env.st.obj(s.Obj)
	k := c.Add(s.Off, i)
	if o.Arr == nil {
		if k.Op == OInt {
			a := o.Val.(*ArrayV)
			if j := k.I.Int64(); j >= 0 && j < int64(len(a.E)) {
				return a.E[j]
			}
			return x.freshVal(env.st, et, "outofrange")
		}
		if x.sortOf(et) == nil {
			x.specErr("index into slice of %s", et)
		}
		return x.fromTerm(env.st, c.Select(x.sliceArr(env.st, s, false), i), et)
	}
	if x.sortOf(et) == nil {
		x.specErr("index into slice of %s", et)
	}
	return x.fromTerm(env.st, c.Select(o.Arr, k), et)
}

// eqSpec compares by content.
func (x *Exec) eqSpec(env *Env, a, b Value) *Term {
	c := x.c
	if _, ok := a.(nilV); ok {
		a, b = b, a
	}
	if _, ok := b.(nilV); ok {
		if _, ok := a.(nilV); ok {
			return c.True
		}
		return x.isNil(env.st, a)
	}
	if oa, ok := a.(*OpaqueV); ok {
		if ob, ok := b.(*OpaqueV); ok {
			if oa.Obj == ob.Obj {
				return c.True
			}
			return c.And(x.isNil(env.st, a), x.isNil(env.st, b))
		}
	}
	if pa, ok := a.(*PtrV); ok && x.sortOf(types.NewPointer(pa.Elem)) == nil {
		// identity of pointers to objects without a content encoding
		if pb, ok := b.(*PtrV); ok {
			na, nb := x.isNil(env.st, pa), x.isNil(env.st, pb)
			if pa.Obj == pb.Obj && fmt.Sprint(pa.Path) == fmt.Sprint(pb.Path) {
				return c.Eq(na, nb)
			}
			return c.And(na, nb)
		}
	}
	ta, tb := x.enc(env, a), x.enc(env, b)
	if ta.Sort != tb.Sort {
		// pointer against value
		if ta.Sort.Elem == tb.Sort && len(ta.Sort.Ctors) == 2 {
			return c.Eq(ta, c.Some(tb))
		}
		if tb.Sort.Elem == ta.Sort && len(tb.Sort.Ctors) == 2 {
			return c.Eq(tb, c.Some(ta))
		}
		x.specErr("comparison of %s and %s", ta.Sort.Name, tb.Sort.Name)
	}
	return c.Eq(ta, tb)
}

// enc encodes a value by content.
func (x *Exec) enc(env *Env, v Value) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case *BoxPtr:
		return p.Opt
	case *PtrV:
		return x.toTerm(env.st, p, types.NewPointer(p.Elem), false)
	case *StructV:
		return x.toTerm(env.st, p, p.T, false)
	case *SliceV:
		return x.toTerm(env.st, p, p.T, false)
	case *SymIface, *IfaceV, *ErrObj:
		return x.anyTerm(env.st, p, false)
	case *FuncV:
		if p.Sym != nil {
			return p.Sym
		}
	case *OpaqueV:
		return x.anyTerm(env.st, &IfaceV{Dyn: errorType, V: p}, false)
	}
	x.specErr("encode %T", v)
	return nil
}

// specType resolves a type written in a specification.
func (x *Exec) specType(s string) types.Type {
	switch s {
	case "int":
		return types.Typ[types.Int]
	case "int64":
		return types.Typ[types.Int64]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "any":
		return types.NewInterfaceType(nil, nil)
	case "error":
		return errorType
	case "time":
		if t := x.prog.typ("time", "Time"); t != nil {
			return t
		}
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(x.specType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(x.specType(s[2:]))
	}
	if p, n, ok := strings.Cut(s, "."); ok {
		if pk := x.prog.pkgByName(p); pk != nil {
			if o := pk.Scope().Lookup(n); o != nil {
				return o.Type()
			}
		}
	}
	x.specErr("unknown type %s", s)
	return nil
}

// pick chooses between two values.
func (x *Exec) pick(env *Env, cond *Term, a, b Value) Value {
	c := x.c
	if cond == c.True {
		return a
	}
	if cond == c.False {
		return b
	}
	_, na := a.(nilV)
	_, nb := b.(nilV)
	if na && nb {
		return a
	}
	if na || nb {
		o := a
		if na {
			o = b
		}
		t := x.enc(env, o)
		var z *Term
		if t.Sort == c.Any {
			z = c.Nil()
		} else if len(t.Sort.Ctors) == 2 {
			z = c.None(t.Sort.Elem)
		} else {
			x.specErr("nil and %s", t.Sort.Name)
		}
		if na {
			return x.like(env.st, o, c.Ite(cond, z, t))
		}
		return x.like(env.st, o, c.Ite(cond, t, z))
	}
	ta, tb := x.enc(env, a), x.enc(env, b)
	if ta.Sort.Elem == tb.Sort && len(ta.Sort.Ctors) == 2 {
		tb = c.Some(tb)
	} else if tb.Sort.Elem == ta.Sort && len(tb.Sort.Ctors) == 2 {
		ta, a = c.Some(ta), b
	}
	if ta.Sort != tb.Sort {
		x.specErr("branches of different types %s %s", ta.Sort.Name, tb.Sort.Name)
	}
	return x.like(env.st, a, c.Ite(cond, ta, tb))
}

// like gives a term the shape of another value.
func (x *Exec) like(st *State, v Value, t *Term) Value {
	switch p := v.(type) {
	case *BoxPtr:
		return &BoxPtr{Opt: t, Elem: p.Elem}
	case *PtrV:
		return &BoxPtr{Opt: t, Elem: p.Elem}
	case *StructV:
		return x.fromTerm(st, t, p.T)
	case *SymIface:
		return &SymIface{T: t, St: p.St}
	case *IfaceV, *ErrObj:
		return &SymIface{T: t, St: errorType}
	}
	return t
}

func (x *Exec) evalCall(env *Env, n *ast.CallExpr) Value {
	c := x.c
	st := env.st
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		x.specErr("call %s", exprStr(n))
	}
	arg := func(i int) Value { return x.eval(env, n.Args[i]) }
	term := func(i int) *Term { return x.evalTerm(env, n.Args[i]) }
	need := func(k int) {
		if len(n.Args) != k {
			x.specErr("%s takes %d arguments", id.Name, k)
		}
	}
	switch id.Name {
	case "imp":
		need(2)
		a := x.evalBool(env, n.Args[0])
		if a == c.False {
			return c.True
		}
		return c.Imp(a, x.evalBool(env, n.Args[1]))
	case "iff":
		need(2)
		return c.Eq(x.evalBool(env, n.Args[0]), x.evalBool(env, n.Args[1]))
	case "ite":
		need(3)
		cond := x.evalBool(env, n.Args[0])
		if cond == c.True {
			return arg(1)
		}
		if cond == c.False {
			return arg(2)
		}
		return x.pick(env, cond, arg(1), arg(2))
	case "old":
		need(1)
		o := *env
		s := env.old.clone()
		k := len(s.pc)
		o.st = s
		v := x.eval(&o, n.Args[0])
		for _, t := range s.pc[k:] {
			st.assume(t)
		}
		if m, ok := v.(*MapV); ok && m.Obj != 0 && s.obj(m.Obj).MArr != nil {
			// the content at that time
			return s.obj(m.Obj).MArr
		}
		return v
	case "ms":
		return x.ms(term(0))
	case "len":
		switch s := arg(0).(type) {
		case *SliceV:
			return s.Len
		case *Term:
			if s.Sort == c.Str {
				st.assume(c.Le(c.IntV(0), c.SLen(s)))
				return c.SLen(s)
			}
		}
		x.specErr("len")
	case "max":
		return c.Max(term(0), term(1))
	case "min":
		return c.Min(term(0), term(1))
	case "is":
		need(2)
		e := arg(0)
		return c.And(c.Not(x.isNil(st, e)), x.errIs(st, e, arg(1)))
	case "errmsg":
		return x.errMsg(st, arg(0)).(*Term)
	case "zero":
		return x.zero(st, x.specType(term(0).Name))
	case "with":
		v := x.derefSpec(env, arg(0))
		s, ok := v.(*StructV)
		if !ok {
			x.specErr("with on %T", v)
		}
		r := &StructV{T: s.T, F: append([]Value{}, s.F...), Lazy: s.Lazy}
		u := s.T.Underlying().(*types.Struct)
		for i := 1; i+1 < len(n.Args); i += 2 {
			f, ok := n.Args[i].(*ast.Ident)
			k := -1
			if ok {
				k = fieldIndex(s.T, f.Name)
			}
			if k < 0 {
				x.specErr("with field %s", exprStr(n.Args[i]))
			}
			r.F[k] = x.coerce(env, arg(i+1), u.Field(k).Type())
		}
		return r
	case "some":
		// pointer to a value
		v := arg(0)
		switch p := v.(type) {
		case *StructV:
			return &BoxPtr{Opt: c.Some(x.enc(env, p)), Elem: p.T}
		case *Term:
			return &BoxPtr{Opt: c.Some(p), Elem: nil}
		}
		return v
	case "each":
		// each(s, v, expr): every element satisfies expr (assumptions only)
		need(3)
		s, ok := arg(0).(*SliceV)
		v, ok2 := n.Args[1].(*ast.Ident)
		if !ok || !ok2 {
			x.specErr("each")
		}
		if s.Obj == 0 {
			return c.True
		}
		if st.obj(s.Obj).Arr == nil {
			es, ok := x.sliceElems(st, s)
			if !ok {
				x.specErr("each")
			}
			r := c.True
			for _, e := range es {
				r = c.And(r, x.evalBool(env.with(v.Name, e), n.Args[2]))
			}
			return r
		}
		i := c.Bound("i", c.Int)
		et := s.T.Underlying().(*types.Slice).Elem()
		el := c.Select(st.obj(s.Obj).Arr, c.Add(s.Off, i))
		body := x.evalBool(env.with(v.Name, x.fromTerm(st, el, et)), n.Args[2])
		return c.Forall([]*Term{i}, []*Term{el}, c.Imp(c.And(c.Le(c.IntV(0), i), c.Lt(i, s.Len)), body))
	case "forall":
		// all(i, lo, hi, expr): expr holds for lo <= i < hi
		need(4)
		v, ok := n.Args[0].(*ast.Ident)
		if !ok {
			x.specErr("forall")
		}
		x.nbound++
		i := c.Bound(fmt.Sprintf("i%d", x.nbound), c.Int)
		lo, hi := term(1), term(2)
		s := env.st
		k := len(s.pc)
		body := x.evalBool(env.with(v.Name, i), n.Args[3])
		// facts about the bound variable are not facts
		var keep []*Term
		for _, t := range s.pc[k:] {
			if !mentions(t, i) {
				keep = append(keep, t)
			}
		}
		s.pc = append(s.pc[:k:k], keep...)
		return c.Forall([]*Term{i}, selectsAt(body, i), c.Imp(c.And(c.Le(lo, i), c.Lt(i, hi)), body))
	case "alnum":
		return x.alnum(st, term(0))
	case "isconst":
		// a pointer or value equal to a constant
		return x.eqSpec(env, arg(0), arg(1))
	}
	if f, ok := specFuncs[id.Name]; ok {
		return f(x, env, n)
	}
	if d := x.prog.defs[id.Name]; d != nil {
		need(len(d.Params))
		e2 := &Env{vars: map[string]Value{}, old: env.old, st: env.st, ghost: env.ghost}
		for k, v := range env.vars {
			e2.vars[k] = v
		}
		for i, p := range d.Params {
			e2.vars[p] = arg(i)
		}
		return x.eval(e2, d.Body)
	}
	if r := x.prog.recs[id.Name]; r != nil {
		need(len(r.Params))
		return x.evalRec(env, r, n)
	}
	// uninterpreted ghost predicate or function: ghost_name(...)
	if strings.HasPrefix(id.Name, "ghost_") {
		var as []*Term
		for i := range n.Args {
			as = append(as, x.enc(env, arg(i)))
		}
		return c.App(id.Name, c.Bool, as...)
	}
	x.specErr("unknown function %s", id.Name)
	return nil
}

// coerce fits a specification value to a field type.
func (x *Exec) coerce(env *Env, v Value, t types.Type) Value {
	switch p := v.(type) {
	case nilV:
		return x.zero(env.st, t)
	case *Term:
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if p.Sort == x.sortOf(pt.Elem()) {
				return &BoxPtr{Opt: x.c.Some(p), Elem: pt.Elem()}
			}
		}
		if x.sortOf(t) != p.Sort {
			x.specErr("field of type %s cannot hold %s", t, p.Sort.Name)
		}
		if x.scalarSort(t) == nil {
			return x.fromTerm(env.st, p, t)
		}
	}
	return v
}

func (x *Exec) evalRec(env *Env, r *Rec, n *ast.CallExpr) Value {
	c := x.c
	st := env.st
	var vals []Value
	var as []*Term
	for _, a := range n.Args {
		v := x.eval(env, a)
		vals = append(vals, v)
		as = append(as, x.enc(env, v))
	}
	rt := x.specType(r.Res)
	rs := x.sortOf(rt)
	if rs == nil {
		x.specErr("result of %s", r.Name)
	}
	k := as[len(as)-1]
	mk := func(i *Term) *Term {
		bs := append([]*Term{}, as...)
		bs[len(bs)-1] = i
		return c.App("rec_"+r.Name, rs, bs...)
	}
	t := mk(k)
	if r.Mono && !x.monoDone[r.Name] {
		x.monoDone[r.Name] = true
		x.recMono(env, r, vals, as, rs)
	}
	if !x.recDone[recKey{st, t}] {
		x.recDone[recKey{st, t}] = true
		e2 := &Env{vars: map[string]Value{}, old: env.old, st: st, ghost: env.ghost}
		for i, p := range r.Params {
			e2.vars[p] = vals[i]
		}
		initT := x.recEnc(e2, x.eval(e2, r.Init), rt)
		if k.Op != OInt || k.I.Sign() <= 0 {
			st.assume(c.Imp(c.Le(k, c.IntV(0)), c.Eq(t, initT)))
		} else {
			_ = initT
		}
		if k.Op == OInt && k.I.Sign() <= 0 {
			st.assume(c.Eq(t, initT))
		} else {
			pr := c.Sub(k, c.IntV(1))
			e2.vars[r.Params[len(r.Params)-1]] = pr
			prev := mk(pr)
			e2.vars["prev"] = x.fromTerm(st, prev, rt)
			if k.Op == OInt && k.I.Int64() == 1 {
				st.assume(c.Eq(prev, initT))
			}
			step := x.recEnc(e2, x.eval(e2, r.Step), rt)
			st.assume(c.Imp(c.Lt(c.IntV(0), k), c.Eq(t, step)))
		}
	}
	return x.fromTerm(st, t, rt)
}

// recMono proves the induction step of the monotonicity of a recursive
// specification function and makes the lemma available.
func (x *Exec) recMono(env *Env, r *Rec, vals []Value, as []*Term, rs *Sort) {
	c := x.c
	s := x.freshState()
	e2 := &Env{vars: map[string]Value{}, old: env.old, st: s, ghost: env.ghost}
	var vs, bs, cs []*Term
	for i, p := range r.Params {
		if i == len(r.Params)-1 {
			break
		}
		if t, ok := vals[i].(*Term); ok && t.Op == OApp && x.seqDefs[t.Name] != nil {
			e2.vars[p] = t // any enumeration: nothing is known about its content
		} else {
			e2.vars[p] = vals[i]
		}
		b := c.Bound(fmt.Sprintf("m%d", i), as[i].Sort)
		vs, bs, cs = append(vs, b), append(bs, b), append(cs, b)
	}
	k := c.Fresh("mono_i", c.Int)
	pr := c.Fresh("mono_prev", rs)
	s.assume(c.Le(c.IntV(0), k))
	e2.vars[r.Params[len(r.Params)-1]] = k
	e2.vars["prev"] = pr
	step, ok := x.eval(e2, r.Step).(*Term)
	if !ok || rs != c.Int {
		x.specErr("mono %s", r.Name)
	}
	x.oblige(s, "lemma", c.Le(pr, step), "recursive function "+r.Name+" never decreases")
	i, j := c.Bound("mi", c.Int), c.Bound("mj", c.Int)
	f := c.App("rec_"+r.Name, rs, append(bs, i)...)
	g := c.App("rec_"+r.Name, rs, append(cs, j)...)
	c.addAxiom("rec_"+r.Name, c.Forall(append(vs, i, j), []*Term{f, g}, c.Imp(c.Le(i, j), c.Le(f, g))))
}

type recKey struct {
	st *State
	t  *Term
}

func (x *Exec) recEnc(env *Env, v Value, t types.Type) *Term {
	if _, ok := v.(nilV); ok {
		return x.toTerm(env.st, x.zero(env.st, t), t, false)
	}
	return x.enc(env, v)
}

// mentions: v occurs in t.
func mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// selectsAt gives the array accesses of t at index i.
func selectsAt(t, i *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OSelect && t.Args[1] == i && !mentions(t.Args[0], i) && t.Args[0].Op != OStore && t.Args[0].Op != OIte {
			r = append(r, t)
		}
		if t.Op == OApp && t.Name == "mapkey" && t.Args[1] == i && !mentions(t.Args[0], i) {
			r = append(r, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return r
}

type specFn func(x *Exec, env *Env, n *ast.CallExpr) Value

var specFuncs = map[string]specFn{}

// metas collects the metavariables of a hint.
func metas(e ast.Expr) []string {
	m := map[string]bool{}
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "meta_") {
			m[id.Name] = true
		}
		return true
	})
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// hintCandidates instantiates the hints of the contract at a loop.
func (x *Exec) hintCandidates(l *loopSt, st *State, entry map[*ssa.Phi]Value) []*cand {
	c := x.c
	var out []*cand
	if x.unit == nil || x.unit.ct == nil {
		return nil
	}
	// bindings of the metavariables
	binds := map[string][]Value{}
	var ids []int
	for id := range l.st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := l.st.heap[id]
		switch o.Kind {
		case "file", "bufw":
			binds["meta_F"] = append(binds["meta_F"], o.G["set"])
		case "symrange":
			binds["meta_r"] = append(binds["meta_r"], &OpaqueV{Kind: "symrange", Obj: id})
		case "iter":
			binds["meta_it"] = append(binds["meta_it"], &OpaqueV{Kind: "iter", Obj: id})
		case "txn":
			if o.G["open"] == c.True && o.G["write"] == c.True {
				binds["meta_W"] = append(binds["meta_W"], o.G["work"])
				if po, ok := st.heap[id]; ok {
					binds["meta_pre"] = append(binds["meta_pre"], po.G["work"])
				}
			}
		}
	}
	for _, v := range l.h.vars {
		if v.Sort == c.Bool {
			binds["meta_b"] = append(binds["meta_b"], v)
		}
		if v.Sort == c.Int {
			binds["meta_i"] = append(binds["meta_i"], v)
			binds["meta_n"] = append(binds["meta_n"], v, c.Add(v, c.IntV(1)))
		}
		if v.Sort == c.Str {
			binds["meta_str"] = append(binds["meta_str"], v)
		}
	}
	for _, v := range l.phis {
		if s, ok := v.(*SliceV); ok {
			binds["meta_s"] = append(binds["meta_s"], s)
		}
	}
	for _, id := range ids {
		o := l.objs[id]
		if o != nil && o.Kind == "symmap" && o.MArr != nil {
			binds["meta_m"] = append(binds["meta_m"], &MapV{Obj: id, T: o.T})
		}
		if o == nil || o.Val == nil {
			continue
		}
		if s, ok := o.Val.(*SliceV); ok {
			binds["meta_s"] = append(binds["meta_s"], s)
		}
	}
	// lists whose elements change
	for _, id := range ids {
		if sv, ok := l.st.heap[id].Val.(*StructV); ok {
			for _, f := range sv.F {
				if s, ok := f.(*SliceV); ok && l.objs[s.Obj] != nil && l.objs[s.Obj].Arr != nil {
					binds["meta_s"] = append(binds["meta_s"], s)
				}
			}
		}
	}
	if x.mongoUnit() {
		for _, id := range ids {
			if o := l.objs[id]; o != nil && o.Arr != nil && o.ElemT != nil && o.Val == nil {
				binds["meta_s"] = append(binds["meta_s"], &SliceV{Obj: id, Off: c.IntV(0), Len: c.IntV(1 << 62), Cap: c.IntV(1 << 62), T: types.NewSlice(o.ElemT)})
			}
		}
	}
	for _, h := range x.unit.ct.Hints {
		ms := metas(h.Expr)
		var rec func(i int, vars map[string]Value, desc string)
		rec = func(i int, vars map[string]Value, desc string) {
			if i == len(ms) {
				if len(out) > 400 {
					return
				}
				s := l.st.clone()
				n0 := len(s.pc)
				env := x.unitEnv(s)
				for k, v := range vars {
					env.vars[k] = v
				}
				goal, ok := x.tryBool(env, h.Expr)
				if !ok {
					return
				}
				out = append(out, &cand{goal: goal, facts: append([]*Term{}, s.pc[n0:]...), name: h.Src + desc})
				return
			}
			for _, b := range binds[ms[i]] {
				v2 := map[string]Value{ms[i]: b}
				for k, v := range vars {
					v2[k] = v
				}
				d := desc
				if t, ok := b.(*Term); ok && t.Sort == c.Int {
					d += " [" + ms[i][5:] + "=" + c.Show(t) + "]"
				}
				rec(i+1, v2, d)
			}
		}
		rec(0, map[string]Value{}, "")
	}
	return out
}

func (x *Exec) tryBool(env *Env, e ast.Expr) (t *Term, ok bool) {
	depth := len(x.stack)
	lz, mt := x.lazy, x.mute
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsup:
				if dbgInv {
					fmt.Fprintln(os.Stderr, "  hint does not apply:", u.msg)
				}
				x.stack = x.stack[:depth]
				x.lazy, x.mute = lz, mt
				t, ok = nil, false
			case deadPath:
				x.stack = x.stack[:depth]
				x.lazy, x.mute = lz, mt
				t, ok = nil, false
			default:
				panic(r)
			}
		}
	}()
	return x.evalBool(env, e), true
}

// unitEnv is the environment of the contract under verification.
func (x *Exec) unitEnv(st *State) *Env {
	env := &Env{vars: map[string]Value{}, old: x.entry, st: st}
	for k, v := range x.unitVars {
		env.vars[k] = v
	}
	env.ghost = func(name string) Value { return x.ghostVar(st, name) }
	return env
}
