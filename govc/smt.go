package main

// Hash-consed SMT terms with a light simplifier, and their SMT-LIB printing.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	Name  string
	Kind  sortKind
	Elem  *Sort // Opt: payload; Array: value
	Key   *Sort // Array: key
	Ctors []*Ctor
}

type sortKind int

const (
	kBasic sortKind = iota // Int Bool Real
	kUnint                 // uninterpreted
	kData                  // datatype
	kArray
)

type Ctor struct {
	Name   string
	Sort   *Sort
	Fields []CField
}

type CField struct {
	Name string
	Sort *Sort
}

type Op int

const (
	OInt Op = iota
	ORat
	OTrue
	OFalse
	OStr   // string literal
	OVar   // uninterpreted constant
	OApp   // uninterpreted function
	OBound // bound variable
	OEq
	ONot
	OAnd
	OOr
	OIte
	OAdd
	OMul
	ODiv
	OMod
	OLt
	OLe
	OSelect
	OStore
	OConstArr
	OCtor
	OSel
	OIs
	OForall
)

type Term struct {
	Op    Op
	Name  string
	Args  []*Term
	Sort  *Sort
	I     *big.Int
	Ctor  *Ctor
	Field int
	Pats  []*Term // forall: trigger terms
	id    int
	// qfree: contains no bound variable
	bound bool
}

func (t *Term) ID() int { return t.id }

type FuncDecl struct {
	Name string
	Args []*Sort
	Res  *Sort
}

type Ctx struct {
	tab                       map[string]*Term
	terms                     []*Term
	sorts                     map[string]*Sort
	funcs                     map[string]*FuncDecl
	axioms                    map[string][]*Term // by function name: emitted if the function occurs
	fresh                     map[string]int
	Int, Bool, Real, Str, Any *Sort
	True, False               *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}, funcs: map[string]*FuncDecl{}, axioms: map[string][]*Term{}, fresh: map[string]int{}}
	c.Int = &Sort{Name: "Int"}
	c.Bool = &Sort{Name: "Bool"}
	c.Real = &Sort{Name: "Real"}
	c.Str = &Sort{Name: "Str", Kind: kUnint}
	c.Any = &Sort{Name: "Any", Kind: kUnint}
	for _, s := range []*Sort{c.Int, c.Bool, c.Real, c.Str, c.Any} {
		c.sorts[s.Name] = s
	}
	c.True = c.mk(&Term{Op: OTrue, Sort: c.Bool})
	c.False = c.mk(&Term{Op: OFalse, Sort: c.Bool})
	c.initAxioms()
	return c
}

func (c *Ctx) UnintSort(name string) *Sort {
	if s, ok := c.sorts[name]; ok {
		return s
	}
	s := &Sort{Name: name, Kind: kUnint}
	c.sorts[name] = s
	return s
}

func (c *Ctx) OptSort(e *Sort) *Sort {
	n := "Opt_" + e.Name
	if s, ok := c.sorts[n]; ok {
		return s
	}
	s := &Sort{Name: n, Kind: kData, Elem: e}
	s.Ctors = []*Ctor{{Name: "none_" + e.Name, Sort: s}, {Name: "some_" + e.Name, Sort: s, Fields: []CField{{"val_" + e.Name, e}}}}
	c.sorts[n] = s
	return s
}

func (c *Ctx) ArrSort(k, v *Sort) *Sort {
	n := "Arr_" + k.Name + "_" + v.Name
	if s, ok := c.sorts[n]; ok {
		return s
	}
	s := &Sort{Name: n, Kind: kArray, Key: k, Elem: v}
	c.sorts[n] = s
	return s
}

// DataSort declares a single-constructor datatype.
func (c *Ctx) DataSort(name string, fields []CField) *Sort {
	if s, ok := c.sorts[name]; ok {
		return s
	}
	s := &Sort{Name: name, Kind: kData}
	fs := make([]CField, len(fields))
	for i, f := range fields {
		fs[i] = CField{name + "." + f.Name, f.Sort}
	}
	s.Ctors = []*Ctor{{Name: "mk_" + name, Sort: s, Fields: fs}}
	c.sorts[name] = s
	return s
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.Op)))
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	b.WriteString(t.Sort.Name)
	if t.I != nil {
		b.WriteByte('#')
		b.WriteString(t.I.String())
	}
	if t.Ctor != nil {
		b.WriteByte('!')
		b.WriteString(t.Ctor.Name)
		b.WriteByte('.')
		b.WriteString(strconv.Itoa(t.Field))
	}
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if a.bound {
			t.bound = true
		}
	}
	for _, a := range t.Pats {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.Op == OBound {
		t.bound = true
	}
	if t.Op == OForall {
		t.bound = false // no nested open quantifiers are built
	}
	k := b.String()
	if r, ok := c.tab[k]; ok {
		return r
	}
	t.id = len(c.terms)
	c.terms = append(c.terms, t)
	c.tab[k] = t
	return t
}

// --- constructors ---

func (c *Ctx) IntV(i int64) *Term { return c.mk(&Term{Op: OInt, Sort: c.Int, I: big.NewInt(i)}) }
func (c *Ctx) BigV(i *big.Int) *Term {
	return c.mk(&Term{Op: OInt, Sort: c.Int, I: new(big.Int).Set(i)})
}
func (c *Ctx) RatV(r *big.Rat) *Term {
	return c.mk(&Term{Op: ORat, Sort: c.Real, Name: r.RatString()})
}
func (c *Ctx) BoolV(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) StrV(s string) *Term { return c.mk(&Term{Op: OStr, Sort: c.Str, Name: s}) }
func (c *Ctx) Var(name string, s *Sort) *Term {
	return c.mk(&Term{Op: OVar, Name: name, Sort: s})
}
func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), s)
}
func (c *Ctx) Bound(name string, s *Sort) *Term {
	return c.mk(&Term{Op: OBound, Name: name, Sort: s})
}
func (c *Ctx) App(name string, res *Sort, args ...*Term) *Term {
	if _, ok := c.funcs[name]; !ok {
		fd := &FuncDecl{Name: name, Res: res}
		for _, a := range args {
			fd.Args = append(fd.Args, a.Sort)
		}
		c.funcs[name] = fd
	} else {
		fd := c.funcs[name]
		ok := len(fd.Args) == len(args) && fd.Res == res
		if ok {
			for i, a := range args {
				if a.Sort != fd.Args[i] {
					ok = false
				}
			}
		}
		if !ok { // overload by sorts
			n := name
			for _, a := range args {
				n += "_" + a.Sort.Name
			}
			n += "_" + res.Name
			if n == name {
				panic("bad overload " + name)
			}
			return c.App(n, res, args...)
		}
	}
	if len(args) == 0 {
		return c.Var(name, res)
	}
	if name == "imul" {
		return c.Mul(args[0], args[1])
	}
	if name == "alnum" {
		if t := c.alnum(args[0]); t != nil {
			return t
		}
	}
	return c.mk(&Term{Op: OApp, Name: name, Sort: res, Args: args})
}

// alnum decides the predicate for literals and single characters.
func (c *Ctx) alnum(s *Term) *Term {
	if s.Op == OStr {
		for i := 0; i < len(s.Name); i++ {
			b := s.Name[i]
			if !(b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z') {
				return c.False
			}
		}
		return c.True
	}
	if s.Op == OApp && s.Name == "chr" {
		b := s.Args[0]
		in := func(lo, hi int64) *Term { return c.And(c.Le(c.IntV(lo), b), c.Le(b, c.IntV(hi))) }
		return c.Or(in('0', '9'), in('a', 'z'), in('A', 'Z'))
	}
	return nil
}

func (c *Ctx) isLit(t *Term) bool {
	switch t.Op {
	case OInt, OTrue, OFalse, OStr, ORat:
		return true
	}
	return false
}

// distinct reports that two terms are syntactically known to differ.
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if c.isLit(a) && c.isLit(b) {
		return true
	}
	if a.Op == OCtor && b.Op == OCtor && a.Ctor != b.Ctor {
		return true
	}
	// x + c1 vs x + c2
	if a.Sort == c.Int {
		d := c.Sub(a, b)
		if d.Op == OInt && d.I.Sign() != 0 {
			return true
		}
	}
	if a.Op == OVar && b.Op == OVar && a.Sort == c.Any && strings.HasPrefix(a.Name, "@") && strings.HasPrefix(b.Name, "@") {
		return true // global sentinels
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.Sort.Name, b.Sort.Name, c.Show(a), c.Show(b)))
	}
	if a == b {
		return c.True
	}
	if c.distinct(a, b) {
		return c.False
	}
	if a.Sort == c.Bool {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if a.Op == OCtor && b.Op == OCtor && a.Ctor == b.Ctor {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	// comparing with none / some
	if a.Op == OCtor && len(a.Args) == 0 && len(a.Sort.Ctors) > 1 {
		return c.Is(a.Ctor, b)
	}
	if b.Op == OCtor && len(b.Args) == 0 && len(b.Sort.Ctors) > 1 {
		return c.Is(b.Ctor, a)
	}
	if a.Op == OIte && c.isLit(b) && c.isLit(a.Args[1]) && c.isLit(a.Args[2]) {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if b.Op == OIte && c.isLit(a) && c.isLit(b.Args[1]) && c.isLit(b.Args[2]) {
		return c.Ite(b.Args[0], c.Eq(b.Args[1], a), c.Eq(b.Args[2], a))
	}
	if a.Sort == c.Str {
		isCat := func(t *Term) bool { return t.Op == OApp && t.Name == "cat" }
		if isCat(a) || isCat(b) {
			return c.eqCat(a, b)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{Op: OEq, Sort: c.Bool, Args: []*Term{a, b}})
}

// eqCat compares concatenations: common prefixes and suffixes cancel.
func (c *Ctx) eqCat(a, b *Term) *Term {
	pa, pb := c.pieces(a), c.pieces(b)
	for len(pa) > 0 && len(pb) > 0 {
		if pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if pa[0].Op == OStr && pb[0].Op == OStr {
			x, y := pa[0].Name, pb[0].Name
			if strings.HasPrefix(x, y) {
				pa = append([]*Term{c.StrV(x[len(y):])}, pa[1:]...)
				pb = pb[1:]
				continue
			}
			if strings.HasPrefix(y, x) {
				pb = append([]*Term{c.StrV(y[len(x):])}, pb[1:]...)
				pa = pa[1:]
				continue
			}
			return c.False
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		i, j := len(pa)-1, len(pb)-1
		if pa[i] == pb[j] {
			pa, pb = pa[:i], pb[:j]
			continue
		}
		if pa[i].Op == OStr && pb[j].Op == OStr {
			x, y := pa[i].Name, pb[j].Name
			if strings.HasSuffix(x, y) {
				pa = append(append([]*Term{}, pa[:i]...), c.StrV(x[:len(x)-len(y)]))
				pb = pb[:j]
				continue
			}
			if strings.HasSuffix(y, x) {
				pb = append(append([]*Term{}, pb[:j]...), c.StrV(y[:len(y)-len(x)]))
				pa = pa[:i]
				continue
			}
			return c.False
		}
		break
	}
	if len(pa) == 0 {
		pa, pb = pb, pa
	}
	if len(pb) == 0 {
		r := c.True
		for _, p := range pa {
			r = c.And(r, c.Eq(p, c.StrV("")))
		}
		return r
	}
	join := func(ps []*Term) *Term {
		r := c.StrV("")
		for i := len(ps) - 1; i >= 0; i-- {
			r = c.Cat(ps[i], r)
		}
		return r
	}
	a, b = join(pa), join(pb)
	if a.Op == OStr && b.Op == OStr {
		if a == b {
			return c.True
		}
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.And(c.mk(&Term{Op: OEq, Sort: c.Bool, Args: []*Term{a, b}}), c.Eq(c.SLen(a), c.SLen(b)))
}

func (c *Ctx) pieces(t *Term) []*Term {
	if t.Op == OApp && t.Name == "cat" {
		return append(c.pieces(t.Args[0]), c.pieces(t.Args[1])...)
	}
	if t.Op == OStr && t.Name == "" {
		return nil
	}
	return []*Term{t}
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.Args[0]
	case OLt:
		return c.Le(a.Args[1], a.Args[0])
	case OLe:
		return c.Lt(a.Args[1], a.Args[0])
	}
	return c.mk(&Term{Op: ONot, Sort: c.Bool, Args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, as, c.True, c.False) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OOr, as, c.False, c.True) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }

func (c *Ctx) nary(op Op, as []*Term, unit, zero *Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[c.Not(t)] {
			return false
		}
		if t.Op == op {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if a.Sort != c.Bool {
			panic("non-bool in and/or: " + c.Show(a))
		}
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{Op: op, Sort: c.Bool, Args: out})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if a.Sort != b.Sort {
		panic("ite sorts " + a.Sort.Name + " " + b.Sort.Name)
	}
	if a.Sort == c.Bool {
		if a == c.True && b == c.False {
			return cond
		}
		if a == c.False && b == c.True {
			return c.Not(cond)
		}
		return c.And(c.Or(c.Not(cond), a), c.Or(cond, b))
	}
	return c.mk(&Term{Op: OIte, Sort: a.Sort, Args: []*Term{cond, a, b}})
}

// linear normal form: map term id -> coefficient, plus constant
type linear struct {
	ks []*Term
	co map[*Term]*big.Int
	k  *big.Int
}

func (c *Ctx) lin(t *Term) *linear {
	l := &linear{co: map[*Term]*big.Int{}, k: new(big.Int)}
	c.linAdd(l, t, big.NewInt(1))
	return l
}

func (c *Ctx) linAdd(l *linear, t *Term, f *big.Int) {
	switch t.Op {
	case OInt:
		l.k.Add(l.k, new(big.Int).Mul(t.I, f))
	case OAdd:
		for _, a := range t.Args {
			c.linAdd(l, a, f)
		}
	case OMul:
		if t.Args[0].Op == OInt {
			c.linAdd(l, t.Args[1], new(big.Int).Mul(f, t.Args[0].I))
			return
		}
		fallthrough
	default:
		if o, ok := l.co[t]; ok {
			o.Add(o, f)
		} else {
			l.co[t] = new(big.Int).Set(f)
			l.ks = append(l.ks, t)
		}
	}
}

func (c *Ctx) unlin(l *linear) *Term {
	var ks []*Term
	for _, k := range l.ks {
		if l.co[k].Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	for _, k := range ks {
		co := l.co[k]
		if co.IsInt64() && co.Int64() == 1 {
			parts = append(parts, k)
		} else {
			parts = append(parts, c.mk(&Term{Op: OMul, Sort: c.Int, Args: []*Term{c.BigV(co), k}}))
		}
	}
	if l.k.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, c.BigV(l.k))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return c.mk(&Term{Op: OAdd, Sort: c.Int, Args: parts})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.Sort == c.Real {
		return c.mk(&Term{Op: OAdd, Sort: c.Real, Args: []*Term{a, b}})
	}
	l := c.lin(a)
	c.linAdd(l, b, big.NewInt(1))
	return c.unlin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.Sort == c.Real {
		return c.App("rsub", c.Real, a, b)
	}
	l := c.lin(a)
	c.linAdd(l, b, big.NewInt(-1))
	return c.unlin(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.IntV(0), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Sort == c.Real {
		// constant factors are gathered
		k := big.NewRat(1, 1)
		var fs []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			switch {
			case t.Op == ORat:
				r, _ := new(big.Rat).SetString(t.Name)
				k.Mul(k, r)
			case t.Op == OApp && t.Name == "rmul":
				walk(t.Args[0])
				walk(t.Args[1])
			default:
				fs = append(fs, t)
			}
		}
		walk(a)
		walk(b)
		if len(fs) == 0 || k.Sign() == 0 {
			return c.RatV(k)
		}
		r := fs[0]
		for _, f := range fs[1:] {
			r = c.App("rmul", c.Real, r, f)
		}
		if k.Cmp(big.NewRat(1, 1)) != 0 {
			r = c.App("rmul", c.Real, r, c.RatV(k))
		}
		return r
	}
	if b.Op == OInt {
		a, b = b, a
	}
	if a.Op == OInt {
		l := &linear{co: map[*Term]*big.Int{}, k: new(big.Int)}
		c.linAdd(l, b, a.I)
		return c.unlin(l)
	}
	// a choice between constants is made outside the product
	for k := 0; k < 2; k++ {
		if a.Op == OIte && (a.Args[1].Op == OInt || a.Args[2].Op == OInt) {
			return c.Ite(a.Args[0], c.Mul(a.Args[1], b), c.Mul(a.Args[2], b))
		}
		a, b = b, a
	}
	la, lb := &linear{co: map[*Term]*big.Int{}, k: new(big.Int)}, &linear{co: map[*Term]*big.Int{}, k: new(big.Int)}
	c.linAdd(la, a, big.NewInt(1))
	c.linAdd(lb, b, big.NewInt(1))
	if len(la.ks) != 1 || len(lb.ks) != 1 || la.k.Sign() != 0 || lb.k.Sign() != 0 || la.ks[0] != a || lb.ks[0] != b {
		// distribute
		r := &linear{co: map[*Term]*big.Int{}, k: new(big.Int)}
		r.k.Mul(la.k, lb.k)
		for _, s := range la.ks {
			c.linAdd(r, s, new(big.Int).Mul(la.co[s], lb.k))
			for _, t := range lb.ks {
				c.linAdd(r, c.Mul(s, t), new(big.Int).Mul(la.co[s], lb.co[t]))
			}
		}
		for _, t := range lb.ks {
			c.linAdd(r, t, new(big.Int).Mul(lb.co[t], la.k))
		}
		return c.unlin(r)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{Op: OApp, Name: "imul", Sort: c.Int, Args: []*Term{a, b}})
}

// Div is floor division by a positive constant (Euclidean in SMT-LIB).
func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if a.Op == OInt {
		q := new(big.Int)
		q.DivMod(a.I, k, new(big.Int))
		return c.BigV(q)
	}
	// (k*x) div k
	l := c.lin(a)
	all := new(big.Int).Mod(l.k, k).Sign() == 0
	for _, v := range l.co {
		if new(big.Int).Mod(v, k).Sign() != 0 {
			all = false
		}
	}
	if all {
		l.k.Div(l.k, k)
		for _, v := range l.co {
			v.Div(v, k)
		}
		return c.unlin(l)
	}
	return c.mk(&Term{Op: ODiv, Sort: c.Int, Args: []*Term{a, c.BigV(k)}})
}
func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if a.Op == OInt {
		m := new(big.Int)
		new(big.Int).DivMod(a.I, k, m)
		return c.BigV(m)
	}
	return c.mk(&Term{Op: OMod, Sort: c.Int, Args: []*Term{a, c.BigV(k)}})
}

func (c *Ctx) Lt(a, b *Term) *Term {
	if a.Sort == c.Int {
		d := c.Sub(a, b)
		if d.Op == OInt {
			return c.BoolV(d.I.Sign() < 0)
		}
	}
	if a == b {
		return c.False
	}
	return c.mk(&Term{Op: OLt, Sort: c.Bool, Args: []*Term{a, b}})
}
func (c *Ctx) Le(a, b *Term) *Term {
	if a.Sort == c.Int {
		d := c.Sub(a, b)
		if d.Op == OInt {
			return c.BoolV(d.I.Sign() <= 0)
		}
	}
	if a == b {
		return c.True
	}
	return c.mk(&Term{Op: OLe, Sort: c.Bool, Args: []*Term{a, b}})
}
func (c *Ctx) Max(a, b *Term) *Term { return c.Ite(c.Le(a, b), b, a) }
func (c *Ctx) Min(a, b *Term) *Term { return c.Ite(c.Le(a, b), a, b) }

func (c *Ctx) Select(a, k *Term) *Term {
	for {
		if a.Op == OStore {
			if a.Args[1] == k {
				return a.Args[2]
			}
			if c.distinct(a.Args[1], k) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == OConstArr {
			return a.Args[0]
		}
		break
	}
	return c.mk(&Term{Op: OSelect, Sort: a.Sort.Elem, Args: []*Term{a, k}})
}
func (c *Ctx) Store(a, k, v *Term) *Term {
	if v.Sort != a.Sort.Elem || k.Sort != a.Sort.Key {
		panic("store sorts " + a.Sort.Name + " " + k.Sort.Name + " " + v.Sort.Name)
	}
	if a.Op == OStore && a.Args[1] == k {
		a = a.Args[0]
	}
	if v.Op == OSelect && v.Args[0] == a && v.Args[1] == k {
		return a
	}
	return c.mk(&Term{Op: OStore, Sort: a.Sort, Args: []*Term{a, k, v}})
}
func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{Op: OConstArr, Sort: s, Args: []*Term{v}})
}

func (c *Ctx) Mk(ct *Ctor, args ...*Term) *Term {
	if len(args) != len(ct.Fields) {
		panic("ctor arity " + ct.Name)
	}
	for i, a := range args {
		if a.Sort != ct.Fields[i].Sort {
			panic(fmt.Sprintf("ctor %s field %s: sort %s", ct.Name, ct.Fields[i].Name, a.Sort.Name))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x for single-constructor sorts
	if len(args) > 0 && len(ct.Sort.Ctors) == 1 && args[0].Op == OSel {
		x := args[0].Args[0]
		ok := x.Sort == ct.Sort
		for i, a := range args {
			if a.Op != OSel || a.Ctor != ct || a.Field != i || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return c.mk(&Term{Op: OCtor, Sort: ct.Sort, Ctor: ct, Args: args})
}
func (c *Ctx) Sel(ct *Ctor, i int, x *Term) *Term {
	if x.Sort != ct.Sort {
		panic("sel sort " + ct.Name + " on " + x.Sort.Name)
	}
	if x.Op == OCtor && x.Ctor == ct {
		return x.Args[i]
	}
	if x.Op == OIte {
		// push selectors through ite when one side is a constructor
		if (x.Args[1].Op == OCtor && x.Args[1].Ctor == ct) || (x.Args[2].Op == OCtor && x.Args[2].Ctor == ct) {
			a, b := x.Args[1], x.Args[2]
			if a.Op == OCtor && a.Ctor != ct {
				return c.Sel(ct, i, b)
			}
			if b.Op == OCtor && b.Ctor != ct {
				return c.Sel(ct, i, a)
			}
			return c.Ite(x.Args[0], c.Sel(ct, i, a), c.Sel(ct, i, b))
		}
	}
	return c.mk(&Term{Op: OSel, Sort: ct.Fields[i].Sort, Ctor: ct, Field: i, Args: []*Term{x}})
}
func (c *Ctx) Is(ct *Ctor, x *Term) *Term {
	if x.Op == OCtor {
		return c.BoolV(x.Ctor == ct)
	}
	if len(ct.Sort.Ctors) == 1 {
		return c.True
	}
	if x.Op == OIte {
		return c.Ite(x.Args[0], c.Is(ct, x.Args[1]), c.Is(ct, x.Args[2]))
	}
	// canonical: only testers for the last constructor of two
	if len(ct.Sort.Ctors) == 2 && ct == ct.Sort.Ctors[0] {
		return c.Not(c.Is(ct.Sort.Ctors[1], x))
	}
	return c.mk(&Term{Op: OIs, Sort: c.Bool, Ctor: ct, Args: []*Term{x}})
}

func (c *Ctx) None(e *Sort) *Term   { return c.Mk(c.OptSort(e).Ctors[0]) }
func (c *Ctx) Some(v *Term) *Term   { return c.Mk(c.OptSort(v.Sort).Ctors[1], v) }
func (c *Ctx) IsSome(o *Term) *Term { return c.Is(o.Sort.Ctors[1], o) }
func (c *Ctx) IsNone(o *Term) *Term { return c.Not(c.IsSome(o)) }
func (c *Ctx) Val(o *Term) *Term    { return c.Sel(o.Sort.Ctors[1], 0, o) }

func (c *Ctx) Forall(vars []*Term, pats []*Term, body *Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	used := map[*Term]bool{}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OBound {
			used[t] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	if len(used) == 0 {
		return body
	}
	t := &Term{Op: OForall, Sort: c.Bool, Args: append(append([]*Term{}, vars...), body), Pats: pats}
	return c.mk(t)
}

// Subst replaces terms (typically variables) in t.
// Occurs reports whether v occurs in t.
func (c *Ctx) Occurs(v, t *Term) bool {
	memo := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.Args) == 0 || memo[t] {
			return false
		}
		memo[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (c *Ctx) IntB(i *big.Int) *Term { return c.mk(&Term{Op: OInt, Sort: c.Int, I: i}) }

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term, f func(*Term) *Term) *Term {
	switch t.Op {
	case OEq:
		return c.Eq(as[0], as[1])
	case ONot:
		return c.Not(as[0])
	case OAnd:
		return c.And(as...)
	case OOr:
		return c.Or(as...)
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OAdd:
		r := as[0]
		for _, a := range as[1:] {
			r = c.Add(r, a)
		}
		return r
	case OMul:
		return c.Mul(as[0], as[1])
	case ODiv:
		if as[1].Op == OInt {
			return c.Div(as[0], as[1].I)
		}
	case OMod:
		if as[1].Op == OInt {
			return c.Mod(as[0], as[1].I)
		}
	case OLt:
		return c.Lt(as[0], as[1])
	case OLe:
		return c.Le(as[0], as[1])
	case OSelect:
		return c.Select(as[0], as[1])
	case OStore:
		return c.Store(as[0], as[1], as[2])
	case OCtor:
		return c.Mk(t.Ctor, as...)
	case OSel:
		return c.Sel(t.Ctor, t.Field, as[0])
	case OIs:
		return c.Is(t.Ctor, as[0])
	case OApp:
		return c.App(t.Name, t.Sort, as...)
	}
	n := *t
	n.Args = as
	if t.Op == OForall {
		n.Pats = nil
		for _, p := range t.Pats {
			n.Pats = append(n.Pats, f(p))
		}
	}
	n.bound = false
	return c.mk(&n)
}

// --- strings ---

func (c *Ctx) Cat(a, b *Term) *Term {
	if a.Op == OStr && a.Name == "" {
		return b
	}
	if b.Op == OStr && b.Name == "" {
		return a
	}
	if a.Op == OApp && a.Name == "cat" {
		return c.Cat(a.Args[0], c.Cat(a.Args[1], b))
	}
	if a.Op == OStr && b.Op == OStr {
		return c.StrV(a.Name + b.Name)
	}
	if a.Op == OStr && b.Op == OApp && b.Name == "cat" && b.Args[0].Op == OStr {
		return c.Cat(c.StrV(a.Name+b.Args[0].Name), b.Args[1])
	}
	return c.App("cat", c.Str, a, b)
}

// HasPrefix and HasSuffix decide literal pieces and leave the rest to axioms.
func (c *Ctx) HasPrefix(s, p *Term) *Term {
	if s.Op == OStr && p.Op == OStr {
		return c.BoolV(strings.HasPrefix(s.Name, p.Name))
	}
	ps := c.pieces(s)
	if s == p || len(ps) > 0 && ps[0] == p || p.Op == OStr && p.Name == "" {
		return c.True
	}
	if p.Op == OStr && len(ps) > 0 && ps[0].Op == OStr && len(ps[0].Name) >= len(p.Name) {
		return c.BoolV(strings.HasPrefix(ps[0].Name, p.Name))
	}
	return c.App("hasprefix", c.Bool, s, p)
}

func (c *Ctx) HasSuffix(s, p *Term) *Term {
	if s.Op == OStr && p.Op == OStr {
		return c.BoolV(strings.HasSuffix(s.Name, p.Name))
	}
	ps, pp := c.pieces(s), c.pieces(p)
	if len(pp) <= len(ps) {
		same := true
		for i := range pp {
			a, b := ps[len(ps)-len(pp)+i], pp[i]
			if a != b && !(i == 0 && a.Op == OStr && b.Op == OStr && strings.HasSuffix(a.Name, b.Name)) {
				same = false
			}
		}
		if same {
			return c.True
		}
	}
	return c.App("hassuffix", c.Bool, s, p)
}

func (c *Ctx) SLen(s *Term) *Term {
	if s.Op == OStr {
		return c.IntV(int64(len(s.Name)))
	}
	if s.Op == OApp && s.Name == "cat" {
		return c.Add(c.SLen(s.Args[0]), c.SLen(s.Args[1]))
	}
	return c.App("slen", c.Int, s)
}

// SRank embeds the byte order of strings into the integers.
func (c *Ctx) SRank(s *Term) *Term { return c.App("srank", c.Int, s) }

func (c *Ctx) Nil() *Term { return c.Var("@nil", c.Any) }

// realOps are functions the solvers interpret.
var realOps = map[string]string{"toreal": "to_real", "rsub": "-", "rmul": "*", "rdiv": "/"}

func (c *Ctx) addAxiom(fn string, t *Term) { c.axioms[fn] = append(c.axioms[fn], t) }

func (c *Ctx) initAxioms() {
	s := c.Bound("s", c.Str)
	l := c.App("slen", c.Int, s)
	c.addAxiom("slen", c.Forall([]*Term{s}, []*Term{l}, c.And(c.Le(c.IntV(0), l), c.Or(c.Not(c.Eq(l, c.IntV(0))), c.Eq(s, c.StrV(""))))))
	r := c.App("srank", c.Int, s)
	c.addAxiom("srank", c.Forall([]*Term{s}, []*Term{r}, c.And(c.Eq(c.App("sunrank", c.Str, r), s), c.Le(c.IntV(0), r))))
	// itoa is injective
	i := c.Bound("i", c.Int)
	it := c.App("itoa", c.Str, i)
	c.addAxiom("itoa", c.Forall([]*Term{i}, []*Term{it}, c.Eq(c.App("atoi", c.Int, it), i)))
	// a literal prefix or suffix makes a string non-empty
	a, b := c.Bound("a", c.Str), c.Bound("b", c.Str)
	ct := c.App("cat", c.Str, a, b)
	c.addAxiom("cat", c.Forall([]*Term{a, b}, []*Term{ct}, c.Or(c.Not(c.Eq(ct, c.StrV(""))), c.And(c.Eq(a, c.StrV("")), c.Eq(b, c.StrV(""))))))
	c.addAxiom("cat", c.Forall([]*Term{a, b}, []*Term{ct}, c.Or(c.Not(c.Eq(b, c.StrV(""))), c.mk(&Term{Op: OEq, Sort: c.Bool, Args: []*Term{ct, a}}))))
	for _, f := range []string{"hasprefix", "hassuffix"} {
		h := c.App(f, c.Bool, a, b)
		c.addAxiom(f, c.Forall([]*Term{a, b}, []*Term{h}, c.Or(h, c.And(c.Not(c.Eq(a, b)), c.Not(c.Eq(b, c.StrV("")))))))
	}
	hc := c.App("hasprefix", c.Bool, ct, a)
	c.addAxiom("hasprefix", c.Forall([]*Term{a, b}, []*Term{hc}, hc))
	d := c.Bound("d", c.Str)
	hs := c.mk(&Term{Op: OApp, Name: "hassuffix", Sort: c.Bool, Args: []*Term{ct, d}})
	c.addAxiom("hassuffix", c.Forall([]*Term{a, b, d}, []*Term{hs}, c.Or(hs, c.Not(c.Eq(b, d)))))
}

// --- printing ---

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '@', r == '$':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "_"
	}
	return b.String()
}

func qsym(s string) string { return "|" + s + "|" }

func (c *Ctx) Show(t *Term) string {
	p := &printer{c: c, lits: map[string]string{}}
	s := p.str(t, 0)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

type printer struct {
	c    *Ctx
	lits map[string]string
	lets map[*Term]string
	smt  bool
}

func (p *printer) lit(s string) string {
	if !p.smt {
		return strconv.Quote(s)
	}
	if n, ok := p.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("str!%d", len(p.lits))
	p.lits[s] = n
	return n
}

func (p *printer) str(t *Term, d int) string {
	if p.lets != nil && d > 0 {
		if n, ok := p.lets[t]; ok {
			return n
		}
	}
	if !p.smt && d > 40 {
		return "..."
	}
	sub := func(op string) string {
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			b.WriteString(p.str(a, d+1))
		}
		b.WriteByte(')')
		return b.String()
	}
	q := func(s string) string {
		if p.smt {
			return qsym(s)
		}
		return s
	}
	switch t.Op {
	case OInt:
		if t.I.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.I).String() + ")"
		}
		return t.I.String()
	case ORat:
		n, dd, ok := strings.Cut(t.Name, "/")
		neg := strings.HasPrefix(n, "-")
		n = strings.TrimPrefix(n, "-")
		s := n + ".0"
		if ok {
			s = "(/ " + n + ".0 " + dd + ".0)"
		}
		if neg {
			s = "(- " + s + ")"
		}
		return s
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OStr:
		return p.lit(t.Name)
	case OVar, OBound:
		return q(t.Name)
	case OApp:
		if op, ok := realOps[t.Name]; ok {
			return sub(op)
		}
		return sub(q(t.Name))
	case OEq:
		return sub("=")
	case ONot:
		return sub("not")
	case OAnd:
		return sub("and")
	case OOr:
		return sub("or")
	case OIte:
		return sub("ite")
	case OAdd:
		return sub("+")
	case OMul:
		return sub("*")
	case ODiv:
		return sub("div")
	case OMod:
		return sub("mod")
	case OLt:
		return sub("<")
	case OLe:
		return sub("<=")
	case OSelect:
		return sub("select")
	case OStore:
		return sub("store")
	case OConstArr:
		return sub("(as const " + p.sort(t.Sort) + ")")
	case OCtor:
		if len(t.Args) == 0 {
			return q(t.Ctor.Name)
		}
		return sub(q(t.Ctor.Name))
	case OSel:
		return sub(q(t.Ctor.Fields[t.Field].Name))
	case OIs:
		return sub("(_ is " + q(t.Ctor.Name) + ")")
	case OForall:
		var b strings.Builder
		b.WriteString("(forall (")
		n := len(t.Args) - 1
		for _, v := range t.Args[:n] {
			fmt.Fprintf(&b, "(%s %s)", q(v.Name), p.sort(v.Sort))
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
			b.WriteString(p.str(t.Args[n], d+1))
			b.WriteString(" :pattern (")
			for i, x := range t.Pats {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(p.str(x, d+1))
			}
			b.WriteString("))")
		} else {
			b.WriteString(p.str(t.Args[n], d+1))
		}
		b.WriteString(")")
		return b.String()
	}
	panic("op")
}

func (p *printer) sort(s *Sort) string {
	if s.Kind == kArray {
		return "(Array " + p.sort(s.Key) + " " + p.sort(s.Elem) + ")"
	}
	if s.Kind == kBasic {
		return s.Name
	}
	return qsym(s.Name)
}

// Script builds a complete SMT-LIB script asserting all the given terms.
func (c *Ctx) Script(asserts []*Term) string {
	// collect reachable terms, plus axioms of used functions
	seen := map[*Term]bool{}
	refs := map[*Term]int{}
	var order []*Term
	fn := map[string]bool{}
	var todo []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OApp && !fn[t.Name] {
			fn[t.Name] = true
			todo = append(todo, c.axioms[t.Name]...)
		}
		if t.Op == OVar && !fn[t.Name] {
			fn[t.Name] = true
			todo = append(todo, c.axioms[t.Name]...)
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, a := range t.Pats {
			walk(a)
		}
		order = append(order, t)
	}
	all := append([]*Term{}, asserts...)
	for _, a := range asserts {
		walk(a)
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		walk(t)
		all = append(all, t)
	}
	// sorts
	usedS := map[*Sort]bool{}
	var ds, us []*Sort
	var ws func(s *Sort)
	ws = func(s *Sort) {
		if usedS[s] {
			return
		}
		usedS[s] = true
		if s.Key != nil {
			ws(s.Key)
		}
		if s.Elem != nil {
			ws(s.Elem)
		}
		for _, ct := range s.Ctors {
			for _, f := range ct.Fields {
				ws(f.Sort)
			}
		}
		switch s.Kind {
		case kUnint:
			us = append(us, s)
		case kData:
			ds = append(ds, s)
		}
	}
	ws(c.Str)
	for _, t := range order {
		ws(t.Sort)
	}
	for f := range fn {
		if d := c.funcs[f]; d != nil {
			for _, a := range d.Args {
				ws(a)
			}
			ws(d.Res)
		}
	}
	p := &printer{c: c, lits: map[string]string{}, smt: true, lets: map[*Term]string{}}
	var body strings.Builder
	// variables and functions
	var names []string
	decl := map[string]string{}
	for _, t := range order {
		if t.Op == OVar {
			decl[t.Name] = fmt.Sprintf("(declare-const %s %s)\n", qsym(t.Name), p.sort(t.Sort))
		}
		if t.Op == OApp && realOps[t.Name] == "" {
			d := c.funcs[t.Name]
			var as []string
			for _, a := range d.Args {
				as = append(as, p.sort(a))
			}
			decl[t.Name] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", qsym(t.Name), strings.Join(as, " "), p.sort(d.Res))
		}
	}
	for n := range decl {
		names = append(names, n)
	}
	sort.Strings(names)
	// shared subterms become definitions
	for _, t := range order {
		if refs[t] > 1 && !t.bound && len(t.Args) > 0 && t.Op != OForall {
			s := p.str(t, 0)
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", n, p.sort(t.Sort), s)
			p.lets[t] = n
		}
	}
	for _, a := range all {
		fmt.Fprintf(&body, "(assert %s)\n", p.str(a, 1))
	}
	var b strings.Builder
	for _, s := range us {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", qsym(s.Name))
	}
	// datatypes in dependency order (ws appends after its components)
	for _, s := range ds {
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) ((", qsym(s.Name))
		for i, ct := range s.Ctors {
			if i > 0 {
				b.WriteByte(' ')
			}
			if len(ct.Fields) == 0 {
				fmt.Fprintf(&b, "(%s)", qsym(ct.Name))
				continue
			}
			fmt.Fprintf(&b, "(%s", qsym(ct.Name))
			for _, f := range ct.Fields {
				fmt.Fprintf(&b, " (%s %s)", qsym(f.Name), p.sort(f.Sort))
			}
			b.WriteString(")")
		}
		b.WriteString(")))\n")
	}
	// string literals
	type kv struct{ lit, name string }
	var ls []kv
	for l, n := range p.lits {
		ls = append(ls, kv{l, n})
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].lit < ls[j].lit })
	for _, l := range ls {
		fmt.Fprintf(&b, "(declare-const %s |Str|)\n", l.name)
	}
	for _, n := range names {
		b.WriteString(decl[n])
	}
	if len(ls) > 1 {
		b.WriteString("(assert (distinct")
		for _, l := range ls {
			b.WriteString(" " + l.name)
		}
		b.WriteString("))\n")
	}
	for i, l := range ls {
		if fn["slen"] {
			fmt.Fprintf(&b, "(assert (= (|slen| %s) %d))\n", l.name, len(l.lit))
		}
		if fn["srank"] && i > 0 {
			fmt.Fprintf(&b, "(assert (< (|srank| %s) (|srank| %s)))\n", ls[i-1].name, l.name)
		}
	}
	// global sentinels are pairwise distinct
	var gs []string
	for _, n := range names {
		if strings.HasPrefix(n, "@") {
			gs = append(gs, qsym(n))
		}
	}
	if len(gs) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(gs, " ") + "))\n")
	}
	b.WriteString(body.String())
	return b.String()
}
