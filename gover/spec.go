package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// SEnv evaluates specification expressions in a program state.
type SEnv struct {
	x       *Exec
	st      *State
	old     *State
	guard   *Term
	lookup  func(string) (Val, bool)
	oldLk   func(string) (Val, bool)
	bound   map[string]Val
	lets    map[string]*E
	pkg     *types.Package
	subst   map[*types.TypeParam]types.Type
	depth   int
	nest    int
	lentry  *State // heap at the entry of the current loop
	lheads  map[int]*State
	lheadLk map[int]func(string) (Val, bool)
	inApply bool   // lemma names are their statements
	selfLm  *Lemma // the lemma being proved
}

type specErr struct{ msg string }

func (e specErr) Error() string { return e.msg }
func sfail(f string, a ...any)  { panic(specErr{fmt.Sprintf(f, a...)}) }

func (v *SEnv) with(name string, val Val) *SEnv {
	n := *v
	n.bound = make(map[string]Val, len(v.bound)+1)
	for k, w := range v.bound {
		n.bound[k] = w
	}
	n.bound[name] = val
	return &n
}

var basicByName = map[string]types.Type{}

func init() {
	for _, t := range types.Typ {
		if t != nil {
			basicByName[t.Name()] = t
		}
	}
	basicByName["byte"] = types.Typ[types.Uint8]
	basicByName["rune"] = types.Typ[types.Int32]
}

func (x *Exec) sortOf(ty string) Sort {
	switch ty {
	case "int", "":
		return x.idxSort()
	case "math", "ref":
		return SInt
	case "bool":
		return SBool
	case "real":
		return SReal
	case "f64", "float64":
		x.useSort(SF64)
		return SF64
	case "f32", "float32":
		x.useSort(SF32)
		return SF32
	case "str", "string":
		x.useSort(SStr)
		return SStr
	case "arr":
		return SArr(x.idxSort(), SInt)
	case "barr":
		return SArr(x.idxSort(), SBool)
	case "farr":
		x.useSort(SF64)
		return SArr(x.idxSort(), SF64)
	case "arr2":
		return SArr(SInt, SArr(x.idxSort(), SInt))
	}
	if strings.HasPrefix(ty, "arr<") {
		return SArr(x.idxSort(), x.sortOf(ty[4:len(ty)-1]))
	}
	if strings.HasPrefix(ty, "set<") {
		return SArr(x.sortOf(ty[4:len(ty)-1]), SBool)
	}
	if bt, ok := basicByName[ty]; ok {
		if w, _, ok := intInfo(bt); ok {
			return x.isort(w)
		}
	}
	if strings.HasPrefix(ty, "$") {
		s := Sort("U_" + ty[1:])
		x.useSort(s)
		return s
	}
	if strings.HasPrefix(ty, "bv") {
		var n int
		fmt.Sscanf(ty, "bv%d", &n)
		return SBV(n)
	}
	sfail("unknown sort %s", ty)
	return ""
}

// tparam resolves $T to the type argument in force, if there is one.
func (v *SEnv) tparam(ty string) types.Type {
	if !strings.HasPrefix(ty, "$") {
		return nil
	}
	for tp, t := range v.subst {
		if tp.Obj().Name() == ty[1:] {
			return t
		}
	}
	return nil
}

func (v *SEnv) evalBool(e *E) *Term {
	r := v.eval(e)
	if len(r.C) != 1 || r.C[0].Sort != SBool {
		sfail("not a boolean: %s", e.Src)
	}
	return r.C[0]
}
func raw(t *Term) Val { return Val{C: []*Term{t}, Raw: true} }

func (v *SEnv) term(e *E) *Term {
	r := v.eval(e)
	if len(r.C) != 1 {
		sfail("not a scalar expression (%s %s)", e.Op, e.S)
	}
	return r.C[0]
}

// BoundVar interns bound variables by name and nesting depth.
func (b *TB) BoundVar(name string, s Sort, depth int) *Term {
	n := fmt.Sprintf("?%s_%d_%s", sanitize(name), depth, sanitize(string(s)))
	if t, ok := b.syms[n]; ok {
		return t
	}
	b.n++
	t := &Term{Op: n, Sort: s, kind: 'b', free: true, id: b.n}
	b.syms[n] = t
	return t
}

func (v *SEnv) eval(e *E) Val {
	x := v.x
	v.nest++
	if v.nest > 400 {
		sfail("specification recursion too deep")
	}
	defer func() { v.nest-- }()
	switch e.Op {
	case "num":
		b, ok := new(big.Int).SetString(e.S, 0)
		if !ok {
			r, ok2 := new(big.Rat).SetString(e.S)
			if !ok2 {
				sfail("bad number %s", e.S)
			}
			return raw(x.ratTerm(r))
		}
		return raw(x.IntB(b))
	case "str":
		return Val{T: types.Typ[types.String], C: []*Term{x.strConst(e.S)}}
	case "id":
		return v.ident(e.S)
	case "if":
		c := v.evalBool(e.Args[0])
		a, b := v.eval(e.Args[1]), v.eval(e.Args[2])
		v.unify(&a, &b)
		r := Val{T: a.T, Raw: a.Raw}
		for i := range a.C {
			r.C = append(r.C, x.Ite(c, a.C[i], b.C[i]))
		}
		return r
	case "forall", "exists":
		n := *v
		n.bound = map[string]Val{}
		for k, w := range v.bound {
			n.bound[k] = w
		}
		var vars []*Term
		var hyp []*Term
		for _, q := range e.Vars {
			n.depth++
			if t := v.tparam(q.Type); t != nil {
				bv := Val{T: t}
				for k, l := range x.leaves(t) {
					bt := x.BoundVar(fmt.Sprintf("%s.%d", q.Name, k), l.sort, n.depth)
					if w, sg, ok := intInfo(l.t); ok && l.sort == SInt {
						lo, hi := intRange(w, sg)
						hyp = append(hyp, x.app("<=", SBool, x.IntB(lo), bt), x.app("<=", SBool, bt, x.IntB(hi)))
					}
					vars = append(vars, bt)
					bv.C = append(bv.C, bt)
				}
				n.bound[q.Name] = bv
				continue
			}
			s := x.sortOf(q.Type)
			bt := x.BoundVar(q.Name, s, n.depth)
			vars = append(vars, bt)
			bv := Val{C: []*Term{bt}, Raw: true}
			if gt, ok := basicByName[q.Type]; ok {
				if w, sg, ok := intInfo(gt); ok {
					bv.T = gt
					bv.Raw = s == SInt
					if s == SInt && q.Type != "int" {
						lo, hi := intRange(w, sg)
						hyp = append(hyp, x.app("<=", SBool, x.IntB(lo), bt), x.app("<=", SBool, bt, x.IntB(hi)))
					}
				}
			}
			n.bound[q.Name] = bv
		}
		body := n.evalBool(e.Args[0])
		var pats [][]*Term
		for _, tr := range e.Trigs {
			var ts []*Term
			for _, p := range tr {
				ts = append(ts, n.eval(p).C[0])
			}
			pats = append(pats, ts)
		}
		if e.Op == "forall" {
			body = x.Implies(x.And(hyp...), body)
		} else {
			body = x.And(append(hyp, body)...)
		}
		return raw(x.Quant(e.Op == "forall", vars, body, pats))
	case "un":
		if e.S == "*" {
			p := v.eval(e.Args[0])
			a := x.derefAddr(p)
			return x.loadAny(v.st, a, a.elem)
		}
		a := v.eval(e.Args[0])
		if len(a.C) != 1 {
			sfail("unary on composite")
		}
		t := a.C[0]
		switch e.S {
		case "!":
			return raw(x.Not(t))
		case "-":
			if t.Sort == SReal {
				return raw(x.app("-", SReal, t))
			}
			if t.Sort.isBV() {
				return Val{T: a.T, C: []*Term{x.app("bvneg", t.Sort, t)}}
			}
			return raw(x.Sub(x.Int(0), t))
		case "^":
			if t.Sort.isBV() {
				return Val{T: a.T, C: []*Term{x.app("bvnot", t.Sort, t)}}
			}
		}
		sfail("unary %s", e.S)
	case "bin":
		return v.bin(e)
	case "sel":
		return v.sel(e)
	case "index":
		return v.index(e)
	case "slice":
		s := v.eval(e.Args[0])
		if s.T == nil {
			sfail("slice of raw value")
		}
		if _, ok := s.T.Underlying().(*types.Slice); !ok {
			sfail("slice expression on %s", s.T)
		}
		lo := x.iconst(0)
		if e.Args[1] != nil {
			lo = v.idx(e.Args[1])
		}
		hi := s.C[2]
		if e.Args[2] != nil {
			hi = v.idx(e.Args[2])
		}
		return Val{T: s.T, C: []*Term{s.C[0], x.iadd(s.C[1], lo), x.isub(hi, lo), x.isub(s.C[3], lo)}}
	case "call":
		return v.call(e)
	}
	sfail("cannot evaluate %s", e.Op)
	return Val{}
}

func (v *SEnv) idx(e *E) *Term {
	r := v.eval(e)
	t := r.C[0]
	if v.x.bv {
		if t.Sort == SInt {
			if t.num == nil {
				sfail("integer index in bv mode")
			}
			return v.x.BV(t.num, 64)
		}
		if w := t.Sort.bvWidth(); w < 64 {
			_, sg, _ := intInfo(r.T)
			if sg {
				return v.x.SExt(t, 64)
			}
			return v.x.ZExt(t, 64)
		}
	}
	return t
}

func (v *SEnv) ident(n string) Val {
	x := v.x
	if b, ok := v.bound[n]; ok {
		return b
	}
	switch n {
	case "true":
		return raw(x.True())
	case "false":
		return raw(x.False())
	case "nil":
		return Val{C: []*Term{x.Int(0)}, Raw: true}
	case "yieldcnt":
		return raw(x.hget(v.st, yCnt, SInt))
	case "yieldstop":
		return raw(x.hget(v.st, yStop, SBool))
	case "yieldarr":
		return raw(x.hget(v.st, yArr(0), x.keySort[yArr(0)]))
	case "yieldarr1":
		return raw(x.hget(v.st, yArr(1), x.keySort[yArr(1)]))
	}
	if l, ok := v.lets[n]; ok {
		nv := *v
		nv.bound = map[string]Val{}
		return nv.eval(l)
	}
	if v.lookup != nil {
		if r, ok := v.lookup(n); ok {
			return r
		}
	}
	if v.pkg != nil {
		if o := v.pkg.Scope().Lookup(n); o != nil {
			return v.object(o)
		}
	}
	sfail("unknown name %s", n)
	return Val{}
}
func (v *SEnv) object(o types.Object) Val {
	x := v.x
	switch c := o.(type) {
	case *types.Const:
		r := x.constVal(c.Val(), c.Type())
		if b, ok := c.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && c.Val().Kind() == constant.Int {
			bi, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
			return raw(x.IntB(bi))
		}
		return r
	case *types.Var:
		sp := x.prog.prog.Package(c.Pkg())
		if sp != nil {
			if g := sp.Var(c.Name()); g != nil {
				return x.loadGlobal(v.st, g, c.Type())
			}
		}
	}
	sfail("cannot use %s", o.Name())
	return Val{}
}

// unify adapts literals to the other operand's sort.
func (v *SEnv) unify(a, b *Val) {
	x := v.x
	if len(a.C) != 1 || len(b.C) != 1 {
		// nil comparisons with slices
		return
	}
	p, q := a.C[0], b.C[0]
	if p.Sort == q.Sort {
		return
	}
	conv := func(l, r *Val) bool {
		t, s := l.C[0], r.C[0].Sort
		if t.Sort == SInt && t.num != nil && s.isBV() {
			l.C = []*Term{x.BV(t.num, s.bvWidth())}
			l.T = r.T
			return true
		}
		if t.Sort == SInt && s == SReal {
			if t.num != nil {
				l.C = []*Term{x.ratTerm(new(big.Rat).SetInt(t.num))}
			} else {
				l.C = []*Term{x.app("to_real", SReal, t)}
			}
			return true
		}
		if r0 := x.rats[t.id]; (s == SF64 || s == SF32) && t.Sort == SReal && r0 != nil {
			l.C = []*Term{x.floatConst(s, r0)}
			l.T = r.T
			return true
		}
		if (s == SF64 || s == SF32) && t.num != nil && t.Sort == SInt {
			l.C = []*Term{x.floatConst(s, new(big.Rat).SetInt(t.num))}
			l.T = r.T
			return true
		}
		if t.Sort.isBV() && s.isBV() && t.Sort.bvWidth() < s.bvWidth() {
			_, sg, ok := false, false, false
			if l.T != nil {
				_, sg, ok = intInfo(l.T)
			}
			if ok && sg {
				l.C = []*Term{x.SExt(t, s.bvWidth())}
			} else {
				l.C = []*Term{x.ZExt(t, s.bvWidth())}
			}
			return true
		}
		return false
	}
	if conv(a, b) || conv(b, a) {
		return
	}
	sfail("sort mismatch %s vs %s (%s, %s)", p.Sort, q.Sort, p, q)
}

func (v *SEnv) bin(e *E) Val {
	x := v.x
	switch e.S {
	case "&&":
		a := v.evalBool(e.Args[0])
		if a.isFalse() {
			return raw(a)
		}
		return raw(x.And(a, v.evalBool(e.Args[1])))
	case "||":
		a := v.evalBool(e.Args[0])
		if a.isTrue() {
			return raw(a)
		}
		return raw(x.Or(a, v.evalBool(e.Args[1])))
	case "==>":
		a := v.evalBool(e.Args[0])
		if a.isFalse() {
			return raw(x.True())
		}
		return raw(x.Implies(a, v.evalBool(e.Args[1])))
	case "<==>":
		return raw(x.Eq(v.evalBool(e.Args[0]), v.evalBool(e.Args[1])))
	}
	a, b := v.eval(e.Args[0]), v.eval(e.Args[1])
	switch e.S {
	case "===", "!==", "==", "!=":
		var r *Term
		neg := e.S[0] == '!'
		exact := len(e.S) == 3
		isNil := func(w Val) bool { return w.Raw && len(w.C) == 1 && w.C[0].num != nil && w.T == nil }
		switch {
		case a.Addr != nil || b.Addr != nil:
			r = x.valEq(a, b)
		case len(a.C) == 4 && isNil(b):
			r = x.Eq(a.C[0], x.Int(0))
		case len(b.C) == 4 && isNil(a):
			r = x.Eq(b.C[0], x.Int(0))
		case len(a.C) == 1 && len(b.C) == 1:
			v.unify(&a, &b)
			s := a.C[0].Sort
			if (s == SF64 || s == SF32) && !exact {
				r = x.feq(a.C[0], b.C[0])
			} else {
				r = x.Eq(a.C[0], b.C[0])
			}
		case len(a.C) == len(b.C):
			var cs []*Term
			for i := range a.C {
				cs = append(cs, x.Eq(a.C[i], b.C[i]))
			}
			r = x.And(cs...)
		default:
			sfail("comparing values of different shape")
		}
		if neg {
			r = x.Not(r)
		}
		return raw(r)
	}
	if len(a.C) != 1 || len(b.C) != 1 {
		sfail("arithmetic on composite values: %s", e.S)
	}
	if e.S == "<<" || e.S == ">>" {
		if !a.C[0].Sort.isBV() {
			if e.S == "<<" {
				return raw(x.Mul(a.C[0], x.pow2(b.C[0])))
			}
			return raw(x.Div(a.C[0], x.pow2(b.C[0])))
		}
		if b.C[0].Sort == SInt {
			b.C = []*Term{x.BV(b.C[0].num, a.C[0].Sort.bvWidth())}
		} else if w, w2 := a.C[0].Sort.bvWidth(), b.C[0].Sort.bvWidth(); w2 < w {
			b.C = []*Term{x.ZExt(b.C[0], w)}
		} else if w2 > w {
			c := b.C[0]
			b.C = []*Term{x.Ite(x.BVcmp("bvuge", c, x.BV(big.NewInt(int64(w)), w2)), x.BV(big.NewInt(int64(w)), w), x.Extract(c, w-1, 0))}
		}
	}
	v.unify(&a, &b)
	p, q := a.C[0], b.C[0]
	s := p.Sort
	T := a.T
	if T == nil || a.Raw {
		if b.T != nil {
			T = b.T
		}
	}
	switch {
	case s == SInt:
		switch e.S {
		case "+":
			return raw(x.Add(p, q))
		case "-":
			return raw(x.Sub(p, q))
		case "*":
			return raw(x.Mul(p, q))
		case "/":
			return raw(x.Div(p, q))
		case "%":
			return raw(x.Mod(p, q))
		case "<":
			return raw(x.Lt(p, q))
		case "<=":
			return raw(x.Le(p, q))
		case ">":
			return raw(x.Lt(q, p))
		case ">=":
			return raw(x.Le(q, p))
		case "&":
			return raw(x.iand(p, q, 64, false, nil))
		case "|":
			return raw(x.ior(p, q, 64, false, nil))
		case "^":
			if q.num != nil && q.num.Sign() >= 0 {
				return raw(x.Sub(x.Add(p, q), x.Mul(x.Int(2), x.iand(p, q, 64, false, nil))))
			}
			return raw(x.uf2("bxor", p, q, 64, false))
		}
	case s == SReal:
		switch e.S {
		case "+", "-", "*", "/":
			return raw(x.rop(e.S, p, q))
		case "<", "<=":
			return raw(x.app(e.S, SBool, p, q))
		case ">":
			return raw(x.app("<", SBool, q, p))
		case ">=":
			return raw(x.app("<=", SBool, q, p))
		}
	case s == SF64 || s == SF32:
		switch e.S {
		case "<":
			return raw(x.flt(p, q))
		case "<=":
			return raw(x.fle(p, q))
		case ">":
			return raw(x.flt(q, p))
		case ">=":
			return raw(x.fle(q, p))
		case "+", "-", "*", "/":
			o := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO}[e.S]
			return Val{T: T, C: []*Term{x.farith(o, p, q)}}
		}
	case s.isBV():
		signed := false
		if T != nil {
			_, signed, _ = intInfo(T)
		}
		u := func(a, b string) string {
			if signed {
				return a
			}
			return b
		}
		mk := func(t *Term) Val { return Val{T: T, C: []*Term{t}} }
		switch e.S {
		case "+":
			return mk(x.BVop("bvadd", p, q))
		case "-":
			return mk(x.BVop("bvsub", p, q))
		case "*":
			return mk(x.BVop("bvmul", p, q))
		case "/":
			return mk(x.app(u("bvsdiv", "bvudiv"), s, p, q))
		case "%":
			return mk(x.app(u("bvsrem", "bvurem"), s, p, q))
		case "&":
			return mk(x.BVop("bvand", p, q))
		case "|":
			return mk(x.BVop("bvor", p, q))
		case "^":
			return mk(x.BVop("bvxor", p, q))
		case "&^":
			return mk(x.BVop("bvand", p, x.app("bvnot", s, q)))
		case "<<":
			return Val{T: a.T, C: []*Term{x.BVop("bvshl", p, q)}}
		case ">>":
			return Val{T: a.T, C: []*Term{x.BVop("bvlshr", p, q)}}
		case "<":
			return raw(x.BVcmp(u("bvslt", "bvult"), p, q))
		case "<=":
			return raw(x.BVcmp(u("bvsle", "bvule"), p, q))
		case ">":
			return raw(x.BVcmp(u("bvsgt", "bvugt"), p, q))
		case ">=":
			return raw(x.BVcmp(u("bvsge", "bvuge"), p, q))
		}
	default:
		if strings.HasPrefix(string(s), "U_") || s == SStr {
			n := "lt_" + string(s)
			if s == SStr {
				n = "str.lt_"
			}
			switch e.S {
			case "<":
				return raw(x.App(n, SBool, p, q))
			case ">":
				return raw(x.App(n, SBool, q, p))
			case "<=":
				return raw(x.Not(x.App(n, SBool, q, p)))
			case ">=":
				return raw(x.Not(x.App(n, SBool, p, q)))
			}
		}
	}
	sfail("operator %s on %s", e.S, s)
	return Val{}
}

// loc resolves an addressable specification expression.
func (v *SEnv) loc(e *E) (*Addr, types.Type, bool) {
	x := v.x
	switch e.Op {
	case "id":
		if _, ok := v.bound[e.S]; ok {
			return nil, nil, false
		}
		return nil, nil, false
	case "un":
		if e.S == "*" {
			p := v.eval(e.Args[0])
			a := x.derefAddr(p)
			return a, a.elem, true
		}
	case "sel":
		if e.Args[0].Op == "id" && v.isPkg(e.Args[0].S) {
			return nil, nil, false
		}
		a, t, ok := v.loc(e.Args[0])
		if ok {
			if _, isp := t.Underlying().(*types.Pointer); isp {
				pv := x.loadAny(v.st, a, t)
				a = x.derefAddr(pv)
				t = a.elem
			}
		} else {
			b := v.eval(e.Args[0])
			if b.T == nil {
				sfail("selector %s on raw value", e.S)
			}
			if _, isp := b.T.Underlying().(*types.Pointer); !isp && b.Addr == nil {
				return nil, nil, false
			}
			a = x.derefAddr(b)
			t = a.elem
		}
		return v.field(a, t, e.S)
	case "index":
		a, t, ok := v.loc(e.Args[0])
		var b Val
		if ok {
			if at, isArr := t.Underlying().(*types.Array); isArr {
				i := v.idx(e.Args[1])
				n := *a
				if a.kind == 'A' {
					return &Addr{kind: 'e', ref: a.ref, idx: i, root: typeKey(at.Elem()), elem: at.Elem()}, at.Elem(), true
				}
				n.sub = append(append([]*Term{}, a.sub...), i)
				n.path += "[]"
				n.elem = at.Elem()
				return &n, at.Elem(), true
			}
			b = x.loadAny(v.st, a, t)
		} else {
			b = v.eval(e.Args[0])
		}
		if b.T == nil {
			return nil, nil, false
		}
		switch u := b.T.Underlying().(type) {
		case *types.Slice:
			i := v.idx(e.Args[1])
			return &Addr{kind: 'e', ref: b.C[0], idx: x.iadd(b.C[1], i), root: typeKey(u.Elem()), elem: u.Elem()}, u.Elem(), true
		case *types.Pointer:
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				return &Addr{kind: 'e', ref: b.C[0], idx: v.idx(e.Args[1]), root: typeKey(at.Elem()), elem: at.Elem()}, at.Elem(), true
			}
		}
	}
	return nil, nil, false
}

func (v *SEnv) field(a *Addr, t types.Type, name string) (*Addr, types.Type, bool) {
	x := v.x
	var pk *types.Package = v.pkg
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		pk = n.Obj().Pkg()
	}
	o, path, _ := types.LookupFieldOrMethod(t, true, pk, name)
	f, ok := o.(*types.Var)
	if !ok {
		sfail("no field %s in %s", name, t)
	}
	_ = f
	cur := *a
	ct := t
	for k, i := range path {
		if p, isp := ct.Underlying().(*types.Pointer); isp {
			pv := x.loadAny(v.st, &cur, ct)
			cur = *x.derefAddr(pv)
			ct = p.Elem()
		}
		st := ct.Underlying().(*types.Struct)
		fl := st.Field(i)
		cur.path += "." + fl.Name()
		cur.elem = fl.Type()
		ct = fl.Type()
		_ = k
	}
	return &cur, ct, true
}

func (v *SEnv) isPkg(n string) bool {
	if _, ok := v.bound[n]; ok {
		return false
	}
	if v.lookup != nil {
		if _, ok := v.lookup(n); ok {
			return false
		}
	}
	return v.findPkg(n) != nil
}
func (v *SEnv) findPkg(n string) *types.Package {
	if v.pkg == nil {
		return nil
	}
	if _, ok := v.lets[n]; ok {
		return nil
	}
	for _, p := range v.pkg.Imports() {
		if p.Name() == n {
			return p
		}
	}
	return v.x.prog.pkgByName[n]
}

func (v *SEnv) sel(e *E) Val {
	x := v.x
	if e.Args[0].Op == "id" && v.isPkg(e.Args[0].S) {
		p := v.findPkg(e.Args[0].S)
		o := p.Scope().Lookup(e.S)
		if o == nil {
			sfail("no %s in package %s", e.S, e.Args[0].S)
		}
		return v.object(o)
	}
	if a, t, ok := v.loc(e); ok {
		return x.loadAny(v.st, a, t)
	}
	b := v.eval(e.Args[0])
	if b.T == nil {
		sfail("selector on raw value: .%s", e.S)
	}
	if st, ok := b.T.Underlying().(*types.Struct); ok {
		off := 0
		for k := 0; k < st.NumFields(); k++ {
			n := len(x.leaves(st.Field(k).Type()))
			if st.Field(k).Name() == e.S {
				return Val{T: st.Field(k).Type(), C: b.C[off : off+n]}
			}
			off += n
		}
		// a field promoted from an embedded struct value
		pk := v.pkg
		if n, ok := types.Unalias(b.T).(*types.Named); ok && n.Obj().Pkg() != nil {
			pk = n.Obj().Pkg()
		}
		if o, path, ptr := types.LookupFieldOrMethod(b.T, true, pk, e.S); !ptr && len(path) > 1 {
			if _, ok := o.(*types.Var); ok {
				t, lo := b.T, 0
				for _, k := range path {
					st, ok := t.Underlying().(*types.Struct)
					if !ok {
						sfail("no field %s", e.S)
					}
					for j := 0; j < k; j++ {
						lo += len(x.leaves(st.Field(j).Type()))
					}
					t = st.Field(k).Type()
				}
				return Val{T: t, C: b.C[lo : lo+len(x.leaves(t))]}
			}
		}
	}
	sfail("no field %s", e.S)
	return Val{}
}

func (v *SEnv) index(e *E) Val {
	x := v.x
	if a, t, ok := v.loc(e); ok {
		return x.loadAny(v.st, a, t)
	}
	b := v.eval(e.Args[0])
	if b.T != nil {
		switch u := b.T.Underlying().(type) {
		case *types.Map:
			k := v.eval(e.Args[1])
			r, _ := x.mapGet(v.st, b, k)
			return r
		case *types.Array:
			i := v.idx(e.Args[1])
			r := Val{T: u.Elem()}
			for k := range x.leaves(u.Elem()) {
				r.C = append(r.C, x.Select(b.C[k], i))
			}
			return r
		}
		if isStringT(b.T) {
			arr := x.App("str.bytes_uint8", SArr(SInt, SInt), b.C[0])
			return raw(x.Select(arr, v.idx(e.Args[1])))
		}
	}
	if b.T == nil && len(b.C) == 1 && b.C[0].Sort == SStr {
		return raw(x.Select(x.App("str.bytes_uint8", SArr(SInt, SInt), b.C[0]), v.idx(e.Args[1])))
	}
	if len(b.C) == 1 && b.C[0].Sort.isArr() {
		ks, _ := b.C[0].Sort.arrParts()
		i := v.eval(e.Args[1]).C[0]
		if ks.isBV() && i.Sort == SInt && i.num != nil {
			i = x.BV(i.num, ks.bvWidth())
		}
		if ks != i.Sort {
			sfail("array index sort %s, want %s", i.Sort, ks)
		}
		return raw(x.Select(b.C[0], i))
	}
	sfail("cannot index")
	return Val{}
}

func (v *SEnv) call(e *E) Val {
	x := v.x
	f := e.Args[0]
	args := e.Args[1:]
	if f.Op == "sel" {
		// function-valued field or interface method: uninterpreted pure function
		if f.Args[0].Op == "id" && v.isPkg(f.Args[0].S) {
			n := *v
			n.pkg = v.findPkg(f.Args[0].S)
			ev := v
			if r, ok := n.goCallIn(f.S, args, ev); ok {
				return r
			}
		}
		if r, ok := v.funcField(f, args); ok {
			return r
		}
		sfail("cannot call method %s in a specification", f.S)
	}
	if f.Op != "id" {
		sfail("bad call")
	}
	if v.inApply {
		if lm := x.prog.specs.Lemmas[f.S]; lm != nil {
			if lm == v.selfLm {
				sfail("lemma %s: a quantified application of itself", lm.Name)
			}
			x.usedLemmas[lm.Name] = true
			return raw(x.lemmaInst(lm, v, args))
		}
	}
	switch f.S {
	case "seqlen", "seqarr", "seqarr1", "seqarr2", "seqarr3":
		fv := v.eval(args[0])
		if fv.T == nil {
			sfail("%s: not an iterator", f.S)
		}
		if _, ok := iterElems(fv.T); !ok {
			sfail("%s: not an iterator", f.S)
		}
		if f.S == "seqlen" {
			return Val{T: types.Typ[types.Int], C: []*Term{x.seqLen(fv, v.st)}}
		}
		k := 0
		if len(f.S) > 6 {
			k = int(f.S[6] - '0')
		}
		return raw(x.seqArr(fv, k, v.st))
	case "old", "pre":
		n := *v
		if v.old == nil {
			sfail("old() not available here")
		}
		n.st = v.old
		if v.oldLk != nil {
			n.lookup = v.oldLk
		}
		n.lets = v.lets
		return n.eval(args[0])
	case "entry":
		// heap at loop entry, current variable values
		if v.lentry == nil {
			sfail("entry() not available here")
		}
		n := *v
		n.st = v.lentry
		return n.eval(args[0])
	case "headv":
		// headv(N, e): e at the header of loop N, heap and variables
		h := v.lheads[int(args[0].num().Int64())]
		lk := v.lheadLk[int(args[0].num().Int64())]
		if h == nil || lk == nil {
			sfail("headv(): no such loop so far")
		}
		n := *v
		n.st = h
		n.lookup = lk
		return n.eval(args[1])
	case "head":
		// head(N, e): e in the heap at the header of loop N
		h := v.lheads[int(args[0].num().Int64())]
		if h == nil {
			sfail("head(): no such loop so far")
		}
		n := *v
		n.st = h
		return n.eval(args[1])
	case "oldmem":
		// entry heap, current variable values
		n := *v
		n.st = v.old
		return n.eval(args[0])
	case "len", "cap":
		s := v.eval(args[0])
		if s.T != nil {
			if _, ok := s.T.Underlying().(*types.Slice); ok {
				if f.S == "cap" {
					return Val{T: types.Typ[types.Int], C: []*Term{s.C[3]}}
				}
				return Val{T: types.Typ[types.Int], C: []*Term{s.C[2]}}
			}
			if isStringT(s.T) {
				return Val{T: types.Typ[types.Int], C: []*Term{x.strLen(s.C[0])}}
			}
			if mt, ok := s.T.Underlying().(*types.Map); ok {
				return Val{T: types.Typ[types.Int], C: []*Term{x.mapLen(v.st, mt, s.C[0])}}
			}
			if at, ok := s.T.Underlying().(*types.Array); ok {
				return Val{T: types.Typ[types.Int], C: []*Term{x.iconst(at.Len())}}
			}
		}
		if len(s.C) == 1 && s.C[0].Sort == SStr {
			return Val{T: types.Typ[types.Int], C: []*Term{x.strLen(s.C[0])}}
		}
		sfail("len of non-slice")
	case "off":
		return raw(v.eval(args[0]).C[1])
	case "ref":
		r := v.eval(args[0])
		if r.Addr != nil {
			return raw(r.Addr.ref)
		}
		return raw(r.C[0])
	case "fresh":
		r := v.eval(args[0])
		ref := r.C[0]
		return raw(x.Lt(v.old.top, ref))
	case "popcount":
		return raw(x.bitsFn("OnesCount64", v.eval(args[0]).C[0]))
	case "typeis", "dyn":
		// typeis(i, T): the interface value i holds a *T; dyn(i, T): that pointer
		r := v.eval(args[0])
		t := v.ptrTypeNamed(args[1])
		if f.S == "dyn" {
			return Val{T: t, C: []*Term{x.ifPtr(r.C[0])}}
		}
		return raw(x.isDyn(r.C[0], t))
	case "alloced":
		r := v.eval(args[0])
		return raw(x.Le(r.C[0], v.st.top))
	case "arr":
		s := v.eval(args[0])
		path := ""
		if len(args) > 1 {
			path = args[1].S
			if !strings.HasPrefix(path, ".") {
				path = "." + path
			}
		}
		if at, ok := s.T.Underlying().(*types.Array); ok {
			_ = at
			return raw(s.C[0])
		}
		et := s.T.Underlying().(*types.Slice).Elem()
		for i, l := range x.leaves(et) {
			if l.path == path {
				return raw(x.elemArrs(v.st, s)[i])
			}
		}
		sfail("no element leaf %s", path)
	case "fieldmap":
		// fieldmap("pkg.T.f"): the integer field f of every T, by reference
		return raw(x.hget(v.st, args[0].S, SArr(SInt, SInt)))
	case "dom":
		m := v.eval(args[0])
		mt := m.T.Underlying().(*types.Map)
		k, ks := x.mapKeys(mt)
		h := x.hget(v.st, k+".dom", SArr(SInt, SArr(ks, SBool)))
		return raw(x.Select(h, m.C[0]))
	case "mapvals":
		m := v.eval(args[0])
		mt := m.T.Underlying().(*types.Map)
		k, ks := x.mapKeys(mt)
		l := x.leaves(mt.Elem())[0]
		h := x.hget(v.st, k+".val"+l.path, SArr(SInt, SArr(ks, l.sort)))
		return raw(x.Select(h, m.C[0]))
	case "has":
		m := v.eval(args[0])
		_, in := x.mapGet(v.st, m, v.eval(args[1]))
		return raw(in)
	case "real":
		t := v.term(args[0])
		if t.Sort == SInt {
			if t.num != nil {
				return raw(x.ratTerm(new(big.Rat).SetInt(t.num)))
			}
			return raw(x.app("to_real", SReal, t))
		}
		if t.Sort == SReal {
			return raw(t)
		}
		return raw(x.fval(t))
	case "isnan":
		return raw(x.fnan(v.term(args[0])))
	case "pow2":
		t := v.term(args[0])
		return raw(x.pow2(t))
	case "max", "min":
		a, b := v.eval(args[0]), v.eval(args[1])
		v.unify(&a, &b)
		var c *Term
		if a.C[0].Sort.isBV() {
			c = x.BVcmp("bvsle", a.C[0], b.C[0])
		} else {
			c = x.Le(a.C[0], b.C[0])
		}
		if f.S == "min" {
			return Val{T: a.T, Raw: true, C: []*Term{x.Ite(c, a.C[0], b.C[0])}}
		}
		return Val{T: a.T, Raw: true, C: []*Term{x.Ite(c, b.C[0], a.C[0])}}
	case "abs":
		t := v.term(args[0])
		return raw(x.Ite(x.Le(x.Int(0), t), t, x.Sub(x.Int(0), t)))
	case "unchanged":
		var cs []*Term
		for _, a := range args {
			n := *v
			n.st = v.old
			o, c := n.eval(a), v.eval(a)
			if c.T != nil && len(c.C) == 4 {
				oa, ca := x.elemArrs(v.old, o), x.elemArrs(v.st, c)
				for i := range oa {
					cs = append(cs, x.Eq(oa[i], ca[i]))
				}
			}
			for i := range c.C {
				cs = append(cs, x.Eq(o.C[i], c.C[i]))
			}
			if c.T != nil {
				if p, ok := c.T.Underlying().(*types.Pointer); ok {
					ov, cv := x.loadAny(v.old, x.derefAddr(o), p.Elem()), x.loadAny(v.st, x.derefAddr(c), p.Elem())
					for i := range ov.C {
						cs = append(cs, x.Eq(ov.C[i], cv.C[i]))
					}
				}
			}
		}
		return raw(x.And(cs...))
	case "store":
		a, i, w := v.term(args[0]), v.term(args[1]), v.term(args[2])
		return raw(x.Store(a, i, w))
	case "constarr":
		s := x.sortOf("arr<" + args[0].S + ">")
		return raw(x.ConstArr(s, v.term(args[1])))
	case "bvu", "bvs": // bit-vector view: bvu(e, width)
		r := v.eval(args[0])
		w := int(args[1].num().Int64())
		t := r.C[0]
		if t.Sort == SInt && t.num != nil {
			return Val{T: nil, C: []*Term{x.BV(t.num, w)}}
		}
		if t.Sort.bvWidth() >= w {
			return Val{C: []*Term{x.Extract(t, w-1, 0)}}
		}
		if f.S == "bvs" {
			return Val{C: []*Term{x.SExt(t, w)}}
		}
		return Val{C: []*Term{x.ZExt(t, w)}}
	case "bits": // the IEEE bit pattern of a float, as math.Float64bits gives it
		c := v.eval(args[0]).C[0]
		w, bt := 64, types.Typ[types.Uint64]
		if c.Sort == SF32 {
			w, bt = 32, types.Typ[types.Uint32]
		}
		t := x.App("f2b_"+string(c.Sort), x.isort(w), c)
		if !t.free {
			x.typeFact(t, Leaf{"", t.Sort, bt, 'i'}, v.st)
			x.always(x.Eq(x.App("b2f_"+string(c.Sort), c.Sort, t), c))
		}
		return Val{T: bt, C: []*Term{t}}
	case "isfinite":
		return raw(x.Not(x.Or(x.fnan(v.term(args[0])), x.finf(v.term(args[0])))))
	case "zero":
		r := v.eval(args[0])
		return x.zeroVal(r.T)
	case "fn":
		// fn(name, sort, args...): application of a named uninterpreted function
	}
	if bt, ok := basicByName[f.S]; ok && len(args) == 1 {
		a := v.eval(args[0])
		w, sg, isInt := intInfo(bt)
		if isInt {
			t := a.C[0]
			if x.bv {
				if t.Sort == SInt {
					if t.num == nil {
						sfail("int conversion of a mathematical integer in bv mode")
					}
					return Val{T: bt, C: []*Term{x.BV(t.num, w)}}
				}
				fw := t.Sort.bvWidth()
				if w <= fw {
					return Val{T: bt, C: []*Term{x.Extract(t, w-1, 0)}}
				}
				fs := false
				if a.T != nil {
					_, fs, _ = intInfo(a.T)
				}
				if fs {
					return Val{T: bt, C: []*Term{x.SExt(t, w)}}
				}
				return Val{T: bt, C: []*Term{x.ZExt(t, w)}}
			}
			if t.Sort == SInt {
				if f.S == "int" && a.T == nil {
					return raw(t)
				}
				return Val{T: bt, C: []*Term{x.wrapPure(t, w, sg)}}
			}
			if t.Sort == SF64 || t.Sort == SF32 {
				return x.convert(a, bt, v.st, v.guard, "")
			}
		}
		if fs, ok := isFloat(bt); ok {
			t := a.C[0]
			if t.Sort == SInt {
				return Val{T: bt, C: []*Term{x.intToFloat(t, types.Typ[types.Int64], fs)}}
			}
			if t.Sort.isBV() {
				return Val{T: bt, C: []*Term{x.intToFloat(t, a.T, fs)}}
			}
			return x.convert(a, bt, v.st, v.guard, "")
		}
	}
	if d, ok := x.prog.specs.Defines[f.S]; ok {
		if len(args) != len(d.Params) {
			sfail("%s: wrong number of arguments", f.S)
		}
		n := *v
		n.bound = map[string]Val{}
		for i, p := range d.Params {
			a := v.eval(args[i])
			if a.T == nil && len(a.C) == 1 && x.bv && a.C[0].Sort == SInt && a.C[0].num != nil {
				if bt, ok := basicByName[p.Type]; ok {
					w, _, _ := intInfo(bt)
					a = Val{T: bt, C: []*Term{x.BV(a.C[0].num, w)}}
				}
			}
			n.bound[p.Name] = a
		}
		n.lookup = nil
		n.oldLk = nil
		n.lets = nil
		return n.eval(d.Body)
	}
	if fd, ok := x.prog.specs.Funcs[f.S]; ok {
		if len(args) != len(fd.Params) {
			sfail("%s: wrong number of arguments", f.S)
		}
		var ts []*Term
		for i, a := range args {
			w := v.eval(a)
			s := x.sortOf(fd.Params[i].Type)
			if len(w.C) != 1 {
				sfail("%s: composite argument", f.S)
			}
			t := w.C[0]
			if t.Sort != s {
				d := Val{C: []*Term{x.zeroLeafSort(s)}}
				v.unify(&w, &d)
				t = w.C[0]
			}
			if t.Sort != s {
				sfail("%s: argument %d has sort %s, want %s", f.S, i, t.Sort, s)
			}
			ts = append(ts, t)
		}
		r := x.App("F_"+f.S, x.sortOf(fd.Ret), ts...)
		rv := Val{C: []*Term{r}, Raw: true}
		if bt, ok := basicByName[fd.Ret]; ok && x.bv {
			rv.T = bt
		}
		return rv
	}
	// a function-valued variable or parameter
	if r, ok := v.funcVar(f.S, args); ok {
		return r
	}
	// a pure Go function of the package, executed symbolically
	if r, ok := v.goCall(f.S, args); ok {
		return r
	}
	sfail("unknown function %s", f.S)
	return Val{}
}

func (x *Exec) zeroLeafSort(s Sort) *Term {
	if s == SReal {
		return x.ratTerm(new(big.Rat))
	}
	return x.zeroSort(s, Leaf{})
}

func (e *E) num() *big.Int {
	b, _ := new(big.Int).SetString(e.S, 0)
	if b == nil {
		sfail("expected a number")
	}
	return b
}

// wrapPure wraps without using path-dependent bounds.
func (x *Exec) wrapPure(t *Term, w int, signed bool) *Term { return x.wrap(t, w, signed, nil) }

// goCall inlines a repository function inside a specification.
func (v *SEnv) goCall(name string, args []*E) (Val, bool) { return v.goCallIn(name, args, v) }

// goCallIn calls a function of v's package with arguments evaluated in ev.
func (v *SEnv) goCallIn(name string, args []*E, ev *SEnv) (Val, bool) {
	x := v.x
	if v.pkg == nil {
		return Val{}, false
	}
	sp := x.prog.prog.Package(v.pkg)
	if sp == nil {
		return Val{}, false
	}
	fn := sp.Func(name)
	if fn == nil || fn.TypeParams().Len() > 0 {
		return Val{}, false
	}
	var as []Val
	for i, a := range args {
		w := ev.eval(a)
		pt := fn.Params[i].Type()
		if w.T == nil || w.Raw {
			if bw, _, ok := intInfo(pt); ok && x.bv && w.C[0].Sort == SInt && w.C[0].num != nil {
				w.C = []*Term{x.BV(w.C[0].num, bw)}
			}
			w.T = pt
			w.Raw = false
		}
		as = append(as, w)
	}
	if c := x.prog.specs.Contracts[funcKey(fn)]; c != nil && !c.Inline {
		if c.Functional {
			x.usedContracts[c.Key] = true
			rs := x.functional(c, as, fn.Signature, v.st)
			return rs[0], true
		}
		// use the functional postcondition "result == e" only
		for _, en := range c.Ensures {
			if en.E.Op == "bin" && (en.E.S == "==" || en.E.S == "===") && en.E.Args[0].Op == "id" && en.E.Args[0].S == "result" {
				n := &SEnv{x: x, st: v.st, old: v.st, guard: v.guard, pkg: fn.Pkg.Pkg, bound: map[string]Val{}, lets: c.Lets, depth: v.depth}
				for i, p := range fn.Params {
					n.bound[p.Name()] = as[i]
				}
				return n.eval(en.E.Args[1]), true
			}
		}
		return Val{}, false
	}
	x.muted++
	x.specCall++
	cur := x.cur
	rs, _ := x.inline(fn, as, nil, nil, v.st.clone(), x.True(), nil)
	x.cur = cur
	x.specCall--
	x.muted--
	if len(rs) == 1 {
		return rs[0], true
	}
	return Val{T: fn.Signature.Results(), Tup: rs}, true
}

func (v *SEnv) funcField(f *E, args []*E) (Val, bool) {
	x := v.x
	b := v.eval(f.Args[0])
	if b.T == nil {
		return Val{}, false
	}
	if it, ok := b.T.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); m.Name() == f.S {
				var as []Val
				for _, a := range args {
					as = append(as, v.eval(a))
				}
				r := x.ufCall("im_"+typeKey(b.T)+"."+f.S, b.C[0], as, m.Type().(*types.Signature), v.st)
				return r[0], true
			}
		}
		return Val{}, false
	}
	fv := v.sel(f)
	sg, ok := fv.T.Underlying().(*types.Signature)
	if !ok {
		return Val{}, false
	}
	var as []Val
	for _, a := range args {
		as = append(as, v.eval(a))
	}
	r := x.ufCall("fv_"+typeKey(fv.T.Underlying()), fv.C[0], as, sg, v.st)
	return r[0], true
}

// funcVar applies a function-valued variable.
func (v *SEnv) funcVar(name string, args []*E) (Val, bool) {
	var fv Val
	ok := false
	if b, has := v.bound[name]; has {
		fv, ok = b, true
	} else if v.lookup != nil {
		fv, ok = v.lookup(name)
	}
	if !ok || fv.T == nil {
		return Val{}, false
	}
	sg, ok := fv.T.Underlying().(*types.Signature)
	if !ok {
		return Val{}, false
	}
	if len(args) != sg.Params().Len() {
		sfail("%s: wrong number of arguments", name)
	}
	var as []Val
	for _, a := range args {
		as = append(as, v.eval(a))
	}
	if fv.Clo != nil {
		return v.applyClo(fv.Clo, as), true
	}
	r := v.x.ufCall("fv_"+typeKey(fv.T.Underlying()), fv.C[0], as, sg, v.st)
	return r[0], true
}

// applyClo evaluates a known closure inside a specification.
func (v *SEnv) applyClo(c *Closure, as []Val) Val {
	x := v.x
	for i := range as {
		if as[i].T == nil || as[i].Raw {
			as[i].T = substType(c.fn.Params[i].Type(), c.subst)
			as[i].Raw = false
		}
	}
	x.muted++
	x.specCall++
	cur := x.cur
	rs, _ := x.inline(c.fn, as, c.bind, c.subst, v.st.clone(), x.True(), nil)
	x.cur = cur
	x.specCall--
	x.muted--
	return rs[0]
}

// ufCall models a call of an unknown pure function value.
func (x *Exec) ufCall(name string, fref *Term, args []Val, sg *types.Signature, st *State) []Val {
	ts := []*Term{fref}
	for _, a := range args {
		ts = append(ts, a.C...)
	}
	var out []Val
	for i := 0; i < sg.Results().Len(); i++ {
		rt := sg.Results().At(i).Type()
		r := Val{T: rt}
		for _, l := range x.leaves(rt) {
			t := x.App(fmt.Sprintf("%s#%d%s", name, i, l.path), l.sort, ts...)
			x.typeFact(t, l, st)
			r.C = append(r.C, t)
		}
		out = append(out, r)
	}
	return out
}

// targets evaluates a modifies clause.
func (v *SEnv) targets(cl Clause) []modTarget {
	x := v.x
	e := cl.E
	var cond *Term
	if e.Op == "if" {
		sfail("conditional modifies not supported")
	}
	objKeys := func(a *Addr, t types.Type) []modTarget {
		var out []modTarget
		if a.kind == 'A' {
			et := a.elem.Underlying().(*types.Array).Elem()
			for _, l := range x.leaves(et) {
				x.hget(v.st, "[]"+typeKey(et)+l.path, SArr(SInt, SArr(x.idxSort(), l.sort)))
				out = append(out, modTarget{key: "[]" + typeKey(et) + l.path, ref: a.ref, cond: cond})
			}
			return out
		}
		for _, l := range x.leaves(t) {
			k, ks := x.keyFor(a, l)
			x.hget(v.st, k, ks)
			m := modTarget{key: k, ref: a.ref, cond: cond}
			if a.kind == 'g' {
				m.any = true
			}
			if a.kind == 'e' {
				m.lo, m.hi = a.idx, x.iadd(a.idx, x.iconst(1))
			}
			out = append(out, m)
		}
		return out
	}
	switch {
	case e.Op == "index" && e.Args[1] != nil && e.Args[1].Op == "id" && e.Args[1].S == "ALL":
		s := v.eval(e.Args[0])
		switch u := s.T.Underlying().(type) {
		case *types.Slice:
			var out []modTarget
			for _, l := range x.leaves(u.Elem()) {
				x.hget(v.st, "[]"+typeKey(u.Elem())+l.path, SArr(SInt, SArr(x.idxSort(), l.sort)))
				out = append(out, modTarget{key: "[]" + typeKey(u.Elem()) + l.path, ref: s.C[0]})
			}
			return out
		case *types.Map:
			k, ks := x.mapKeys(u)
			x.hget(v.st, k+".dom", SArr(SInt, SArr(ks, SBool)))
			x.hget(v.st, k+".n", SArr(SInt, SInt))
			out := []modTarget{{key: k + ".dom", ref: s.C[0]}, {key: k + ".n", ref: s.C[0]}}
			for _, l := range x.leaves(u.Elem()) {
				x.hget(v.st, k+".val"+l.path, SArr(SInt, SArr(ks, l.sort)))
				out = append(out, modTarget{key: k + ".val" + l.path, ref: s.C[0]})
			}
			return out
		}
		sfail("modifies %s: not a slice or map", cl.Text)
	case e.Op == "slice":
		s := v.eval(e.Args[0])
		u, ok := s.T.Underlying().(*types.Slice)
		if !ok {
			sfail("modifies %s: not a slice", cl.Text)
		}
		lo, hi := x.iconst(0), s.C[2]
		if e.Args[1] != nil {
			lo = v.idx(e.Args[1])
		}
		if e.Args[2] != nil {
			hi = v.idx(e.Args[2])
		}
		var out []modTarget
		for _, l := range x.leaves(u.Elem()) {
			x.hget(v.st, "[]"+typeKey(u.Elem())+l.path, SArr(SInt, SArr(x.idxSort(), l.sort)))
			out = append(out, modTarget{key: "[]" + typeKey(u.Elem()) + l.path, ref: s.C[0], lo: x.iadd(s.C[1], lo), hi: x.iadd(s.C[1], hi)})
		}
		return out
	case e.Op == "sel" && e.S == "ALL":
		b := v.eval(e.Args[0])
		a := x.derefAddr(b)
		return objKeys(a, a.elem)
	case e.Op == "call" && e.Args[0].Op == "id" && e.Args[0].S == "global":
		// global(name)
		sp := x.prog.prog.Package(v.pkg)
		g := sp.Var(e.Args[1].S)
		if g == nil {
			sfail("no global %s", e.Args[1].S)
		}
		a := &Addr{kind: 'g', root: shortPkg(g.Pkg.Pkg) + "." + g.Name(), elem: g.Type().(*types.Pointer).Elem()}
		return objKeys(a, a.elem)
	case e.Op == "call" && e.Args[0].Op == "id" && e.Args[0].S == "every":
		// every("heapkeyprefix"): any object's field
		return []modTarget{{key: e.Args[1].S, wild: true, any: true}}
	}
	if a, t, ok := v.loc(e); ok {
		return objKeys(a, t)
	}
	sfail("bad modifies target %s", cl.Text)
	return nil
}

// ptrTypeNamed resolves T or pkg.T to *T.
func (v *SEnv) ptrTypeNamed(e *E) types.Type {
	pk, name := v.pkg, e.S
	if e.Op == "sel" {
		pk, name = v.x.prog.pkgByName[e.Args[0].S], e.S
	}
	if pk != nil {
		if o := pk.Scope().Lookup(name); o != nil {
			if _, ok := o.(*types.TypeName); ok {
				return types.NewPointer(o.Type())
			}
		}
	}
	sfail("unknown type %s", name)
	return nil
}
