package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
)

func (x *Exec) strConst(s string) *Term {
	x.useSort(SStr)
	if s == "" {
		t := x.Const("str_empty", SStr)
		x.always(x.Eq(x.App("str.len_", SInt, t), x.Int(0)))
		return t
	}
	t := x.Const(fmt.Sprintf("str_%x", s), SStr)
	x.always(x.Eq(x.App("str.len_", SInt, t), x.Int(int64(len(s)))))
	return t
}
func (x *Exec) strLen(s *Term) *Term {
	t := x.App("str.len_", SInt, s)
	if !t.free {
		t.lo, t.hi = big0, maxLen
		x.always(x.app("<=", SBool, x.Int(0), t))
		x.always(x.app("<=", SBool, t, x.IntB(maxLen)))
	}
	if x.bv {
		panic(unsupported("string length in bv mode"))
	}
	return t
}

// floats: an uninterpreted sort with a real-valued view; comparisons are exact
// IEEE comparisons, arithmetic is uninterpreted.
func (x *Exec) floatConst(s Sort, r *big.Rat) *Term {
	x.useSort(s)
	t := x.Const("fc_"+string(s)+"_"+sanitize(r.RatString()), s)
	x.always(x.Not(x.App("fnan_"+string(s), SBool, t)))
	x.always(x.Eq(x.App("fval_"+string(s), SReal, t), x.ratTerm(r)))
	if x.fconsts == nil {
		x.fconsts = map[int]*big.Rat{}
	}
	x.fconsts[t.id] = r
	return t
}
func (x *Exec) ratTerm(r *big.Rat) *Term {
	n := new(big.Rat).Abs(r)
	txt := fmt.Sprintf("(/ %s.0 %s.0)", n.Num().String(), n.Denom().String())
	if r.Sign() < 0 {
		txt = "(- " + txt + ")"
	}
	t := x.mk(&Term{Op: txt, Sort: SReal, kind: 'l'})
	if x.rats == nil {
		x.rats = map[int]*big.Rat{}
	}
	x.rats[t.id] = r
	return t
}
func (x *Exec) fval(t *Term) *Term {
	if r := x.fconsts[t.id]; r != nil {
		return x.ratTerm(r)
	}
	return x.App("fval_"+string(t.Sort), SReal, t)
}
func (x *Exec) fnan(t *Term) *Term {
	if x.fconsts[t.id] != nil {
		return x.False()
	}
	return x.App("fnan_"+string(t.Sort), SBool, t)
}
func (x *Exec) finf(t *Term) *Term { return x.App("finf_"+string(t.Sort), SBool, t) }
func (x *Exec) flt(a, b *Term) *Term {
	return x.And(x.Not(x.fnan(a)), x.Not(x.fnan(b)), x.app("<", SBool, x.fval(a), x.fval(b)))
}
func (x *Exec) fle(a, b *Term) *Term {
	return x.And(x.Not(x.fnan(a)), x.Not(x.fnan(b)), x.app("<=", SBool, x.fval(a), x.fval(b)))
}
func (x *Exec) feq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(unsupported("float sorts"))
	}
	return x.And(x.Not(x.fnan(a)), x.Not(x.fnan(b)), x.mk(&Term{Op: "=", Sort: SBool, kind: 'a', Args: []*Term{x.fval(a), x.fval(b)}}))
}

func (x *Exec) constVal(c constant.Value, t types.Type) Val {
	if c == nil { // nil or zero
		return x.zeroVal(t)
	}
	if _, ok := t.(*types.TypeParam); ok {
		v := x.zeroVal(t)
		if constant.Sign(c) != 0 {
			v.C = []*Term{x.Const("const_"+c.ExactString()+"_"+string(v.C[0].Sort), v.C[0].Sort)}
		}
		return v
	}
	if w, _, ok := intInfo(t); ok {
		iv := constant.ToInt(c)
		b, _ := new(big.Int).SetString(iv.ExactString(), 10)
		if b == nil {
			panic(unsupported("const " + c.String()))
		}
		if x.bv {
			return Val{T: t, C: []*Term{x.BV(b, w)}}
		}
		return Val{T: t, C: []*Term{x.IntB(b)}}
	}
	if fs, ok := isFloat(t); ok {
		f := constant.ToFloat(c)
		var r *big.Rat
		if fs == SF32 {
			v, _ := constant.Float32Val(f)
			r = new(big.Rat).SetFloat64(float64(v))
		} else {
			v, _ := constant.Float64Val(f)
			if math.IsInf(v, 0) {
				panic(unsupported("inf const"))
			}
			r = new(big.Rat).SetFloat64(v)
		}
		return Val{T: t, C: []*Term{x.floatConst(fs, r)}}
	}
	if isBoolT(t) {
		return Val{T: t, C: []*Term{x.Bool(constant.BoolVal(c))}}
	}
	if isStringT(t) {
		return Val{T: t, C: []*Term{x.strConst(constant.StringVal(c))}}
	}
	panic(unsupported("constant of type " + t.String()))
}

func (x *Exec) wrap(t *Term, w int, signed bool, st *State) *Term {
	lo, hi := intRange(w, signed)
	l, h := x.lo(t, st), x.hi(t, st)
	lowOK := l != nil && l.Cmp(lo) >= 0
	hiOK := h != nil && h.Cmp(hi) <= 0
	if lowOK && hiOK {
		return t
	}
	m := pow2b(w)
	m1 := new(big.Int).Add(hi, m)
	m2 := new(big.Int).Sub(lo, m)
	oneUp := h != nil && h.Cmp(m1) <= 0
	oneDn := l != nil && l.Cmp(m2) >= 0
	rng := func(r *Term) *Term {
		// the range holds on this path; record it globally only when it does not depend on the path
		gl, gh := x.lo(t, nil), x.hi(t, nil)
		lowG := gl != nil && (gl.Cmp(lo) >= 0 || (!lowOK && gl.Cmp(m2) >= 0))
		hiG := gh != nil && (gh.Cmp(hi) <= 0 || (!hiOK && gh.Cmp(m1) <= 0))
		if st == nil || (lowG && hiG) {
			setRange(r, lo, hi)
		} else if r.num == nil {
			st.ref = &refine{t: r, lo: lo, hi: hi, next: st.ref}
		}
		return r
	}
	if (lowOK || oneDn) && (hiOK || oneUp) {
		r := t
		if !hiOK {
			r = x.Ite(x.Le(t, x.IntB(hi)), t, x.Sub(t, x.IntB(m)))
		}
		if !lowOK {
			r = x.Ite(x.Lt(t, x.IntB(lo)), x.Add(t, x.IntB(m)), r)
		}
		return rng(r)
	}
	r := x.Mod(t, x.IntB(m))
	if signed {
		r = x.Ite(x.Le(r, x.IntB(hi)), r, x.Sub(r, x.IntB(m)))
	}
	setRange(r, lo, hi)
	return r
}
func setRange(r *Term, lo, hi *big.Int) {
	if r.num != nil {
		return
	}
	if r.lo == nil || r.lo.Cmp(lo) < 0 {
		r.lo = lo
	}
	if r.hi == nil || r.hi.Cmp(hi) > 0 {
		r.hi = hi
	}
}

// pow2 of a term (Int mode).
func (x *Exec) pow2(n *Term) *Term {
	if n.num != nil && n.num.Sign() >= 0 && n.num.BitLen() < 12 {
		return x.IntB(pow2b(int(n.num.Int64())))
	}
	t := x.App("pow2", SInt, n)
	if !t.free {
		if t.lo == nil {
			t.lo = big1
		}
		x.always(x.app("<=", SBool, x.Int(1), t))
		if n.hi != nil && n.hi.Cmp(big.NewInt(300)) < 0 && n.hi.Sign() >= 0 {
			if t.hi == nil {
				t.hi = pow2b(int(n.hi.Int64()))
			}
		}
		for _, k := range []int64{6, 7, 8, 16, 26, 27, 31, 32, 62, 63} {
			x.always(x.Implies(x.Le(n, x.Int(k)), x.app("<=", SBool, t, x.IntB(pow2b(int(k))))))
		}
		for _, k := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 8} {
			x.always(x.Implies(x.Eq(n, x.Int(k)), x.Eq(t, x.IntB(pow2b(int(k))))))
			x.always(x.Implies(x.Le(x.Int(k), n), x.app("<=", SBool, x.IntB(pow2b(int(k))), t)))
		}
		// recurrences with neighbours already seen
		p1 := x.Add(n, x.Int(-1))
		x.always(x.Implies(x.Le(x.Int(1), n), x.Eq(t, x.Mul(x.Int(2), x.App("pow2", SInt, p1)))))
		x.always(x.Implies(x.Le(x.Int(1), n), x.app("<=", SBool, x.Int(1), x.App("pow2", SInt, p1))))
		x.usesPow2 = true
	}
	return t
}

func isMask(n *big.Int) int { // 2^k-1 -> k, else -1
	if n.Sign() <= 0 {
		return -1
	}
	m := new(big.Int).Add(n, big1)
	if m.BitLen()-1 == int(m.TrailingZeroBits()) {
		return m.BitLen() - 1
	}
	return -1
}

// bitwise and in Int mode; w is the width, operands interpreted mod 2^w.
func (x *Exec) iand(a, b *Term, w int, signed bool, st *State) *Term {
	if a.num != nil {
		a, b = b, a
	}
	if b.num != nil {
		if a.num != nil && a.num.Sign() >= 0 && b.num.Sign() >= 0 {
			return x.IntB(new(big.Int).And(a.num, b.num))
		}
		c := b.num
		if c.Sign() < 0 {
			// signed negative mask: a & c = a - (a & ^c)
			nc := new(big.Int).Not(c)
			return x.Sub(a, x.iand(a, x.IntB(nc), w, signed, st))
		}
		return x.andConst(a, c)
	}
	// a & (pow2(n)-1)
	for k := 0; k < 2; k++ {
		p := x.Add(b, x.Int(1))
		if p.kind == 'a' && p.Op == "pow2" {
			r := x.Mod(a, p)
			r2 := r
			x.always(x.Implies(x.Le(x.Int(1), p), x.And(x.Le(x.Int(0), r), x.app("<", SBool, r, p))))
			return r2
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a == b {
		return a
	}
	t := x.App("band", SInt, a, b)
	if !t.free {
		nn := x.And(x.Le(x.Int(0), a), x.Le(x.Int(0), b))
		if !signed {
			t.lo = big0
		}
		x.always(x.Implies(x.Or(x.Le(x.Int(0), a), x.Le(x.Int(0), b)), x.app("<=", SBool, x.Int(0), t)))
		x.always(x.Implies(nn, x.And(x.app("<=", SBool, t, a), x.app("<=", SBool, t, b))))
		x.always(x.Implies(x.And(x.Le(x.Int(0), b)), x.app("<=", SBool, t, b)))
		x.always(x.Implies(x.And(x.Le(x.Int(0), a)), x.app("<=", SBool, t, a)))
		lo, hi := intRange(w, signed)
		setRange(t, lo, hi)
		x.always(x.And(x.app("<=", SBool, x.IntB(lo), t), x.app("<=", SBool, t, x.IntB(hi))))
	}
	return t
}
func (x *Exec) andConst(a *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return x.Int(0)
	}
	var parts []*Term
	bl := c.BitLen()
	for i := 0; i < bl; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < bl && c.Bit(j) == 1 {
			j++
		}
		p := x.Mod(x.Div(a, x.IntB(pow2b(i))), x.IntB(pow2b(j-i)))
		parts = append(parts, x.Mul(x.IntB(pow2b(i)), p))
		i = j
	}
	return x.Add(parts...)
}
func (x *Exec) uf2(name string, a, b *Term, w int, signed bool) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	t := x.App(name, SInt, a, b)
	if !t.free {
		lo, hi := intRange(w, signed)
		setRange(t, lo, hi)
		x.always(x.And(x.app("<=", SBool, x.IntB(lo), t), x.app("<=", SBool, t, x.IntB(hi))))
	}
	return t
}
func (x *Exec) ior(a, b *Term, w int, signed bool, st *State) *Term {
	if a.num != nil {
		a, b = b, a
	}
	if b.num != nil && b.num.Sign() == 0 {
		return a
	}
	if a == b {
		return a
	}
	if b.num != nil && b.num.Sign() > 0 {
		return x.Sub(x.Add(a, b), x.iand(a, b, w, signed, st))
	}
	// disjoint ranges: a = 2^k * q, 0 <= b < 2^k
	for k := 0; k < 2; k++ {
		if h := x.hi(b, st); h != nil && x.lo(b, st) != nil && x.lo(b, st).Sign() >= 0 {
			n := h.BitLen()
			if x.divisibleBy(a, n) {
				return x.Add(a, b)
			}
		}
		a, b = b, a
	}
	t := x.uf2("bor", a, b, w, signed)
	if !t.free {
		nn := x.And(x.Le(x.Int(0), a), x.Le(x.Int(0), b))
		x.always(x.Implies(nn, x.And(x.app("<=", SBool, a, t), x.app("<=", SBool, b, t), x.app("<=", SBool, t, x.Add(a, b)))))
	}
	return t
}

// divisibleBy reports whether t is syntactically a multiple of 2^n.
func (x *Exec) divisibleBy(t *Term, n int) bool {
	l := &lin{c: map[*Term]*big.Int{}, k: big0}
	x.toLin(t, big1, l)
	m := pow2b(n)
	if new(big.Int).Mod(l.k, m).Sign() != 0 {
		return false
	}
	for a, c := range l.c {
		if new(big.Int).Mod(c, m).Sign() == 0 {
			continue
		}
		if a.kind == 'a' && a.Op == "mod" && a.Args[1].num != nil && new(big.Int).Mod(a.Args[1].num, m).Sign() == 0 && x.divisibleBy(a.Args[0], n) {
			continue
		}
		return false
	}
	return true
}

func (x *Exec) tdiv(a, b *Term, st *State) *Term { // Go truncated division
	al, bl := x.lo(a, st), x.lo(b, st)
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		return x.Div(a, b)
	}
	na := x.Sub(x.Int(0), a)
	if bl != nil && bl.Sign() > 0 {
		return x.Ite(x.Le(x.Int(0), a), x.Div(a, b), x.Sub(x.Int(0), x.Div(na, b)))
	}
	nb := x.Sub(x.Int(0), b)
	return x.Ite(x.Le(x.Int(0), a),
		x.Ite(x.Lt(x.Int(0), b), x.Div(a, b), x.Sub(x.Int(0), x.Div(a, nb))),
		x.Ite(x.Lt(x.Int(0), b), x.Sub(x.Int(0), x.Div(na, b)), x.Div(na, nb)))
}

// binop evaluates a Go binary operator on values of type t.
func (x *Exec) binop(op token.Token, a, b Val, t types.Type, st *State, guard *Term, where string) Val {
	opT := a.T
	if w, signed, ok := intInfo(opT); ok {
		if x.bv {
			return x.binopBV(op, a, b, t, w, signed, st, guard, where)
		}
		p, q := a.C[0], b.C[0]
		mk := func(r *Term) Val { return Val{T: t, C: []*Term{r}} }
		switch op {
		case token.ADD:
			return mk(x.wrap(x.Add(p, q), w, signed, st))
		case token.SUB:
			return mk(x.wrap(x.Sub(p, q), w, signed, st))
		case token.MUL:
			return mk(x.wrap(x.Mul(p, q), w, signed, st))
		case token.QUO, token.REM:
			if q.num == nil || q.num.Sign() == 0 {
				x.safety("div", where, "division by zero", st, guard, x.Not(x.Eq(q, x.Int(0))))
			}
			d := x.tdiv(p, q, st)
			if op == token.QUO {
				return mk(x.wrap(d, w, signed, st))
			}
			if l, ql := x.lo(p, st), x.lo(q, st); l != nil && l.Sign() >= 0 && ql != nil && ql.Sign() >= 0 {
				return mk(x.Mod(p, q))
			}
			return mk(x.Sub(p, x.Mul(d, q)))
		case token.AND:
			return mk(x.iand(p, q, w, signed, st))
		case token.OR:
			return mk(x.ior(p, q, w, signed, st))
		case token.XOR:
			if q.num != nil && q.num.Sign() >= 0 {
				return mk(x.Sub(x.Add(p, q), x.Mul(x.Int(2), x.iand(p, q, w, signed, st))))
			}
			if p == q {
				return mk(x.Int(0))
			}
			return mk(x.uf2("bxor", p, q, w, signed))
		case token.AND_NOT:
			return mk(x.Sub(p, x.iand(p, q, w, signed, st)))
		case token.SHL, token.SHR:
			bw, bs, _ := intInfo(b.T)
			_ = bw
			if bs && (x.lo(q, st) == nil || x.lo(q, st).Sign() < 0) {
				x.safety("shift", where, "negative shift", st, guard, x.Le(x.Int(0), q))
			}
			if op == token.SHL {
				if q.num != nil {
					if q.num.Cmp(big.NewInt(int64(w))) >= 0 {
						return mk(x.Int(0))
					}
					return mk(x.wrap(x.Mul(p, x.IntB(pow2b(int(q.num.Int64())))), w, signed, st))
				}
				r := x.Mul(p, x.pow2(q))
				if h := x.hi(q, st); h != nil && h.Cmp(big.NewInt(int64(w-1))) <= 0 {
					hh := h
					if pl, ph := x.lo(p, st), x.hi(p, st); pl != nil && ph != nil && pl.Sign() >= 0 {
						m := new(big.Int).Lsh(ph, uint(hh.Int64()))
						_, tmax := intRange(w, signed)
						if m.Cmp(tmax) <= 0 {
							return mk(r)
						}
					}
				}
				r2 := x.wrap(r, w, signed, st)
				return mk(x.Ite(x.Le(x.Int(int64(w)), q), x.Int(0), r2))
			}
			if q.num != nil {
				if q.num.Cmp(big.NewInt(int64(w))) >= 0 {
					if signed {
						return mk(x.Ite(x.Lt(p, x.Int(0)), x.Int(-1), x.Int(0)))
					}
					return mk(x.Int(0))
				}
				return mk(x.Div(p, x.IntB(pow2b(int(q.num.Int64())))))
			}
			d := x.Div(p, x.pow2(q))
			if !d.free {
				x.always(x.Implies(x.Le(x.Int(0), p), x.And(x.Le(x.Int(0), d), x.app("<=", SBool, d, p))))
				lo, hi := intRange(w, signed)
				x.assume(guard, x.And(x.app("<=", SBool, x.IntB(lo), d), x.app("<=", SBool, d, x.IntB(hi))))
				x.setB(d, st, false, lo, hi)
			}
			return mk(d)
		case token.EQL:
			return mk(x.Eq(p, q))
		case token.NEQ:
			return mk(x.Not(x.Eq(p, q)))
		case token.LSS:
			return mk(x.Lt(p, q))
		case token.LEQ:
			return mk(x.Le(p, q))
		case token.GTR:
			return mk(x.Lt(q, p))
		case token.GEQ:
			return mk(x.Le(q, p))
		}
	}
	if _, ok := isFloat(opT); ok {
		p, q := a.C[0], b.C[0]
		mk := func(r *Term) Val { return Val{T: t, C: []*Term{r}} }
		switch op {
		case token.EQL:
			return mk(x.feq(p, q))
		case token.NEQ:
			return mk(x.Not(x.feq(p, q)))
		case token.LSS:
			return mk(x.flt(p, q))
		case token.LEQ:
			return mk(x.fle(p, q))
		case token.GTR:
			return mk(x.flt(q, p))
		case token.GEQ:
			return mk(x.fle(q, p))
		}
		return mk(x.farith(op, p, q))
	}
	if op == token.EQL || op == token.NEQ {
		r := x.valEq(a, b)
		if op == token.NEQ {
			r = x.Not(r)
		}
		return Val{T: t, C: []*Term{r}}
	}
	if isBoolT(opT) {
		switch op {
		case token.AND, token.LAND:
			return Val{T: t, C: []*Term{x.And(a.C[0], b.C[0])}}
		case token.OR, token.LOR:
			return Val{T: t, C: []*Term{x.Or(a.C[0], b.C[0])}}
		}
	}
	if isStringT(opT) {
		if op == token.ADD {
			r := x.App("str.cat_", SStr, a.C[0], b.C[0])
			return Val{T: t, C: []*Term{r}}
		}
		lt := func(p, q *Term) *Term { return x.App("str.lt_", SBool, p, q) }
		switch op {
		case token.LSS:
			return Val{T: t, C: []*Term{lt(a.C[0], b.C[0])}}
		case token.GTR:
			return Val{T: t, C: []*Term{lt(b.C[0], a.C[0])}}
		case token.LEQ:
			return Val{T: t, C: []*Term{x.Not(lt(b.C[0], a.C[0]))}}
		case token.GEQ:
			return Val{T: t, C: []*Term{x.Not(lt(a.C[0], b.C[0]))}}
		}
	}
	if _, ok := opT.(*types.TypeParam); ok {
		s := a.C[0].Sort
		lt := func(p, q *Term) *Term { return x.App("lt_"+string(s), SBool, p, q) }
		switch op {
		case token.LSS:
			return Val{T: t, C: []*Term{lt(a.C[0], b.C[0])}}
		case token.GTR:
			return Val{T: t, C: []*Term{lt(b.C[0], a.C[0])}}
		case token.LEQ:
			return Val{T: t, C: []*Term{x.Not(lt(b.C[0], a.C[0]))}}
		case token.GEQ:
			return Val{T: t, C: []*Term{x.Not(lt(a.C[0], b.C[0]))}}
		}
		return Val{T: t, C: []*Term{x.App("op"+sanitize(op.String())+"_"+string(s), s, a.C[0], b.C[0])}}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %s", op, opT)))
}

// rop is real arithmetic; nonlinear products and quotients stay uninterpreted
// outside lemmas, so that only proved lemmas speak about them.
func (x *Exec) rop(op string, p, q *Term) *Term {
	if op == "+" || op == "-" || x.lemmaMode || x.rats[q.id] != nil || op == "*" && x.rats[p.id] != nil {
		return x.app(op, SReal, p, q)
	}
	if op == "*" {
		if p.id > q.id {
			p, q = q, p
		}
		t := x.App("rmul", SReal, p, q)
		// a factor that a precondition fixes to a simple constant makes the product linear
		if !t.free {
			for _, c := range []*big.Rat{big.NewRat(15, 16), big.NewRat(1, 2), big.NewRat(1, 1)} {
				ct := x.ratTerm(c)
				for i, f := range []*Term{p, q} {
					o := []*Term{q, p}[i]
					x.always(x.Implies(x.app("=", SBool, f, ct), x.app("=", SBool, t, x.app("*", SReal, o, ct))))
				}
			}
			if x.spec != nil && x.spec.Units {
				z := x.ratTerm(new(big.Rat))
				x.always(x.Implies(x.Or(x.app("=", SBool, p, z), x.app("=", SBool, q, z)), x.app("=", SBool, t, z)))
				x.always(x.Implies(x.And(x.app("<=", SBool, z, p), x.app("<=", SBool, z, q)), x.app("<=", SBool, z, t)))
			}
		}
		return t
	}
	t := x.App("rdiv", SReal, p, q)
	if !t.free && x.spec != nil && x.spec.Units {
		z := x.ratTerm(new(big.Rat))
		x.always(x.Implies(x.And(x.app("<=", SBool, z, p), x.app("<=", SBool, p, q), x.app("<", SBool, z, q)), x.And(x.app("<=", SBool, z, t), x.app("<=", SBool, t, x.ratTerm(big.NewRat(1, 1))))))
	}
	if !t.free {
		x.always(x.Implies(x.Not(x.app("=", SBool, q, x.ratTerm(new(big.Rat)))), x.app("=", SBool, x.rop("*", t, q), p)))
	}
	return t
}

func (x *Exec) farith(op token.Token, p, q *Term) *Term {
	n := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[op]
	if n == "" {
		panic(unsupported("float op " + op.String()))
	}
	s := p.Sort
	// a choice between constants: keep products linear
	isC := func(t *Term) bool { return t.Op == "ite" && len(t.Args) == 3 && x.rats[x.fval(t.Args[1]).id] != nil && x.rats[x.fval(t.Args[2]).id] != nil }
	if isC(p) {
		return x.Ite(p.Args[0], x.farith(op, p.Args[1], q), x.farith(op, p.Args[2], q))
	}
	if isC(q) {
		return x.Ite(q.Args[0], x.farith(op, p, q.Args[1]), x.farith(op, p, q.Args[2]))
	}
	if (op == token.ADD || op == token.MUL) && p.id > q.id {
		p, q = q, p
	}
	t := x.App(n+"_"+string(s), s, p, q)
	if x.spec != nil && x.spec.RealFloat && !t.free {
		ro := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/"}[op]
		ok := x.And(x.Not(x.fnan(p)), x.Not(x.fnan(q)))
		if op == token.QUO {
			ok = x.And(ok, x.Not(x.app("=", SBool, x.fval(q), x.ratTerm(new(big.Rat)))))
		}
		x.always(x.Implies(ok, x.And(x.Not(x.fnan(t)), x.app("=", SBool, x.fval(t), x.rop(ro, x.fval(p), x.fval(q))))))
		x.trusted["float arithmetic treated as real arithmetic in "+x.fnName] = true
	}
	return t
}

func (x *Exec) valEq(a, b Val) *Term {
	if a.Addr != nil || b.Addr != nil {
		// interior address against nil
		if a.Addr != nil && len(b.C) == 1 && b.C[0].num != nil {
			return x.False()
		}
		if b.Addr != nil && len(a.C) == 1 && a.C[0].num != nil {
			return x.False()
		}
		panic(unsupported("comparing interior pointers"))
	}
	if a.Clo != nil && len(b.C) > 0 && b.C[0].num != nil || b.Clo != nil && len(a.C) > 0 && a.C[0].num != nil {
		return x.False()
	}
	if _, ok := a.T.Underlying().(*types.Slice); ok { // comparison with nil
		if b.C[0].num != nil {
			return x.Eq(a.C[0], x.Int(0))
		}
		return x.Eq(b.C[0], x.Int(0))
	}
	var cs []*Term
	ls := x.leaves(a.T)
	if len(a.C) != len(b.C) {
		panic(unsupported("comparing values of different shape"))
	}
	for i := range a.C {
		if ls[i].kind == 'f' {
			cs = append(cs, x.feq(a.C[i], b.C[i]))
		} else {
			cs = append(cs, x.Eq(a.C[i], b.C[i]))
		}
	}
	return x.And(cs...)
}

func (x *Exec) binopBV(op token.Token, a, b Val, t types.Type, w int, signed bool, st *State, guard *Term, where string) Val {
	p, q := a.C[0], b.C[0]
	mk := func(r *Term) Val { return Val{T: t, C: []*Term{r}} }
	cmp := func(s, u string, p, q *Term) Val {
		if signed {
			return mk(x.BVcmp(s, p, q))
		}
		return mk(x.BVcmp(u, p, q))
	}
	switch op {
	case token.ADD:
		return mk(x.BVop("bvadd", p, q))
	case token.SUB:
		if q.num != nil {
			return mk(x.BVop("bvadd", p, x.BV(new(big.Int).Neg(q.num), w)))
		}
		return mk(x.BVop("bvsub", p, q))
	case token.MUL:
		return mk(x.BVop("bvmul", p, q))
	case token.QUO, token.REM:
		x.safety("div", where, "division by zero", st, guard, x.Not(x.Eq(q, x.BV(big0, w))))
		n := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[signed][op]
		return mk(x.app(n, p.Sort, p, q))
	case token.AND:
		return mk(x.BVop("bvand", p, q))
	case token.OR:
		return mk(x.BVop("bvor", p, q))
	case token.XOR:
		return mk(x.BVop("bvxor", p, q))
	case token.AND_NOT:
		return mk(x.BVop("bvand", p, x.app("bvnot", q.Sort, q)))
	case token.SHL, token.SHR:
		qw, qs, _ := intInfo(b.T)
		if qs && q.num == nil {
			x.safety("shift", where, "negative shift", st, guard, x.BVcmp("bvsge", q, x.BV(big0, qw)))
		}
		// bring the count to width w, saturating
		var c *Term
		if q.num != nil {
			n := q.num
			if n.Cmp(big.NewInt(int64(w))) > 0 {
				n = big.NewInt(int64(w))
			}
			c = x.BV(n, w)
		} else if qw < w {
			c = x.ZExt(q, w)
		} else if qw == w {
			c = q
		} else {
			c = x.Ite(x.BVcmp("bvuge", q, x.BV(big.NewInt(int64(w)), qw)), x.BV(big.NewInt(int64(w)), w), x.Extract(q, w-1, 0))
		}
		if op == token.SHL {
			return mk(x.BVop("bvshl", p, c))
		}
		if signed {
			return mk(x.BVop("bvashr", p, c))
		}
		return mk(x.BVop("bvlshr", p, c))
	case token.EQL:
		return mk(x.Eq(p, q))
	case token.NEQ:
		return mk(x.Not(x.Eq(p, q)))
	case token.LSS:
		return cmp("bvslt", "bvult", p, q)
	case token.LEQ:
		return cmp("bvsle", "bvule", p, q)
	case token.GTR:
		return cmp("bvsgt", "bvugt", p, q)
	case token.GEQ:
		return cmp("bvsge", "bvuge", p, q)
	}
	panic(unsupported("bv op " + op.String()))
}

func (x *Exec) convInt(t *Term, from, to types.Type, st *State) *Term {
	fw, fs, _ := intInfo(from)
	tw, ts, _ := intInfo(to)
	if x.bv {
		if tw <= fw {
			return x.Extract(t, tw-1, 0)
		}
		if fs {
			return x.SExt(t, tw)
		}
		return x.ZExt(t, tw)
	}
	return x.wrap(t, tw, ts, st)
}

// convert implements ssa.Convert.
func (x *Exec) convert(v Val, to types.Type, st *State, guard *Term, where string) Val {
	from := v.T
	_, _, fi := intInfo(from)
	_, _, ti := intInfo(to)
	if _, ok := from.(*types.TypeParam); ok {
		fi = false
	}
	if _, ok := to.(*types.TypeParam); ok {
		ti = false
	}
	if fi && ti {
		return Val{T: to, C: []*Term{x.convInt(v.C[0], from, to, st)}}
	}
	ff, fok := isFloat(from)
	tf, tok := isFloat(to)
	if fi && tok {
		return Val{T: to, C: []*Term{x.intToFloat(v.C[0], from, tf)}}
	}
	if fok && tok {
		if ff == tf {
			return Val{T: to, C: v.C}
		}
		t := x.App("fconv_"+string(ff)+"_"+string(tf), tf, v.C[0])
		x.useSort(tf)
		if tf == SF64 && !t.free { // widening is exact
			x.always(x.app("=", SBool, x.fnan(t), x.fnan(v.C[0])))
			x.always(x.Implies(x.Not(x.fnan(v.C[0])), x.app("=", SBool, x.fval(t), x.fval(v.C[0]))))
		}
		if tf == SF32 && ff == SF64 && !t.free { // rounding keeps NaN
			x.always(x.app("=", SBool, x.fnan(t), x.fnan(v.C[0])))
		}
		return Val{T: to, C: []*Term{t}}
	}
	if fok && ti {
		w, s, _ := intInfo(to)
		if x.bv {
			return Val{T: to, C: []*Term{x.App("ftoi_"+string(ff)+fmt.Sprint(w, s), SBV(w), v.C[0])}}
		}
		t := x.App("ftoi_"+string(ff)+fmt.Sprint("_", w, s), SInt, v.C[0])
		x.typeFact(t, Leaf{"", SInt, to, 'i'}, st)
		if !t.free {
			// truncation toward zero when representable
			lo, hi := intRange(w, s)
			fv := x.fval(v.C[0])
			r0 := x.ratTerm(new(big.Rat))
			tr := x.app("to_real", SReal, t)
			one := x.ratTerm(new(big.Rat).SetInt64(1))
			if n := v.C[0].Op; n == "math_Ceil" || n == "math_Floor" || n == "math_Round" {
				k := x.App(n+"_int", SInt, v.C[0].Args...)
				x.always(x.Implies(x.And(x.Not(x.fnan(v.C[0])), x.app("<=", SBool, x.IntB(lo), k), x.app("<=", SBool, k, x.IntB(hi))), x.app("=", SBool, t, k)))
			}
			x.always(x.Implies(x.And(x.Not(x.fnan(v.C[0])), x.app("<=", SBool, r0, fv), x.app("<=", SBool, fv, x.ratTerm(new(big.Rat).SetInt(hi)))),
				x.And(x.app("<=", SBool, tr, fv), x.app("<", SBool, fv, x.app("+", SReal, tr, one)))))
			if s {
				x.always(x.Implies(x.And(x.Not(x.fnan(v.C[0])), x.app("<=", SBool, fv, r0), x.app("<=", SBool, x.ratTerm(new(big.Rat).SetInt(lo)), fv)),
					x.And(x.app("<=", SBool, fv, tr), x.app("<", SBool, x.app("-", SReal, tr, one), fv))))
			}
		}
		return Val{T: to, C: []*Term{t}}
	}
	if isStringT(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			r := x.alloc(st, "strbytes")
			n := x.strLen(v.C[0])
			out := Val{T: to, C: []*Term{r, x.Int(0), n, n}}
			for _, l := range x.leaves(sl.Elem()) {
				key := "[]" + typeKey(sl.Elem()) + l.path
				h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l.sort)))
				arr := x.App("str.bytes_"+sanitize(typeKey(sl.Elem())), SArr(SInt, l.sort), v.C[0])
				st.heap[key] = x.Store(h, r, arr)
			}
			return out
		}
		if isStringT(to) {
			return Val{T: to, C: v.C}
		}
	}
	if isStringT(to) {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			_ = sl
			arr := x.elemArrs(st, v)[0]
			s := x.App("bytes.str_", SStr, arr, v.C[1], v.C[2])
			x.useSort(SStr)
			if !s.free {
				x.always(x.Eq(x.App("str.len_", SInt, s), v.C[2]))
				if !x.bv {
					// the bytes of the new string are those of the slice
					j := x.BoundVar("j", SInt, 1)
					sel := x.app("select", SInt, x.App("str.bytes_uint8", SArr(SInt, SInt), s), j)
					x.facts = append(x.facts, Fact{t: x.Quant(true, []*Term{j}, x.Implies(x.And(x.app("<=", SBool, x.Int(0), j), x.app("<", SBool, j, v.C[2])),
						x.Eq(sel, x.app("select", SInt, arr, x.app("+", SInt, v.C[1], j)))), [][]*Term{{sel}})})
				}
			}
			return Val{T: to, C: []*Term{s}}
		}
		return x.freshVal("str", to, st)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		v.T = to
		return v
	}
	if _, ok := from.(*types.TypeParam); ok {
		return x.typeParamConv(v, to, st)
	}
	if _, ok := to.(*types.TypeParam); ok {
		return x.typeParamConv(v, to, st)
	}
	if len(v.C) == 1 {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return Val{T: to, C: v.C}
		}
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}
func (x *Exec) typeParamConv(v Val, to types.Type, st *State) Val {
	ls := x.leaves(to)
	out := Val{T: to}
	for _, l := range ls {
		t := x.App("tpconv_"+sanitize(typeKey(v.T))+"_"+sanitize(typeKey(to)), l.sort, v.C[0])
		x.typeFact(t, l, st)
		out.C = append(out.C, t)
	}
	return out
}
func (x *Exec) intToFloat(t *Term, from types.Type, tf Sort) *Term {
	x.useSort(tf)
	if x.bv {
		w, s, _ := intInfo(from)
		return x.App("itof_"+string(tf)+fmt.Sprint(w, s), tf, t)
	}
	r := x.App("itof_"+string(tf), tf, t)
	if !r.free {
		lim := pow2b(53)
		if tf == SF32 {
			lim = pow2b(24)
		}
		x.always(x.Not(x.fnan(r)))
		x.always(x.Implies(x.And(x.Le(x.IntB(new(big.Int).Neg(lim)), t), x.Le(t, x.IntB(lim))),
			x.app("=", SBool, x.fval(r), x.app("to_real", SReal, t))))
		x.always(x.Implies(x.Le(x.Int(0), t), x.app("<=", SBool, x.ratTerm(new(big.Rat)), x.fval(r))))
		x.always(x.Implies(x.Lt(x.Int(0), t), x.app("<=", SBool, x.ratTerm(new(big.Rat).SetInt64(1)), x.fval(r))))
	}
	return r
}
