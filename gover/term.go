package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is the SMT-LIB text of a sort.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
	SF64  Sort = "F64"
	SF32  Sort = "F32"
	SStr  Sort = "Str"
)

func SBV(n int) Sort           { return Sort(fmt.Sprintf("(_ BitVec %d)", n)) }
func SArr(k, v Sort) Sort      { return Sort(fmt.Sprintf("(Array %s %s)", k, v)) }
func (s Sort) isBV() bool      { return strings.HasPrefix(string(s), "(_ BitVec") }
func (s Sort) isArr() bool     { return strings.HasPrefix(string(s), "(Array") }
func (s Sort) bvWidth() int    { var n int; fmt.Sscanf(string(s), "(_ BitVec %d)", &n); return n }
func (s Sort) arrParts() (Sort, Sort) {
	in := string(s)[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return Sort(in[:i]), Sort(in[i+1:])
		}
	}
	panic("bad array sort " + string(s))
}

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // operator, symbol name or literal text
	Args []*Term
	Sort Sort
	id   int
	kind byte     // 'l' literal, 's' symbol, 'a' application, 'q' quantifier, 'b' bound var
	num  *big.Int // for Int / BV literals
	lo   *big.Int // known interval (Int sort only)
	hi   *big.Int
	qv   []*Term
	pats [][]*Term
	free bool // contains bound variables
	msym int  // largest symbol sequence number occurring
	salloc bool
}

// TB builds terms.
type TB struct {
	tab   map[string]*Term
	n     int
	nsym  int
	decls []string // declarations in order
	declOf map[string]string
	syms  map[string]*Term
	funs  map[string]string
	consts map[string]bool
	rats   map[int]*big.Rat
	fconsts map[int]*big.Rat
	lets   int
}

func NewTB() *TB {
	return &TB{tab: map[string]*Term{}, syms: map[string]*Term{}, funs: map[string]string{}}
}

func (b *TB) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(t.kind)
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(string(t.Sort))
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if t.kind == 'q' {
		for _, v := range t.qv {
			fmt.Fprintf(&sb, ";%d", v.id)
		}
	}
	k := sb.String()
	if e, ok := b.tab[k]; ok {
		return e
	}
	b.n++
	t.id = b.n
	for _, a := range t.Args {
		if a.free {
			t.free = true
		}
		if a.msym > t.msym {
			t.msym = a.msym
		}
	}
	if t.kind == 'q' {
		// free only if a bound variable that is not ours remains
		t.free = hasFree(t.Args[0], map[int]bool{}, t.qv)
	}
	b.tab[k] = t
	return t
}

func hasFree(t *Term, seen map[int]bool, qv []*Term) bool {
	if !t.free || seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.kind == 'b' {
		for _, v := range qv {
			if v == t {
				return false
			}
		}
		return true
	}
	if t.kind == 'q' {
		return hasFree(t.Args[0], map[int]bool{}, append(append([]*Term{}, qv...), t.qv...))
	}
	for _, a := range t.Args {
		if hasFree(a, seen, qv) {
			return true
		}
	}
	return false
}

var (
	big0 = big.NewInt(0)
	big1 = big.NewInt(1)
)

func pow2b(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func (b *TB) IntB(v *big.Int) *Term {
	s := v.String()
	if v.Sign() < 0 {
		s = "(- " + new(big.Int).Neg(v).String() + ")"
	}
	t := b.mk(&Term{Op: s, Sort: SInt, kind: 'l', num: v})
	t.lo, t.hi = v, v
	return t
}
func (b *TB) Int(v int64) *Term { return b.IntB(big.NewInt(v)) }
func (b *TB) BV(v *big.Int, w int) *Term {
	m := new(big.Int).And(v, new(big.Int).Sub(pow2b(w), big1))
	return b.mk(&Term{Op: fmt.Sprintf("(_ bv%s %d)", m.String(), w), Sort: SBV(w), kind: 'l', num: m})
}
func (b *TB) True() *Term  { return b.mk(&Term{Op: "true", Sort: SBool, kind: 'l'}) }
func (b *TB) False() *Term { return b.mk(&Term{Op: "false", Sort: SBool, kind: 'l'}) }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True()
	}
	return b.False()
}
func (t *Term) isTrue() bool  { return t.kind == 'l' && t.Op == "true" }
func (t *Term) isFalse() bool { return t.kind == 'l' && t.Op == "false" }

// sanitize maps a name to an SMT-LIB simple symbol, injectively.
func sanitize(s string) string {
	const from, to = "[]*#(), /{};:", "<>*@%^&~/+-=?"
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!@", c) {
			sb.WriteRune(c)
		} else if i := strings.IndexRune(from, c); i >= 0 {
			sb.WriteByte(to[i])
		} else {
			fmt.Fprintf(&sb, "?%x?", c)
		}
	}
	return sb.String()
}

func (b *TB) decl(n, d string) {
	if b.declOf == nil {
		b.declOf = map[string]string{}
	}
	b.declOf[n] = d
	b.decls = append(b.decls, n)
}

// Sym declares a fresh symbol.
func (b *TB) Sym(name string, s Sort) *Term {
	b.nsym++
	n := fmt.Sprintf("%s!%d", sanitize(name), b.nsym)
	t := b.mk(&Term{Op: n, Sort: s, kind: 's', msym: b.nsym})
	b.decl(n, fmt.Sprintf("(declare-fun %s () %s)", n, s))
	return t
}

// Const returns a named global constant (declared once).
func (b *TB) Const(name string, s Sort) *Term {
	n := sanitize(name)
	if t, ok := b.syms[n]; ok {
		return t
	}
	t := b.mk(&Term{Op: n, Sort: s, kind: 's'})
	b.syms[n] = t
	b.decl(n, fmt.Sprintf("(declare-fun %s () %s)", n, s))
	return t
}
func (b *TB) Bound(name string, s Sort) *Term {
	b.n++
	t := &Term{Op: fmt.Sprintf("%s?%d", sanitize(name), b.n), Sort: s, kind: 'b', free: true, id: b.n}
	return t
}

// App applies an uninterpreted function, declaring it on first use.
func (b *TB) App(name string, s Sort, args ...*Term) *Term {
	n := sanitize(name)
	sig := make([]string, len(args))
	for i, a := range args {
		sig[i] = string(a.Sort)
	}
	if len(args) == 0 {
		return b.Const(name, s)
	}
	d := fmt.Sprintf("(%s) %s", strings.Join(sig, " "), s)
	if old, ok := b.funs[n]; !ok {
		b.funs[n] = d
		b.decl(n, fmt.Sprintf("(declare-fun %s %s)", n, d))
	} else if old != d {
		// overload by signature
		n = n + "@" + sanitize(strings.Join(sig, "_")+"_"+string(s))
		if _, ok := b.funs[n]; !ok {
			b.funs[n] = d
			b.decl(n, fmt.Sprintf("(declare-fun %s %s)", n, d))
		}
	}
	return b.mk(&Term{Op: n, Args: args, Sort: s, kind: 'a'})
}
func (b *TB) app(op string, s Sort, args ...*Term) *Term {
	return b.mk(&Term{Op: op, Args: args, Sort: s, kind: 'a'})
}

func (b *TB) Not(t *Term) *Term {
	if t.isTrue() {
		return b.False()
	}
	if t.isFalse() {
		return b.True()
	}
	if t.kind == 'a' && t.Op == "not" {
		return t.Args[0]
	}
	return b.app("not", SBool, t)
}
func (b *TB) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() {
			return false
		}
		if t.isTrue() || seen[t.id] {
			return true
		}
		if t.kind == 'a' && t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return b.False()
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].id] {
			return b.False()
		}
	}
	switch len(out) {
	case 0:
		return b.True()
	case 1:
		return out[0]
	}
	return b.app("and", SBool, out...)
}
func (b *TB) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		if t.isTrue() {
			return t
		}
		if t.isFalse() || seen[t.id] {
			continue
		}
		if t.kind == 'a' && t.Op == "or" {
			for _, a := range t.Args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t.id] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].id] {
			return b.True()
		}
	}
	// (a & c) | (a & !c)  ->  a
	if len(out) == 2 {
		x, y := out[0], out[1]
		xs, ys := conj(x), conj(y)
		if len(xs) == len(ys) {
			diffx, diffy := []*Term{}, []*Term{}
			in := func(l []*Term, t *Term) bool {
				for _, e := range l {
					if e == t {
						return true
					}
				}
				return false
			}
			var common []*Term
			for _, t := range xs {
				if in(ys, t) {
					common = append(common, t)
				} else {
					diffx = append(diffx, t)
				}
			}
			for _, t := range ys {
				if !in(xs, t) {
					diffy = append(diffy, t)
				}
			}
			if len(diffx) == 1 && len(diffy) == 1 && b.Not(diffx[0]) == diffy[0] {
				return b.And(common...)
			}
		}
	}
	switch len(out) {
	case 0:
		return b.False()
	case 1:
		return out[0]
	}
	return b.app("or", SBool, out...)
}
func conj(t *Term) []*Term {
	if t.kind == 'a' && t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}
func (b *TB) Implies(p, q *Term) *Term {
	if p.isTrue() {
		return q
	}
	if p.isFalse() || q.isTrue() {
		return b.True()
	}
	if q.isFalse() {
		return b.Not(p)
	}
	return b.app("=>", SBool, p, q)
}
func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.Sort != y.Sort {
		panic(fmt.Sprintf("ite sorts %s %s", x.Sort, y.Sort))
	}
	if x.Sort == SBool {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Implies(c, x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	if c.kind == 'a' && c.Op == "not" {
		return b.Ite(c.Args[0], y, x)
	}
	// ite(c, x, ite(c, ., z)) -> ite(c,x,z)
	if y.kind == 'a' && y.Op == "ite" && y.Args[0] == c {
		return b.Ite(c, x, y.Args[2])
	}
	if x.kind == 'a' && x.Op == "ite" && x.Args[0] == c {
		return b.Ite(c, x.Args[1], y)
	}
	t := b.app("ite", x.Sort, c, x, y)
	if x.Sort == SInt && t.lo == nil && t.hi == nil {
		if x.lo != nil && y.lo != nil {
			t.lo = minB(x.lo, y.lo)
		}
		if x.hi != nil && y.hi != nil {
			t.hi = maxB(x.hi, y.hi)
		}
	}
	return t
}
func minB(a, c *big.Int) *big.Int {
	if a.Cmp(c) < 0 {
		return a
	}
	return c
}
func maxB(a, c *big.Int) *big.Int {
	if a.Cmp(c) > 0 {
		return a
	}
	return c
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	if x.Sort != y.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", x.Sort, y.Sort, x, y))
	}
	if x.num != nil && y.num != nil {
		return b.Bool(x.num.Cmp(y.num) == 0)
	}
	if x.Sort == SBool {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.Sort == SInt {
		d := b.Sub(x, y)
		if d.num != nil {
			return b.Bool(d.num.Sign() == 0)
		}
		if b.refDistinct(x, y) {
			return b.False()
		}
		if disjoint(x, y) {
			return b.False()
		}
		if x.kind == 'a' && x.Op == "ite" && y.num != nil && x.Args[1].num != nil && x.Args[2].num != nil {
			return b.Ite(x.Args[0], b.Eq(x.Args[1], y), b.Eq(x.Args[2], y))
		}
		if y.kind == 'a' && y.Op == "ite" && x.num != nil && y.Args[1].num != nil && y.Args[2].num != nil {
			return b.Eq(y, x)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.app("=", SBool, x, y)
}
func disjoint(x, y *Term) bool {
	if x.lo != nil && y.hi != nil && x.lo.Cmp(y.hi) > 0 {
		return true
	}
	if y.lo != nil && x.hi != nil && y.lo.Cmp(x.hi) > 0 {
		return true
	}
	return false
}

// refDistinct: x is a fresh allocation symbol and y only mentions older symbols (or vice versa).
func (b *TB) refDistinct(x, y *Term) bool {
	if x.salloc && y.salloc {
		return x != y
	}
	if x.salloc && (y.msym < x.msym) && y.kind != 'b' && !y.free {
		return true
	}
	if y.salloc && (x.msym < y.msym) && x.kind != 'b' && !x.free {
		return true
	}
	return false
}

// linear normal form -------------------------------------------------------
type lin struct {
	c  map[*Term]*big.Int
	k  *big.Int
}

func (b *TB) toLin(t *Term, f *big.Int, l *lin) {
	switch {
	case t.num != nil:
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(f, t.num))
	case t.kind == 'a' && t.Op == "+":
		for _, a := range t.Args {
			b.toLin(a, f, l)
		}
	case t.kind == 'a' && t.Op == "*" && t.Args[0].num != nil:
		b.toLin(t.Args[1], new(big.Int).Mul(f, t.Args[0].num), l)
	default:
		if o, ok := l.c[t]; ok {
			l.c[t] = new(big.Int).Add(o, f)
		} else {
			l.c[t] = f
		}
	}
}
func (b *TB) fromLin(l *lin) *Term {
	var ts []*Term
	for t, c := range l.c {
		if c.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	lo, hi := l.k, l.k
	for _, t := range ts {
		c := l.c[t]
		if lo != nil {
			if c.Sign() > 0 && t.lo != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(c, t.lo))
			} else if c.Sign() < 0 && t.hi != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(c, t.hi))
			} else {
				lo = nil
			}
		}
		if hi != nil {
			if c.Sign() > 0 && t.hi != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(c, t.hi))
			} else if c.Sign() < 0 && t.lo != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(c, t.lo))
			} else {
				hi = nil
			}
		}
		if c.Cmp(big1) == 0 {
			out = append(out, t)
		} else {
			m := b.app("*", SInt, b.IntB(c), t)
			out = append(out, m)
		}
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, b.IntB(l.k))
	}
	if len(out) == 1 {
		r := out[0]
		if r.num == nil && r.kind == 'a' && r.Op == "*" {
			if r.lo == nil {
				r.lo = lo
			}
			if r.hi == nil {
				r.hi = hi
			}
		}
		return r
	}
	r := b.app("+", SInt, out...)
	if r.lo == nil || (lo != nil && lo.Cmp(r.lo) > 0) {
		r.lo = lo
	}
	if r.hi == nil || (hi != nil && hi.Cmp(r.hi) < 0) {
		r.hi = hi
	}
	return r
}
func (b *TB) Add(ts ...*Term) *Term {
	l := &lin{c: map[*Term]*big.Int{}, k: big0}
	for _, t := range ts {
		b.toLin(t, big1, l)
	}
	return b.fromLin(l)
}
func (b *TB) Sub(x, y *Term) *Term {
	l := &lin{c: map[*Term]*big.Int{}, k: big0}
	b.toLin(x, big1, l)
	b.toLin(y, big.NewInt(-1), l)
	return b.fromLin(l)
}
func (b *TB) Mul(x, y *Term) *Term {
	if y.num != nil {
		x, y = y, x
	}
	if x.num != nil {
		l := &lin{c: map[*Term]*big.Int{}, k: big0}
		b.toLin(y, x.num, l)
		return b.fromLin(l)
	}
	if x.id > y.id {
		x, y = y, x
	}
	t := b.app("*", SInt, x, y)
	if x.lo != nil && y.lo != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
		if t.lo == nil {
			t.lo = new(big.Int).Mul(x.lo, y.lo)
		}
		if t.hi == nil && x.hi != nil && y.hi != nil {
			t.hi = new(big.Int).Mul(x.hi, y.hi)
		}
	}
	return t
}
// Div/Mod: Euclidean (SMT-LIB); exact only for positive divisors in our uses.
func (b *TB) Div(x, y *Term) *Term {
	if y.num != nil && y.num.Sign() > 0 {
		if y.num.Cmp(big1) == 0 {
			return x
		}
		if x.num != nil {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(x.num, y.num, m)
			return b.IntB(q)
		}
		// (c*a + k) div c style simplification when all coefficients divisible
		l := &lin{c: map[*Term]*big.Int{}, k: big0}
		b.toLin(x, big1, l)
		ok := len(l.c) > 0
		for _, c := range l.c {
			if new(big.Int).Mod(c, y.num).Sign() != 0 {
				ok = false
			}
		}
		if ok {
			l2 := &lin{c: map[*Term]*big.Int{}, k: new(big.Int).Div(l.k, y.num)}
			for t, c := range l.c {
				l2.c[t] = new(big.Int).Div(c, y.num)
			}
			return b.fromLin(l2)
		}
		if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(y.num) < 0 {
			return b.Int(0)
		}
	}
	t := b.app("div", SInt, x, y)
	if t.lo == nil && x.lo != nil && y.lo != nil && y.lo.Sign() > 0 {
		if x.lo.Sign() >= 0 {
			t.lo = big0
			if y.num != nil {
				t.lo = new(big.Int).Div(x.lo, y.num)
			}
			if x.hi != nil {
				t.hi = new(big.Int).Div(x.hi, y.lo)
			}
		} else if y.num != nil {
			t.lo = new(big.Int).Div(x.lo, y.num)
			if x.hi != nil {
				t.hi = new(big.Int).Div(x.hi, y.num)
			}
		}
	}
	return t
}
func (b *TB) Mod(x, y *Term) *Term {
	if y.num != nil && y.num.Sign() > 0 {
		if x.num != nil {
			return b.IntB(new(big.Int).Mod(x.num, y.num))
		}
		if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(y.num) < 0 {
			return x
		}
	}
	t := b.app("mod", SInt, x, y)
	if y.lo != nil && y.lo.Sign() > 0 {
		t.lo = big0
		if y.hi != nil {
			t.hi = new(big.Int).Sub(y.hi, big1)
		}
	}
	return t
}
func (b *TB) Le(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	if x.num != nil && y.num != nil {
		return b.Bool(x.num.Cmp(y.num) <= 0)
	}
	if x.Sort == SInt {
		if x.hi != nil && y.lo != nil && x.hi.Cmp(y.lo) <= 0 {
			return b.True()
		}
		if x.lo != nil && y.hi != nil && x.lo.Cmp(y.hi) > 0 {
			return b.False()
		}
		d := b.Sub(y, x)
		if d.num != nil {
			return b.Bool(d.num.Sign() >= 0)
		}
		if d.lo != nil && d.lo.Sign() >= 0 {
			return b.True()
		}
		if d.hi != nil && d.hi.Sign() < 0 {
			return b.False()
		}
	}
	return b.app("<=", SBool, x, y)
}
func (b *TB) Lt(x, y *Term) *Term {
	if x.Sort == SInt {
		return b.Not(b.Le(y, x))
	}
	return b.app("<", SBool, x, y)
}
func (b *TB) Select(a, i *Term) *Term {
	for a.kind == 'a' {
		if a.Op == "store" {
			j := a.Args[1]
			if i == j {
				return a.Args[2]
			}
			e := b.Eq(i, j)
			if e.isFalse() {
				a = a.Args[0]
				continue
			}
			if e.isTrue() {
				return a.Args[2]
			}
		}
		if strings.HasPrefix(a.Op, "(as const") {
			return a.Args[0]
		}
		if a.Op == "ite" && !a.free {
			x, y := b.Select(a.Args[1], i), b.Select(a.Args[2], i)
			if x == y {
				return x
			}
			// distribute when one side simplified
			if !(x.Op == "select" && x.Args[0] == a.Args[1]) || !(y.Op == "select" && y.Args[0] == a.Args[2]) {
				return b.Ite(a.Args[0], x, y)
			}
		}
		break
	}
	_, v := a.Sort.arrParts()
	return b.app("select", v, a, i)
}
func (b *TB) Store(a, i, v *Term) *Term {
	if a.kind == 'a' && a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.kind == 'a' && v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return b.app("store", a.Sort, a, i, v)
}
func (b *TB) ConstArr(s Sort, v *Term) *Term {
	return b.app("(as const "+string(s)+")", s, v)
}
func (b *TB) Quant(all bool, vars []*Term, body *Term, pats [][]*Term) *Term {
	if !body.free {
		return body
	}
	if body.isTrue() || body.isFalse() {
		return body
	}
	op := "exists"
	if all {
		op = "forall"
	}
	var keep [][]*Term
	for _, ps := range pats {
		ok := true
		var q []*Term
		for _, t := range ps {
			if t.num != nil || len(t.Args) == 0 || !t.free || t.Op == "ite" || t.Sort == SBool && t.kind != 'a' {
				if t.num == nil && len(t.Args) > 0 {
					ok = false
				}
				continue
			}
			q = append(q, t)
		}
		if ok && len(q) > 0 {
			cov := map[*Term]bool{}
			for _, t := range q {
				for _, v := range vars {
					if mentions(t, v, map[int]bool{}) {
						cov[v] = true
					}
				}
			}
			if len(cov) == len(vars) {
				keep = append(keep, q)
			}
		}
	}
	return b.mk(&Term{Op: op, Args: []*Term{body}, Sort: SBool, kind: 'q', qv: vars, pats: keep})
}

// bit-vector helpers
func (b *TB) BVop(op string, x, y *Term) *Term {
	w := x.Sort.bvWidth()
	if x.num != nil && y.num != nil {
		r := new(big.Int)
		m := new(big.Int).Sub(pow2b(w), big1)
		switch op {
		case "bvadd":
			return b.BV(r.Add(x.num, y.num), w)
		case "bvsub":
			return b.BV(r.Sub(x.num, y.num), w)
		case "bvmul":
			return b.BV(r.Mul(x.num, y.num), w)
		case "bvand":
			return b.BV(r.And(x.num, y.num), w)
		case "bvor":
			return b.BV(r.Or(x.num, y.num), w)
		case "bvxor":
			return b.BV(r.Xor(x.num, y.num), w)
		case "bvshl":
			if y.num.Cmp(big.NewInt(int64(w))) >= 0 {
				return b.BV(big0, w)
			}
			return b.BV(r.Lsh(x.num, uint(y.num.Int64())), w)
		case "bvlshr":
			if y.num.Cmp(big.NewInt(int64(w))) >= 0 {
				return b.BV(big0, w)
			}
			return b.BV(r.Rsh(x.num, uint(y.num.Int64())), w)
		}
		_ = m
	}
	if y.num != nil && y.num.Sign() == 0 {
		switch op {
		case "bvadd", "bvsub", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr":
			return x
		case "bvand", "bvmul":
			return y
		}
	}
	if x.num != nil && x.num.Sign() == 0 {
		switch op {
		case "bvadd", "bvor", "bvxor":
			return y
		case "bvand", "bvmul", "bvshl", "bvlshr":
			return x
		}
	}
	// (x + c1) + c2
	if op == "bvadd" && y.num != nil && x.kind == 'a' && x.Op == "bvadd" && x.Args[1].num != nil {
		return b.BVop("bvadd", x.Args[0], b.BVop("bvadd", x.Args[1], y))
	}
	if op == "bvadd" && x.num != nil {
		x, y = y, x
	}
	return b.app(op, x.Sort, x, y)
}
func (b *TB) BVcmp(op string, x, y *Term) *Term {
	if x.num != nil && y.num != nil {
		w := x.Sort.bvWidth()
		sx, sy := x.num, y.num
		if strings.HasPrefix(op, "bvs") {
			h := pow2b(w - 1)
			if sx.Cmp(h) >= 0 {
				sx = new(big.Int).Sub(sx, pow2b(w))
			}
			if sy.Cmp(h) >= 0 {
				sy = new(big.Int).Sub(sy, pow2b(w))
			}
		}
		c := sx.Cmp(sy)
		switch op[3:] {
		case "lt":
			return b.Bool(c < 0)
		case "le":
			return b.Bool(c <= 0)
		case "gt":
			return b.Bool(c > 0)
		case "ge":
			return b.Bool(c >= 0)
		}
	}
	return b.app(op, SBool, x, y)
}
func (b *TB) Extract(x *Term, hi, lo int) *Term {
	w := x.Sort.bvWidth()
	if lo == 0 && hi == w-1 {
		return x
	}
	if x.num != nil {
		return b.BV(new(big.Int).Rsh(x.num, uint(lo)), hi-lo+1)
	}
	if lo == 0 && x.kind == 'a' && strings.HasPrefix(x.Op, "(_ zero_extend") {
		in := x.Args[0]
		iw := in.Sort.bvWidth()
		if hi < iw {
			return b.Extract(in, hi, 0)
		}
		return b.ZExt(in, hi+1)
	}
	return b.app(fmt.Sprintf("(_ extract %d %d)", hi, lo), SBV(hi-lo+1), x)
}
func (b *TB) ZExt(x *Term, w int) *Term {
	xw := x.Sort.bvWidth()
	if xw == w {
		return x
	}
	if x.num != nil {
		return b.BV(x.num, w)
	}
	return b.app(fmt.Sprintf("(_ zero_extend %d)", w-xw), SBV(w), x)
}
func (b *TB) SExt(x *Term, w int) *Term {
	xw := x.Sort.bvWidth()
	if xw == w {
		return x
	}
	if x.num != nil {
		v := x.num
		if v.Cmp(pow2b(xw-1)) >= 0 {
			v = new(big.Int).Sub(v, pow2b(xw))
		}
		return b.BV(v, w)
	}
	return b.app(fmt.Sprintf("(_ sign_extend %d)", w-xw), SBV(w), x)
}

// printing -----------------------------------------------------------------
func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil, 0)
	return sb.String()
}
func (t *Term) write(sb *strings.Builder, names map[int]string, depth int) {
	if n, ok := names[t.id]; ok {
		sb.WriteString(n)
		return
	}
	switch t.kind {
	case 'l', 's', 'b':
		sb.WriteString(t.Op)
	case 'q':
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.qv {
			fmt.Fprintf(sb, "(%s %s)", v.Op, v.Sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].write(sb, names, depth+1)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, q := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					q.write(sb, names, depth+1)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		sb.WriteString("(" + t.Op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.write(sb, names, depth+1)
		}
		sb.WriteString(")")
	}
}

// Printer emits terms with shared closed subterms as definitions.
type Printer struct {
	names map[int]string
	refs  map[int]int
	out   strings.Builder
}

func newPrinter() *Printer { return &Printer{names: map[int]string{}, refs: map[int]int{}} }
func (p *Printer) count(t *Term) {
	p.refs[t.id]++
	if p.refs[t.id] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
	for _, ps := range t.pats {
		for _, a := range ps {
			p.count(a)
		}
	}
}
func (p *Printer) define(t *Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	for _, a := range t.Args {
		p.define(a, seen)
	}
	for _, ps := range t.pats {
		for _, a := range ps {
			p.define(a, seen)
		}
	}
	if p.refs[t.id] > 1 && !t.free && len(t.Args) > 0 {
		if _, ok := p.names[t.id]; !ok {
			var sb strings.Builder
			t.write(&sb, p.names, 0)
			n := fmt.Sprintf("$%d", t.id)
			fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", n, t.Sort, sb.String())
			p.names[t.id] = n
		}
	}
}

// mentions reports whether v occurs in t.
func mentions(t, v *Term, seen map[int]bool) bool {
	if t == v {
		return true
	}
	if !t.free || seen[t.id] {
		return false
	}
	seen[t.id] = true
	for _, a := range t.Args {
		if mentions(a, v, seen) {
			return true
		}
	}
	return false
}
