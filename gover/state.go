package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the symbolic memory at a program point.
type State struct {
	heap map[string]*Term
	top  *Term // allocation watermark
	ref  *refine
	wild *wildMod // heap regions havocked as a whole, newest first
}

// wildMod records that every key with the prefix has an unknown value since then.
type wildMod struct {
	prefix string
	id     int
	next   *wildMod
}

// havocAll forgets every heap key with the given prefix.
func (x *Exec) havocAll(st *State, prefix string) {
	for k := range st.heap {
		if strings.HasPrefix(k, prefix) {
			delete(st.heap, k)
		}
	}
	x.nwild++
	st.wild = &wildMod{prefix, x.nwild, st.wild}
	if x.wildLog != nil {
		*x.wildLog = append(*x.wildLog, prefix)
	}
}

// refine is a persistent list of path-dependent interval facts.
type refine struct {
	t      *Term
	lo, hi *big.Int
	next   *refine
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap)+2)
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, top: s.top, ref: s.ref, wild: s.wild}
}

// Exec verifies one function.
type Exec struct {
	required map[*Term]bool
	lemmaMode bool
	nwild     int
	wildLog   *[]string

	*TB
	prog      *Prog
	rerun     bool
	bv        bool
	leafCache map[string][]Leaf
	sorts     map[Sort]bool
	sortDecls []string
	heap0     map[string]*Term
	heapW     map[string]*Term
	facts     []Fact
	obls      []*Obl
	muted     int
	writes    *[]write // recording of writes (dry runs)
	loopN     int      // ordinal of loops in inline expansion order
	spec      *Contract
	root      *Frame
	entry     *State
	modset    []modTarget
	modAll    bool
	depth     int
	unroll    int
	errGlobals map[string]*Term
	onceFacts map[int]bool
	fnName    string
	loopsUsed map[int]bool
	inlined   map[string]bool
	usedContracts map[string]bool
	trusted   map[string]bool
	retN      int
	seqSyms   map[int]bool
	curPos    string
	steps     int
	usesPow2  bool
	cells     map[cellKey]*Val
	keySort   map[string]Sort
	keyLeaf   map[string]Leaf
	baseLeaf  map[string]Leaf
	onceLog   []int
	loopConst []loopConstCheck
	cur       *Term
	usedLemmas map[string]bool
	tabDone   map[string]bool
	permFacts []*Term
	specCall  int
	typedBase map[int]bool
}

type Fact struct {
	t   *Term
	tag string
}
type Obl struct {
	Name   string
	Kind   string
	Pos    string
	Text   string
	nfacts int
	goal   *Term // guard already folded in
	Status string
	Solver string
	Secs   float64
	Detail string
	fn     *Exec
	extra  []string // lemmas
}
type write struct {
	key string
	ref *Term // nil for globals
	idx *Term // array index if an element write of a single element, else nil
	sort Sort
}
type modTarget struct {
	key string // heap key or prefix* when wildcard
	wild bool
	ref *Term
	lo, hi *Term // optional element range (int mode)
	any  bool // any ref for this key
	cond *Term
}

func (x *Exec) pos(p ssa.Instruction) string {
	if p == nil {
		return ""
	}
	ps := x.prog.fset.Position(p.Pos())
	if !ps.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, x.prog.repo+"/"), ps.Line)
}

func (x *Exec) assume(guard, t *Term) {
	if x.specCall > 0 {
		return
	}
	f := x.Implies(guard, t)
	if f.isTrue() || f.free {
		return
	}
	x.facts = append(x.facts, Fact{t: f})
}

// always records an unguarded, state-independent typing fact once.
func (x *Exec) always(t *Term) {
	if t.isTrue() || t.free {
		return
	}
	if x.onceFacts[t.id] {
		return
	}
	x.onceFacts[t.id] = true
	x.onceLog = append(x.onceLog, t.id)
	x.facts = append(x.facts, Fact{t: t})
}

func (x *Exec) oblige(kind, name, pos, text string, guard, goal *Term) {
	if x.muted > 0 {
		return
	}
	g := x.Implies(guard, goal)
	// facts are only ever added, so a goal already required needs no second proof
	if (kind == "safety" || kind == "frame") && !g.isTrue() {
		if x.required[g] {
			return
		}
		if x.required == nil {
			x.required = map[*Term]bool{}
		}
		x.required[g] = true
	}
	o := &Obl{Name: name, Kind: kind, Pos: pos, Text: text, nfacts: len(x.facts), goal: g, fn: x}
	if g.isTrue() {
		o.Status = "proved"
		o.Solver = "simplifier"
	}
	x.obls = append(x.obls, o)
}

// intervals with refinement
func (x *Exec) lo(t *Term, st *State) *big.Int {
	l := t.lo
	if st != nil {
		for r := st.ref; r != nil; r = r.next {
			if r.t == t && r.lo != nil && (l == nil || r.lo.Cmp(l) > 0) {
				l = r.lo
			}
		}
		if t.kind == 'a' && (t.Op == "+" || t.Op == "*") {
			if v := x.linBound(t, st, true); v != nil && (l == nil || v.Cmp(l) > 0) {
				l = v
			}
		}
		if t.kind == 'a' && t.Op == "ite" {
			a, c := x.lo(t.Args[1], st), x.lo(t.Args[2], st)
			if a != nil && c != nil {
				m := minB(a, c)
				if l == nil || m.Cmp(l) > 0 {
					l = m
				}
			}
		}
		if t.kind == 'a' && t.Op == "div" && t.Args[1].num != nil && t.Args[1].num.Sign() > 0 {
			if a := x.lo(t.Args[0], st); a != nil {
				v := new(big.Int).Div(a, t.Args[1].num)
				if l == nil || v.Cmp(l) > 0 {
					l = v
				}
			}
		}
	}
	return l
}
func (x *Exec) hi(t *Term, st *State) *big.Int {
	h := t.hi
	if st != nil {
		for r := st.ref; r != nil; r = r.next {
			if r.t == t && r.hi != nil && (h == nil || r.hi.Cmp(h) < 0) {
				h = r.hi
			}
		}
		if t.kind == 'a' && (t.Op == "+" || t.Op == "*") {
			if v := x.linBound(t, st, false); v != nil && (h == nil || v.Cmp(h) < 0) {
				h = v
			}
		}
		if t.kind == 'a' && t.Op == "ite" {
			a, c := x.hi(t.Args[1], st), x.hi(t.Args[2], st)
			if a != nil && c != nil {
				m := maxB(a, c)
				if h == nil || m.Cmp(h) < 0 {
					h = m
				}
			}
		}
		if t.kind == 'a' && t.Op == "div" && t.Args[1].num != nil && t.Args[1].num.Sign() > 0 {
			if a := x.hi(t.Args[0], st); a != nil {
				v := new(big.Int).Div(a, t.Args[1].num)
				if h == nil || v.Cmp(h) < 0 {
					h = v
				}
			}
		}
		if strings.HasPrefix(t.Op, "pow2") && t.kind == 'a' {
			if e := x.hi(t.Args[0], st); e != nil && e.Sign() >= 0 && e.Cmp(big.NewInt(200)) < 0 {
				v := pow2b(int(e.Int64()))
				if h == nil || v.Cmp(h) < 0 {
					h = v
				}
			}
		}
	}
	return h
}
func (x *Exec) linBound(t *Term, st *State, low bool) *big.Int {
	l := &lin{c: map[*Term]*big.Int{}, k: big0}
	x.toLin(t, big1, l)
	r := l.k
	for a, c := range l.c {
		if a == t {
			if t.Op == "*" { // nonlinear
				p, q := t.Args[0], t.Args[1]
				pl, ql := x.lo(p, st), x.lo(q, st)
				if pl == nil || ql == nil || pl.Sign() < 0 || ql.Sign() < 0 {
					return nil
				}
				if low {
					return new(big.Int).Mul(pl, ql)
				}
				ph, qh := x.hi(p, st), x.hi(q, st)
				if ph == nil || qh == nil {
					return nil
				}
				return new(big.Int).Mul(ph, qh)
			}
			return nil
		}
		var b *big.Int
		if (c.Sign() > 0) == low {
			b = x.lo(a, st)
		} else {
			b = x.hi(a, st)
		}
		if b == nil {
			return nil
		}
		r = new(big.Int).Add(r, new(big.Int).Mul(c, b))
	}
	return r
}

// learn extracts interval facts from a condition known to hold in st.
func (x *Exec) learn(st *State, c *Term) {
	switch {
	case c.kind == 'a' && c.Op == "and":
		for _, a := range c.Args {
			x.learn(st, a)
		}
	case c.kind == 'a' && c.Op == "<=":
		x.learnLe(st, c.Args[0], c.Args[1])
	case c.kind == 'a' && c.Op == "not" && c.Args[0].Op == "<=":
		// y < x  i.e. y+1 <= x
		x.learnLe(st, x.Add(c.Args[0].Args[1], x.Int(1)), c.Args[0].Args[0])
	case c.kind == 'a' && c.Op == "not" && c.Args[0].Op == "or":
		for _, a := range c.Args[0].Args {
			x.learn(st, x.Not(a))
		}
	case c.kind == 'a' && c.Op == "not" && c.Args[0].Op == "=>":
		x.learn(st, c.Args[0].Args[0])
		x.learn(st, x.Not(c.Args[0].Args[1]))
	case c.kind == 'a' && c.Op == "=" && c.Args[0].Sort == SInt:
		x.learnLe(st, c.Args[0], c.Args[1])
		x.learnLe(st, c.Args[1], c.Args[0])
	case c.kind == 'a' && c.Op == "not" && c.Args[0].Op == "=" && c.Args[0].Args[0].Sort == SInt:
		// t != bound: tighten
		for k := 0; k < 2; k++ {
			t, v := c.Args[0].Args[k], c.Args[0].Args[1-k]
			if v.num == nil {
				continue
			}
			if l := x.lo(t, st); l != nil && l.Cmp(v.num) == 0 {
				st.ref = &refine{t: t, lo: new(big.Int).Add(l, big1), next: st.ref}
			}
			if h := x.hi(t, st); h != nil && h.Cmp(v.num) == 0 {
				st.ref = &refine{t: t, hi: new(big.Int).Sub(h, big1), next: st.ref}
			}
		}
	}
}
func (x *Exec) learnLe(st *State, a, b *Term) {
	if a.free || b.free {
		return
	}
	// b - a >= 0 : bound every atom by the others
	d := x.Sub(b, a)
	l := &lin{c: map[*Term]*big.Int{}, k: big0}
	x.toLin(d, big1, l)
	if len(l.c) > 6 {
		return
	}
	for t, c := range l.c {
		// c*t + rest >= 0
		rest := new(big.Int).Set(l.k)
		ok := true
		for o, oc := range l.c {
			if o == t {
				continue
			}
			var v *big.Int
			if oc.Sign() > 0 {
				v = x.hi(o, st)
			} else {
				v = x.lo(o, st)
			}
			if v == nil {
				ok = false
				break
			}
			rest.Add(rest, new(big.Int).Mul(oc, v))
		}
		if !ok {
			continue
		}
		if c.Sign() > 0 { // t >= ceil(-rest/c)
			n := new(big.Int).Neg(rest)
			q, m := new(big.Int), new(big.Int)
			q.DivMod(n, c, m)
			if m.Sign() != 0 {
				q.Add(q, big1)
			}
			if o := x.lo(t, st); o == nil || q.Cmp(o) > 0 {
				st.ref = &refine{t: t, lo: q, next: st.ref}
			}
		} else { // t <= floor(rest/-c)
			q := new(big.Int).Div(rest, new(big.Int).Neg(c))
			if new(big.Int).Mod(rest, new(big.Int).Neg(c)).Sign() != 0 && rest.Sign() < 0 {
				q = floorDiv(rest, new(big.Int).Neg(c))
			}
			if o := x.hi(t, st); o == nil || q.Cmp(o) < 0 {
				st.ref = &refine{t: t, hi: q, next: st.ref}
			}
		}
	}
}
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

// assumeIn records a fact under guard and refines the state.
func (x *Exec) assumeIn(st *State, guard, t *Term) {
	x.assume(guard, t)
	x.learn(st, t)
}

// heap access ---------------------------------------------------------------
func (x *Exec) hget(st *State, key string, s Sort) *Term {
	x.keySort[key] = s
	if t, ok := st.heap[key]; ok {
		return t
	}
	for w := st.wild; w != nil; w = w.next {
		if strings.HasPrefix(key, w.prefix) {
			n := fmt.Sprintf("HW%d_%s", w.id, key)
			if t, ok := x.heapW[n]; ok {
				return t
			}
			if x.heapW == nil {
				x.heapW = map[string]*Term{}
			}
			t := x.Sym(n, s)
			if li, ok := x.keyLeaf[key]; ok && !s.isArr() {
				x.typeFact(t, li, nil)
			}
			x.heapW[n] = t
			return t
		}
	}
	if t, ok := x.heap0[key]; ok {
		return t
	}
	t := x.Const("H0_"+key, s)
	x.heap0[key] = t
	return t
}

func (x *Exec) freshTyped(name string, l Leaf, st *State) *Term {
	t := x.Sym(name, l.sort)
	x.typeFact(t, l, st)
	return t
}

var maxLen = pow2b(46)

// baseOnly reports whether a heap read goes to a symbol directly (no pending store).
func baseOnly(t *Term) bool {
	for t.kind == 'a' && t.Op == "select" {
		t = t.Args[0]
	}
	return t.kind == 's' || (t.kind == 'a' && t.Op != "store" && t.Op != "ite" && t.Op != "select")
}

// fact records a typing fact: unconditionally for symbols, under the current
// path condition for values read through stores.
func (x *Exec) fact(base bool, f *Term) {
	if base || x.cur == nil {
		x.always(f)
		return
	}
	x.always(x.Implies(x.cur, f))
}

// typeFact records what Go's type system guarantees about a leaf term.
func (x *Exec) typeFact(t *Term, l Leaf, st *State) {
	if t.num != nil {
		return
	}
	if t.free {
		x.typeBase(t, l)
		return
	}
	base := baseOnly(t)
	switch l.kind {
	case 'i':
		if t.Sort == SInt {
			w, s, ok := intInfo(l.t)
			if !ok {
				return
			}
			lo, hi := intRange(w, s)
			x.fact(base, x.app("<=", SBool, x.IntB(lo), t))
			x.fact(base, x.app("<=", SBool, t, x.IntB(hi)))
			x.setB(t, st, base, lo, hi)
		}
	case 'n':
		if t.Sort == SInt {
			x.fact(base, x.app("<=", SBool, x.Int(0), t))
			x.fact(base, x.app("<=", SBool, t, x.IntB(maxLen)))
			x.setB(t, st, base, big0, maxLen)
		} else if t.num == nil {
			x.fact(base, x.BVcmp("bvule", t, x.BV(maxLen, 64)))
		}
	case 'r':
		_, isI := l.t.Underlying().(*types.Interface)
		if !isI && t.Sort == SInt {
			x.fact(base, x.app("<=", SBool, x.Int(0), t))
			x.setB(t, st, base, big0, nil)
		}
	}
}
func (x *Exec) setB(t *Term, st *State, base bool, lo, hi *big.Int) {
	if base || st == nil {
		if lo != nil && (t.lo == nil || t.lo.Cmp(lo) < 0) {
			t.lo = lo
		}
		if hi != nil && (t.hi == nil || t.hi.Cmp(hi) > 0) {
			t.hi = hi
		}
		return
	}
	if (lo == nil || (t.lo != nil && t.lo.Cmp(lo) >= 0)) && (hi == nil || (t.hi != nil && t.hi.Cmp(hi) <= 0)) {
		return
	}
	l, h := boundsOf(st.ref, t)
	if (lo == nil || (l != nil && l.Cmp(lo) >= 0)) && (hi == nil || (h != nil && h.Cmp(hi) <= 0)) {
		return
	}
	st.ref = &refine{t: t, lo: lo, hi: hi, next: st.ref}
}

// typeBase adds a quantified typing axiom for the base arrays behind a read under a binder.
func (x *Exec) typeBase(t *Term, l Leaf) {
	if l.kind != 'i' && l.kind != 'n' {
		return
	}
	if t.Sort != SInt {
		return
	}
	d := 0
	a := t
	var walk func(a *Term, d int)
	walk = func(a *Term, d int) {
		for a.kind == 'a' && a.Op == "select" {
			a = a.Args[0]
			d++
		}
		switch {
		case a.kind == 'a' && a.Op == "store":
			walk(a.Args[0], d)
			if d >= 2 || a.Args[2].Sort.isArr() {
				walk(a.Args[2], d-1)
			}
		case a.kind == 'a' && a.Op == "ite":
			walk(a.Args[1], d)
			walk(a.Args[2], d)
		case a.kind == 's' && a.Sort.isArr():
			if x.typedBase[a.id] {
				return
			}
			x.typedBase[a.id] = true
			e := a
			var vs []*Term
			for k := 0; k < 3 && e.Sort.isArr(); k++ {
				ks, es := e.Sort.arrParts()
				b := x.BoundVar(fmt.Sprintf("t%d", k), ks, 90+k)
				vs = append(vs, b)
				e = x.app("select", es, e, b)
			}
			if e.Sort != SInt {
				return
			}
			lo, hi := big0, maxLen
			if l.kind == 'i' {
				w, s, ok := intInfo(l.t)
				if !ok {
					return
				}
				lo, hi = intRange(w, s)
			}
			x.permFacts = append(x.permFacts, x.Quant(true, vs, x.And(x.app("<=", SBool, x.IntB(lo), e), x.app("<=", SBool, e, x.IntB(hi))), [][]*Term{{e}}))
		}
	}
	walk(a, d)
}

// freshVal makes a fresh well-typed value.
func (x *Exec) freshVal(name string, t types.Type, st *State) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, x.freshVal(fmt.Sprintf("%s_%d", name, i), tp.At(i).Type(), st))
		}
		return v
	}
	ls := x.leaves(t)
	v := Val{T: t}
	for _, l := range ls {
		v.C = append(v.C, x.freshTyped(name+l.path, l, st))
	}
	x.wellTyped(v, st)
	return v
}

// wellTyped adds the structural facts of a value (slice bounds, references below the watermark).
func (x *Exec) wellTyped(v Val, st *State) {
	if len(v.C) == 0 {
		return
	}
	ls := x.leaves(v.T)
	for i, l := range ls {
		if strings.HasSuffix(l.path, "#ref") && i+3 < len(ls) {
			x.sliceFacts(v.C[i], v.C[i+1], v.C[i+2], v.C[i+3], st)
		} else if l.kind == 'r' {
			_, isI := l.t.Underlying().(*types.Interface)
			if isI && ownInterface(l.t) && st != nil && !v.C[i].free && v.C[i].num == nil && v.C[i].Sort == SInt {
				p := x.ifPtr(v.C[i])
				x.fact(baseOnly(v.C[i]), x.And(x.Le(x.Int(0), p), x.Le(p, st.top)))
			}
			if !isI && st != nil && !v.C[i].free && v.C[i].num == nil && v.C[i].Sort == SInt && !v.C[i].salloc {
				x.fact(baseOnly(v.C[i]), x.Le(v.C[i], st.top))
			}
		}
	}
}
func (x *Exec) sliceFacts(ref, off, ln, cp *Term, st *State) {
	if ref.free || ln.free || off.free || cp.free {
		return
	}
	bs := baseOnly(ref) && baseOnly(ln) && baseOnly(cp)
	if st != nil && !ref.salloc && ref.num == nil {
		x.fact(bs, x.Le(ref, st.top))
	}
	if ln.Sort == SInt {
		x.fact(bs, x.Le(ln, cp))
		if ref.num == nil {
			x.fact(bs, x.Implies(x.Eq(ref, x.Int(0)), x.Eq(cp, x.Int(0))))
		}
	} else {
		x.fact(bs, x.BVcmp("bvule", ln, cp))
		if ref.num == nil {
			x.fact(bs, x.Implies(x.Eq(ref, x.Int(0)), x.Eq(cp, x.BV(big0, 64))))
		}
	}
}

// zeroVal of a type.
func (x *Exec) zeroVal(t types.Type) Val {
	v := Val{T: t}
	for _, l := range x.leaves(t) {
		v.C = append(v.C, x.zeroLeaf(l))
	}
	return v
}
func (x *Exec) zeroLeaf(l Leaf) *Term { return x.zeroSort(l.sort, l) }
func (x *Exec) zeroSort(s Sort, l Leaf) *Term {
	if s.isArr() {
		_, v := s.arrParts()
		return x.ConstArr(s, x.zeroSort(v, l))
	}
	switch {
	case s == SInt:
		return x.Int(0)
	case s == SBool:
		return x.False()
	case s.isBV():
		return x.BV(big0, s.bvWidth())
	case s == SF64 || s == SF32:
		return x.floatConst(s, new(big.Rat))
	case s == SStr:
		return x.strConst("")
	}
	return x.Const("zero_"+string(s), s)
}

func (x *Exec) ensureOld(t types.Type) {}

// load reads the value at addr.
func (x *Exec) load(st *State, a *Addr, t types.Type) Val {
	v := Val{T: t}
	ls := x.leaves(t)
	for _, l := range ls {
		v.C = append(v.C, x.loadLeaf(st, a, l))
	}
	// normalise slice offsets of heap slices to 0 (see modelling assumption)
	x.wellTyped(v, st)
	return v
}

func (x *Exec) keyFor(a *Addr, l Leaf) (string, Sort) {
	switch a.kind {
	case 'o':
		s := l.sort
		if a.sub != nil {
			s = SArr(x.idxSort(), s)
		}
		return a.root + a.path + l.path, SArr(SInt, s)
	case 'e':
		s := l.sort
		if a.sub != nil {
			s = SArr(x.idxSort(), s)
		}
		return "[]" + a.root + a.path + l.path, SArr(SInt, SArr(x.idxSort(), s))
	default:
		return "G:" + a.root + a.path + l.path, l.sort
	}
}

func (x *Exec) loadLeaf(st *State, a *Addr, l Leaf) *Term {
	key, s := x.keyFor(a, l)
	h := x.hget(st, key, s)
	var t *Term
	switch a.kind {
	case 'o':
		t = x.Select(h, a.ref)
	case 'e':
		t = x.Select(x.Select(h, a.ref), a.idx)
	default:
		t = h
	}
	for _, i := range a.sub {
		t = x.Select(t, i)
	}
	if strings.HasSuffix(l.path, "#off") && a.kind != 'g' {
		if t.kind == 'a' && t.Op == "select" {
			// A slice stored in memory: view it from its own base.
			if !t.free {
				x.fact(baseOnly(t), x.Eq(t, x.zeroSort(t.Sort, l)))
			}
			return x.zeroSort(t.Sort, l)
		}
	}
	x.typeFact(t, l, st)
	return t
}

func (x *Exec) storeVal(st *State, guard *Term, a *Addr, v Val, where string) {
	ls := x.leaves(v.T)
	if v.Addr != nil || (v.Clo != nil && len(v.C) == 0) {
		panic(unsupported("storing an interior pointer or closure"))
	}
	for i, l := range ls {
		x.storeLeaf(st, guard, a, l, v.C[i], where)
	}
}

func (x *Exec) storeLeaf(st *State, guard *Term, a *Addr, l Leaf, v *Term, where string) {
	key, s := x.keyFor(a, l)
	h := x.hget(st, key, s)
	if strings.HasSuffix(l.path, "#off") && a.kind != 'g' {
		x.oblige("model", "slice-base", where, "a slice stored in memory starts at its base", guard, x.Eq(v, x.zeroSort(v.Sort, l)))
	}
	switch a.kind {
	case 'o':
		nv := v
		if a.sub != nil {
			nv = x.storeSub(x.Select(h, a.ref), a.sub, v)
		}
		x.checkWrite(st, guard, key, a.ref, nil, where)
		st.heap[key] = x.Store(h, a.ref, nv)
	case 'e':
		arr := x.Select(h, a.ref)
		nv := v
		if a.sub != nil {
			nv = x.storeSub(x.Select(arr, a.idx), a.sub, v)
		}
		x.checkWrite(st, guard, key, a.ref, a.idx, where)
		st.heap[key] = x.Store(h, a.ref, x.Store(arr, a.idx, nv))
	default:
		x.checkWrite(st, guard, key, nil, nil, where)
		st.heap[key] = v
	}
}
func (x *Exec) storeSub(arr *Term, sub []*Term, v *Term) *Term {
	if len(sub) == 1 {
		return x.Store(arr, sub[0], v)
	}
	return x.Store(arr, sub[0], x.storeSub(x.Select(arr, sub[0]), sub[1:], v))
}

// checkWrite records the write and emits the frame obligation.
func (x *Exec) checkWrite(st *State, guard *Term, key string, ref, idx *Term, where string) {
	if x.writes != nil {
		*x.writes = append(*x.writes, write{key: key, ref: ref, idx: idx, sort: x.keySort[key]})
	}
	if x.modAll || x.muted > 0 || x.entry == nil {
		return
	}
	if ref == nil {
		for _, m := range x.modset {
			if m.key == key {
				return
			}
		}
		x.oblige("frame", "frame", where, "write to global "+key, guard, x.False())
		return
	}
	ok := []*Term{x.Lt(x.entry.top, ref)}
	if ref.salloc {
		return
	}
	for _, m := range x.modset {
		if m.key == key || (m.wild && strings.HasPrefix(key, m.key)) {
			if m.any {
				return
			}
			c := x.Eq(ref, m.ref)
			if m.lo != nil && idx != nil && idx.Sort == SInt {
				c = x.And(c, x.Le(m.lo, idx), x.Lt(idx, m.hi))
			} else if m.lo != nil && idx == nil {
				c = x.And(c, x.False())
			}
			if m.cond != nil {
				c = x.And(c, m.cond)
			}
			ok = append(ok, c)
		}
	}
	x.oblige("frame", "frame", where, "writes "+key, guard, x.Or(ok...))
}

// alloc a fresh reference.
func (x *Exec) alloc(st *State, name string) *Term {
	r := x.Sym("new_"+name, SInt)
	r.salloc = true
	r.lo = big1
	x.always(x.app("<=", SBool, x.Int(1), r))
	x.always(x.app("<", SBool, st.top, r))
	st.top = r
	return r
}

func (x *Exec) derefAddr(v Val) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("deref of " + v.T.String()))
	}
	el := pt.Elem()
	if at, ok := el.Underlying().(*types.Array); ok {
		_ = at
		return &Addr{kind: 'A', ref: v.C[0], elem: el}
	}
	return &Addr{kind: 'o', ref: v.C[0], root: typeKey(el), elem: el}
}

// arrObj converts an address of a whole array object into element memory access.
func (x *Exec) loadAny(st *State, a *Addr, t types.Type) Val {
	if a.kind == 'A' {
		at := a.elem.Underlying().(*types.Array)
		v := Val{T: t}
		for _, l := range x.leaves(at.Elem()) {
			key := "[]" + typeKey(at.Elem()) + l.path
			h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l.sort)))
			v.C = append(v.C, x.Select(h, a.ref))
		}
		return v
	}
	return x.load(st, a, t)
}
func (x *Exec) storeAny(st *State, guard *Term, a *Addr, v Val, where string) {
	if a.kind == 'A' {
		at := a.elem.Underlying().(*types.Array)
		for i, l := range x.leaves(at.Elem()) {
			key := "[]" + typeKey(at.Elem()) + l.path
			h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l.sort)))
			x.checkWrite(st, guard, key, a.ref, nil, where)
			st.heap[key] = x.Store(h, a.ref, v.C[i])
		}
		return
	}
	x.storeVal(st, guard, a, v, where)
}

// elemArr returns the backing array terms of a slice value, one per leaf.
func (x *Exec) elemArrs(st *State, sl Val) []*Term {
	et := sl.T.Underlying().(*types.Slice).Elem()
	var out []*Term
	for _, l := range x.leaves(et) {
		key := "[]" + typeKey(et) + l.path
		h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l.sort)))
		out = append(out, x.Select(h, sl.C[0]))
	}
	return out
}
func (x *Exec) setElemArrs(st *State, guard *Term, sl Val, arrs []*Term, where string) {
	et := sl.T.Underlying().(*types.Slice).Elem()
	for i, l := range x.leaves(et) {
		key := "[]" + typeKey(et) + l.path
		h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l.sort)))
		x.checkWrite(st, guard, key, sl.C[0], nil, where)
		st.heap[key] = x.Store(h, sl.C[0], arrs[i])
	}
}

// index arithmetic ------------------------------------------------------------
func (x *Exec) iadd(a, b *Term) *Term {
	if a.Sort == SInt {
		return x.Add(a, b)
	}
	return x.BVop("bvadd", a, b)
}
func (x *Exec) isub(a, b *Term) *Term {
	if a.Sort == SInt {
		return x.Sub(a, b)
	}
	return x.BVop("bvsub", a, b)
}
func (x *Exec) iconst(v int64) *Term {
	if x.bv {
		return x.BV(big.NewInt(v), 64)
	}
	return x.Int(v)
}
// signed comparison on index-sorted terms
func (x *Exec) ile(a, b *Term) *Term {
	if a.Sort == SInt {
		return x.Le(a, b)
	}
	return x.BVcmp("bvsle", a, b)
}
func (x *Exec) ilt(a, b *Term) *Term {
	if a.Sort == SInt {
		return x.Lt(a, b)
	}
	return x.BVcmp("bvslt", a, b)
}
