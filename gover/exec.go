package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Closure struct {
	fn    *ssa.Function
	bind  []Val
	subst map[*types.TypeParam]types.Type
	fr    *Frame
}

// Frame is one (possibly inlined) activation.
type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	parent  *Frame
	subst   map[*types.TypeParam]types.Type
	rets    []ret
	loops   *loopInfo
	curBlk  *ssa.BasicBlock
	free    []Val
	entry   *State
	spec    *Contract
	loopN   int
	callBlk *ssa.BasicBlock
	lost    bool
	lentry  map[*loop]*State
	lhead   map[int]*State
	lheadLk map[int]func(string) (Val, bool)
	nlBlk   *ssa.BasicBlock // name lookups start inside this block, before instruction nlIdx
	nlIdx   int
}
type ret struct {
	guard *Term
	st    *State
	vals  []Val
	pos   string
	blk   *ssa.BasicBlock
}

type edge struct {
	from  *ssa.BasicBlock
	to    *ssa.BasicBlock
	guard *Term
	st    *State
	phis  []Val
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}
type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	rpo      []*ssa.BasicBlock
	rpoIdx   map[*ssa.BasicBlock]int
}

func analyzeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}, rpoIdx: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpoIdx[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					for _, p := range n.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			} else if li.rpoIdx[s] <= li.rpoIdx[b] {
				panic(unsupported("irreducible control flow"))
			}
		}
	}
	return li
}

func (fr *Frame) typ(t types.Type) types.Type { return substType(t, fr.subst) }

// value of an SSA operand
func (x *Exec) val(fr *Frame, v ssa.Value, st *State) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c.Value, fr.typ(c.Type()))
	case *ssa.Global:
		return Val{T: c.Type(), Addr: &Addr{kind: 'g', root: shortPkg(c.Pkg.Pkg) + "." + c.Name(), elem: c.Type().(*types.Pointer).Elem()}}
	case *ssa.Function:
		ft := x.Const("fn_"+c.String(), SInt)
		x.always(x.Lt(x.Int(0), ft))
		return Val{T: c.Type(), Clo: &Closure{fn: c, subst: fr.subst}, C: []*Term{ft}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return Val{T: c.Type()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn)))
}

func (x *Exec) safety(kind, where, text string, st *State, guard, cond *Term) {
	if cond.isTrue() {
		return
	}
	if x.spec != nil && x.spec.AssumeSafe && x.muted == 0 {
		x.trusted["run-time safety ("+kind+") assumed in "+x.fnName] = true
	} else if !(x.spec != nil && x.spec.AssumeSafe) {
		x.oblige("safety", kind, where, text, guard, cond)
	}
	x.assumeIn(st, guard, cond)
}

func (x *Exec) nonNil(st *State, guard *Term, v Val, where string) {
	if v.Addr != nil {
		return
	}
	if v.C[0].salloc || (v.C[0].lo != nil && v.C[0].lo.Sign() > 0) {
		return
	}
	x.safety("nil", where, "nil dereference", st, guard, x.Not(x.Eq(v.C[0], x.Int(0))))
}

// runFunc executes fn with the given arguments; results are collected in fr.rets.
func (x *Exec) runFunc(fr *Frame, st *State, guard *Term) {
	if len(fr.fn.Blocks) == 0 {
		panic(unsupported("no body: " + fr.fn.String()))
	}
	li, ok := x.prog.loopCache[fr.fn]
	if !ok {
		li = analyzeLoops(fr.fn)
		x.prog.loopCache[fr.fn] = li
	}
	fr.loops = li
	fr.entry = st.clone()
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range li.rpo {
		all[b] = true
	}
	ex, _ := x.region(fr, all, fr.fn.Blocks[0], []edge{{to: fr.fn.Blocks[0], guard: guard, st: st.clone()}}, false)
	if len(ex) > 0 {
		panic("edges leave function")
	}
}

func (x *Exec) mergeStates(es []edge) (*Term, *State) {
	if len(es) == 1 {
		return es[0].guard, es[0].st.clone()
	}
	var gs []*Term
	for _, e := range es {
		gs = append(gs, e.guard)
	}
	g := x.Or(gs...)
	st := es[len(es)-1].st.clone()
	st.ref = commonRefine(es)
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.heap {
			keys[k] = true
		}
	}
	get := func(s *State, k string) *Term {
		if t, ok := s.heap[k]; ok {
			return t
		}
		for _, e := range es {
			if t, ok := e.st.heap[k]; ok {
				return x.hget(s, k, t.Sort)
			}
		}
		if so, ok := x.keySort[k]; ok {
			return x.hget(s, k, so)
		}
		panic("heap key")
	}
	pre := map[string]bool{}
	for _, e := range es {
		if e.st.wild != st.wild {
			for _, f := range es {
				for w := f.st.wild; w != nil; w = w.next {
					pre[w.prefix] = true
				}
			}
			break
		}
	}
	var ps []string
	for k := range pre {
		ps = append(ps, k)
	}
	sort.Strings(ps)
	// regions havocked on one side only: merge every key seen so far exactly
	for k := range x.keySort {
		for _, p := range ps {
			if strings.HasPrefix(k, p) {
				keys[k] = true
			}
		}
	}
	for _, k := range ps {
		x.nwild++
		st.wild = &wildMod{k, x.nwild, st.wild}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := get(es[len(es)-1].st, k)
		for i := len(es) - 2; i >= 0; i-- {
			r = x.Ite(es[i].guard, get(es[i].st, k), r)
		}
		st.heap[k] = r
	}
	top := es[len(es)-1].st.top
	for i := len(es) - 2; i >= 0; i-- {
		top = x.Ite(es[i].guard, es[i].st.top, top)
	}
	if top != es[0].st.top {
		nt := x.Sym("top", SInt)
		for _, e := range es {
			x.always(x.Le(e.st.top, nt))
		}
		top = nt
	}
	st.top = top
	return g, st
}

func commonRefine(es []edge) *refine {
	// longest common suffix of the persistent lists, plus joined bounds
	lists := make([]map[*refine]bool, len(es))
	for i, e := range es {
		lists[i] = map[*refine]bool{}
		for r := e.st.ref; r != nil; r = r.next {
			lists[i][r] = true
		}
	}
	var common *refine
	for r := es[0].st.ref; r != nil; r = r.next {
		all := true
		for i := range es {
			if !lists[i][r] {
				all = false
			}
		}
		if all {
			common = r
			break
		}
	}
	// join: a bound proved on every edge separately
	type bd struct{ lo, hi bool }
	res := common
	seen := map[*Term]bool{}
	for r := es[0].st.ref; r != nil && r != common; r = r.next {
		if seen[r.t] {
			continue
		}
		seen[r.t] = true
		n := &refine{t: r.t, next: res}
		okLo, okHi := true, true
		for i, e := range es {
			lo, hi := boundsOf(e.st.ref, r.t)
			if lo == nil {
				okLo = false
			} else if i == 0 || (n.lo != nil && lo.Cmp(n.lo) < 0) {
				n.lo = lo
			}
			if hi == nil {
				okHi = false
			} else if i == 0 || (n.hi != nil && hi.Cmp(n.hi) > 0) {
				n.hi = hi
			}
		}
		if !okLo {
			n.lo = nil
		}
		if !okHi {
			n.hi = nil
		}
		if n.lo != nil || n.hi != nil {
			res = n
		}
	}
	return res
}

// region executes the blocks of a region in reverse post-order.
func (x *Exec) region(fr *Frame, blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []edge, isLoop bool) (exits, backs []edge) {
	pending := map[*ssa.BasicBlock][]edge{entry: in}
	skip := map[*ssa.BasicBlock]bool{}
	dispatch := func(e edge) {
		if e.guard.isFalse() {
			return
		}
		if isLoop && e.to == entry {
			backs = append(backs, e)
		} else if blocks[e.to] {
			pending[e.to] = append(pending[e.to], e)
		} else {
			exits = append(exits, e)
		}
	}
	for _, b := range fr.loops.rpo {
		if !blocks[b] || skip[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if l := fr.loops.byHeader[b]; l != nil && !(isLoop && b == entry) {
			for bb := range l.blocks {
				skip[bb] = true
			}
			for _, e := range x.doLoop(fr, l, es) {
				dispatch(e)
			}
			continue
		}
		x.enter(fr, b, es)
		g, st := x.mergeStates(es)
		for _, e := range x.block(fr, b, g, st) {
			dispatch(e)
		}
	}
	return
}

// enter evaluates the phis of b from its incoming edges.
func (x *Exec) enter(fr *Frame, b *ssa.BasicBlock, es []edge) {
	for i, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		_ = phi
		v := es[len(es)-1].phis[i]
		for j := len(es) - 2; j >= 0; j-- {
			v = x.mergeVal(es[j].guard, es[j].phis[i], v)
		}
		fr.env[phi] = v
	}
}

func (x *Exec) mergeVal(c *Term, a, b Val) Val {
	if c.isTrue() {
		return a
	}
	if a.Addr != nil || b.Addr != nil {
		if a.Addr != nil && b.Addr != nil && a.Addr.kind == b.Addr.kind && a.Addr.root == b.Addr.root && a.Addr.path == b.Addr.path && len(a.Addr.sub) == len(b.Addr.sub) {
			n := *a.Addr
			if a.Addr.ref != nil {
				n.ref = x.Ite(c, a.Addr.ref, b.Addr.ref)
			}
			if a.Addr.idx != nil {
				n.idx = x.Ite(c, a.Addr.idx, b.Addr.idx)
			}
			for i := range n.sub {
				n.sub[i] = x.Ite(c, a.Addr.sub[i], b.Addr.sub[i])
			}
			return Val{T: a.T, Addr: &n}
		}
		panic(unsupported("merging interior pointers"))
	}
	if a.Tup != nil {
		v := Val{T: a.T}
		for i := range a.Tup {
			v.Tup = append(v.Tup, x.mergeVal(c, a.Tup[i], b.Tup[i]))
		}
		return v
	}
	if (a.Clo != nil || b.Clo != nil) && (len(a.C) == 0 || len(b.C) == 0) {
		panic(unsupported("merging closures"))
	}
	v := Val{T: a.T}
	if a.Clo != nil && b.Clo != nil && a.Clo.fn == b.Clo.fn {
		v.Clo = a.Clo
	}
	if len(a.C) != len(b.C) {
		panic(unsupported("merging values of different shape"))
	}
	for i := range a.C {
		v.C = append(v.C, x.Ite(c, a.C[i], b.C[i]))
	}
	return v
}

// jump builds an edge, evaluating phi operands on the way.
func (x *Exec) jump(fr *Frame, from, to *ssa.BasicBlock, nth int, g *Term, st *State) edge {
	e := edge{from: from, to: to, guard: g, st: st}
	pi := -1
	cnt := 0
	for i, p := range to.Preds {
		if p == from {
			if cnt == nth {
				pi = i
				break
			}
			pi = i
			cnt++
		}
	}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.val(fr, phi.Edges[pi], st)
		v.T = fr.typ(phi.Type())
		e.phis = append(e.phis, v)
	}
	return e
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, g *Term, st *State) []edge {
	for _, ins := range b.Instrs {
		if g.isFalse() {
			return nil
		}
		x.steps++
		x.cur = g
		if x.steps > 400000 {
			panic(unsupported("symbolic execution budget exceeded"))
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, i.Cond, st).C[0]
			var out []edge
			gt, gf := x.And(g, c), x.And(g, x.Not(c))
			same := b.Succs[0] == b.Succs[1]
			if !gt.isFalse() {
				s := st.clone()
				x.learn(s, c)
				out = append(out, x.jump(fr, b, b.Succs[0], 0, gt, s))
			}
			if !gf.isFalse() {
				s := st.clone()
				x.learn(s, x.Not(c))
				n := 0
				if same {
					n = 1
				}
				out = append(out, x.jump(fr, b, b.Succs[1], n, gf, s))
			}
			return out
		case *ssa.Jump:
			return []edge{x.jump(fr, b, b.Succs[0], 0, g, st)}
		case *ssa.Return:
			r := ret{guard: g, st: st, pos: x.pos(i), blk: b}
			for _, v := range i.Results {
				r.vals = append(r.vals, x.val(fr, v, st))
			}
			fr.rets = append(fr.rets, r)
			return nil
		case *ssa.Panic:
			fr.lost = true
			if x.spec != nil && x.spec.MayPanic {
				return nil
			}
			x.oblige("safety", "panic", x.pos(i), "explicit panic unreachable", g, x.False())
			return nil
		case *ssa.RunDefers:
		default:
			g2 := x.instr(fr, ins, g, st)
			if g2 != g {
				fr.lost = true
				g = g2
			}
		}
	}
	return nil
}

func (x *Exec) instr(fr *Frame, ins ssa.Instruction, g *Term, st *State) *Term {
	where := x.pos(ins)
	x.curPos = where
	set := func(v ssa.Value, r Val) {
		r.T = fr.typ(v.Type())
		fr.env[v] = r
	}
	switch i := ins.(type) {
	case *ssa.Alloc:
		t := fr.typ(i.Type().Underlying().(*types.Pointer).Elem())
		ref := x.alloc(st, i.Comment)
		p := Val{T: fr.typ(i.Type()), C: []*Term{ref}}
		a := x.derefAddr(p)
		m := x.muted
		x.muted++
		w := x.writes
		x.writes = nil
		x.storeAny(st, g, a, x.zeroVal(t), where)
		x.writes = w
		if w != nil {
			// the object is fresh: record as such
		}
		x.muted = m
		fr.env[i] = p
	case *ssa.BinOp:
		a, b := x.val(fr, i.X, st), x.val(fr, i.Y, st)
		if a.T == nil {
			a.T = fr.typ(i.X.Type())
		}
		r := x.binop(i.Op, a, b, fr.typ(i.Type()), st, g, where)
		fr.env[i] = r
	case *ssa.UnOp:
		v := x.val(fr, i.X, st)
		switch i.Op {
		case token.MUL:
			if gl, ok := i.X.(*ssa.Global); ok {
				fr.env[i] = x.loadGlobal(st, gl, fr.typ(i.Type()))
				return g
			}
			x.nonNil(st, g, v, where)
			ad := x.derefAddr(v)
			if ad.kind == 'o' && ad.ref.salloc {
				if c := x.cells[cellKey{ad.ref, ad.path}]; c != nil {
					fr.env[i] = *c
					return g
				}
			}
			fr.env[i] = x.loadAny(st, ad, fr.typ(i.Type()))
		case token.NOT:
			set(i, Val{C: []*Term{x.Not(v.C[0])}})
		case token.SUB:
			t := fr.typ(i.Type())
			if w, s, ok := intInfo(t); ok {
				if x.bv {
					set(i, Val{C: []*Term{x.app("bvneg", v.C[0].Sort, v.C[0])}})
				} else {
					set(i, Val{C: []*Term{x.wrap(x.Sub(x.Int(0), v.C[0]), w, s, st)}})
				}
			} else {
				n := x.App("fneg_"+string(v.C[0].Sort), v.C[0].Sort, v.C[0])
				if _, isf := isFloat(t); isf && !n.free {
					x.always(x.app("=", SBool, x.fnan(n), x.fnan(v.C[0])))
					x.always(x.app("=", SBool, x.fval(n), x.app("-", SReal, x.fval(v.C[0]))))
				}
				set(i, Val{C: []*Term{n}})
			}
		case token.XOR:
			t := fr.typ(i.Type())
			w, s, _ := intInfo(t)
			if x.bv {
				set(i, Val{C: []*Term{x.app("bvnot", v.C[0].Sort, v.C[0])}})
			} else if s {
				set(i, Val{C: []*Term{x.Sub(x.Int(-1), v.C[0])}})
			} else {
				_, hi := intRange(w, false)
				set(i, Val{C: []*Term{x.Sub(x.IntB(hi), v.C[0])}})
			}
		default:
			panic(unsupported("unop " + i.Op.String()))
		}
	case *ssa.Convert:
		fr.env[i] = x.convert(x.val(fr, i.X, st), fr.typ(i.Type()), st, g, where)
	case *ssa.MultiConvert:
		fr.env[i] = x.convert(x.val(fr, i.X, st), fr.typ(i.Type()), st, g, where)
	case *ssa.ChangeType:
		v := x.val(fr, i.X, st)
		v.T = fr.typ(i.Type())
		fr.env[i] = v
	case *ssa.ChangeInterface:
		v := x.val(fr, i.X, st)
		v.T = fr.typ(i.Type())
		fr.env[i] = v
	case *ssa.MakeInterface:
		v := x.val(fr, i.X, st)
		r := Val{T: fr.typ(i.Type()), Dyn: &v}
		t := x.Sym("iface", SInt)
		t.lo = big1
		x.always(x.app("<=", SBool, x.Int(1), t))
		if _, isPtr := v.T.Underlying().(*types.Pointer); isPtr && ownInterface(r.T) && len(v.C) == 1 && !hasTypeParam(v.T) {
			x.always(x.And(x.Eq(x.ifType(t), x.typeTag(v.T)), x.Eq(x.ifPtr(t), v.C[0])))
		}
		r.C = []*Term{t}
		fr.env[i] = r
	case *ssa.TypeAssert:
		v := x.val(fr, i.X, st)
		at := fr.typ(i.AssertedType)
		_, toIface := at.Underlying().(*types.Interface)
		var res Val
		var ok *Term
		if v.Dyn != nil && !toIface && types.Identical(v.Dyn.T, at) {
			res, ok = *v.Dyn, x.True()
		} else if v.Dyn != nil && !toIface && !hasTypeParam(v.Dyn.T) {
			res, ok = x.zeroVal(at), x.False()
		} else {
			res = x.freshVal("assert", at, st)
			ok = x.Sym("assertok", SBool)
			if _, isPtr := at.Underlying().(*types.Pointer); isPtr && ownInterface(v.T) && len(v.C) == 1 && len(res.C) == 1 && !hasTypeParam(at) {
				ok = x.isDyn(v.C[0], at)
				x.always(x.Eq(res.C[0], x.Ite(ok, x.ifPtr(v.C[0]), x.Int(0))))
			}
		}
		res.T = at
		if i.CommaOk {
			fr.env[i] = Val{T: i.Type(), Tup: []Val{res, {T: types.Typ[types.Bool], C: []*Term{ok}}}}
		} else {
			x.safety("assert", where, "type assertion", st, g, ok)
			fr.env[i] = res
		}
	case *ssa.FieldAddr:
		v := x.val(fr, i.X, st)
		x.nonNil(st, g, v, where)
		a := *x.derefAddr(v)
		if a.kind == 'A' {
			panic(unsupported("field of array object"))
		}
		stt := fr.typ(i.X.Type()).Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := stt.Field(i.Field)
		if len(a.sub) > 0 {
			panic(unsupported("field of array element inside a struct"))
		}
		a.path += "." + f.Name()
		a.elem = f.Type()
		fr.env[i] = Val{T: fr.typ(i.Type()), Addr: &a}
	case *ssa.Field:
		v := x.val(fr, i.X, st)
		stt := fr.typ(i.X.Type()).Underlying().(*types.Struct)
		off := 0
		for k := 0; k < i.Field; k++ {
			off += len(x.leaves(stt.Field(k).Type()))
		}
		n := len(x.leaves(stt.Field(i.Field).Type()))
		fr.env[i] = Val{T: fr.typ(i.Type()), C: v.C[off : off+n]}
	case *ssa.IndexAddr:
		v := x.val(fr, i.X, st)
		idx := x.toIndex(x.val(fr, i.Index, st), st)
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			x.safety("bounds", where, "index out of range", st, g, x.And(x.ile(x.iconst(0), idx), x.ilt(idx, v.C[2])))
			fr.env[i] = Val{T: fr.typ(i.Type()), Addr: &Addr{kind: 'e', ref: v.C[0], idx: x.iadd(v.C[1], idx), root: typeKey(u.Elem()), elem: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.safety("bounds", where, "index out of range", st, g, x.And(x.ile(x.iconst(0), idx), x.ilt(idx, x.iconst(at.Len()))))
			x.nonNil(st, g, v, where)
			if v.Addr == nil {
				fr.env[i] = Val{T: fr.typ(i.Type()), Addr: &Addr{kind: 'e', ref: v.C[0], idx: idx, root: typeKey(at.Elem()), elem: at.Elem()}}
			} else if v.Addr.kind == 'g' {
				a := *v.Addr
				if len(a.sub) == 0 {
					a.path += "[]"
				} else {
					a.path += "[]"
				}
				a.sub = append(append([]*Term{}, a.sub...), idx)
				a.elem = at.Elem()
				fr.env[i] = Val{T: fr.typ(i.Type()), Addr: &a}
			} else {
				a := *v.Addr
				a.sub = append(append([]*Term{}, a.sub...), idx)
				a.path += "[]"
				a.elem = at.Elem()
				fr.env[i] = Val{T: fr.typ(i.Type()), Addr: &a}
			}
		default:
			panic(unsupported("indexaddr " + v.T.String()))
		}
	case *ssa.Index:
		v := x.val(fr, i.X, st)
		idx := x.toIndex(x.val(fr, i.Index, st), st)
		switch u := v.T.Underlying().(type) {
		case *types.Array:
			x.safety("bounds", where, "index out of range", st, g, x.And(x.ile(x.iconst(0), idx), x.ilt(idx, x.iconst(u.Len()))))
			r := Val{T: fr.typ(i.Type())}
			for k, l := range x.leaves(u.Elem()) {
				t := x.Select(v.C[k], idx)
				x.typeFact(t, l, st)
				r.C = append(r.C, t)
			}
			fr.env[i] = r
		default:
			if isStringT(v.T) {
				n := x.strLen(v.C[0])
				x.safety("bounds", where, "string index out of range", st, g, x.And(x.ile(x.iconst(0), idx), x.ilt(idx, n)))
				arr := x.App("str.bytes_uint8", SArr(SInt, SInt), v.C[0])
				t := x.Select(arr, idx)
				x.typeFact(t, Leaf{"", SInt, types.Typ[types.Uint8], 'i'}, st)
				fr.env[i] = Val{T: fr.typ(i.Type()), C: []*Term{t}}
				return g
			}
			panic(unsupported("index " + v.T.String()))
		}
	case *ssa.Slice:
		x.sliceOp(fr, i, g, st, where)
	case *ssa.Store:
		a, v := x.val(fr, i.Addr, st), x.val(fr, i.Val, st)
		x.nonNil(st, g, a, where)
		ad := x.derefAddr(a)
		if v.Clo != nil || v.Addr != nil {
			// keep closure / interior pointer identity for local cells
			if ad.kind == 'o' && ad.ref.salloc {
				vv := v
				ck := cellKey{ad.ref, ad.path}
				if old, ok := x.cells[ck]; ok && old != nil && !sameAddr(*old, vv) {
					panic(unsupported("a local closure or pointer variable is reassigned"))
				}
				x.cells[ck] = &vv
			}
			if len(v.C) == 0 && v.Dyn == nil {
				if ad.kind == 'o' && ad.ref.salloc {
					return g
				}
				if v.Clo != nil {
					v.C = []*Term{x.Sym("closure", SInt)}
					x.always(x.app("<=", SBool, x.Int(1), v.C[0]))
				}
			}
			cp := v
			cp.Clo = nil
			v = cp
		}
		v.T = fr.typ(i.Val.Type())
		x.storeAny(st, g, ad, v, where)
	case *ssa.MakeSlice:
		ln, cp := x.toIndex(x.val(fr, i.Len, st), st), x.toIndex(x.val(fr, i.Cap, st), st)
		x.safety("makelen", where, "makeslice: len out of range", st, g, x.And(x.ile(x.iconst(0), ln), x.ile(ln, x.bigIdx())))
		if cp != ln {
			x.safety("makecap", where, "makeslice: cap out of range", st, g, x.And(x.ile(ln, cp), x.ile(cp, x.bigIdx())))
		}
		et := fr.typ(i.Type()).Underlying().(*types.Slice).Elem()
		ref := x.alloc(st, "slice")
		v := Val{T: fr.typ(i.Type()), C: []*Term{ref, x.iconst(0), ln, cp}}
		for _, l := range x.leaves(et) {
			key := "[]" + typeKey(et) + l.path
			as := SArr(x.idxSort(), l.sort)
			h := x.hget(st, key, SArr(SInt, as))
			st.heap[key] = x.Store(h, ref, x.ConstArr(as, x.zeroLeaf(l)))
		}
		fr.env[i] = v
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function), subst: fr.subst, fr: fr}
		for _, b := range i.Bindings {
			c.bind = append(c.bind, x.val(fr, b, st))
		}
		ct := x.Sym("closure", SInt)
		x.assume(x.True(), x.Lt(x.Int(0), ct))
		fr.env[i] = Val{T: fr.typ(i.Type()), Clo: c, C: []*Term{ct}}
	case *ssa.MakeMap:
		ref := x.alloc(st, "map")
		mt := fr.typ(i.Type()).Underlying().(*types.Map)
		x.mapInit(st, mt, ref)
		fr.env[i] = Val{T: fr.typ(i.Type()), C: []*Term{ref}}
	case *ssa.MapUpdate:
		m, k, v := x.val(fr, i.Map, st), x.val(fr, i.Key, st), x.val(fr, i.Value, st)
		x.nonNil(st, g, m, where)
		x.mapSet(st, g, m, k, v, where)
	case *ssa.Lookup:
		m, k := x.val(fr, i.X, st), x.val(fr, i.Index, st)
		r, ok := x.mapGet(st, m, k)
		if i.CommaOk {
			fr.env[i] = Val{T: i.Type(), Tup: []Val{r, {T: types.Typ[types.Bool], C: []*Term{ok}}}}
		} else {
			fr.env[i] = r
		}
	case *ssa.Extract:
		v := x.val(fr, i.Tuple, st)
		r := v.Tup[i.Index]
		if r.T == nil {
			r.T = fr.typ(i.Type())
		}
		fr.env[i] = r
	case *ssa.Call:
		r, g2 := x.call(fr, i, g, st, where)
		g = g2
		if r.T == nil {
			r.T = fr.typ(i.Type())
		}
		fr.env[i] = r
	case *ssa.SliceToArrayPointer:
		v := x.val(fr, i.X, st)
		at := fr.typ(i.Type()).Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.safety("bounds", where, "slice to array pointer", st, g, x.ile(x.iconst(at.Len()), v.C[2]))
		if v.C[1].num == nil || v.C[1].num.Sign() != 0 {
			panic(unsupported("array pointer to sub-slice"))
		}
		fr.env[i] = Val{T: fr.typ(i.Type()), C: []*Term{v.C[0]}}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
	return g
}

type cellKey struct {
	ref  *Term
	path string
}

func hasTypeParam(t types.Type) bool {
	return strings.Contains(typeKey(t), "$")
}

func (x *Exec) bigIdx() *Term {
	if x.bv {
		return x.BV(maxLen, 64)
	}
	return x.IntB(maxLen)
}

// toIndex converts an integer value of any type to the index sort.
func (x *Exec) toIndex(v Val, st *State) *Term {
	w, s, ok := intInfo(v.T)
	if !ok {
		panic(unsupported("index type " + v.T.String()))
	}
	if !x.bv {
		return v.C[0]
	}
	if w == 64 {
		return v.C[0]
	}
	if s {
		return x.SExt(v.C[0], 64)
	}
	return x.ZExt(v.C[0], 64)
}

func (x *Exec) sliceOp(fr *Frame, i *ssa.Slice, g *Term, st *State, where string) {
	v := x.val(fr, i.X, st)
	var lo, hi, mx *Term
	lo = x.iconst(0)
	if i.Low != nil {
		lo = x.toIndex(x.val(fr, i.Low, st), st)
	}
	t := fr.typ(i.Type())
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		hi = v.C[2]
		if i.High != nil {
			hi = x.toIndex(x.val(fr, i.High, st), st)
		}
		mx = v.C[3]
		if i.Max != nil {
			mx = x.toIndex(x.val(fr, i.Max, st), st)
			x.safety("slice", where, "slice bounds (max)", st, g, x.ile(mx, v.C[3]))
		}
		x.safety("slice", where, "slice bounds out of range", st, g, x.And(x.ile(x.iconst(0), lo), x.ile(lo, hi), x.ile(hi, mx)))
		fr.env[i] = Val{T: t, C: []*Term{v.C[0], x.iadd(v.C[1], lo), x.isub(hi, lo), x.isub(mx, lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := x.iconst(at.Len())
		hi = n
		if i.High != nil {
			hi = x.toIndex(x.val(fr, i.High, st), st)
		}
		x.safety("slice", where, "slice bounds out of range", st, g, x.And(x.ile(x.iconst(0), lo), x.ile(lo, hi), x.ile(hi, n)))
		if v.Addr != nil {
			panic(unsupported("slicing an embedded array"))
		}
		fr.env[i] = Val{T: t, C: []*Term{v.C[0], lo, x.isub(hi, lo), x.isub(n, lo)}}
	default:
		if isStringT(v.T) {
			n := x.strLen(v.C[0])
			hi = n
			if i.High != nil {
				hi = x.toIndex(x.val(fr, i.High, st), st)
			}
			x.safety("slice", where, "string slice bounds", st, g, x.And(x.ile(x.iconst(0), lo), x.ile(lo, hi), x.ile(hi, n)))
			s := x.App("str.sub_", SStr, v.C[0], lo, hi)
			x.always(x.Implies(x.And(x.Le(x.Int(0), lo), x.Le(lo, hi)), x.Eq(x.App("str.len_", SInt, s), x.Sub(hi, lo))))
			fr.env[i] = Val{T: t, C: []*Term{s}}
			return
		}
		panic(unsupported("slice of " + v.T.String()))
	}
}

// maps: domain and value arrays keyed by map reference.
func (x *Exec) mapKeys(mt *types.Map) (string, Sort) {
	ls := x.leaves(mt.Key())
	if len(ls) != 1 {
		panic(unsupported("map key " + mt.Key().String()))
	}
	return "map<" + typeKey(mt.Key()) + "," + typeKey(mt.Elem()) + ">", ls[0].sort
}
func (x *Exec) mapInit(st *State, mt *types.Map, ref *Term) {
	k, ks := x.mapKeys(mt)
	h := x.hget(st, k+".dom", SArr(SInt, SArr(ks, SBool)))
	st.heap[k+".dom"] = x.Store(h, ref, x.ConstArr(SArr(ks, SBool), x.False()))
	c := x.hget(st, k+".n", SArr(SInt, SInt))
	st.heap[k+".n"] = x.Store(c, ref, x.Int(0))
}
func (x *Exec) mapSet(st *State, g *Term, m, key, v Val, where string) {
	mt := m.T.Underlying().(*types.Map)
	k, ks := x.mapKeys(mt)
	dk := k + ".dom"
	h := x.hget(st, dk, SArr(SInt, SArr(ks, SBool)))
	x.checkWrite(st, g, dk, m.C[0], nil, where)
	old := x.Select(h, m.C[0])
	c := x.hget(st, k+".n", SArr(SInt, SInt))
	st.heap[k+".n"] = x.Store(c, m.C[0], x.Ite(x.Select(old, key.C[0]), x.Select(c, m.C[0]), x.Add(x.Select(c, m.C[0]), x.Int(1))))
	if x.writes != nil {
		*x.writes = append(*x.writes, write{key: k + ".n", ref: m.C[0]})
	}
	_ = c
	st.heap[dk] = x.Store(h, m.C[0], x.Store(old, key.C[0], x.True()))
	for i, l := range x.leaves(mt.Elem()) {
		vk := k + ".val" + l.path
		h := x.hget(st, vk, SArr(SInt, SArr(ks, l.sort)))
		x.checkWrite(st, g, vk, m.C[0], nil, where)
		st.heap[vk] = x.Store(h, m.C[0], x.Store(x.Select(h, m.C[0]), key.C[0], v.C[i]))
	}
}
func (x *Exec) mapGet(st *State, m, key Val) (Val, *Term) {
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok {
		panic(unsupported("lookup in " + m.T.String()))
	}
	k, ks := x.mapKeys(mt)
	h := x.hget(st, k+".dom", SArr(SInt, SArr(ks, SBool)))
	in := x.And(x.Not(x.Eq(m.C[0], x.Int(0))), x.Select(x.Select(h, m.C[0]), key.C[0]))
	r := Val{T: mt.Elem()}
	z := x.zeroVal(mt.Elem())
	for i, l := range x.leaves(mt.Elem()) {
		h := x.hget(st, k+".val"+l.path, SArr(SInt, SArr(ks, l.sort)))
		t := x.Select(x.Select(h, m.C[0]), key.C[0])
		x.typeFact(t, l, st)
		r.C = append(r.C, x.Ite(in, t, z.C[i]))
	}
	return r, in
}
