package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Iterators (iter.Seq, iter.Seq2).
//
// A function value of iterator type stands for a finite sequence: sq_len(f) elements, whose
// leaf number k are the arrays sq_arr_k(f). A range-over-func loop over an unknown iterator
// is executed as a loop over that sequence with the invariants of the contract ("loop N",
// counted with the other loops; rangepos is the number of completed iterations).
//
// A function that returns an iterator is verified by running the closure it returns against a
// ghost consumer, which records what is yielded and stops at an arbitrary moment; yielding
// after a stop is an obligation failure, and seqlen/seqarr of the result denote the record of
// a run that was not stopped.

const (
	yCnt  = "G:yield.cnt"
	yStop = "G:yield.stop"
)

func yArr(k int) string { return fmt.Sprintf("G:yield.arr%d", k) }

// iterElems returns the element types of an iterator function type.
func iterElems(t types.Type) ([]types.Type, bool) {
	sg, ok := types.Unalias(t).Underlying().(*types.Signature)
	if !ok || sg.Params().Len() != 1 || sg.Results().Len() != 0 {
		return nil, false
	}
	y, ok := sg.Params().At(0).Type().Underlying().(*types.Signature)
	if !ok || y.Results().Len() != 1 || !types.Identical(y.Results().At(0).Type(), types.Typ[types.Bool]) {
		return nil, false
	}
	var out []types.Type
	for i := 0; i < y.Params().Len(); i++ {
		out = append(out, y.Params().At(i).Type())
	}
	return out, true
}

func (x *Exec) iterLeaves(t types.Type) (ls []Leaf) {
	es, _ := iterElems(t)
	for _, e := range es {
		ls = append(ls, x.leaves(e)...)
	}
	return
}


func (x *Exec) seqLen(fv Val, st *State) *Term {
	if fv.Clo != nil {
		return x.hget(st, yCnt, SInt)
	}
	n := x.App("sq_len", SInt, fv.C[0])
	if !x.onceFacts[n.id] {
		x.onceFacts[n.id] = true
		x.onceLog = append(x.onceLog, n.id)
		x.always(x.Le(x.Int(0), n))
		x.always(x.Le(n, x.Int(1<<40)))
	}
	return n
}

func (x *Exec) seqArr(fv Val, k int, st *State) *Term {
	ls := x.iterLeaves(fv.T)
	if k >= len(ls) {
		sfail("seqarr: no leaf %d", k)
	}
	s := SArr(SInt, ls[k].sort)
	if fv.Clo != nil {
		return x.hget(st, yArr(k), s)
	}
	return x.App(fmt.Sprintf("sq_arr%d_%s", k, ls[k].sort), s, fv.C[0])
}

// ghostSet assigns a ghost variable (never part of a frame).
func (x *Exec) ghostSet(st *State, g *Term, key string, s Sort, v *Term) {
	st.heap[key] = x.Ite(g, v, x.hget(st, key, s))
	if x.writes != nil {
		*x.writes = append(*x.writes, write{key: key, sort: s})
	}
}

// ghostYield is a call of the ghost consumer.
func (x *Exec) ghostYield(args []Val, st *State, g *Term, where string) Val {
	stop, cnt := x.hget(st, yStop, SBool), x.hget(st, yCnt, SInt)
	x.oblige("iterator", "yield-after-stop", where, "the iterator does not yield after the consumer stopped", g, x.Not(stop))
	k := 0
	for _, a := range args {
		for i := range a.C {
			s := SArr(SInt, a.C[i].Sort)
			x.ghostSet(st, g, yArr(k), s, x.Store(x.hget(st, yArr(k), s), cnt, a.C[i]))
			k++
		}
	}
	x.ghostSet(st, g, yCnt, SInt, x.Add(cnt, x.Int(1)))
	r := x.Sym("yielded", SBool)
	x.ghostSet(st, g, yStop, SBool, x.Not(r))
	return Val{T: types.Typ[types.Bool], C: []*Term{r}}
}

// runIterator executes a returned iterator closure against the ghost consumer.
func (x *Exec) runIterator(fr *Frame, fv Val, st *State, g *Term) *Term {
	for k, l := range x.iterLeaves(fv.T) {
		s := SArr(SInt, l.sort)
		x.keySort[yArr(k)] = s
		st.heap[yArr(k)] = x.Sym("yarr", s)
	}
	x.keySort[yCnt], x.keySort[yStop] = SInt, SBool
	st.heap[yCnt] = x.Int(0)
	st.heap[yStop] = x.False()
	yt := fv.Clo.fn.Params[0].Type()
	y := Val{T: substType(yt, fv.Clo.subst), C: []*Term{x.Sym("yield", SInt)}, Yield: true}
	x.assume(g, x.Le(x.Int(1), y.C[0]))
	old := st.top
	_ = old
	_, g2 := x.inline(fv.Clo.fn, []Val{y}, fv.Clo.bind, fv.Clo.subst, st, g, fr)
	return x.And(g2, x.Not(x.hget(st, yStop, SBool)))
}

// rangeFunc executes "for ... := range f" over an unknown iterator.
func (x *Exec) rangeFunc(fr *Frame, ci *ssa.Call, fv, body Val, st *State, g *Term, where string) *Term {
	ow := fr.owner()
	ow.loopN++
	ord := ow.loopN
	ls := &LoopSpec{}
	if ow.spec != nil && ow.spec.Loops[ord] != nil {
		ls = ow.spec.Loops[ord]
		ls.Used = true
	}
	x.nonNil(st, g, fv, where)
	ets, _ := iterElems(fr.typ(fv.T))
	n := x.seqLen(fv, st)
	st0 := st.clone()
	tag := fmt.Sprintf("loop%d", ord)
	lim := 0
	for i, in := range ci.Block().Instrs {
		if in == ssa.Instruction(ci) {
			lim = i
		}
	}
	env := func(s *State, g, pos *Term) *SEnv {
		ev := x.frameEnv(ow, s, g)
		ev.lentry = st0
		ev.lheads = ow.lhead
		ev.lookup = func(nm string) (Val, bool) {
			if nm == "rangepos" {
				return Val{T: types.Typ[types.Int], C: []*Term{pos}}, true
			}
			ob, oi := fr.nlBlk, fr.nlIdx
			fr.nlBlk, fr.nlIdx = ci.Block(), lim
			defer func() { fr.nlBlk, fr.nlIdx = ob, oi }()
			return x.nameAt(fr, ci.Block(), nm, s, true)
		}
		ev.bound["seq"] = fv
		return ev
	}
	if x.bv {
		panic(unsupported("range over an iterator in bit-vector mode"))
	}
	// the loop's state variable is zero between iterations
	var jump *Addr
	for i, f := range body.Clo.fn.FreeVars {
		if len(f.Name()) >= 4 && f.Name()[:4] == "jump" {
			jump = x.derefAddr(body.Clo.bind[i])
		}
	}
	running := func(s *State) *Term {
		if jump == nil {
			return x.True()
		}
		return x.Eq(x.loadAny(s, jump, jump.elem).C[0], x.Int(0))
	}
	sev := env(st0, g, x.Int(0))
	for _, a := range ls.Apply {
		x.applySoft(sev, a, g)
	}
	for k, c := range ls.Inv {
		goal := x.clauseTerm(sev, c)
		x.oblige("invariant-init", fmt.Sprintf("%s-inv%d-init", tag, k+1), where, c.Text, g, goal)
		x.assume(g, goal)
	}
	base := x.nsym
	hs := st0.clone()
	hs.top = x.Sym("top", SInt)
	x.always(x.Le(st0.top, hs.top))
	pos := x.Sym("pos", SInt)
	x.assume(x.True(), x.And(x.Le(x.Int(0), pos), x.Le(pos, n)))
	elems := func(s *State) (out []Val) {
		k := 0
		for _, t := range ets {
			v := Val{T: t}
			for _, l := range x.leaves(t) {
				e := x.Select(x.seqArr(fv, k, s), pos)
				x.typeFact(e, l, s)
				v.C = append(v.C, e)
				k++
			}
			x.wellTyped(v, s)
			out = append(out, v)
		}
		return
	}
	gb := x.And(g, x.Lt(pos, n))
	run := func(s *State) (Val, *Term) {
		rs, g2 := x.inline(body.Clo.fn, elems(s), body.Clo.bind, body.Clo.subst, s, gb, fr)
		return rs[0], g2
	}
	s := x.havocked(fr, ow, st0, hs, base, func(s *State) []*State {
		t := s.clone()
		x.assumeIn(t, gb, running(t))
		run(t)
		return []*State{t}
	})
	x.assumeIn(s, g, running(s))
	hev := env(s, g, pos)
	for _, c := range ls.Inv {
		x.assumeIn(s, g, x.clauseTerm(hev, c))
	}
	if ow.lhead == nil {
		ow.lhead = map[int]*State{}
	}
	ow.lhead[ord] = s.clone()
	hev.lheads = ow.lhead
	applied := map[int]bool{}
	for i, c := range ls.Apply {
		applied[i] = x.applySoft(hev, c, g)
	}
	sb := s.clone()
	r, g2 := run(sb)
	cont := x.And(g2, r.C[0])
	stop := x.And(g2, x.Not(r.C[0]))
	bev := env(sb, cont, x.Add(pos, x.Int(1)))
	aev := *bev
	lk0 := bev.lookup
	aev.lookup = func(nm string) (Val, bool) {
		if v, ok := lk0(nm); ok {
			return v, true
		}
		return Val{}, false
	}
	for i, c := range ls.Apply {
		if !x.applySoft(bev, c, cont) && !applied[i] {
			x.applyClause(bev, c, cont)
		}
	}
	x.oblige("iterator", tag+"-state", where, "the loop body leaves the iteration state as it found it", cont, running(sb))
	for k, c := range ls.Inv {
		goal := x.clauseTerm(bev, c)
		x.oblige("invariant", fmt.Sprintf("%s-inv%d-preserved", tag, k+1), where, c.Text, cont, goal)
	}
	ga := x.And(g, x.Eq(pos, n))
	gm, ns := x.mergeStates([]edge{{guard: ga, st: s}, {guard: stop, st: sb}})
	*st = *ns
	return gm
}
