package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func boundsOf(r *refine, t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	for ; r != nil; r = r.next {
		if r.t == t {
			if r.lo != nil && (lo == nil || r.lo.Cmp(lo) > 0) {
				lo = r.lo
			}
			if r.hi != nil && (hi == nil || r.hi.Cmp(hi) < 0) {
				hi = r.hi
			}
		}
	}
	return
}

func (fr *Frame) owner() *Frame {
	f := fr
	for f.spec == nil && f.parent != nil {
		f = f.parent
	}
	return f
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func (x *Exec) doLoop(fr *Frame, l *loop, in []edge) []edge {
	ow := fr.owner()
	ow.loopN++
	ord := ow.loopN
	var ls *LoopSpec
	if ow.spec != nil {
		ls = ow.spec.Loops[ord]
	}
	if ls != nil {
		ls.Used = true
	}
	if ls == nil || (ls.Unroll > 0) {
		n := 0
		if ls != nil {
			n = ls.Unroll
		}
		if out, ok := x.unrollLoop(fr, l, in, n, ow, ord); ok {
			return out
		}
		if ls == nil {
			ls = &LoopSpec{}
		}
	}
	phis := phisOf(l.header)
	x.enter(fr, l.header, in)
	g, st0 := x.mergeStates(in)
	var init []Val
	for _, p := range phis {
		init = append(init, fr.env[p])
	}
	where := x.loopPos(fr, l)
	tag := fmt.Sprintf("loop%d", ord)
	if fr.lentry == nil {
		fr.lentry = map[*loop]*State{}
	}
	fr.lentry[l] = st0
	sev := x.loopEnv(fr, l, st0, g)
	for _, a := range ls.Apply {
		x.applySoft(sev, a, g)
	}
	for k, c := range ls.Inv {
		goal := x.clauseTerm(sev, c)
		x.oblige("invariant-init", fmt.Sprintf("%s-inv%d-init", tag, k+1), where, c.Text, g, goal)
		x.assume(g, goal)
	}
	base := x.nsym
	// phis
	hv := make([]Val, len(phis))
	havocTop := x.Sym("top", SInt)
	st := st0.clone()
	st.top = havocTop
	x.always(x.Le(st0.top, havocTop))
	offSym := map[int]*Term{} // slices whose offset is 0 before the loop and after every iteration
	for i, p := range phis {
		t := fr.typ(p.Type())
		same := true
		for k, e := range p.Edges {
			if l.blocks[l.header.Preds[k]] && e != p {
				same = false
			}
		}
		if same {
			hv[i] = init[i]
			continue
		}
		if init[i].Addr != nil || init[i].Clo != nil {
			// interior pointer or closure carried by the loop: must not change
			hv[i] = init[i]
			x.loopConst = append(x.loopConst, loopConstCheck{p, init[i]})
			continue
		}
		hv[i] = x.freshVal(phiName(p), t, st)
		if _, ok := t.Underlying().(*types.Slice); ok && len(init[i].C) == 4 && isZero(init[i].C[1]) {
			offSym[i] = hv[i].C[1]
			hv[i].C = append([]*Term{}, hv[i].C...)
			hv[i].C[1] = x.Int(0)
			if x.bv {
				hv[i].C[1] = init[i].C[1]
			}
		}
	}
	auto := x.autoInv(fr, l, phis, init, hv, g, st0)
	s := x.havocked(fr, ow, st0, st, base, func(s *State) (out []*State) {
		for i, p := range phis {
			fr.env[p] = hv[i]
		}
		_, backs := x.region(fr, l.blocks, l.header, []edge{{to: l.header, guard: g, st: s, phis: hv}}, true)
		for _, b := range backs {
			out = append(out, b.st)
			for i, o := range offSym {
				if !isZero(b.phis[i].C[1]) {
					hv[i].C = append([]*Term{}, hv[i].C...)
					hv[i].C[1] = o
					delete(offSym, i)
					x.rerun = true
				}
			}
		}
		return
	})
	for i, p := range phis {
		fr.env[p] = hv[i]
	}
	for _, a := range auto {
		x.assumeIn(s, g, a)
	}
	sev = x.loopEnv(fr, l, s, g)
	for _, c := range ls.Inv {
		x.assumeIn(s, g, x.clauseTerm(sev, c))
	}
	if ow.lhead == nil {
		ow.lhead = map[int]*State{}
	}
	ow.lhead[ord] = s.clone()
	if ow.lheadLk == nil {
		ow.lheadLk = map[int]func(string) (Val, bool){}
	}
	{
		hvals := append([]Val{}, hv...)
		hst := ow.lhead[ord]
		ow.lheadLk[ord] = func(n string) (Val, bool) {
			keep := make([]Val, len(phis))
			for i, p := range phis {
				keep[i] = fr.env[p]
				fr.env[p] = hvals[i]
			}
			v, ok := x.nameAt(fr, l.header, n, hst, true)
			for i, p := range phis {
				fr.env[p] = keep[i]
			}
			return v, ok
		}
	}
	sev.lheadLk = ow.lheadLk
	sev.lheads = ow.lhead
	applied := map[int]bool{}
	for i, c := range ls.Apply {
		applied[i] = x.applySoft(sev, c, g)
	}
	var dec0 []*Term
	for _, c := range ls.Dec {
		dec0 = append(dec0, x.decTerm(sev, c))
	}
	headEnv := make([]Val, len(phis))
	copy(headEnv, hv)
	exits, backs := x.region(fr, l.blocks, l.header, []edge{{to: l.header, guard: g, st: s, phis: hv}}, true)
	saved := map[ssa.Value]Val{}
	for _, p := range phis {
		saved[p] = fr.env[p]
	}
	for bi, b := range backs {
		for i, p := range phis {
			fr.env[p] = b.phis[i]
		}
		for i, p := range phis {
			if hv[i].Addr != nil || (hv[i].Clo != nil && len(hv[i].C) == 0) {
				if !sameAddr(hv[i], b.phis[i]) {
					panic(unsupported("loop-carried interior pointer " + p.Comment))
				}
			}
		}
		bev := x.loopEnv(fr, l, b.st, b.guard)
		sfx := ""
		if len(backs) > 1 {
			sfx = fmt.Sprintf(".%d", bi+1)
		}
		aev := *bev
		lk0 := bev.lookup
		aev.lookup = func(n string) (Val, bool) {
			if v, ok := lk0(n); ok {
				return v, true
			}
			return x.bodyName(fr, l, n, b.st)
		}
		for i, c := range ls.Apply {
			bev := &aev
			if applied[i] && len(backs) > 1 {
				x.applySoft(bev, c, b.guard)
			} else if !x.applySoft(bev, c, b.guard) && !applied[i] && len(backs) == 1 {
				x.applyClause(bev, c, b.guard)
			}
		}
		for k, c := range ls.Inv {
			goal := x.clauseTerm(bev, c)
			x.oblige("invariant", fmt.Sprintf("%s-inv%d-preserved%s", tag, k+1, sfx), where, c.Text, b.guard, goal)
		}
		for k, c := range ls.Dec {
			d1 := x.decTerm(bev, c)
			x.oblige("decreases", fmt.Sprintf("%s-dec%d%s", tag, k+1, sfx), where, c.Text, b.guard, x.decreased(dec0[k], d1))
		}
	}
	for p, v := range saved {
		fr.env[p] = v
	}
	return exits
}

type offCell struct {
	k string
	r *Term
}

func isZero(t *Term) bool { return t != nil && t.num != nil && t.num.Sign() == 0 }

type wtgt struct {
	refs  map[*Term]bool
	fresh bool
	any   bool
}

// havocked finds what run writes (by executing it without obligations until the set is
// stable) and returns a copy of st in which all of that has an unknown value.
// run returns the states at its back edges. Writes are reported to an enclosing inference.
func (x *Exec) havocked(fr, ow *Frame, st0, st *State, base int, run func(s *State) []*State) *State {
	T := map[string]*wtgt{}
	sorts := map[string]Sort{}
	wildP := map[string]bool{}
	nonzero := map[offCell]bool{}
	var kept []offCell
	mkState := func() *State {
		s := st.clone()
		var ps []string
		for k := range wildP {
			ps = append(ps, k)
		}
		sort.Strings(ps)
		for _, k := range ps {
			wl := x.wildLog
			x.wildLog = nil
			x.havocAll(s, k)
			x.wildLog = wl
		}
		var ks []string
		for k := range T {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			t := T[k]
			srt := sorts[k]
			skip := false
			for _, w := range ps {
				if strings.HasPrefix(k, w) {
					skip = true
				}
			}
			if skip {
				continue
			}
			if strings.HasPrefix(k, "G:") {
				s.heap[k] = x.freshKey(k, srt)
				continue
			}
			h := x.hget(st0, k, srt)
			_, vs := srt.arrParts()
			if t.any {
				nh := x.freshKey(k, srt)
				x.anyFrame(k, nh, srt)
				s.heap[k] = nh
				continue
			}
			var refs []*Term
			for r := range t.refs {
				refs = append(refs, r)
			}
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			if t.fresh {
				nh := x.freshKey(k, srt)
				b := x.BoundVar("r", SInt, 1)
				cond := []*Term{x.app("<=", SBool, b, st0.top)}
				for _, r := range refs {
					cond = append(cond, x.app("not", SBool, x.app("=", SBool, b, r)))
				}
				sel := x.app("select", vs, nh, b)
				x.facts = append(x.facts, Fact{t: x.Quant(true, []*Term{b}, x.app("=>", SBool, x.And(cond...), x.app("=", SBool, sel, x.Select(h, b))), [][]*Term{{sel}})})
				s.heap[k] = nh
				continue
			}
			for _, r := range refs {
				// a slice cell whose offset is 0 before the loop and, by evaluation of the
				// body, again after every iteration keeps offset 0
				if strings.HasSuffix(k, "#off") && !nonzero[offCell{k, r}] && isZero(x.Select(h, r)) {
					kept = append(kept, offCell{k, r})
					continue
				}
				f := x.Sym("hv_"+k, vs)
				x.leafFactFor(k, f, vs)
				h = x.Store(h, r, f)
			}
			s.heap[k] = h
		}
		return s
	}
	allocs := false
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop frame inference did not converge"))
		}
		var ws []write
		nw0 := len(wildP)
		snapFacts, snapOnce, snapLoop, snapRets := len(x.facts), len(x.onceLog), ow.loopN, len(fr.rets)
		oldW := x.writes
		x.writes = &ws
		oldL := x.wildLog
		var wl []string
		x.wildLog = &wl
		x.muted++
		kept = nil
		s := mkState()
		renz := false
		for _, b := range run(s) {
			if b.top != s.top {
				allocs = true
			}
			for _, c := range kept {
				if h, ok := b.heap[c.k]; ok && !isZero(x.Select(h, c.r)) && !nonzero[c] {
					nonzero[c] = true
					renz = true
				}
			}
		}
		x.muted--
		x.writes = oldW
		x.wildLog = oldL
		for _, w := range wl {
			if !wildP[w] {
				wildP[w] = true
			}
			if x.wildLog != nil {
				*x.wildLog = append(*x.wildLog, w)
			}
		}
		ow.loopN = snapLoop
		fr.rets = fr.rets[:snapRets]
		x.facts = x.facts[:snapFacts]
		for _, id := range x.onceLog[snapOnce:] {
			delete(x.onceFacts, id)
		}
		x.onceLog = x.onceLog[:snapOnce]
		changed := nw0 != len(wildP) || renz || x.rerun
		x.rerun = false
		for _, w := range ws {
			t := T[w.key]
			if t == nil {
				t = &wtgt{refs: map[*Term]bool{}}
				T[w.key] = t
				sorts[w.key] = x.keySort[w.key]
				changed = true
			}
			if w.ref == nil || t.any {
				continue
			}
			switch {
			case w.ref.msym <= base:
				if !t.refs[w.ref] {
					t.refs[w.ref] = true
					changed = true
				}
			case w.ref.salloc:
				if !t.fresh {
					t.fresh = true
					changed = true
				}
			default:
				t.any = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	if !allocs {
		st.top = st0.top
	}
	s := mkState()
	if x.writes != nil {
		for k, t := range T {
			if t.any || len(t.refs) == 0 {
				var r *Term
				if t.any {
					r = x.Sym("anyref", SInt)
				} else if t.fresh {
					r = x.Sym("freshref", SInt)
					r.salloc = true
				}
				*x.writes = append(*x.writes, write{key: k, ref: r, sort: sorts[k]})
			}
			for r := range t.refs {
				*x.writes = append(*x.writes, write{key: k, ref: r, sort: sorts[k]})
			}
		}
	}
	return s
}

type loopConstCheck struct {
	p *ssa.Phi
	v Val
}

func sameAddr(a, b Val) bool {
	if a.Clo != nil || b.Clo != nil {
		return a.Clo != nil && b.Clo != nil && a.Clo.fn == b.Clo.fn
	}
	if a.Addr == nil || b.Addr == nil {
		return false
	}
	p, q := a.Addr, b.Addr
	if p.kind != q.kind || p.root != q.root || p.path != q.path || p.ref != q.ref || p.idx != q.idx || len(p.sub) != len(q.sub) {
		return false
	}
	for i := range p.sub {
		if p.sub[i] != q.sub[i] {
			return false
		}
	}
	return true
}

func (x *Exec) decTerm(v *SEnv, c Clause) *Term {
	r := v.eval(c.E).C[0]
	return r
}

// decreased: d1 is below d0, and d0 is not negative.
func (x *Exec) decreased(d0, d1 *Term) *Term {
	if d0.Sort.isBV() {
		return x.And(x.BVcmp("bvsle", x.BV(big.NewInt(0), d0.Sort.bvWidth()), d0), x.BVcmp("bvslt", d1, d0))
	}
	return x.And(x.Le(x.Int(0), d0), x.Lt(d1, d0))
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (x *Exec) loopPos(fr *Frame, l *loop) string {
	for _, i := range l.header.Instrs {
		if i.Pos().IsValid() {
			return x.pos(i)
		}
	}
	for _, p := range l.header.Preds {
		for _, i := range p.Instrs {
			if i.Pos().IsValid() {
				return x.pos(i)
			}
		}
	}
	return fr.fn.String()
}

func (x *Exec) freshKey(k string, s Sort) *Term {
	t := x.Sym("H_"+k, s)
	x.leafFactFor(k, t, s)
	if li, ok := x.keyLeaf[k]; ok && !s.isArr() {
		x.typeFact(t, li, nil)
	}
	return t
}

// leafFactFor remembers the element leaf of a havocked array so that typing facts can be added.
func (x *Exec) leafFactFor(k string, t *Term, s Sort) {}

func (x *Exec) anyFrame(k string, nh *Term, srt Sort) {
	if x.modAll || x.entry == nil {
		return
	}
	h0 := x.hget(x.entry, k, srt)
	_, vs := srt.arrParts()
	b := x.BoundVar("r", SInt, 1)
	cond := []*Term{x.app("<=", SBool, b, x.entry.top)}
	for _, m := range x.modset {
		if m.key == k || (m.wild && strings.HasPrefix(k, m.key)) {
			if m.any {
				return
			}
			cond = append(cond, x.app("not", SBool, x.app("=", SBool, b, m.ref)))
		}
	}
	sel := x.app("select", vs, nh, b)
	x.facts = append(x.facts, Fact{t: x.Quant(true, []*Term{b}, x.app("=>", SBool, x.And(cond...), x.app("=", SBool, sel, x.Select(h0, b))), [][]*Term{{sel}})})
}

// unrollLoop executes the loop literally; succeeds if the exit condition folds.
func (x *Exec) unrollLoop(fr *Frame, l *loop, in []edge, n int, ow *Frame, ord int) ([]edge, bool) {
	limit := n
	auto := n == 0
	if auto {
		limit = 300
	}
	if auto && !x.constTrip(fr, l, in) {
		return nil, false
	}
	var exits []edge
	// values of the loop used behind it: each exit brings those of its own iteration
	live := liveOuts(l)
	type out struct {
		guard *Term
		vals  []Val
	}
	var outs []out
	done := func() {
		for i, v := range live {
			var r Val
			ok := false
			for k := len(outs) - 1; k >= 0; k-- {
				w := outs[k].vals[i]
				if w.T == nil && w.C == nil && w.Addr == nil && w.Clo == nil && w.Tup == nil {
					continue
				}
				if !ok {
					r, ok = w, true
				} else {
					r = x.mergeVal(outs[k].guard, w, r)
				}
			}
			if ok {
				fr.env[v] = r
			}
		}
	}
	cur := in
	for k := 0; ; k++ {
		if len(cur) == 0 {
			done()
			return exits, true
		}
		if k > limit {
			if auto {
				panic(unsupported("automatic unrolling did not finish"))
			}
			var gs []*Term
			for _, e := range cur {
				gs = append(gs, e.guard)
			}
			x.oblige("unwinding", fmt.Sprintf("loop%d-unwind", ord), x.loopPos(fr, l), fmt.Sprintf("at most %d iterations", n), x.True(), x.Not(x.Or(gs...)))
			x.assume(x.True(), x.Not(x.Or(gs...)))
			done()
			return exits, true
		}
		ow.loopN = ord
		if len(cur) > 1 {
			// merge before re-entering
			x.enter(fr, l.header, cur)
			g, st := x.mergeStates(cur)
			var ph []Val
			for _, p := range phisOf(l.header) {
				ph = append(ph, fr.env[p])
			}
			cur = []edge{{to: l.header, guard: g, st: st, phis: ph}}
		}
		ex, backs := x.region(fr, l.blocks, l.header, cur, true)
		exits = append(exits, ex...)
		for _, e := range ex {
			o := out{guard: e.guard}
			for _, v := range live {
				o.vals = append(o.vals, fr.env[v])
			}
			outs = append(outs, o)
		}
		cur = backs
	}
}

// liveOuts lists the values computed in the loop that blocks outside of it use (other than through a phi of an exit).
func liveOuts(l *loop) []ssa.Value {
	var r []ssa.Value
	seen := map[ssa.Value]bool{}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if _, isDbg := u.(*ssa.DebugRef); !isDbg && u.Block() != nil && !l.blocks[u.Block()] && !seen[v] {
					seen[v] = true
					r = append(r, v)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// constTrip: the header test depends only on a counter with a literal start and literal bound.
func (x *Exec) constTrip(fr *Frame, l *loop, in []edge) bool {
	last := l.header.Instrs[len(l.header.Instrs)-1]
	ifi, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x.enter(fr, l.header, in)
	var isC func(v ssa.Value, d int) bool
	isC = func(v ssa.Value, d int) bool {
		if d > 4 {
			return false
		}
		switch c := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			if c.Block() == l.header {
				w := fr.env[c]
				if len(w.C) != 1 || w.C[0].num == nil {
					return false
				}
				for k, e := range c.Edges {
					if l.blocks[l.header.Preds[k]] {
						b, ok := e.(*ssa.BinOp)
						if !ok {
							return false
						}
						_, yc := b.Y.(*ssa.Const)
						if !yc {
							return false
						}
						if b.X != ssa.Value(c) {
							return false
						}
					}
				}
				return true
			}
		case *ssa.BinOp:
			if l.blocks[c.Block()] {
				return isC(c.X, d+1) && isC(c.Y, d+1)
			}
		case *ssa.Convert:
			return isC(c.X, d+1)
		}
		if w, ok := fr.env[v]; ok && len(w.C) == 1 {
			if ins, ok := v.(ssa.Instruction); ok && l.blocks[ins.Block()] {
				return false
			}
			return w.C[0].num != nil
		}
		return false
	}
	return isC(bo.X, 0) && isC(bo.Y, 0)
}

// autoInv derives counter bounds that follow from the loop's shape alone.
func (x *Exec) autoInv(fr *Frame, l *loop, phis []*ssa.Phi, init, hv []Val, g *Term, st0 *State) []*Term {
	var out []*Term
	if x.bv {
		return nil
	}
	last := l.header.Instrs[len(l.header.Instrs)-1]
	ifi, ok := last.(*ssa.If)
	if !ok {
		return nil
	}
	cond, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	inTrue, inFalse := l.blocks[l.header.Succs[0]], l.blocks[l.header.Succs[1]]
	if inTrue == inFalse {
		return nil
	}
	op := cond.Op
	if inFalse {
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
		op = neg[op]
	}
	X, Y := cond.X, cond.Y
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
	outside := func(v ssa.Value) *Term {
		switch c := v.(type) {
		case *ssa.Const:
			return x.constVal(c.Value, fr.typ(c.Type())).C[0]
		case *ssa.Call:
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && l.blocks[c.Block()] {
				if ins, ok := c.Call.Args[0].(ssa.Instruction); ok && l.blocks[ins.Block()] {
					return nil
				}
				w, ok := fr.env[c.Call.Args[0]]
				if !ok {
					return nil
				}
				if _, ok := w.T.Underlying().(*types.Slice); ok {
					return w.C[2]
				}
				return nil
			}
		}
		if ins, ok := v.(ssa.Instruction); ok && l.blocks[ins.Block()] {
			return nil
		}
		if w, ok := fr.env[v]; ok && len(w.C) == 1 {
			return w.C[0]
		}
		return nil
	}
	for i, p := range phis {
		w, sg, isI := intInfo(fr.typ(p.Type()))
		if !isI || hv[i].C[0] == init[i].C[0] {
			continue
		}
		_, tmax := intRange(w, sg)
		// step
		var step *big.Int
		var backV ssa.Value
		okStep := true
		for k, e := range p.Edges {
			if !l.blocks[l.header.Preds[k]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(p) {
				okStep = false
				break
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok {
				okStep = false
				break
			}
			cv := x.constVal(c.Value, fr.typ(c.Type())).C[0].num
			if cv == nil {
				okStep = false
				break
			}
			switch b.Op {
			case token.ADD:
			case token.SUB:
				cv = new(big.Int).Neg(cv)
			default:
				okStep = false
			}
			if !okStep || (step != nil && step.Cmp(cv) != 0) {
				okStep = false
				break
			}
			step = cv
			backV = e
		}
		if !okStep || step == nil || step.Sign() == 0 {
			continue
		}
		v, v0 := hv[i].C[0], init[i].C[0]
		o := op
		var lim *Term
		isBack := false
		switch {
		case X == ssa.Value(p):
			lim = outside(Y)
		case Y == ssa.Value(p):
			lim = outside(X)
			o = flip[op]
		case X == backV:
			lim = outside(Y)
			isBack = true
		case Y == backV:
			lim = outside(X)
			o = flip[op]
			isBack = true
		}
		if lim == nil {
			continue
		}
		if step.Sign() > 0 {
			if isBack {
				// test on phi+step: continue when phi+step < lim
				if (o == token.LSS || o == token.NEQ) && step.Cmp(big1) == 0 && v0.num != nil && v0.num.Sign() < 0 {
					if h := lim.hi; h != nil && h.Cmp(tmax) <= 0 && (o == token.LSS) {
						out = append(out, x.Le(v0, v), x.Or(x.Eq(v, v0), x.Lt(v, lim)))
						x.learn(st0, x.Le(v0, v))
					}
				}
				continue
			}
			switch o {
			case token.LSS:
				if step.Cmp(big1) == 0 {
					out = append(out, x.Le(v0, v), x.Or(x.Le(v, lim), x.Eq(v, v0)))
				} else if lim.hi != nil && new(big.Int).Add(lim.hi, step).Cmp(tmax) <= 0 {
					out = append(out, x.Le(v0, v), x.Or(x.Lt(v, x.Add(lim, x.IntB(step))), x.Eq(v, v0)))
				}
			case token.LEQ:
				if lim.hi != nil && new(big.Int).Add(lim.hi, step).Cmp(tmax) <= 0 {
					out = append(out, x.Le(v0, v), x.Or(x.Le(v, x.Add(lim, x.IntB(step))), x.Eq(v, v0)))
				}
			}
		} else {
			tmin, _ := intRange(w, sg)
			switch o {
			case token.GEQ:
				if lim.lo != nil && new(big.Int).Add(lim.lo, step).Cmp(tmin) >= 0 {
					out = append(out, x.Le(v, v0), x.Or(x.Le(x.Add(lim, x.IntB(step)), v), x.Eq(v, v0)))
				}
			case token.GTR:
				if step.Cmp(big.NewInt(-1)) == 0 {
					out = append(out, x.Le(v, v0), x.Or(x.Le(lim, v), x.Eq(v, v0)))
				}
			}
		}
	}
	return out
}

// bodyName finds a local of the loop body by name, wherever it is defined (hints only).
func (x *Exec) bodyName(fr *Frame, l *loop, n string, st *State) (Val, bool) {
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if o, ok := d.Object().(*types.Var); ok && o.Name() == n && !o.IsField() {
					if w, ok := fr.env[d.X]; ok {
						return w, true
					}
				}
			}
		}
	}
	return Val{}, false
}

// loopEnv builds the specification environment at a loop header.
func (x *Exec) loopEnv(fr *Frame, l *loop, st *State, g *Term) *SEnv {
	ow := fr.owner()
	ev := x.frameEnv(ow, st, g)
	ev.lentry = fr.lentry[l]
	ev.lheads = ow.lhead
	ev.lheadLk = ow.lheadLk
	ev.lookup = func(n string) (Val, bool) { return x.nameAt(fr, l.header, n, st, true) }
	return ev
}

// frameEnv: names are the parameters of the frame.
func (x *Exec) frameEnv(fr *Frame, st *State, g *Term) *SEnv {
	ev := &SEnv{x: x, st: st, old: fr.entry, guard: g, bound: map[string]Val{}, subst: fr.subst}
	if fr.spec != nil {
		ev.lets = fr.spec.Lets
	}
	f := fr.fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for q := f; q != nil; q = q.Parent() {
		if q.Pkg != nil {
			ev.pkg = q.Pkg.Pkg
			break
		}
	}
	ev.oldLk = func(n string) (Val, bool) {
		for _, p := range fr.fn.Params {
			if p.Name() == n {
				return fr.env[p], true
			}
		}
		return Val{}, false
	}
	ev.lookup = ev.oldLk
	return ev
}

func (x *Exec) clauseTerm(v *SEnv, c Clause) *Term {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(specErr{c.Line + ": " + s.msg + " in: " + c.Text})
			}
			panic(r)
		}
	}()
	return v.evalBool(c.E)
}

// nameAt resolves a source variable at the start of block h.
func (x *Exec) nameAt(fr *Frame, h *ssa.BasicBlock, n string, st *State, header bool) (Val, bool) {
	for f := fr; f != nil; f = f.parent {
		if v, ok := x.nameInFrame(f, h, n, st); ok {
			return v, true
		}
		h = f.callBlk
		if h == nil && f.parent != nil {
			h = f.parent.curBlk
		}
	}
	return Val{}, false
}

func (x *Exec) nameInFrame(fr *Frame, h *ssa.BasicBlock, n string, st *State) (Val, bool) {
	get := func(v ssa.Value) (Val, bool) {
		switch c := v.(type) {
		case *ssa.Const:
			return x.constVal(c.Value, fr.typ(c.Type())), true
		case *ssa.FreeVar, *ssa.Function:
			return x.val(fr, v, st), true
		}
		w, ok := fr.env[v]
		return w, ok
	}
	first := true
	for b := h; b != nil; b = b.Idom() {
		// phis of this block
		if !first || b == fr.nlBlk {
			top := len(b.Instrs)
			if b == fr.nlBlk {
				top = fr.nlIdx
			}
			for k := top - 1; k >= 0; k-- {
				if d, ok := b.Instrs[k].(*ssa.DebugRef); ok {
					if o := d.Object(); o != nil && o.Name() == n {
						if _, isVar := o.(*types.Var); isVar {
							if o.(*types.Var).IsField() {
								continue
							}
							if d.IsAddr {
								if w, ok := get(d.X); ok {
									a := x.derefAddr(w)
									return x.loadAny(st, a, a.elem), true
								}
								continue
							}
							if a := allocOf(fr.fn, o); a != nil {
								// a variable in memory: its current contents
								if w, ok := get(a); ok {
									ad := x.derefAddr(w)
									return x.loadAny(st, ad, ad.elem), true
								}
								continue
							}
							if w, ok := get(d.X); ok {
								return w, true
							}
						}
					}
				}
				if a, ok := b.Instrs[k].(*ssa.Alloc); ok && a.Comment == n {
					if w, ok := get(a); ok {
						ad := x.derefAddr(w)
						return x.loadAny(st, ad, ad.elem), true
					}
				}
			}
		}
		for _, p := range phisOf(b) {
			if p.Comment == n {
				if w, ok := get(p); ok {
					return w, true
				}
			}
		}
		if n == "rangeslice" {
			for _, p := range phisOf(b) {
				if p.Comment == "rangeindex" {
					if sl := rangeSlice(p); sl != nil {
						if w, ok := get(sl); ok {
							return w, true
						}
					}
				}
			}
		}
		// range loops: the index variable is the hidden counter (+1 for rangeindex)
		for _, p := range phisOf(b) {
			if p.Comment == "rangeindex" || p.Comment == "rangeint.iter" {
				if key := rangeVar(fr.fn, b, p); key == n || n == "rangepos" {
					if w, ok := get(p); ok {
						if p.Comment == "rangeindex" {
							return Val{T: w.T, C: []*Term{x.iadd(w.C[0], x.iconst(1))}}, true
						}
						return w, true
					}
				}
			}
		}
		first = false
	}
	for _, p := range fr.fn.Params {
		if p.Name() == n {
			return fr.env[p], true
		}
	}
	for i, f := range fr.fn.FreeVars {
		if f.Name() == n {
			w := fr.free[i]
			if _, ok := f.Type().(*types.Pointer); ok {
				a := x.derefAddr(w)
				return x.loadAny(st, a, a.elem), true
			}
			return w, true
		}
	}
	return Val{}, false
}

// rangeSlice finds the value a range loop goes over.
func rangeSlice(p *ssa.Phi) ssa.Value {
	for _, r := range *p.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			continue
		}
		for _, q := range *b.Referrers() {
			c, ok := q.(*ssa.BinOp)
			if !ok || c.Op != token.LSS || c.X != b {
				continue
			}
			if l, ok := c.Y.(*ssa.Call); ok {
				if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return l.Call.Args[0]
				}
			}
		}
	}
	return nil
}

// rangeVar finds the source name bound to the counter of a range loop.
func rangeVar(fn *ssa.Function, h *ssa.BasicBlock, p *ssa.Phi) string {
	var cands []ssa.Value
	cands = append(cands, p)
	for _, r := range *p.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && b.Op == token.ADD {
			cands = append(cands, b)
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.DebugRef); ok && !d.IsAddr {
				for _, c := range cands {
					if d.X == c && d.Object() != nil {
						return d.Object().Name()
					}
				}
			}
		}
	}
	return ""
}

// applySoft applies a lemma where its arguments have a meaning, and does nothing elsewhere.
func (x *Exec) applySoft(v *SEnv, c Clause, g *Term) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			if _, ok := r.(specErr); !ok {
				panic(r)
			}
		}
	}()
	x.applyClause(v, c, g)
	return true
}

// applyClause assumes a lemma instance.
func (x *Exec) applyClause(v *SEnv, c Clause, g *Term) {
	e := c.E
	cond := x.True()
	for e.Op == "bin" && e.S == "==>" {
		cond = x.And(cond, v.evalBool(e.Args[0]))
		e = e.Args[1]
	}
	if e.Op == "forall" {
		n := *v
		n.inApply = true
		x.assume(x.And(g, cond), n.evalBool(e))
		return
	}
	if e.Op != "call" || e.Args[0].Op != "id" {
		sfail("apply: expected lemma(args): %s", c.Text)
	}
	lm := x.prog.specs.Lemmas[e.Args[0].S]
	if lm == nil {
		sfail("apply: unknown lemma %s", e.Args[0].S)
	}
	x.usedLemmas[lm.Name] = true
	t := x.lemmaInst(lm, v, e.Args[1:])
	x.assume(x.And(g, cond), t)
}

func (x *Exec) lemmaInst(lm *Lemma, v *SEnv, args []*E) *Term {
	if len(args) != len(lm.Params) {
		sfail("lemma %s: wrong number of arguments", lm.Name)
	}
	n := &SEnv{x: x, st: v.st, old: v.old, guard: v.guard, bound: map[string]Val{}, depth: v.depth, pkg: v.pkg}
	if lp := x.prog.pkgByName[lm.Pkg]; lp != nil {
		n.pkg = lp
	}
	for i, p := range lm.Params {
		a := v.eval(args[i])
		s := x.sortOf(p.Type)
		d := Val{C: []*Term{x.zeroLeafSort(s)}}
		if len(a.C) == 1 && a.C[0].Sort != s {
			v.unify(&a, &d)
		}
		if len(a.C) != 1 || a.C[0].Sort != s {
			sfail("lemma %s: argument %d has the wrong sort", lm.Name, i+1)
		}
		if a.T == nil {
			if bt, ok := basicByName[p.Type]; ok && x.bv {
				a.T = bt
			}
		}
		n.bound[p.Name] = a
	}
	var rs, es []*Term
	rs = append(rs, x.lemmaRanges(lm, n)...)
	for _, c := range lm.Requires {
		rs = append(rs, x.clauseTerm(n, c))
	}
	for _, c := range lm.Ensures {
		es = append(es, x.clauseTerm(n, c))
	}
	return x.Implies(x.And(rs...), x.And(es...))
}

// lemmaForall is the quantified statement of a lemma.
func (x *Exec) lemmaForall(lm *Lemma) *Term {
	n := &SEnv{x: x, bound: map[string]Val{}, pkg: x.prog.pkgByName[lm.Pkg]}
	var vars []*Term
	for _, p := range lm.Params {
		n.depth++
		b := x.BoundVar(p.Name, x.sortOf(p.Type), n.depth)
		vars = append(vars, b)
		bv := Val{C: []*Term{b}, Raw: true}
		if bt, ok := basicByName[p.Type]; ok && x.bv {
			bv.T = bt
		}
		n.bound[p.Name] = bv
	}
	var rs, es []*Term
	rs = append(rs, x.lemmaRanges(lm, n)...)
	for _, c := range lm.Requires {
		rs = append(rs, x.clauseTerm(n, c))
	}
	for _, c := range lm.Ensures {
		es = append(es, x.clauseTerm(n, c))
	}
	var pats [][]*Term
	for _, tr := range lm.Trigs {
		var ts []*Term
		for _, e := range tr {
			ts = append(ts, n.eval(e).C[0])
		}
		pats = append(pats, ts)
	}
	return x.Quant(true, vars, x.Implies(x.And(rs...), x.And(es...)), pats)
}

// allocOf finds the memory cell of a source variable, if it has one.
func allocOf(fn *ssa.Function, o types.Object) *ssa.Alloc {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if a, ok := i.(*ssa.Alloc); ok && a.Comment == o.Name() && a.Pos() == o.Pos() {
				return a
			}
		}
	}
	return nil
}

// lemmaRanges: a lemma proved over bit-vectors holds, over the integers, of values in range only.
func (x *Exec) lemmaRanges(lm *Lemma, n *SEnv) (rs []*Term) {
	if x.bv && !lm.Axiom && !lm.BV {
		sfail("lemma %s is proved over the integers and cannot be used in bit-vector mode", lm.Name)
	}
	if x.bv || !lm.BV {
		return nil
	}
	for _, p := range lm.Params {
		ty := p.Type
		if ty == "int" || ty == "" {
			ty = "int64"
		}
		if bt, ok := basicByName[ty]; ok {
			if w, s, ok := intInfo(bt); ok {
				lo, hi := intRange(w, s)
				v := n.bound[p.Name].C[0]
				rs = append(rs, x.app("<=", SBool, x.IntB(lo), v), x.app("<=", SBool, v, x.IntB(hi)))
			}
		}
	}
	return rs
}
