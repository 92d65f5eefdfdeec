package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// funcKey names a function the way contract files do.
func funcKey(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if o, ok := fn.Object().(*types.Func); ok {
		return objKey(o)
	}
	return fn.String()
}
func objKey(o *types.Func) string {
	sg := o.Type().(*types.Signature)
	pk := shortPkg(o.Pkg())
	if sg.Recv() != nil {
		if n := namedOf(sg.Recv().Type()); n != nil {
			return pk + "." + n.Obj().Name() + "." + o.Name()
		}
	}
	return pk + "." + o.Name()
}

func (x *Exec) call(fr *Frame, ci *ssa.Call, g *Term, st *State, where string) (Val, *Term) {
	c := &ci.Call
	rt := fr.typ(ci.Type())
	wrap := func(rs []Val, g2 *Term) (Val, *Term) {
		tp, isT := rt.(*types.Tuple)
		if !isT {
			r := rs[0]
			return r, g2
		}
		if tp.Len() == 0 {
			return Val{T: rt}, g2
		}
		return Val{T: rt, Tup: rs}, g2
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, c, rt, g, st, where), g
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a, st))
	}
	fr.curBlk = ci.Block()
	if c.IsInvoke() {
		recv := x.val(fr, c.Value, st)
		it := fr.typ(c.Value.Type())
		if recv.Dyn != nil && !hasTypeParam(recv.Dyn.T) {
			if fn := x.prog.prog.LookupMethod(recv.Dyn.T, c.Method.Pkg(), c.Method.Name()); fn != nil {
				rs, g2 := x.callFn(fr, fn, append([]Val{*recv.Dyn}, args...), nil, fr.subst, st, g, where)
				return wrap(rs, g2)
			}
		}
		key := ""
		if n := namedOf(it); n != nil {
			key = shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + c.Method.Name()
		} else if tp, ok := types.Unalias(it).(*types.TypeParam); ok {
			if n := namedOf(tp.Constraint()); n != nil {
				key = shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + c.Method.Name()
			}
		}
		con := x.prog.specs.Contracts[key]
		sg := c.Method.Type().(*types.Signature)
		if con == nil {
			if key == ".error.Error" {
				return x.freshVal("errtext", rt, st), g
			}
			if rs, g2, ok := x.devirtualize(fr, recv, it, c.Method, args, st, g, where); ok {
				return wrap(rs, g2)
			}
			panic(unsupported("interface method " + key + " without contract"))
		}
		x.safety("nil", where, "nil interface", st, g, x.Not(x.Eq(recv.C[0], x.zeroSort(recv.C[0].Sort, Leaf{}))))
		x.usedContracts[key] = true
		if con.PureUF {
			x.trusted["interface method "+key+" treated as a pure function: "+con.Why] = true
			return wrap(x.ufCall("im_"+typeKey(it)+"."+c.Method.Name(), recv.C[0], args, substType(sg, fr.subst).(*types.Signature), st), g)
		}
		var names []string
		names = append(names, "self")
		for i := 0; i < sg.Params().Len(); i++ {
			names = append(names, sg.Params().At(i).Name())
		}
		rs := x.applyContract(con, names, append([]Val{recv}, args...), sg, c.Method.Pkg(), fr.subst, st, g, where)
		return wrap(rs, g)
	}
	if fn := c.StaticCallee(); fn != nil {
		var free []Val
		sub := fr.subst
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cv := x.val(fr, mc, st)
			free = cv.Clo.bind
			sub = cv.Clo.subst
		}
		rs, g2 := x.callFn(fr, fn, args, free, sub, st, g, where)
		return wrap(rs, g2)
	}
	fv := x.val(fr, c.Value, st)
	if fv.Yield {
		return x.ghostYield(args, st, g, where), g
	}
	if _, ok := iterElems(fv.T); ok && fv.Clo == nil && len(args) == 1 && args[0].Clo != nil {
		return Val{T: rt}, x.rangeFunc(fr, ci, fv, args[0], st, g, where)
	}
	if fv.Clo != nil {
		rs, g2 := x.callFn(fr, fv.Clo.fn, args, fv.Clo.bind, fv.Clo.subst, st, g, where)
		return wrap(rs, g2)
	}
	if n, ok := types.Unalias(fv.T).(*types.Named); ok {
		key := shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + ".$call"
		if con := x.prog.specs.Contracts[key]; con != nil {
			x.safety("nil", where, "nil function", st, g, x.Not(x.Eq(fv.C[0], x.zeroSort(fv.C[0].Sort, Leaf{}))))
			x.usedContracts[key] = true
			x.trusted["values of function type "+typeKey(fv.T)+" are those built in the module"] = true
			sg := fr.typ(c.Value.Type()).Underlying().(*types.Signature)
			rs := x.applyContract(con, con.FnType, args, sg, n.Obj().Pkg(), fr.subst, st, g, where)
			return wrap(rs, g)
		}
	}
	x.nonNil(st, g, fv, where)
	for i := 0; i < len(args); i++ {
		if args[i].T != nil {
			if _, ok := args[i].T.Underlying().(*types.Pointer); ok && isTupleEmpty(rt) {
				panic(unsupported("call of an unknown function that may write through its argument"))
			}
		}
	}
	x.trusted["function values are pure (deterministic, no side effects)"] = true
	sg := fr.typ(c.Value.Type()).Underlying().(*types.Signature)
	return wrap(x.ufCall("fv_"+typeKey(fv.T.Underlying()), fv.C[0], args, sg, st), g)
}

func isTupleEmpty(t types.Type) bool {
	tp, ok := t.(*types.Tuple)
	return ok && tp.Len() == 0
}

func (x *Exec) callFn(fr *Frame, fn *ssa.Function, args []Val, free []Val, subst map[*types.TypeParam]types.Type, st *State, g *Term, where string) ([]Val, *Term) {
	sub := subst
	if o := fn.Origin(); o != nil && o != fn {
		sub = map[*types.TypeParam]types.Type{}
		tps := o.TypeParams()
		for i := 0; i < len(fn.TypeArgs()); i++ {
			sub[tps.At(i)] = substType(fn.TypeArgs()[i], subst)
		}
		fn = o
	} else if len(free) == 0 && fn.Parent() == nil {
		// calling a generic method from inside its own generic type: parameters map by receiver
		if tps := fn.TypeParams(); tps != nil && tps.Len() > 0 {
			sub = map[*types.TypeParam]types.Type{}
			if len(args) > 0 && fn.Signature.Recv() != nil {
				if n := namedOf(args[0].T); n != nil && n.TypeArgs() != nil {
					for i := 0; i < tps.Len() && i < n.TypeArgs().Len(); i++ {
						sub[tps.At(i)] = n.TypeArgs().At(i)
					}
				}
			}
		} else {
			sub = nil
		}
	}
	key := funcKey(fn)
	if c := x.prog.specs.Contracts[key]; c != nil && !c.Inline {
		x.usedContracts[key] = true
		if c.PureUF {
			x.trusted[key+" treated as a pure uninterpreted function: "+c.Why] = true
			return x.ufCall("pf_"+key, x.Int(1), args, substType(fn.Signature, sub).(*types.Signature), st), g
		}
		var names []string
		if len(fn.Params) == len(args) && len(args) > 0 {
			for _, p := range fn.Params {
				names = append(names, p.Name())
			}
		} else {
			if r := fn.Signature.Recv(); r != nil {
				names = append(names, r.Name())
			}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				names = append(names, fn.Signature.Params().At(i).Name())
			}
		}
		var pk *types.Package
		if fn.Pkg != nil {
			pk = fn.Pkg.Pkg
		} else if fn.Object() != nil {
			pk = fn.Object().Pkg()
		}
		return x.applyContract(c, names, args, fn.Signature, pk, sub, st, g, where), g
	}
	if rs, ok := x.stdlib(key, fn, args, sub, st, g, where); ok {
		return rs, g
	}
	if len(fn.Blocks) == 0 || !x.prog.inScope(fn) {
		panic(unsupported("call to " + key + " (no contract)"))
	}
	x.inlined[key] = true
	return x.inline(fn, args, free, sub, st, g, fr)
}

func (x *Exec) inline(fn *ssa.Function, args, free []Val, sub map[*types.TypeParam]types.Type, st *State, g *Term, parent *Frame) ([]Val, *Term) {
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 24 {
		panic(unsupported("inlining too deep (recursion without contract?) at " + funcKey(fn)))
	}
	for f := parent; f != nil; f = f.parent {
		if f.fn == fn && fn.Parent() == nil {
			panic(unsupported("recursive call without contract: " + funcKey(fn)))
		}
	}
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, subst: sub, free: free}
	if parent != nil {
		nf.callBlk = parent.curBlk
	}
	if c := x.prog.specs.Contracts[funcKey(fn)]; c != nil && c.Inline {
		nf.spec = c
		x.usedContracts[funcKey(fn)] = true
	}
	for i, p := range fn.Params {
		a := args[i]
		a.T = substType(p.Type(), sub)
		nf.env[p] = a
	}
	x.runFunc(nf, st, g)
	if len(nf.rets) == 0 {
		// never returns
		var out []Val
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			out = append(out, x.freshVal("noret", substType(rs.At(i).Type(), sub), st))
		}
		return out, x.False()
	}
	es := make([]edge, len(nf.rets))
	for i, r := range nf.rets {
		es[i] = edge{guard: r.guard, st: r.st}
	}
	g2, ns := x.mergeStates(es)
	*st = *ns
	n := len(nf.rets[0].vals)
	var out []Val
	for k := 0; k < n; k++ {
		v := nf.rets[len(nf.rets)-1].vals[k]
		for i := len(nf.rets) - 2; i >= 0; i-- {
			v = x.mergeVal(nf.rets[i].guard, nf.rets[i].vals[k], v)
		}
		out = append(out, v)
	}
	if len(nf.loops.byHeader) == 0 && !nf.lost {
		g2 = g
	}
	return out, g2
}

func (x *Exec) applyContract(c *Contract, names []string, args []Val, sg *types.Signature, pk *types.Package, sub map[*types.TypeParam]types.Type, st *State, g *Term, where string) []Val {
	if len(c.Instances) > 0 {
		for _, t := range sub {
			ok := false
			for _, n := range c.Instances {
				ok = ok || t.String() == n
			}
			if !ok {
				panic(unsupported("generic contract used at an instance it is not verified for: " + t.String()))
			}
		}
	}
	ev := &SEnv{x: x, st: st, old: st, guard: g, bound: map[string]Val{}, lets: c.Lets, pkg: pk, subst: sub}
	lk := map[string]Val{}
	for i, n := range names {
		if i < len(args) {
			a := args[i]
			if a.T == nil {
				if sg.Recv() != nil && i == 0 {
					a.T = substType(sg.Recv().Type(), sub)
				}
			}
			lk[n] = a
		}
	}
	ev.lookup = func(n string) (Val, bool) { v, ok := lk[n]; return v, ok }
	ev.oldLk = ev.lookup
	for i, r := range c.Requires {
		x.oblige("precondition", fmt.Sprintf("pre-%s-%d", c.Key, i+1), where, r.Text, g, x.clauseTerm(ev, r))
	}
	old := st.clone()
	if c.Mode != "" && (c.Mode == "bv") != x.bv {
		x.trusted["contract of "+c.Key+" (verified in "+modeName(c.Mode == "bv")+" mode) used in "+modeName(x.bv)+" mode"] = true
	}
	// frame
	var tg []modTarget
	for _, m := range c.Modifies {
		tg = append(tg, ev.targets(m)...)
	}
	nt := x.Sym("top", SInt)
	x.always(x.Le(st.top, nt))
	if c.ModAll {
		x.modEverything(st, g, where)
		x.havocAll(st, "")
	}
	byKey := map[string][]modTarget{}
	var order []string
	for _, m := range tg {
		if m.wild {
			ok := x.modAll || x.muted > 0
			for _, w := range x.modset {
				if w.wild && strings.HasPrefix(m.key, w.key) {
					ok = true
				}
			}
			if !ok {
				x.oblige("frame", "frame", where, "the callee may modify every "+m.key, g, x.False())
			}
			if x.writes != nil {
				for k := range x.keySort {
					if strings.HasPrefix(k, m.key) {
						*x.writes = append(*x.writes, write{key: k, ref: x.Sym("anyref", SInt)})
					}
				}
			}
			x.havocAll(st, m.key)
			continue
		}
		if byKey[m.key] == nil {
			order = append(order, m.key)
		}
		byKey[m.key] = append(byKey[m.key], m)
	}
	sort.Strings(order)
	for _, k := range order {
		srt, ok := x.keySort[k]
		if !ok {
			panic(unsupported("unknown heap key " + k))
		}
		for _, m := range byKey[k] {
			if m.any {
				if m.ref == nil && strings.HasPrefix(k, "G:") {
					x.checkWrite(st, g, k, nil, nil, where)
				} else {
					x.checkWrite(st, g, k, x.Sym("anyref", SInt), nil, where)
				}
				st.heap[k] = x.freshKey(k, srt)
				continue
			}
			_, vs := srt.arrParts()
			h := x.hget(st, k, srt)
			x.checkWriteRange(st, g, k, m.ref, m.lo, m.hi, where)
			f := x.Sym("hv_"+k, vs)
			if m.lo != nil && vs.isArr() {
				_, es := vs.arrParts()
				o := x.Select(h, m.ref)
				is := x.idxSort()
				b := x.BoundVar("i", is, 1)
				sel := x.app("select", es, f, b)
				var out *Term
				if is == SInt {
					out = x.Or(x.app("not", SBool, x.app("<=", SBool, m.lo, b)), x.app("<=", SBool, m.hi, b))
				} else {
					out = x.Or(x.BVcmp("bvslt", b, m.lo), x.BVcmp("bvsge", b, m.hi))
				}
				x.facts = append(x.facts, Fact{t: x.Quant(true, []*Term{b}, x.app("=>", SBool, out, x.app("=", SBool, sel, x.Select(o, b))), [][]*Term{{sel}})})
			}
			nh := x.Store(h, m.ref, f)
			if m.cond != nil {
				nh = x.Ite(m.cond, nh, h)
			}
			st.heap[k] = nh
		}
	}
	st.top = nt
	// results
	var rs []Val
	if c.Functional {
		rs = x.functional(c, args, sg, st)
	} else {
		for i := 0; i < sg.Results().Len(); i++ {
			r := x.freshVal("res_"+shortKey(c.Key), substType(sg.Results().At(i).Type(), sub), st)
			if _, ok := r.T.Underlying().(*types.Slice); ok && c.baseResult(i) {
				x.zeroOff(&r)
			}
			rs = append(rs, r)
		}
	}
	post := *ev
	post.st = st
	post.old = old
	post.lookup = resultLookup(lk, rs, sg)
	post.oldLk = ev.lookup
	x.cur = g
	cross := c.Mode != "" && (c.Mode == "bv") != x.bv || c.Mode == "" && x.bv
	for _, e := range c.Ensures {
		if cross {
			// a clause without a meaning in this mode is not used
			if t := x.softTerm(&post, e); t != nil {
				x.assumeIn(st, g, t)
			}
			continue
		}
		x.assumeIn(st, g, x.clauseTerm(&post, e))
	}
	if c.Trusted {
		x.trusted["contract of "+c.Key+" assumed: "+c.Why] = true
	}
	return rs
}

// functional applies a function whose results depend on its scalar arguments only.
func (x *Exec) functional(c *Contract, args []Val, sg *types.Signature, st *State) []Val {
	if len(c.Modifies) > 0 || c.ModAll || sg.Recv() != nil {
		sfail("%s: a functional contract needs a pure function", c.Key)
	}
	var ts []*Term
	for i := 0; i < sg.Params().Len(); i++ {
		switch sg.Params().At(i).Type().Underlying().(type) {
		case *types.Basic:
		default:
			sfail("%s: a functional contract needs scalar parameters", c.Key)
		}
		ts = append(ts, args[i].C...)
	}
	var rs []Val
	for i := 0; i < sg.Results().Len(); i++ {
		rt := sg.Results().At(i).Type()
		if _, ok := rt.Underlying().(*types.Basic); !ok {
			sfail("%s: a functional contract needs scalar results", c.Key)
		}
		r := Val{T: rt}
		for _, l := range x.leaves(rt) {
			t := x.App(fmt.Sprintf("fn_%s@%d%s", c.Key, i, l.path), l.sort, ts...)
			x.typeFact(t, l, st)
			r.C = append(r.C, t)
		}
		rs = append(rs, r)
	}
	return rs
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

func modeName(bv bool) string {
	if bv {
		return "bit-vector"
	}
	return "integer"
}

func resultLookup(lk map[string]Val, rs []Val, sg *types.Signature) func(string) (Val, bool) {
	return func(n string) (Val, bool) {
		if n == "result" && len(rs) > 0 {
			return rs[0], true
		}
		if strings.HasPrefix(n, "result") && len(n) == 7 {
			i := int(n[6] - '0')
			if i >= 0 && i < len(rs) {
				return rs[i], true
			}
		}
		for i := 0; i < sg.Results().Len(); i++ {
			if nm := sg.Results().At(i).Name(); nm == n && nm != "_" && nm != "" {
				return rs[i], true
			}
		}
		v, ok := lk[n]
		return v, ok
	}
}

// baseResult: the contract states that slice result i starts at its base.
func (c *Contract) baseResult(i int) bool {
	for _, e := range c.Ensures {
		t := strings.ReplaceAll(e.Text, " ", "")
		if t == fmt.Sprintf("off(result%d)==0", i) || i == 0 && t == "off(result)==0" {
			return true
		}
	}
	return false
}

func (x *Exec) modEverything(st *State, g *Term, where string) {
	if x.writes != nil {
		for k := range x.keySort {
			*x.writes = append(*x.writes, write{key: k, ref: x.Sym("anyref", SInt)})
		}
	}
	if !x.modAll && x.muted == 0 {
		x.oblige("frame", "frame", where, "callee may modify everything", g, x.False())
	}
}

func (x *Exec) checkWriteRange(st *State, g *Term, key string, ref, lo, hi *Term, where string) {
	if lo == nil {
		x.checkWrite(st, g, key, ref, nil, where)
		return
	}
	if x.writes != nil {
		*x.writes = append(*x.writes, write{key: key, ref: ref})
	}
	if x.modAll || x.muted > 0 || ref.salloc {
		return
	}
	ok := []*Term{x.Lt(x.entry.top, ref), x.ile(hi, lo)}
	for _, m := range x.modset {
		if m.key == key || (m.wild && strings.HasPrefix(key, m.key)) {
			if m.any {
				return
			}
			c := x.Eq(ref, m.ref)
			if m.lo != nil {
				c = x.And(c, x.Or(x.ile(hi, lo), x.And(x.ile(m.lo, lo), x.ile(hi, m.hi))))
			}
			ok = append(ok, c)
		}
	}
	x.oblige("frame", "frame", where, "writes "+key, g, x.Or(ok...))
}

// builtins -------------------------------------------------------------------
func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, rt types.Type, g *Term, st *State, where string) Val {
	var a []Val
	for _, v := range c.Args {
		w := x.val(fr, v, st)
		if w.T == nil {
			w.T = fr.typ(v.Type())
		}
		a = append(a, w)
	}
	switch b.Name() {
	case "len", "cap":
		switch u := a[0].T.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return Val{T: rt, C: []*Term{a[0].C[3]}}
			}
			return Val{T: rt, C: []*Term{a[0].C[2]}}
		case *types.Map:
			return Val{T: rt, C: []*Term{x.mapLen(st, u, a[0].C[0])}}
		case *types.Array:
			return Val{T: rt, C: []*Term{x.iconst(u.Len())}}
		case *types.Pointer:
			return Val{T: rt, C: []*Term{x.iconst(u.Elem().Underlying().(*types.Array).Len())}}
		}
		if isStringT(a[0].T) {
			return Val{T: rt, C: []*Term{x.strLen(a[0].C[0])}}
		}
	case "append":
		return x.appendOp(st, g, a[0], a[1], rt, where)
	case "copy":
		return x.copyOp(st, g, a[0], a[1], rt, where)
	case "min", "max":
		r := a[0]
		for _, w := range a[1:] {
			p, q := r.C[0], w.C[0]
			var c *Term
			if _, isF := isFloat(rt); isF {
				n := "f" + b.Name() + "_" + string(p.Sort)
				t := x.App(n, p.Sort, p, q)
				le := x.app("<=", SBool, x.fval(p), x.fval(q))
				mn, mx := x.fval(p), x.fval(q)
				if b.Name() == "max" {
					mn, mx = mx, mn
				}
				ok := x.And(x.Not(x.fnan(p)), x.Not(x.fnan(q)))
				x.always(x.Eq(x.fnan(t), x.Not(ok)))
				x.always(x.Implies(ok, x.app("=", SBool, x.fval(t), x.app("ite", SReal, le, mn, mx))))
				r = Val{T: rt, C: []*Term{t}}
				continue
			}
			_, sg, isI := intInfo(rt)
			if !isI {
				if x.prog == nil {
					panic("")
				}
				lt := x.binop(token.LSS, a[0], w, types.Typ[types.Bool], st, g, where).C[0] // token.LSS
				c = lt
			} else if p.Sort.isBV() {
				if sg {
					c = x.BVcmp("bvsle", p, q)
				} else {
					c = x.BVcmp("bvule", p, q)
				}
			} else {
				c = x.Le(p, q)
			}
			if b.Name() == "min" {
				r = Val{T: rt, C: []*Term{x.Ite(c, p, q)}}
			} else {
				r = Val{T: rt, C: []*Term{x.Ite(c, q, p)}}
			}
		}
		return r
	case "clear":
		switch u := a[0].T.Underlying().(type) {
		case *types.Slice:
			arrs := x.elemArrs(st, a[0])
			for i, l := range x.leaves(u.Elem()) {
				arrs[i] = x.fillRange(arrs[i], a[0].C[1], a[0].C[2], x.zeroLeaf(l))
			}
			x.setElemArrs(st, g, a[0], arrs, where)
			return Val{T: rt}
		case *types.Map:
			k, ks := x.mapKeys(u)
			h := x.hget(st, k+".dom", SArr(SInt, SArr(ks, SBool)))
			x.checkWrite(st, g, k+".dom", a[0].C[0], nil, where)
			st.heap[k+".dom"] = x.Store(h, a[0].C[0], x.ConstArr(SArr(ks, SBool), x.False()))
			n := x.hget(st, k+".n", SArr(SInt, SInt))
			x.checkWrite(st, g, k+".n", a[0].C[0], nil, where)
			st.heap[k+".n"] = x.Store(n, a[0].C[0], x.Int(0))
			return Val{T: rt}
		}
	case "delete":
		u := a[0].T.Underlying().(*types.Map)
		k, ks := x.mapKeys(u)
		h := x.hget(st, k+".dom", SArr(SInt, SArr(ks, SBool)))
		x.checkWrite(st, g, k+".dom", a[0].C[0], nil, where)
		old := x.Select(h, a[0].C[0])
		n := x.hget(st, k+".n", SArr(SInt, SInt))
		x.checkWrite(st, g, k+".n", a[0].C[0], nil, where)
		st.heap[k+".n"] = x.Store(n, a[0].C[0], x.Ite(x.Select(old, a[1].C[0]), x.Sub(x.Select(n, a[0].C[0]), x.Int(1)), x.Select(n, a[0].C[0])))
		st.heap[k+".dom"] = x.Store(h, a[0].C[0], x.Store(old, a[1].C[0], x.False()))
		return Val{T: rt}
	case "ssa:wrapnilchk":
		x.nonNil(st, g, a[0], where)
		return a[0]
	case "print", "println":
		return Val{T: rt}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) mapLen(st *State, mt *types.Map, ref *Term) *Term {
	k, _ := x.mapKeys(mt)
	c := x.hget(st, k+".n", SArr(SInt, SInt))
	t := x.Select(c, ref)
	x.typeFact(t, Leaf{"", SInt, types.Typ[types.Int], 'n'}, st)
	return x.Ite(x.Eq(ref, x.Int(0)), x.Int(0), t)
}

// fillRange: array equal to a outside [off, off+n) and v inside.
func (x *Exec) fillRange(a, off, n, v *Term) *Term {
	f := x.Sym("fill", a.Sort)
	_, es := a.Sort.arrParts()
	b := x.BoundVar("i", x.idxSort(), 1)
	sel := x.app("select", es, f, b)
	in := x.And(x.ileQ(off, b), x.iltQ(b, x.iadd(off, n)))
	x.facts = append(x.facts, Fact{t: x.Quant(true, []*Term{b}, x.app("=", SBool, sel, x.app("ite", es, in, v, x.Select(a, b))), [][]*Term{{sel}})})
	return f
}
func (x *Exec) ileQ(a, b *Term) *Term {
	if a.Sort == SInt {
		return x.app("<=", SBool, a, b)
	}
	return x.app("bvsle", SBool, a, b)
}
func (x *Exec) iltQ(a, b *Term) *Term {
	if a.Sort == SInt {
		return x.app("<", SBool, a, b)
	}
	return x.app("bvslt", SBool, a, b)
}

// copyRange: array equal to a outside [off, off+n), and to s[soff..] inside.
func (x *Exec) copyRange(a, off, n, s, soff *Term) *Term {
	if n.num != nil && n.num.Cmp(big.NewInt(16)) <= 0 {
		var vs []*Term
		k := int(n.num.Int64())
		for i := 0; i < k; i++ {
			vs = append(vs, x.Select(s, x.iadd(soff, x.iconst(int64(i)))))
		}
		for i := 0; i < k; i++ {
			a = x.Store(a, x.iadd(off, x.iconst(int64(i))), vs[i])
		}
		return a
	}
	f := x.Sym("copy", a.Sort)
	_, es := a.Sort.arrParts()
	b := x.BoundVar("i", x.idxSort(), 1)
	sel := x.app("select", es, f, b)
	in := x.And(x.ileQ(off, b), x.iltQ(b, x.iadd(off, n)))
	src := x.Select(s, x.iadd(soff, x.isub(b, off)))
	x.facts = append(x.facts, Fact{t: x.Quant(true, []*Term{b}, x.app("=", SBool, sel, x.app("ite", es, in, src, x.Select(a, b))), [][]*Term{{sel}})})
	return f
}

func (x *Exec) srcArrs(st *State, v Val) (arrs []*Term, off, n *Term) {
	if isStringT(v.T) {
		return []*Term{x.App("str.bytes_uint8", SArr(SInt, SInt), v.C[0])}, x.Int(0), x.strLen(v.C[0])
	}
	return x.elemArrs(st, v), v.C[1], v.C[2]
}

func (x *Exec) copyOp(st *State, g *Term, dst, src Val, rt types.Type, where string) Val {
	sa, so, sn := x.srcArrs(st, src)
	n := x.Ite(x.ile(dst.C[2], sn), dst.C[2], sn)
	if h, l := x.hiOf(dst.C[2], st), x.loOf(sn, st); h != nil && l != nil && h.Cmp(l) <= 0 {
		n = dst.C[2]
	}
	da := x.elemArrs(st, dst)
	for i := range da {
		da[i] = x.copyRange(da[i], dst.C[1], n, sa[i], so)
	}
	et := dst.T.Underlying().(*types.Slice).Elem()
	for i, l := range x.leaves(et) {
		key := "[]" + typeKey(et) + l.path
		h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l.sort)))
		x.checkWriteRange(st, g, key, dst.C[0], dst.C[1], x.iadd(dst.C[1], n), where)
		st.heap[key] = x.Store(h, dst.C[0], da[i])
	}
	return Val{T: rt, C: []*Term{n}}
}
func (x *Exec) hiOf(t *Term, st *State) *big.Int {
	if t.Sort != SInt {
		return nil
	}
	return x.hi(t, st)
}
func (x *Exec) loOf(t *Term, st *State) *big.Int {
	if t.Sort != SInt {
		return nil
	}
	return x.lo(t, st)
}

func (x *Exec) appendOp(st *State, g *Term, s, t Val, rt types.Type, where string) Val {
	ta, to, tn := x.srcArrs(st, t)
	if tn.num != nil && tn.num.Sign() == 0 {
		s.T = rt
		return s
	}
	ref, off, ln, cp := s.C[0], s.C[1], s.C[2], s.C[3]
	et := rt.Underlying().(*types.Slice).Elem()
	nl := x.iadd(ln, tn)
	fits := x.ile(nl, cp)
	nr := x.Sym("new_append", SInt)
	nr.salloc = true
	nr.lo = big1
	x.always(x.app("<=", SBool, x.Int(1), nr))
	x.always(x.app("<", SBool, st.top, nr))
	st.top = nr
	nc := x.Sym("newcap", x.idxSort())
	x.typeFact(nc, Leaf{"#cap", x.idxSort(), types.Typ[types.Int], 'n'}, st)
	// the runtime may not grow past the modelled limit
	x.assume(x.And(g, x.Not(fits)), x.ile(nl, nc))
	x.assume(g, x.ile(nl, x.bigIdx()))
	x.learn(st, x.ile(nl, x.bigIdx()))
	res := x.Ite(fits, ref, nr)
	ncap := x.Ite(fits, cp, nc)
	noff := off
	off0 := off.num != nil && off.num.Sign() == 0
	if !off0 {
		noff = x.Ite(fits, off, x.iconst(0))
	}
	for i, l := range x.leaves(et) {
		key := "[]" + typeKey(et) + l.path
		h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l.sort)))
		var base *Term
		if off0 {
			base = x.Select(h, ref)
		} else {
			o := x.Select(h, ref)
			f := x.Sym("grow", o.Sort)
			b := x.BoundVar("i", x.idxSort(), 1)
			sel := x.app("select", l.sort, f, b)
			x.facts = append(x.facts, Fact{t: x.Implies(x.Not(fits), x.Quant(true, []*Term{b}, x.app("=>", SBool, x.And(x.ileQ(x.iconst(0), b), x.iltQ(b, ln)), x.app("=", SBool, sel, x.Select(o, x.iadd(off, b)))), [][]*Term{{sel}}))})
			base = x.Ite(fits, o, f)
		}
		na := x.copyRange(base, x.iadd(noff, ln), tn, ta[i], to)
		x.checkWriteRange(st, x.And(g, fits), key, ref, x.iadd(off, ln), x.iadd(off, nl), where)
		if x.writes != nil {
			*x.writes = append(*x.writes, write{key: key, ref: nr})
		}
		st.heap[key] = x.Store(h, res, na)
		if x.sumFacts() && na.Sort == SArr(SInt, SInt) && ta[i].Sort == na.Sort {
			// the sum of the extended slice
			add := x.App("F_sum", SInt, ta[i], to, x.iadd(to, tn))
			if tn.num != nil && tn.num.Cmp(big1) == 0 {
				add = x.Select(ta[i], to)
			}
			x.facts = append(x.facts, Fact{t: x.Eq(x.App("F_sum", SInt, na, noff, x.iadd(noff, nl)), x.Add(x.App("F_sum", SInt, x.Select(h, ref), off, x.iadd(off, ln)), add))})
		}
	}
	return Val{T: rt, C: []*Term{res, noff, nl, ncap}}
}

// sumFacts says whether append and sort state what becomes of the sum of the elements
func (x *Exec) sumFacts() bool {
	_, ok := x.prog.specs.Funcs["sum"]
	return ok && !x.bv && x.spec != nil && x.spec.SumFacts
}

// growOp models slices.Grow: same contents, same length, room for n more.
func (x *Exec) growOp(st *State, g *Term, s Val, n *Term) Val {
	et := s.T.Underlying().(*types.Slice).Elem()
	fits := x.ile(x.iadd(s.C[2], n), s.C[3])
	nr := x.alloc(st, "grow")
	nc := x.Sym("newcap", x.idxSort())
	x.typeFact(nc, Leaf{"#cap", x.idxSort(), types.Typ[types.Int], 'n'}, st)
	x.assume(x.And(g, x.Not(fits)), x.ile(x.iadd(s.C[2], n), nc))
	noff := s.C[1]
	if !(noff.num != nil && noff.num.Sign() == 0) {
		noff = x.Ite(fits, s.C[1], x.iconst(0))
	}
	arrs := x.elemArrs(st, s)
	for i, l := range x.leaves(et) {
		key := "[]" + typeKey(et) + l.path
		as := SArr(x.idxSort(), l.sort)
		h := x.hget(st, key, SArr(SInt, as))
		base := x.ConstArr(as, x.zeroLeaf(l))
		st.heap[key] = x.Store(h, nr, x.copyRange(base, x.iconst(0), s.C[2], arrs[i], s.C[1]))
	}
	return Val{T: s.T, C: []*Term{x.Ite(fits, s.C[0], nr), noff, s.C[2], x.Ite(fits, s.C[3], nc)}}
}

// sortOp models in-place sorting: a permutation, given by a fresh bijection, which is
// ordered when the elements are integers compared by <.
func (x *Exec) sortOp(st *State, g *Term, s Val, natural bool, where string) {
	et := s.T.Underlying().(*types.Slice).Elem()
	off, hi := s.C[1], x.iadd(s.C[1], s.C[2])
	x.nsym++
	pn, qn := fmt.Sprintf("perm_%d", x.nsym), fmt.Sprintf("pinv_%d", x.nsym)
	old := x.elemArrs(st, s)
	var nas []*Term
	for i, l := range x.leaves(et) {
		key := "[]" + typeKey(et) + l.path
		h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l.sort)))
		na := x.Sym("sorted", old[i].Sort)
		nas = append(nas, na)
		x.checkWriteRange(st, g, key, s.C[0], off, hi, where)
		if x.writes != nil {
			*x.writes = append(*x.writes, write{key: key, ref: s.C[0]})
		}
		st.heap[key] = x.Store(h, s.C[0], na)
	}
	fact := func(vars []*Term, body *Term, pats ...*Term) {
		var pp [][]*Term
		for _, p := range pats {
			pp = append(pp, []*Term{p})
		}
		x.facts = append(x.facts, Fact{t: x.Quant(true, vars, body, pp)})
	}
	b := x.BoundVar("i", x.idxSort(), 1)
	in := func(t *Term) *Term { return x.And(x.ileQ(off, t), x.iltQ(t, hi)) }
	p, q := x.App(pn, SInt, b), x.App(qn, SInt, b)
	for i := range nas {
		_, es := nas[i].Sort.arrParts()
		ns, os := x.app("select", es, nas[i], b), x.Select(old[i], b)
		fact([]*Term{b}, x.Implies(in(b), x.And(in(p), x.Eq(ns, x.app("select", es, old[i], p)), x.Eq(x.App(qn, SInt, p), b))), ns)
		fact([]*Term{b}, x.Implies(in(b), x.And(in(q), x.Eq(x.App(pn, SInt, q), b), x.Eq(x.app("select", es, nas[i], q), os))), x.app("select", es, old[i], b))
		fact([]*Term{b}, x.Implies(x.Not(in(b)), x.Eq(ns, os)), ns)
	}
	// the number of occurrences of any value in any range around the sorted part is unchanged
	if _, ok := x.prog.specs.Funcs["occ"]; ok && !x.bv {
		for i := range nas {
			if nas[i].Sort != SArr(SInt, SInt) {
				continue
			}
			l, h, v := x.BoundVar("l", SInt, 3), x.BoundVar("h", SInt, 4), x.BoundVar("v", SInt, 5)
			on, oo := x.App("F_occ", SInt, nas[i], l, h, v), x.App("F_occ", SInt, old[i], l, h, v)
			fact([]*Term{l, h, v}, x.Implies(x.And(x.app("<=", SBool, l, off), x.app("<=", SBool, hi, h)), x.Eq(on, oo)), on)
		}
	}
	// and so is the sum of a field
	if x.sumFacts() {
		for i := range nas {
			if nas[i].Sort == SArr(SInt, SInt) {
				x.facts = append(x.facts, Fact{t: x.Eq(x.App("F_sum", SInt, nas[i], off, hi), x.App("F_sum", SInt, old[i], off, hi))})
			}
		}
	}
	if _, _, isI := intInfo(et); natural && isI {
		c := x.BoundVar("j", x.idxSort(), 2)
		sb, sc := x.app("select", SInt, nas[0], b), x.app("select", SInt, nas[0], c)
		x.facts = append(x.facts, Fact{t: x.Quant(true, []*Term{b, c}, x.Implies(x.And(x.ileQ(off, b), x.ileQ(b, c), x.iltQ(c, hi)), x.app("<=", SBool, sb, sc)), [][]*Term{{sb, sc}})})
	}
}

// standard library models ------------------------------------------------------
func (x *Exec) freshErr(name string) Val {
	t := x.Sym(name, SInt)
	t.lo = big1
	x.always(x.app("<=", SBool, x.Int(1), t))
	return Val{T: types.Universe.Lookup("error").Type(), C: []*Term{t}}
}

func (x *Exec) stdlib(key string, fn *ssa.Function, args []Val, sub map[*types.TypeParam]types.Type, st *State, g *Term, where string) ([]Val, bool) {
	rt := func(i int) types.Type { return substType(fn.Signature.Results().At(i).Type(), sub) }
	one := func(t *Term) ([]Val, bool) { return []Val{{T: rt(0), C: []*Term{t}}}, true }
	switch key {
	case "internal.IsNil":
		x.trusted["internal.IsNil (reflection): a value of a basic type is not nil, a pointer, slice, map or function is nil when it equals nil"] = true
		switch args[0].T.Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
			return one(x.False())
		case *types.Pointer, *types.Slice, *types.Map, *types.Signature:
			return one(x.Eq(args[0].C[0], x.zeroSort(args[0].C[0].Sort, Leaf{})))
		}
		return one(x.App("isnil_"+typeKey(args[0].T), SBool, args[0].C[0]))
	case "errors.New", "fmt.Errorf", "errors.Join":
		return []Val{x.freshErr("err")}, true
	case "fmt.Sprintf", "fmt.Sprint":
		return []Val{x.freshVal("text", rt(0), st)}, true
	case "math.Float64bits", "math.Float32bits":
		s := SF64
		w := 64
		if key == "math.Float32bits" {
			s, w = SF32, 32
		}
		x.useSort(s)
		t := x.App("f2b_"+string(s), x.isort(w), args[0].C[0])
		x.typeFact(t, Leaf{"", t.Sort, rt(0), 'i'}, st)
		x.always(x.Eq(x.App("b2f_"+string(s), s, t), args[0].C[0]))
		return one(t)
	case "math.Float64frombits", "math.Float32frombits":
		s := SF64
		if key == "math.Float32frombits" {
			s = SF32
		}
		x.useSort(s)
		t := x.App("b2f_"+string(s), s, args[0].C[0])
		x.assume(g, x.Eq(x.App("f2b_"+string(s), args[0].C[0].Sort, t), args[0].C[0]))
		return one(t)
	case "math.IsNaN":
		return one(x.fnan(args[0].C[0]))
	case "math.IsInf":
		t := args[0].C[0]
		p := x.finf(t)
		sgn := args[1].C[0]
		if sgn.num != nil && sgn.num.Sign() == 0 {
			return one(p)
		}
		pos := x.app("<", SBool, x.ratTerm(new(big.Rat)), x.fval(t))
		if sgn.num != nil && sgn.num.Sign() > 0 {
			return one(x.And(p, pos))
		}
		if sgn.num != nil {
			return one(x.And(p, x.Not(pos)))
		}
		return one(x.App("isinf2", SBool, t, sgn))
	case "math.NaN":
		x.useSort(SF64)
		t := x.Const("f64_nan", SF64)
		x.always(x.fnan(t))
		return one(t)
	case "math.Inf":
		x.useSort(SF64)
		t := x.App("f64_inf", SF64, args[0].C[0])
		x.always(x.Not(x.fnan(t)))
		x.always(x.finf(t))
		if n := args[0].C[0].num; n != nil {
			z := x.ratTerm(new(big.Rat))
			if n.Sign() >= 0 {
				x.always(x.app("<", SBool, z, x.fval(t)))
			} else {
				x.always(x.app("<", SBool, x.fval(t), z))
			}
		}
		return one(t)
	case "math.Abs":
		t := args[0].C[0]
		r := x.App("fabs", SF64, t)
		z := x.ratTerm(new(big.Rat))
		x.always(x.Eq(x.fnan(r), x.fnan(t)))
		x.always(x.app("=", SBool, x.fval(r), x.app("ite", SReal, x.app("<", SBool, x.fval(t), z), x.app("-", SReal, x.fval(t)), x.fval(t))))
		return one(r)
	case "math.Min", "math.Max":
		p, q := args[0].C[0], args[1].C[0]
		n := strings.ToLower(key[5:])
		t := x.App("f"+n+"_"+string(p.Sort), p.Sort, p, q)
		le := x.app("<=", SBool, x.fval(p), x.fval(q))
		mn, mx := x.fval(p), x.fval(q)
		if n == "max" {
			mn, mx = mx, mn
		}
		ok := x.And(x.Not(x.fnan(p)), x.Not(x.fnan(q)))
		x.always(x.Implies(ok, x.And(x.Not(x.fnan(t)), x.app("=", SBool, x.fval(t), x.app("ite", SReal, le, mn, mx)))))
		return one(t)
	case "math.Ceil", "math.Floor":
		t := args[0].C[0]
		r := x.App(strings.ReplaceAll(key, ".", "_"), SF64, t)
		x.always(x.Eq(x.fnan(r), x.fnan(t)))
		one1 := x.ratTerm(new(big.Rat).SetInt64(1))
		ok := x.Not(x.fnan(t))
		if key == "math.Ceil" {
			x.always(x.Implies(ok, x.And(x.app("<=", SBool, x.fval(t), x.fval(r)), x.app("<", SBool, x.fval(r), x.app("+", SReal, x.fval(t), one1)))))
		} else {
			x.always(x.Implies(ok, x.And(x.app("<=", SBool, x.fval(r), x.fval(t)), x.app("<", SBool, x.fval(t), x.app("+", SReal, x.fval(r), one1)))))
		}
		x.always(x.Implies(ok, x.app("=", SBool, x.fval(r), x.app("to_real", SReal, x.App(strings.ReplaceAll(key, ".", "_")+"_int", SInt, t)))))
		return one(r)
	case "math.Round":
		t := args[0].C[0]
		r := x.App("math_Round", SF64, t)
		x.always(x.Eq(x.fnan(r), x.fnan(t)))
		half := x.ratTerm(big.NewRat(1, 2))
		ok := x.Not(x.fnan(t))
		x.always(x.Implies(ok, x.And(x.app("<=", SBool, x.app("-", SReal, x.fval(t), half), x.fval(r)), x.app("<=", SBool, x.fval(r), x.app("+", SReal, x.fval(t), half)), x.app("=", SBool, x.fval(r), x.app("to_real", SReal, x.App("math_Round_int", SInt, t))))))
		return one(r)
	case "math.Sqrt", "math.Log", "math.Log2", "math.Log10", "math.Pow", "math.Exp", "math.Trunc", "math.Log1p", "math.Exp2", "math.Float64", "math.Sin", "math.Cos", "math.Asin", "math.Tan", "math.Atan", "math.Mod", "math.Exp1m", "math.Expm1", "math.Nextafter", "math.Nextafter32":
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.C...)
		}
		fs, _ := isFloat(rt(0))
		x.useSort(fs)
		return one(x.App(strings.ReplaceAll(key, ".", "_"), fs, ts...))
	case "math/bits.LeadingZeros64", "math/bits.LeadingZeros32", "math/bits.TrailingZeros64", "math/bits.TrailingZeros32", "math/bits.Len64", "math/bits.Len32", "math/bits.OnesCount64", "math/bits.OnesCount32", "math/bits.OnesCount8", "math/bits.Len", "math/bits.TrailingZeros", "math/bits.LeadingZeros", "math/bits.OnesCount", "math/bits.TrailingZeros8", "math/bits.LeadingZeros8", "math/bits.OnesCount16", "math/bits.LeadingZeros16", "math/bits.TrailingZeros16", "math/bits.Len8", "math/bits.Len16":
		return one(x.bitsFn(key[len("math/bits."):], args[0].C[0]))
	case "math/bits.RotateLeft64", "math/bits.RotateLeft32":
		if x.bv && args[1].C[0].num != nil {
			w := args[0].C[0].Sort.bvWidth()
			k := new(big.Int).Mod(args[1].C[0].num, big.NewInt(int64(w))).Int64()
			t := args[0].C[0]
			return one(x.BVop("bvor", x.BVop("bvshl", t, x.BV(big.NewInt(k), w)), x.BVop("bvlshr", t, x.BV(big.NewInt(int64(w)-k), w))))
		}
	case "slices.Contains", "slices.Index":
	case "slices.Clone":
		nilS := x.zeroVal(args[0].T)
		return []Val{x.appendOp(st, g, nilS, args[0], args[0].T, where)}, true
	case "slices.Grow":
		if !x.bv {
			x.safety("panic", where, "slices.Grow with a negative count", st, g, x.Le(x.Int(0), args[1].C[0]))
			return []Val{x.growOp(st, g, args[0], args[1].C[0])}, true
		}
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		if !x.bv {
			x.sortOp(st, g, args[0], key == "slices.Sort", where)
			x.trusted["model of "+key+": the slice becomes a permutation of itself (ordered, for slices.Sort of integers)"] = true
			return nil, true
		}
	}
	if strings.HasPrefix(key, "encoding/binary.littleEndian.") || strings.HasPrefix(key, "encoding/binary.bigEndian.") {
		return x.endian(key, args, rt, st, g, where)
	}
	return nil, false
}

func (x *Exec) bitsFn(name string, t *Term) *Term {
	w := 64
	switch {
	case strings.HasSuffix(name, "32"):
		w = 32
	case strings.HasSuffix(name, "16"):
		w = 16
	case strings.HasSuffix(name, "s8"), strings.HasSuffix(name, "t8"), strings.HasSuffix(name, "n8"):
		w = 8
	}
	base := strings.TrimRight(name, "0123456789")
	if x.bv {
		b64 := func(v int) *Term { return x.BV(big.NewInt(int64(v)), 64) }
		bit := func(i int) *Term { return x.Eq(x.Extract(t, i, i), x.BV(big1, 1)) }
		switch base {
		case "LeadingZeros":
			r := b64(w)
			for i := 0; i < w; i++ {
				r = x.Ite(bit(i), b64(w-1-i), r)
			}
			return r
		case "TrailingZeros":
			r := b64(w)
			for i := w - 1; i >= 0; i-- {
				r = x.Ite(bit(i), b64(i), r)
			}
			return r
		case "Len":
			r := b64(0)
			for i := 0; i < w; i++ {
				r = x.Ite(bit(i), b64(i+1), r)
			}
			return r
		case "OnesCount":
			r := b64(0)
			for i := 0; i < w; i++ {
				r = x.BVop("bvadd", r, x.ZExt(x.Extract(t, i, i), 64))
			}
			return r
		}
	}
	r := x.App("bits_"+name, SInt, t)
	hi := big.NewInt(int64(w))
	if !r.free {
		r.lo, r.hi = big0, hi
		x.always(x.And(x.app("<=", SBool, x.Int(0), r), x.app("<=", SBool, r, x.IntB(hi))))
		switch base {
		case "OnesCount":
			x.always(x.app("=", SBool, x.Eq(t, x.Int(0)), x.Eq(r, x.Int(0))))
		case "LeadingZeros", "TrailingZeros":
			x.always(x.app("=", SBool, x.Eq(t, x.Int(0)), x.Eq(r, x.Int(int64(w)))))
			if base == "LeadingZeros" {
				x.always(x.Implies(x.Not(x.Eq(t, x.Int(0))), x.And(x.app("<=", SBool, x.pow2(x.Sub(x.Int(int64(w-1)), r)), t), x.app("<", SBool, t, x.Mul(x.Int(2), x.pow2(x.Sub(x.Int(int64(w-1)), r)))))))
			} else {
				x.always(x.Implies(x.Not(x.Eq(t, x.Int(0))), x.And(x.Eq(x.Mod(t, x.pow2(r)), x.Int(0)), x.Eq(x.Mod(x.Div(t, x.pow2(r)), x.Int(2)), x.Int(1)))))
				b := x.BoundVar("g", SInt, 1)
				pg := x.pow2(b)
				in := x.And(x.Le(x.Int(0), b), x.Lt(b, x.Int(int64(w))))
				x.always(x.Quant(true, []*Term{b}, x.Implies(in, x.And(x.Implies(x.Eq(t, pg), x.Eq(r, b)), x.Implies(x.And(x.Eq(t, x.Mul(x.Int(2), pg)), x.Lt(b, x.Int(int64(w-1)))), x.Eq(r, x.Add(b, x.Int(1)))))), [][]*Term{{pg}}))
			}
		case "Len":
			x.always(x.app("=", SBool, x.Eq(t, x.Int(0)), x.Eq(r, x.Int(0))))
			x.always(x.Implies(x.Not(x.Eq(t, x.Int(0))), x.And(x.app("<=", SBool, x.pow2(x.Sub(r, x.Int(1))), t), x.app("<", SBool, t, x.pow2(r)))))
		}
	}
	return r
}

func (x *Exec) endian(key string, args []Val, rt func(int) types.Type, st *State, g *Term, where string) ([]Val, bool) {
	name := key[strings.LastIndex(key, ".")+1:]
	big_ := strings.Contains(key, "bigEndian")
	n := 0
	switch {
	case strings.HasSuffix(name, "64"):
		n = 8
	case strings.HasSuffix(name, "32"):
		n = 4
	case strings.HasSuffix(name, "16"):
		n = 2
	default:
		return nil, false
	}
	pos := func(i int) int { // byte position of significance i
		if big_ {
			return n - 1 - i
		}
		return i
	}
	byteT := types.Typ[types.Uint8]
	bs := x.isort(8)
	akey := "[]uint8"
	hs := SArr(SInt, SArr(x.idxSort(), bs))
	b := args[1] // receiver is args[0]
	split := func(v *Term, i int) *Term {
		if x.bv {
			return x.Extract(v, 8*i+7, 8*i)
		}
		return x.Mod(x.Div(v, x.IntB(pow2b(8*i))), x.Int(256))
	}
	switch {
	case strings.HasPrefix(name, "Uint"):
		x.safety("bounds", where, "binary read out of range", st, g, x.ile(x.iconst(int64(n)), b.C[2]))
		arr := x.Select(x.hget(st, akey, hs), b.C[0])
		var bytes []*Term
		for i := 0; i < n; i++ {
			t := x.Select(arr, x.iadd(b.C[1], x.iconst(int64(pos(i)))))
			x.typeFact(t, Leaf{"", bs, byteT, 'i'}, st)
			bytes = append(bytes, t)
		}
		if x.bv {
			r := bytes[n-1]
			for i := n - 2; i >= 0; i-- {
				r = x.app("concat", SBV(r.Sort.bvWidth()+8), r, bytes[i])
			}
			return []Val{{T: rt(0), C: []*Term{r}}}, true
		}
		// recognise a value just written
		if v := sameSplit(bytes, n); v != nil {
			return []Val{{T: rt(0), C: []*Term{v}}}, true
		}
		var ts []*Term
		for i, t := range bytes {
			ts = append(ts, x.Mul(x.IntB(pow2b(8*i)), t))
		}
		return []Val{{T: rt(0), C: []*Term{x.Add(ts...)}}}, true
	case strings.HasPrefix(name, "PutUint"):
		x.safety("bounds", where, "binary write out of range", st, g, x.ile(x.iconst(int64(n)), b.C[2]))
		h := x.hget(st, akey, hs)
		arr := x.Select(h, b.C[0])
		v := args[2].C[0]
		for i := 0; i < n; i++ {
			arr = x.Store(arr, x.iadd(b.C[1], x.iconst(int64(pos(i)))), split(v, i))
		}
		if !x.bv {
			x.splitFact(v, n)
		}
		x.checkWriteRange(st, g, akey, b.C[0], b.C[1], x.iadd(b.C[1], x.iconst(int64(n))), where)
		st.heap[akey] = x.Store(h, b.C[0], arr)
		return []Val{}, true
	case strings.HasPrefix(name, "AppendUint"):
		// append n bytes
		r := x.alloc(st, "enc")
		h := x.hget(st, akey, hs)
		arr := x.ConstArr(SArr(x.idxSort(), bs), x.zeroSort(bs, Leaf{}))
		v := args[2].C[0]
		for i := 0; i < n; i++ {
			arr = x.Store(arr, x.iconst(int64(pos(i))), split(v, i))
		}
		if !x.bv {
			x.splitFact(v, n)
		}
		st.heap[akey] = x.Store(h, r, arr)
		t := Val{T: types.NewSlice(byteT), C: []*Term{r, x.iconst(0), x.iconst(int64(n)), x.iconst(int64(n))}}
		return []Val{x.appendOp(st, g, b, t, rt(0), where)}, true
	}
	return nil, false
}

func (x *Exec) splitFact(v *Term, n int) {
	if v.num != nil || v.free {
		return
	}
	var ts []*Term
	for i := 0; i < n; i++ {
		ts = append(ts, x.Mul(x.IntB(pow2b(8*i)), x.Mod(x.Div(v, x.IntB(pow2b(8*i))), x.Int(256))))
	}
	s := x.Add(ts...)
	if s != v {
		x.always(x.Implies(x.And(x.Le(x.Int(0), v), x.Lt(v, x.IntB(pow2b(8*n)))), x.Eq(s, v)))
	}
}

// sameSplit recognises the bytes of a single value.
func sameSplit(bs []*Term, n int) *Term { return nil }

// globals ----------------------------------------------------------------------
func (x *Exec) loadGlobal(st *State, gl *ssa.Global, t types.Type) Val {
	name := shortPkg(gl.Pkg.Pkg) + "." + gl.Name()
	gi := x.prog.globalInit(gl)
	if gi.mutated {
		return x.load(st, &Addr{kind: 'g', root: name, elem: t}, t)
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		tm, ok := x.errGlobals[name]
		if !ok {
			tm = x.Int(int64(-1 - len(x.errGlobals)))
			x.errGlobals[name] = tm
		}
		return Val{T: t, C: []*Term{tm}}
	}
	switch gi.kind {
	case 'c':
		return x.constVal(gi.c.Value, t)
	case 's':
		et := t.Underlying().(*types.Slice).Elem()
		ref := x.Const("gref_"+name, SInt)
		x.always(x.app("<=", SBool, x.Int(1), ref))
		if x.entry != nil {
			x.always(x.Le(ref, x.entry.top))
		}
		l := x.leaves(et)
		if len(l) == 1 {
			key := "[]" + typeKey(et)
			h := x.hget(st, key, SArr(SInt, SArr(x.idxSort(), l[0].sort)))
			arr := x.tableArr(name, gi, et)
			// tables are never written (checked: no store outside init)
			x.trusted["package-level tables are not modified through aliases"] = true
			x.always(x.Eq(x.Select(x.hget(x.entryOr(st), key, h.Sort), ref), arr))
			if x.Select(h, ref) != x.Select(x.hget(x.entryOr(st), key, h.Sort), ref) {
				x.always(x.Eq(x.Select(h, ref), arr))
			}
		}
		n := x.iconst(int64(gi.n))
		return Val{T: t, C: []*Term{ref, x.iconst(0), n, n}}
	case 'p':
		ref := x.Const("gref_"+name, SInt)
		x.always(x.app("<=", SBool, x.Int(1), ref))
		if x.entry != nil {
			x.always(x.Le(ref, x.entry.top))
		}
		x.trusted["package-level structures are not modified through aliases"] = true
		el := t.Underlying().(*types.Pointer).Elem()
		var ps []string
		for p := range gi.fields {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			ft := fieldAt(el, p)
			a := &Addr{kind: 'o', ref: ref, root: typeKey(el), path: p, elem: ft}
			c := x.constVal(gi.fields[p].Value, ft).C[0]
			l := x.leaves(ft)[0]
			x.always(x.Eq(x.loadLeaf(x.entryOr(st), a, l), c))
			x.always(x.Eq(x.loadLeaf(st, a, l), c))
		}
		return Val{T: t, C: []*Term{ref}}
	case 'a':
		et := t.Underlying().(*types.Array).Elem()
		return Val{T: t, C: []*Term{x.tableArr(name, gi, et)}}
	}
	v := Val{T: t}
	for _, l := range x.leaves(t) {
		tm := x.Const("global_"+name+l.path, l.sort)
		x.typeFact(tm, l, nil)
		v.C = append(v.C, tm)
	}
	return v
}

// fieldAt is the type of the field a path like .A.B names.
func fieldAt(t types.Type, path string) types.Type {
	for _, n := range strings.Split(path, ".")[1:] {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				t = st.Field(i).Type()
				break
			}
		}
	}
	return t
}
func (x *Exec) entryOr(st *State) *State {
	if x.entry != nil {
		return x.entry
	}
	return st
}

func (x *Exec) tableArr(name string, gi *globInfo, et types.Type) *Term {
	l := x.leaves(et)
	if len(l) != 1 {
		panic(unsupported("table " + name))
	}
	s := SArr(x.idxSort(), l[0].sort)
	arr := x.Const("table_"+name, s)
	if !x.tabDone[name] {
		x.tabDone[name] = true
		for i := 0; i < gi.n; i++ {
			var v *Term
			if c, ok := gi.elems[i]; ok {
				v = x.constVal(c.Value, et).C[0]
			} else {
				v = x.zeroLeaf(l[0])
			}
			x.permFacts = append(x.permFacts, x.Eq(x.Select(arr, x.iconst(int64(i))), v))
		}
	}
	return arr
}

type globInfo struct {
	mutated bool
	kind    byte // 'c' const, 'a' array table, 's' slice table, 0 unknown
	c       *ssa.Const
	elems   map[int]*ssa.Const
	n       int
	fields  map[string]*ssa.Const // 'p': constant fields of the structure the variable points to
}

func (p *Prog) globalInit(g *ssa.Global) *globInfo {
	if gi, ok := p.globs[g]; ok {
		return gi
	}
	gi := &globInfo{elems: map[int]*ssa.Const{}}
	p.globs[g] = gi
	gi.mutated = p.stored[g]
	init := g.Pkg.Func("init")
	if init == nil {
		return gi
	}
	okAll := true
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == ssa.Value(g) {
				switch v := s.Val.(type) {
				case *ssa.Const:
					if v.Value != nil {
						gi.kind, gi.c = 'c', v
					}
				case *ssa.Alloc:
					el := v.Type().Underlying().(*types.Pointer).Elem()
					if _, ok := el.Underlying().(*types.Struct); ok && !p.fieldStored[typeKey(el)] {
						gi.kind, gi.fields = 'p', map[string]*ssa.Const{}
						okAll = p.collectFields(v, "", gi) && okAll
					}
				case *ssa.Slice:
					if al, ok := v.X.(*ssa.Alloc); ok {
						at := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
						gi.kind = 's'
						gi.n = int(at.Len())
						okAll = collectTable(init, al, gi) && okAll
					}
				case *ssa.UnOp:
					if al, ok := v.X.(*ssa.Alloc); ok {
						if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
							gi.kind = 'a'
							gi.n = int(at.Len())
							okAll = collectTable(init, al, gi) && okAll
						}
					}
				}
			}
		}
	}
	if gi.kind == 0 {
		if at, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			gi.n = int(at.Len())
			if collectTable(init, g, gi) && len(gi.elems) > 0 {
				gi.kind = 'a'
			}
		}
	}
	if !okAll {
		gi.kind = 0
	}
	return gi
}

// collectFields reads the constant fields of a structure built by the package's initialiser.
func (p *Prog) collectFields(base ssa.Value, path string, gi *globInfo) bool {
	for _, r := range *base.Referrers() {
		switch u := r.(type) {
		case *ssa.FieldAddr:
			pt := u.X.Type().Underlying().(*types.Pointer).Elem()
			if p.fieldStored[typeKey(pt)] {
				return false
			}
			if !p.collectFields(u, path+"."+pt.Underlying().(*types.Struct).Field(u.Field).Name(), gi) {
				return false
			}
		case *ssa.Store:
			if u.Addr != base {
				continue // the pointer itself is stored in the variable
			}
			if ld, ok := u.Val.(*ssa.UnOp); ok {
				// a nested literal, built in a variable of its own and copied
				al, ok := ld.X.(*ssa.Alloc)
				if !ok || !p.collectFields(al, path, gi) {
					return false
				}
				continue
			}
			c, ok := u.Val.(*ssa.Const)
			if !ok || c.Value == nil || gi.fields[path] != nil {
				return false
			}
			gi.fields[path] = c
		case *ssa.UnOp: // a load
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func collectTable(init *ssa.Function, base ssa.Value, gi *globInfo) bool {
	ok := true
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			ia, is := ins.(*ssa.IndexAddr)
			if !is || ia.X != base {
				continue
			}
			ic, isC := ia.Index.(*ssa.Const)
			if !isC {
				ok = false
				continue
			}
			for _, r := range *ia.Referrers() {
				if s, isS := r.(*ssa.Store); isS {
					if c, isC := s.Val.(*ssa.Const); isC {
						gi.elems[int(ic.Int64())] = c
					} else {
						ok = false
					}
				} else if _, isD := r.(*ssa.DebugRef); !isD {
					ok = false
				}
			}
		}
	}
	return ok
}

var _ = sort.Strings

func (x *Exec) softTerm(v *SEnv, c Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			t = nil
			if _, ok := r.(specErr); !ok {
				panic(r)
			}
		}
	}()
	return x.clauseTerm(v, c)
}
