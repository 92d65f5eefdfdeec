package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Interface values are opaque handles; the handle's dynamic type and, for pointer
// types, the pointer are functions of it.

var typeTags = map[string]int64{}

func (x *Exec) typeTag(t types.Type) *Term {
	k := t.String()
	if _, ok := typeTags[k]; !ok {
		typeTags[k] = int64(len(typeTags) + 1)
	}
	return x.Int(typeTags[k])
}

func (x *Exec) ifType(h *Term) *Term { return x.App("if_type", SInt, h) }
func (x *Exec) ifPtr(h *Term) *Term  { return x.App("if_ptr", SInt, h) }

// isDyn is the condition that handle h holds a value of type t.
func (x *Exec) isDyn(h *Term, t types.Type) *Term {
	return x.And(x.Not(x.Eq(h, x.Int(0))), x.Eq(x.ifType(h), x.typeTag(t)))
}

// ownInterface: a named interface of the module (not error).
func ownInterface(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	_, ok := n.Underlying().(*types.Interface)
	return ok
}

// implementers lists the module's non-generic pointer types that implement it; ok is
// false where another kind of type does too.
func (p *Prog) implementers(it *types.Interface) (out []types.Type, ok bool) {
	ok = true
	for _, q := range p.pkgs {
		sc := q.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, isT := sc.Lookup(n).(*types.TypeName)
			if !isT || tn.IsAlias() {
				continue
			}
			nm, isN := tn.Type().(*types.Named)
			if !isN {
				continue
			}
			if _, isI := nm.Underlying().(*types.Interface); isI {
				continue
			}
			if nm.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(types.NewPointer(nm), it) {
				out = append(out, types.NewPointer(nm))
				if types.Implements(nm, it) {
					ok = false
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out, ok && len(out) > 0
}

// devirtualize executes an interface call as a case split over the implementations in the module.
func (x *Exec) devirtualize(fr *Frame, recv Val, it types.Type, m *types.Func, args []Val, st *State, g *Term, where string) ([]Val, *Term, bool) {
	if !ownInterface(it) || namedOf(it).TypeArgs().Len() > 0 {
		return nil, nil, false
	}
	ts, ok := x.prog.implementers(it.Underlying().(*types.Interface))
	if !ok {
		return nil, nil, false
	}
	h := recv.C[0]
	x.safety("nil", where, "nil interface", st, g, x.Not(x.Eq(h, x.Int(0))))
	x.trusted["interface "+typeKey(it)+": only the module's own implementations are considered"] = true
	type br struct {
		e    edge
		vals []Val
	}
	var bs []br
	var all []*Term
	for _, t := range ts {
		all = append(all, x.Eq(x.ifType(h), x.typeTag(t)))
	}
	x.assumeIn(st, g, x.Or(all...))
	for i, t := range ts {
		fn := x.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			return nil, nil, false
		}
		bg := x.And(g, all[i])
		bst := st.clone()
		p := Val{T: t, C: []*Term{x.ifPtr(h)}}
		saved := x.cur
		x.cur = bg
		x.typeFact(p.C[0], x.leaves(t)[0], bst)
		x.wellTyped(p, bst)
		rs, g2 := x.callFn(fr, fn, append([]Val{p}, args...), nil, nil, bst, bg, where)
		x.cur = saved
		bs = append(bs, br{edge{guard: g2, st: bst}, rs})
	}
	es := make([]edge, len(bs))
	for i := range bs {
		es[i] = bs[i].e
	}
	g2, ns := x.mergeStates(es)
	*st = *ns
	var out []Val
	for k := range bs[0].vals {
		v := bs[len(bs)-1].vals[k]
		for i := len(bs) - 2; i >= 0; i-- {
			v = x.mergeVal(bs[i].e.guard, bs[i].vals[k], v)
		}
		out = append(out, v)
	}
	return out, g2, true
}

var _ = ssa.NaiveForm
