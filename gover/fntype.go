package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Contracts on named function types ("functype"): a call of a value of that type uses the
// contract, and every function of the module that is converted to the type is verified
// against it.

// closuresOf lists the functions converted to the named function type.
func (p *Prog) closuresOf(name string) (out []*ssa.Function, err string) {
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ct, ok := in.(*ssa.ChangeType)
				if !ok {
					continue
				}
				n, ok := types.Unalias(ct.Type()).(*types.Named)
				if !ok || shortPkg(n.Obj().Pkg())+"."+n.Obj().Name() != name {
					continue
				}
				var fn *ssa.Function
				switch v := ct.X.(type) {
				case *ssa.MakeClosure:
					fn = v.Fn.(*ssa.Function)
				case *ssa.Function:
					fn = v
				default:
					err = "a function value of unknown origin becomes a " + name
					continue
				}
				if !seen[fn] {
					seen[fn] = true
					out = append(out, fn)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	var ks []string
	for k, f := range p.funcs {
		if f.Parent() == nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		scan(p.funcs[k])
	}
	if len(out) == 0 && err == "" {
		err = "no function of type " + name
	}
	return
}

// fnTypeEnv names the closure's parameters as the functype does and assumes the creator's
// precondition about captured parameters that nothing reassigns.
func (x *Exec) fnTypeEnv(fr *Frame, ev *SEnv, c *Contract, st *State) {
	fn := fr.fn
	names := map[string]Val{}
	for i, n := range c.FnType {
		names[n] = fr.env[fn.Params[i]]
	}
	prev := ev.lookup
	ev.lookup = func(n string) (Val, bool) {
		if v, ok := names[n]; ok {
			return v, true
		}
		if prev != nil {
			return prev(n)
		}
		return Val{}, false
	}
	ev.oldLk = ev.lookup
	par := fn.Parent()
	if par == nil {
		return
	}
	cc := x.prog.specs.Contracts[funcKey(par)]
	if cc == nil || len(cc.Requires) == 0 {
		return
	}
	x.usedContracts[funcKey(par)] = true
	cap := map[string]Val{}
	for i, f := range fn.FreeVars {
		if capturedConst(par, fn, i) {
			pt, ok := f.Type().Underlying().(*types.Pointer)
			if ok {
				cap[f.Name()] = x.loadAny(st, x.derefAddr(fr.free[i]), fr.typ(pt.Elem()))
			} else {
				cap[f.Name()] = fr.free[i]
			}
		}
	}
	cev := &SEnv{x: x, st: st, old: st, guard: x.True(), bound: map[string]Val{}, lets: cc.Lets, pkg: ev.pkg, subst: fr.subst}
	cev.lookup = func(n string) (Val, bool) { v, ok := cap[n]; return v, ok }
	cev.oldLk = cev.lookup
	for _, r := range cc.Requires {
		if t := x.softTerm(cev, r); t != nil {
			x.assumeIn(st, x.True(), t)
		}
	}
}

// capturedConst: free variable i of fn is a parameter of its creator that is never reassigned.
func capturedConst(par, fn *ssa.Function, i int) bool {
	f := fn.FreeVars[i]
	for _, r := range *f.Referrers() {
		switch r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			switch a := mc.Bindings[i].(type) {
			case *ssa.Parameter:
				return a.Name() == f.Name()
			case *ssa.Alloc:
				stores := 0
				for _, r := range *a.Referrers() {
					switch u := r.(type) {
					case *ssa.Store:
						pm, ok := u.Val.(*ssa.Parameter)
						if !ok || u.Addr != a || pm.Name() != f.Name() {
							return false
						}
						stores++
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
						if u != mc {
							return false
						}
					default:
						return false
					}
				}
				return stores == 1
			}
			return false
		}
	}
	return false
}
