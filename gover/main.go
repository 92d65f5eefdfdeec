package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog      *ssa.Program
	fset      *token.FileSet
	repo      string
	pkgs      []*ssa.Package
	loopCache map[*ssa.Function]*loopInfo
	specs     *Specs
	pkgByName map[string]*types.Package
	globs     map[*ssa.Global]*globInfo
	stored    map[*ssa.Global]bool
	funcs     map[string]*ssa.Function
	// fieldStored: types with a field that something other than an initialiser may write
	fieldStored map[string]bool
}

const modPath = "github.com/apache/datasketches-go"

func (p *Prog) inScope(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return true
		}
	}
	return fn.Origin() != nil
}

func load(repo string, pats []string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Tests: false}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, q := range pk {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.GlobalDebug|ssa.BareInits)
	p := &Prog{prog: prog, fset: prog.Fset, repo: repo, loopCache: map[*ssa.Function]*loopInfo{}, pkgByName: map[string]*types.Package{},
		globs: map[*ssa.Global]*globInfo{}, stored: map[*ssa.Global]bool{}, funcs: map[string]*ssa.Function{}, fieldStored: map[string]bool{}}
	for _, s := range sp {
		if s != nil {
			s.Build()
			p.pkgs = append(p.pkgs, s)
			p.pkgByName[s.Pkg.Name()] = s.Pkg
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		p.addFn(fn)
	}
	for _, s := range p.pkgs {
		for _, m := range s.Members {
			switch v := m.(type) {
			case *ssa.Function:
				p.addFn(v)
			case *ssa.Type:
				if n, ok := v.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							p.addFn(f)
						}
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Prog) addFn(fn *ssa.Function) {
	if fn.Pkg == nil && fn.Origin() == nil {
		return
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return
	}
	if fn.Object() != nil && fn.Synthetic == "" {
		p.funcs[funcKey(fn)] = fn
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok && !(strings.HasPrefix(fn.Name(), "init") && fn.Parent() == nil && fn.Signature.Recv() == nil) {
				for _, r := range *fa.Referrers() {
					switch u := r.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
					default:
						_ = u
						p.fieldStored[typeKey(fa.X.Type().Underlying().(*types.Pointer).Elem())] = true
					}
				}
			}
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			if strings.HasPrefix(fn.Name(), "init") && fn.Parent() == nil && fn.Signature.Recv() == nil {
				continue
			}
			var base ssa.Value = s.Addr
			if pt, ok := base.Type().Underlying().(*types.Pointer); ok {
				p.fieldStored[typeKey(pt.Elem())] = true
			}
			for {
				if fa, ok := base.(*ssa.FieldAddr); ok {
					p.fieldStored[typeKey(fa.X.Type().Underlying().(*types.Pointer).Elem())] = true
				}
				switch a := base.(type) {
				case *ssa.IndexAddr:
					base = a.X
					continue
				case *ssa.FieldAddr:
					base = a.X
					continue
				}
				break
			}
			if g, ok := base.(*ssa.Global); ok {
				p.stored[g] = true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		p.addFn(a)
	}
}

func newExec(p *Prog, name string, bv bool) *Exec {
	x := &Exec{TB: NewTB(), prog: p, bv: bv, leafCache: map[string][]Leaf{}, sorts: map[Sort]bool{}, heap0: map[string]*Term{},
		errGlobals: map[string]*Term{}, onceFacts: map[int]bool{}, fnName: name, loopsUsed: map[int]bool{}, inlined: map[string]bool{},
		usedContracts: map[string]bool{}, trusted: map[string]bool{}, seqSyms: map[int]bool{}, cells: map[cellKey]*Val{}, keySort: map[string]Sort{},
		keyLeaf: map[string]Leaf{}, usedLemmas: map[string]bool{}, tabDone: map[string]bool{}, typedBase: map[int]bool{}}
	return x
}

type FnResult struct {
	X     *Exec
	Key   string
	Err   string
	Pos   string
	Props []string
	Lemma bool
}

func (p *Prog) verifyFn(key string, c *Contract, inst string, clo *ssa.Function) (res *FnResult) {
	x := newExec(p, key, c.Mode == "bv")
	x.spec = c
	res = &FnResult{X: x, Key: key, Props: c.Props}
	fn := p.funcs[key]
	if c.FnType != nil {
		fn = clo
		res.Key = key + "<-" + funcKey(clo.Parent()) + "/" + clo.Name()
	}
	if fn == nil {
		res.Err = "function not found in the source"
		return
	}
	res.Pos = x.prog.fset.Position(fn.Pos()).String()
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupp:
				res.Err = "outside the verifier's subset: " + e.msg + " at " + x.curPos
			case specErr:
				res.Err = "contract does not apply: " + e.msg
			default:
				res.Err = fmt.Sprintf("internal: %v at %s", r, x.curPos)
				if os.Getenv("GOVER_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	for _, l := range c.Loops {
		l.Used = false
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, spec: c}
	if inst != "" {
		tps := fn.TypeParams()
		bt := basicByName[inst]
		if tps == nil || tps.Len() != 1 || bt == nil {
			panic(specErr{"instance " + inst + " does not fit"})
		}
		res.Key += "[" + inst + "]"
		fr.subst = map[*types.TypeParam]types.Type{tps.At(0): bt}
	}
	x.root = fr
	top := x.Const("top0", SInt)
	x.always(x.app("<=", SBool, x.Int(1), top))
	top.lo = big1
	st := &State{heap: map[string]*Term{}, top: top}
	for _, prm := range fn.Params {
		v := x.freshVal(prm.Name(), fr.typ(prm.Type()), st)
		x.zeroOff(&v)
		fr.env[prm] = v
	}
	for _, fv := range fn.FreeVars {
		if c.FnType == nil {
			panic(unsupported("contract on a closure"))
		}
		v := x.freshVal(fv.Name(), fr.typ(fv.Type()), st)
		if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
			x.assumeIn(st, x.True(), x.Le(x.Int(1), v.C[0]))
		}
		fr.free = append(fr.free, v)
	}
	x.entry = st.clone()
	fr.entry = x.entry
	// receivers are non-nil unless stated
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			x.assumeIn(st, x.True(), x.Le(x.Int(1), fr.env[fn.Params[0]].C[0]))
		}
	}
	ev := x.frameEnv(fr, st, x.True())
	ev.old = st
	if c.FnType != nil {
		x.fnTypeEnv(fr, ev, c, st)
	}
	for _, r := range c.Requires {
		x.assumeIn(st, x.True(), x.clauseTerm(ev, r))
	}
	for _, u := range c.Use {
		x.useLemma(u)
	}
	for _, a := range c.Apply {
		x.applySoft(ev, a, x.True())
	}
	x.entry = st.clone()
	x.modAll = c.ModAll
	for _, m := range c.Modifies {
		x.modset = append(x.modset, ev.targets(m)...)
	}
	preFacts := len(x.facts)
	entry := x.entry
	x.runFunc(fr, st, x.True())
	fr.entry = entry
	x.entry = entry
	// ensures at every return
	sg := fn.Signature
	for ri, r := range fr.rets {
		x.cur = r.guard
		lk := map[string]Val{}
		for _, prm := range fn.Params {
			lk[prm.Name()] = fr.env[prm]
		}
		for i := range r.vals {
			r.vals[i].T = fr.typ(sg.Results().At(i).Type())
		}
		for i := range r.vals {
			if _, ok := iterElems(r.vals[i].T); ok && r.vals[i].Clo != nil {
				r.guard = x.runIterator(fr, r.vals[i], r.st, r.guard)
			}
		}
		pev := x.frameEnv(fr, r.st, r.guard)
		pev.old = entry
		if c.FnType != nil {
			for i, n := range c.FnType {
				lk[n] = fr.env[fn.Params[i]]
			}
		}
		rlk := resultLookup(lk, r.vals, sg)
		pev.lookup = rlk
		if len(c.Apply) > 0 {
			// hints may name the locals in scope at the return
			hev := *pev
			hev.lheads = fr.lhead
			blk, rst := r.blk, r.st
			hev.lookup = func(n string) (Val, bool) {
				if v, ok := rlk(n); ok {
					return v, true
				}
				return x.nameAt(fr, blk, n, rst, false)
			}
			for _, a := range c.Apply {
				x.applySoft(&hev, a, r.guard)
			}
		}
		for k, e := range c.Ensures {
			nm := fmt.Sprintf("ensures%d", k+1)
			if e.Label != "" {
				nm = e.Label
			}
			if len(fr.rets) > 1 {
				nm += fmt.Sprintf("@ret%d", ri+1)
			}
			x.oblige("ensures", nm, r.pos, e.Text, r.guard, x.clauseTerm(pev, e))
		}
	}
	for n, l := range c.Loops {
		if !l.Used {
			res.Err = fmt.Sprintf("contract does not apply: no loop %d", n)
			return
		}
	}
	x.vacuity(fr, preFacts)
	return
}

// vacuity obligations: the goal must NOT be provable.
func (x *Exec) vacuity(fr *Frame, pre int) {
	x.obls = append(x.obls, &Obl{Name: "vacuity-pre", Kind: "vacuity", Text: "the precondition is satisfiable", nfacts: pre, goal: x.False(), fn: x})
	if len(fr.rets) > 0 {
		var gs []*Term
		for _, r := range fr.rets {
			gs = append(gs, r.guard)
		}
		x.obls = append(x.obls, &Obl{Name: "vacuity-exit", Kind: "vacuity", Text: "some execution returns", nfacts: len(x.facts), goal: x.Not(x.Or(gs...)), fn: x})
	}
}

func (x *Exec) zeroOff(v *Val) {
	ls := x.leaves(v.T)
	for i, l := range ls {
		if strings.HasSuffix(l.path, "#off") {
			v.C[i] = x.zeroSort(l.sort, l)
		}
	}
}

func (x *Exec) useLemma(n string) {
	lm := x.prog.specs.Lemmas[n]
	if lm == nil {
		panic(specErr{"unknown lemma " + n})
	}
	x.usedLemmas[n] = true
	x.permFacts = append(x.permFacts, x.lemmaForall(lm))
}

func (p *Prog) verifyLemma(lm *Lemma) (res *FnResult) {
	x := newExec(p, "lemma "+lm.Name, lm.BV)
	x.lemmaMode = true
	res = &FnResult{X: x, Key: "lemma." + lm.Name, Props: lm.Props, Lemma: true}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				res.Err = e.msg
				return
			}
			res.Err = fmt.Sprintf("internal: %v", r)
		}
	}()
	x.spec = &Contract{Timeout: lm.Timeout}
	ev := &SEnv{x: x, bound: map[string]Val{}, guard: x.True(), pkg: p.pkgByName[lm.Pkg]}
	for _, q := range lm.Params {
		s := x.sortOf(q.Type)
		w := raw(x.Sym(q.Name, s))
		if bt, ok := basicByName[q.Type]; ok && x.bv {
			w.T = bt
		}
		ev.bound[q.Name] = w
	}
	st := &State{heap: map[string]*Term{}, top: x.Const("top0", SInt)}
	ev.st = st
	for _, r := range lm.Requires {
		x.assume(x.True(), x.clauseTerm(ev, r))
	}
	for _, u := range lm.Use {
		x.useLemma(u)
	}
	if lm.Measure != nil {
		m0 := ev.eval(lm.Measure).C[0]
		// quantified induction hypothesis
		n := &SEnv{x: x, bound: map[string]Val{}, st: st, pkg: p.pkgByName[lm.Pkg]}
		var vars []*Term
		for _, q := range lm.Params {
			n.depth++
			b := x.BoundVar(q.Name, x.sortOf(q.Type), n.depth)
			vars = append(vars, b)
			w := raw(b)
			if bt, ok := basicByName[q.Type]; ok && x.bv {
				w.T = bt
			}
			n.bound[q.Name] = w
		}
		m1 := n.eval(lm.Measure).C[0]
		hyp := []*Term{x.app("<=", SBool, x.Int(0), m1), x.Not(x.app("<=", SBool, m0, m1))}
		var es []*Term
		for _, r := range lm.Requires {
			hyp = append(hyp, x.clauseTerm(n, r))
		}
		for _, r := range lm.Ensures {
			es = append(es, x.clauseTerm(n, r))
		}
		var pats [][]*Term
		for _, tr := range lm.Trigs {
			var ts []*Term
			for _, e := range tr {
				ts = append(ts, n.eval(e).C[0])
			}
			pats = append(pats, ts)
		}
		x.permFacts = append(x.permFacts, x.Quant(true, vars, x.Implies(x.And(hyp...), x.And(es...)), pats))
	}
	for _, a := range lm.Apply {
		e := a.E
		cond := x.True()
		for e.Op == "bin" && e.S == "==>" {
			cond = x.And(cond, ev.evalBool(e.Args[0]))
			e = e.Args[1]
		}
		if e.Op == "forall" {
			n := *ev
			n.inApply, n.selfLm = true, lm
			x.assume(cond, n.evalBool(e))
			continue
		}
		o := p.specs.Lemmas[e.Args[0].S]
		if o == nil {
			sfail("unknown lemma %s", e.Args[0].S)
		}
		inst := x.lemmaInst(o, ev, e.Args[1:])
		if o == lm {
			// self application needs a smaller measure
			n := &SEnv{x: x, bound: map[string]Val{}, st: st, pkg: p.pkgByName[lm.Pkg]}
			for i, q := range lm.Params {
				n.bound[q.Name] = ev.eval(e.Args[1:][i])
			}
			m1 := n.eval(lm.Measure).C[0]
			m0 := ev.eval(lm.Measure).C[0]
			inst = x.Implies(x.And(x.Le(x.Int(0), m1), x.Lt(m1, m0)), inst)
		} else {
			x.usedLemmas[o.Name] = true
		}
		x.assume(cond, inst)
	}
	for i, e := range lm.Ensures {
		x.oblige("lemma", fmt.Sprintf("ensures%d", i+1), e.Line, e.Text, x.True(), x.clauseTerm(ev, e))
	}
	x.obls = append(x.obls, &Obl{Name: "vacuity-pre", Kind: "vacuity", Text: "the lemma's hypotheses are satisfiable", nfacts: len(x.facts), goal: x.False(), fn: x})
	return
}

type OblOut struct {
	Func, Name, Kind, Pos, Text, Status, Solver string
	Secs                                        float64
}
type FnOut struct {
	Func      string
	Pos       string
	Err       string `json:",omitempty"`
	Mode      string
	Obls      int
	Proved    int
	Inlined   []string `json:",omitempty"`
	Contracts []string `json:",omitempty"`
	Trusted   []string `json:",omitempty"`
}
type Output struct {
	Prop        string
	Obligations int
	Discharged  int
	BySolver    map[string]int
	SolverSecs  float64
	Functions   []FnOut
	Failed      []OblOut
	Errors      []string
	Trusted     []string
	Lemmas      []string
	Axioms      []string
	Vacuous     []string
	Missing     []string
	WallS       float64
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specDir := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property id")
	only := flag.String("func", "", "only functions whose key contains this (comma separated)")
	jsonOut := flag.String("json", "", "write results")
	tmp := flag.String("tmp", "", "directory for SMT files")
	jobs := flag.Int("jobs", 6, "parallel solver processes")
	secs := flag.Int("secs", 25, "timeout per obligation")
	batch := flag.Int("batch", 1500, "batch timeout (ms)")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("ssa", "", "dump SSA of a function")
	list := flag.Bool("list", false, "list function keys")
	outObls := flag.Bool("obls", false, "print all obligations")
	flag.Parse()
	t0 := time.Now()
	p, err := load(*repo, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if *list {
		var ks []string
		for k := range p.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	if *dump != "" {
		for k, f := range p.funcs {
			if strings.Contains(k, *dump) {
				f.WriteTo(os.Stdout)
				for _, a := range f.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	p.specs, err = loadSpecs(*specDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	has := func(ps []string) bool {
		if *prop == "" {
			return true
		}
		for _, q := range ps {
			if q == *prop {
				return true
			}
		}
		return false
	}
	match := func(k string) bool {
		if *only == "" {
			return true
		}
		for _, o := range strings.Split(*only, ",") {
			if strings.HasSuffix(o, "=") && (k == o[:len(o)-1] || strings.HasSuffix(k, "."+o[:len(o)-1])) {
				return true
			}
			if strings.Contains(k, o) {
				return true
			}
		}
		return false
	}
	var results []*FnResult
	done := map[string]bool{}
	var queue, missing []string
	for _, k := range p.specs.Order {
		c := p.specs.Contracts[k]
		if has(c.Props) && match(k) {
			queue = append(queue, k)
		}
	}
	needLem := map[string]bool{}
	for _, n := range p.specs.LemOrder {
		if has(p.specs.Lemmas[n].Props) && match("lemma."+n) && *prop != "" {
			needLem[n] = true
		}
		if *only != "" && match("lemma."+n) {
			needLem[n] = true
		}
	}
	// contracts relied upon are verified with the property that uses them
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if done[k] {
			continue
		}
		done[k] = true
		c := p.specs.Contracts[k]
		if c.Trusted || c.PureUF || c.Inline {
			continue
		}
		if c.FnType != nil {
			cs, err := p.closuresOf(strings.TrimSuffix(k, ".$call"))
			if err != "" {
				results = append(results, &FnResult{X: newExec(p, k, false), Key: k, Err: err})
			}
			for _, fn := range cs {
				r := p.verifyFn(k, c, "", fn)
				results = append(results, r)
				for l := range r.X.usedLemmas {
					needLem[l] = true
				}
				if *only == "" {
					queue = append(queue, keysOf(r.X.usedContracts)...)
				}
			}
			continue
		}
		if nm := k[strings.LastIndex(k, ".")+1:]; p.funcs[k] == nil && len(nm) > 0 && !token.IsExported(nm) {
			// an unexported helper that no longer exists: its callers now inline whatever replaced it
			missing = append(missing, k)
			continue
		}
		insts := c.Instances
		if len(insts) == 0 {
			insts = []string{""}
		}
		for _, inst := range insts {
			r := p.verifyFn(k, c, inst, nil)
			results = append(results, r)
			for l := range r.X.usedLemmas {
				needLem[l] = true
			}
			if *only == "" {
				var us []string
				for u := range r.X.usedContracts {
					us = append(us, u)
				}
				sort.Strings(us)
				queue = append(queue, us...)
			}
		}
	}
	lemDone := map[string]bool{}
	lemUses := map[string]map[string]bool{}
	lemRes := map[string]*FnResult{}
	var axioms, lemmas []string
	for {
		var n string
		for _, l := range p.specs.LemOrder {
			if needLem[l] && !lemDone[l] {
				n = l
				break
			}
		}
		if n == "" {
			break
		}
		lemDone[n] = true
		lm := p.specs.Lemmas[n]
		if lm.Axiom {
			axioms = append(axioms, n+": "+lm.Why)
			continue
		}
		lemmas = append(lemmas, n)
		r := p.verifyLemma(lm)
		results = append(results, r)
		for l := range r.X.usedLemmas {
			needLem[l] = true
		}
		lemUses[n] = r.X.usedLemmas
		lemRes[n] = r
	}
	// a lemma proved from itself through another is no proof
	mark := map[string]int{}
	var visit func(string)
	visit = func(n string) {
		mark[n] = 1
		for l := range lemUses[n] {
			switch mark[l] {
			case 0:
				visit(l)
			case 1:
				lemRes[n].Err = "lemma " + n + " and lemma " + l + " are proved from each other"
			}
		}
		mark[n] = 2
	}
	for _, n := range lemmas {
		if mark[n] == 0 {
			visit(n)
		}
	}
	genS := time.Since(t0).Seconds()
	dir := *tmp
	if dir == "" {
		dir, _ = os.MkdirTemp("", "gover")
		defer os.RemoveAll(dir)
	} else {
		os.MkdirAll(dir, 0o755)
	}
	var xs []*Exec
	var vac []*Obl
	for _, r := range results {
		if r.Err != "" && *verbose {
			fmt.Fprintf(os.Stderr, "  %s: %s\n", r.Key, r.Err)
		}
		var keep []*Obl
		for _, o := range r.X.obls {
			if o.Kind == "vacuity" {
				vac = append(vac, o)
			} else {
				keep = append(keep, o)
			}
		}
		r.X.obls = keep
		if r.Err == "" {
			xs = append(xs, r.X)
		}
	}
	solveAll(xs, dir, *jobs, *batch, *secs, *verbose)
	out := Output{Prop: *prop, BySolver: map[string]int{}, Axioms: axioms, Lemmas: lemmas, Missing: missing}
	out.Vacuous = checkVacuity(vac, dir, *jobs)
	tr := map[string]bool{}
	for _, r := range results {
		x := r.X
		fo := FnOut{Func: r.Key, Pos: strings.TrimPrefix(r.Pos, *repo+"/"), Err: r.Err, Mode: modeName(x.bv)}
		if r.Err != "" {
			out.Errors = append(out.Errors, r.Key+": "+r.Err)
		} else {
			for _, o := range x.obls {
				fo.Obls++
				out.Obligations++
				out.SolverSecs += o.Secs
				if o.Status == "proved" {
					fo.Proved++
					out.Discharged++
					out.BySolver[o.Solver]++
				} else {
					out.Failed = append(out.Failed, OblOut{r.Key, o.Name, o.Kind, o.Pos, o.Text, o.Status, o.Solver, o.Secs})
				}
				if *outObls {
					fmt.Printf("    %-10s %-40s %-8s %.2fs %s %s\n", o.Status, r.Key+"/"+o.Name, o.Solver, o.Secs, o.Pos, o.Text)
				}
			}
		}
		fo.Inlined, fo.Contracts, fo.Trusted = keysOf(x.inlined), keysOf(x.usedContracts), keysOf(x.trusted)
		for _, t := range fo.Trusted {
			tr[t] = true
		}
		out.Functions = append(out.Functions, fo)
	}
	out.Trusted = keysOf(tr)
	out.WallS = time.Since(t0).Seconds()
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(out, "", " ")
		os.MkdirAll(filepath.Dir(*jsonOut), 0o755)
		os.WriteFile(*jsonOut, b, 0o644)
	}
	fmt.Printf("gover %s: %d functions/lemmas, %d/%d obligations proved, gen %.1fs, wall %.1fs\n", *prop, len(results), out.Discharged, out.Obligations, genS, out.WallS)
	for _, e := range out.Errors {
		fmt.Println("  ERROR", e)
	}
	for _, e := range out.Vacuous {
		fmt.Println("  VACUOUS", e)
	}
	for _, f := range out.Failed {
		fmt.Printf("  FAILED %s/%s [%s] %s (%s) %s\n", f.Func, f.Name, f.Kind, f.Pos, f.Status, f.Text)
	}
	if len(out.Failed)+len(out.Errors)+len(out.Vacuous) > 0 {
		os.Exit(1)
	}
}

func keysOf(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func checkVacuity(vac []*Obl, dir string, jobs int) []string {
	var bad []string
	type r struct{ s string }
	ch := make(chan string, len(vac))
	sem := make(chan struct{}, jobs)
	for i, o := range vac {
		if o.goal.isTrue() {
			ch <- o.fn.fnName + ": " + o.Name
			continue
		}
		f := filepath.Join(dir, fmt.Sprintf("v%d.smt2", i))
		os.WriteFile(f, []byte(o.fn.script(o)), 0o644)
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			o2 := runQuick(f)
			if o2 == "unsat" {
				ch <- o.fn.fnName + ": " + o.Name + " (" + o.Text + " is refuted)"
			} else {
				ch <- ""
			}
		}()
	}
	for range vac {
		if s := <-ch; s != "" {
			bad = append(bad, s)
		}
	}
	sort.Strings(bad)
	return bad
}
