package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// script renders facts and a goal as SMT-LIB.
type scriptBuilder struct {
	x    *Exec
	p    *Printer
	out  strings.Builder
	dec  map[string]bool
	seen map[int]bool
	defd map[int]bool
}

func newScript(x *Exec) *scriptBuilder {
	return &scriptBuilder{x: x, p: newPrinter(), dec: map[string]bool{}, seen: map[int]bool{}, defd: map[int]bool{}}
}
func (s *scriptBuilder) declare(t *Term) {
	if s.seen[t.id] {
		return
	}
	s.seen[t.id] = true
	if t.kind == 's' || t.kind == 'a' {
		if d, ok := s.x.declOf[t.Op]; ok && !s.dec[t.Op] {
			s.dec[t.Op] = true
			s.out.WriteString(d + "\n")
		}
	}
	for _, a := range t.Args {
		s.declare(a)
	}
	for _, ps := range t.pats {
		for _, a := range ps {
			s.declare(a)
		}
	}
}
func (s *scriptBuilder) header() {
	s.out.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, d := range s.x.sortDecls {
		s.out.WriteString(d + "\n")
	}
}
func (s *scriptBuilder) assert(t *Term) {
	s.declare(t)
	s.p.count(t)
}

// render emits all given assertions with sharing.
func (s *scriptBuilder) emit(t *Term) {
	s.p.define(t, s.defd)
	s.out.WriteString(s.p.out.String())
	s.p.out.Reset()
	var sb strings.Builder
	t.write(&sb, s.p.names, 0)
	s.out.WriteString("(assert " + sb.String() + ")\n")
}

func (x *Exec) factsFor(o *Obl) []*Term {
	var out []*Term
	out = append(out, x.permFacts...)
	for _, f := range x.facts[:o.nfacts] {
		out = append(out, f.t)
	}
	return out
}

func (x *Exec) script(o *Obl) string { return x.scriptOf(o, x.factsFor(o)) }

// ufs collects the uninterpreted functions of a term and whether it is quantified.
func (x *Exec) ufs(t *Term, seen map[int]bool, out map[string]bool) (q bool) {
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.kind == 'a' {
		if _, ok := x.declOf[t.Op]; ok {
			out[t.Op] = true
		}
	}
	if t.kind == 'q' {
		q = true
	}
	for _, a := range t.Args {
		if x.ufs(a, seen, out) {
			q = true
		}
	}
	return q
}

// slicedScript drops the quantified facts about functions the goal does not mention
// (dropping hypotheses is sound); "" when nothing is dropped.
func (x *Exec) slicedScript(o *Obl) string {
	gs := map[string]bool{}
	x.ufs(o.goal, map[int]bool{}, gs)
	var keep []*Term
	dropped := false
	for _, f := range x.factsFor(o) {
		us := map[string]bool{}
		if x.ufs(f, map[int]bool{}, us) {
			ok := true
			for u := range us {
				if !gs[u] {
					ok = false
				}
			}
			if !ok {
				dropped = true
				continue
			}
		}
		keep = append(keep, f)
	}
	if !dropped {
		return ""
	}
	return x.scriptOf(o, keep)
}

func (x *Exec) scriptOf(o *Obl, fs []*Term) string {
	s := newScript(x)
	s.header()
	neg := x.Not(o.goal)
	for _, f := range fs {
		s.assert(f)
	}
	s.assert(neg)
	for _, f := range fs {
		s.emit(f)
	}
	s.emit(neg)
	s.out.WriteString("(check-sat)\n")
	return s.out.String()
}

// batchScript checks many obligations of one function in one incremental run.
func (x *Exec) batchScript(os []*Obl, ms int) string {
	s := newScript(x)
	s.out.WriteString("(set-option :produce-models true)\n")
	fmt.Fprintf(&s.out, "(set-option :timeout %d)\n", ms)
	for _, d := range x.sortDecls {
		s.out.WriteString(d + "\n")
	}
	max := 0
	for _, o := range os {
		if o.nfacts > max {
			max = o.nfacts
		}
	}
	for _, f := range x.permFacts {
		s.assert(f)
	}
	for _, f := range x.facts[:max] {
		s.assert(f.t)
	}
	for _, o := range os {
		s.assert(x.Not(o.goal))
	}
	for _, f := range x.permFacts {
		s.emit(f)
	}
	n := 0
	for _, o := range os {
		for n < o.nfacts {
			s.emit(x.facts[n].t)
			n++
		}
		neg := x.Not(o.goal)
		s.p.define(neg, s.defd)
		s.out.WriteString(s.p.out.String())
		s.p.out.Reset()
		s.out.WriteString("(push 1)\n")
		var sb strings.Builder
		neg.write(&sb, s.p.names, 0)
		s.out.WriteString("(assert " + sb.String() + ")\n(check-sat)\n(pop 1)\n")
	}
	return s.out.String()
}

type solver struct {
	name string
	cmd  []string
}

func solvers(secs int, quantBV bool) []solver {
	return []solver{
		{"z3-5.3.2", []string{"z3-new", fmt.Sprintf("-T:%d", secs)}},
		{"z3-4.8.12", []string{"z3", fmt.Sprintf("-T:%d", secs)}},
		{"cvc5-1.1.2", []string{"cvc5", fmt.Sprintf("--tlimit=%d", secs*1000)}},
		{"z3-5.3.2-s7", []string{"z3-new", fmt.Sprintf("-T:%d", secs), "smt.random_seed=7", "smt.arith.solver=2"}},
	}
}

func runSolver(ctx context.Context, s solver, file string) (string, float64) {
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, s.cmd[0], append(s.cmd[1:], file)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0).Seconds()
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l, el
		}
		if strings.HasPrefix(l, "(error") {
			return "error " + l, el
		}
	}
	return "unknown", el
}

type pool struct{ sem chan struct{} }

func newPool(n int) *pool { return &pool{make(chan struct{}, n)} }

// solveAll discharges the obligations of the given functions.
func solveAll(xs []*Exec, tmp string, jobs int, batchMS, secs int, verbose bool) {
	pl := newPool(jobs)
	var wg sync.WaitGroup
	for xi, x := range xs {
		var todo []*Obl
		for _, o := range x.obls {
			if o.Status == "" {
				todo = append(todo, o)
			}
		}
		sort.SliceStable(todo, func(i, j int) bool { return todo[i].nfacts < todo[j].nfacts })
		const chunk = 60
		for c := 0; c < len(todo); c += chunk {
			part := todo[c:min(len(todo), c+chunk)]
			if x.bv {
				continue
			}
			txt := x.batchScript(part, batchMS)
			f := filepath.Join(tmp, fmt.Sprintf("b%d_%d.smt2", xi, c))
			os.WriteFile(f, []byte(txt), 0o644)
			wg.Add(1)
			go func() {
				defer wg.Done()
				pl.sem <- struct{}{}
				defer func() { <-pl.sem }()
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(len(part)*batchMS+20000)*time.Millisecond)
				defer cancel()
				t0 := time.Now()
				cmd := exec.CommandContext(ctx, "z3-new", f)
				out, _ := cmd.Output()
				el := time.Since(t0).Seconds()
				k := 0
				for _, l := range strings.Split(string(out), "\n") {
					l = strings.TrimSpace(l)
					if strings.HasPrefix(l, "(error") {
						fmt.Fprintln(os.Stderr, "solver error:", x.fnName, l)
						break
					}
					if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
						if k < len(part) && l == "unsat" {
							part[k].Status, part[k].Solver = "proved", "z3-5.3.2"
							part[k].Secs = el / float64(len(part))
						}
						k++
					}
				}
			}()
		}
	}
	wg.Wait()
	for xi, x := range xs {
		for oi, o := range x.obls {
			if o.Status != "" {
				continue
			}
			txt := x.script(o)
			f := filepath.Join(tmp, fmt.Sprintf("o%d_%d.smt2", xi, oi))
			os.WriteFile(f, []byte(txt), 0o644)
			o.Detail = f
			sl := ""
			if t := x.slicedScript(o); t != "" {
				sl = filepath.Join(tmp, fmt.Sprintf("s%d_%d.smt2", xi, oi))
				os.WriteFile(sl, []byte(t), 0o644)
			}
			wg.Add(1)
			sec := secs
			if x.spec != nil && x.spec.Timeout > 0 {
				sec = x.spec.Timeout
			}
			go func() {
				defer wg.Done()
				pl.sem <- struct{}{}
				solveOne(o, f, sl, sec)
				<-pl.sem
				if verbose && o.Status != "proved" {
					fmt.Fprintf(os.Stderr, "  %s %s: %s (%.1fs) %s\n", x.fnName, o.Name, o.Status, o.Secs, o.Text)
				}
			}()
		}
	}
	wg.Wait()
}

func solveOne(o *Obl, f, sliced string, secs int) {
	t0 := time.Now()
	defer func() { o.Secs += time.Since(t0).Seconds() }()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		s string
		n string
	}
	ss := solvers(secs, false)
	if sliced != "" {
		ss = append(ss, solver{"z3-5.3.2-sliced", []string{"z3-new", fmt.Sprintf("-T:%d", secs)}})
	}
	ch := make(chan res, len(ss))
	start := func(s solver) {
		go func() {
			fl := f
			if strings.HasSuffix(s.name, "-sliced") {
				fl = sliced
			}
			r, _ := runSolver(ctx, s, fl)
			if fl != f && r == "sat" {
				r = "unknown"
			}
			ch <- res{r, s.name}
		}()
	}
	start(ss[0])
	started, got := 1, 0
	timer := time.After(2500 * time.Millisecond)
	status := ""
	for got < started || started == 1 {
		select {
		case r := <-ch:
			got++
			if r.s == "unsat" {
				o.Status, o.Solver = "proved", r.n
				return
			}
			if r.s == "sat" {
				status = "refuted"
				o.Solver = r.n
			}
			if strings.HasPrefix(r.s, "error") {
				o.Text += " [" + r.n + ": " + r.s + "]"
			}
			if started == 1 && status == "" {
				for _, s := range ss[1:] {
					start(s)
				}
				started = len(ss)
			} else if status == "refuted" {
				o.Status = status
				return
			}
		case <-timer:
			if started == 1 {
				for _, s := range ss[1:] {
					start(s)
				}
				started = len(ss)
			}
		}
	}
	if status == "" {
		status = "unknown"
	}
	o.Status = status
}

func runQuick(f string) string {
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
	defer cancel()
	s, _ := runSolver(ctx, solver{"z3", []string{"z3-new", "-T:2"}}, f)
	return s
}
