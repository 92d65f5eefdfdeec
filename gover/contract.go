package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// E is a specification expression.
type E struct {
	Op    string // "id","int","str","call","sel","index","slice","un","bin","forall","exists","if"
	S     string
	Args  []*E
	Vars  []QVar
	Trigs [][]*E
	Src   string
}
type QVar struct{ Name, Type string }

type Clause struct {
	E     *E
	Text  string
	Line  string
	Label string
}
type LoopSpec struct {
	Inv    []Clause
	Dec    []Clause
	Apply  []Clause
	Unroll int
	Used   bool
}
type Contract struct {
	Key        string
	File       string
	Props      []string
	Mode       string
	Requires   []Clause
	Ensures    []Clause
	Modifies   []Clause
	ModAll     bool
	Loops      map[int]*LoopSpec
	RealFloat  bool
	Units      bool // realfloat: sign and unit-interval facts of products and quotients
	SumFacts   bool // append and sort state the sum of the elements
	AssumeSafe bool
	MayPanic   bool
	Trusted    bool // body not verified
	Instances  []string // type arguments the generic function is verified at
	Functional bool // the results are a function of the scalar arguments
	PureUF     bool // interface method / opaque function treated as a pure function
	FnType     []string // parameter names, for the contract of a function type
	Inline     bool // contract only carries loop specs; calls are inlined
	Use        []string
	Apply      []Clause
	Lets       map[string]*E
	Timeout    int
	NoInline   []string
	Why        string
	AbsCalls   map[string]bool
}

type Define struct {
	Name   string
	Params []QVar
	Body   *E
	File   string
}
type FuncDecl struct {
	Name   string
	Params []QVar
	Ret    string
}
type Lemma struct {
	Name     string
	Params   []QVar
	Requires []Clause
	Ensures  []Clause
	Measure  *E
	Trigs    [][]*E
	Apply    []Clause
	Use      []string
	Props    []string
	Axiom    bool
	File     string
	Why      string
	Timeout  int
	BV       bool // proved over bit-vectors
	Pkg      string
}
type Specs struct {
	Contracts map[string]*Contract
	Order     []string
	Defines   map[string]*Define
	Funcs     map[string]*FuncDecl
	Lemmas    map[string]*Lemma
	LemOrder  []string
}

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{Contracts: map[string]*Contract{}, Defines: map[string]*Define{}, Funcs: map[string]*FuncDecl{}, Lemmas: map[string]*Lemma{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

var sigRe = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_]*)\s*\(([^)]*)\)\s*([^=(]*?)(?:=\s*(.*))?$`)

func parseParams(s string) []QVar {
	var out []QVar
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for _, p := range splitTop(s, ',') {
		f := strings.SplitN(strings.TrimSpace(p), " ", 2)
		q := QVar{Name: f[0], Type: "int"}
		if len(f) > 1 {
			q.Type = strings.TrimSpace(f[1])
		}
		out = append(out, q)
	}
	// propagate types backwards: "a, b int"
	for i := len(out) - 2; i >= 0; i-- {
		if !strings.Contains(splitTop(s, ',')[i], " ") || len(strings.Fields(splitTop(s, ',')[i])) < 2 {
			out[i].Type = out[i+1].Type
		}
	}
	return out
}
func splitTop(s string, sep rune) []string {
	var out []string
	d := 0
	last := 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if c == sep && d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

func (sp *Specs) parseFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	// join continuation lines: a line ending in a backslash, or an indented deeper line starting with an operator
	raw := strings.Split(string(data), "\n")
	type ln struct {
		text string
		no   int
	}
	var lines []ln
	for i, r := range raw {
		if k := strings.Index(r, "//"); k >= 0 {
			r = r[:k]
		}
		t := strings.TrimSpace(r)
		if t == "" {
			continue
		}
		if len(lines) > 0 && (strings.HasSuffix(lines[len(lines)-1].text, "\\") || strings.HasPrefix(t, "&& ") || strings.HasPrefix(t, "|| ") || strings.HasPrefix(t, "==> ") || strings.HasPrefix(t, "<==> ")) {
			l := &lines[len(lines)-1]
			l.text = strings.TrimSpace(strings.TrimSuffix(l.text, "\\")) + " " + t
			continue
		}
		lines = append(lines, ln{t, i + 1})
	}
	pkg := ""
	var props []string
	var c *Contract
	var lem *Lemma
	base := filepath.Base(file)
	for _, l := range lines {
		fail := func(e any) error { return fmt.Errorf("%s:%d: %v: %s", base, l.no, e, l.text) }
		kw, rest, _ := strings.Cut(l.text, " ")
		rest = strings.TrimSpace(rest)
		clause := func(s string) (Clause, error) {
			lab := ""
			if m := regexp.MustCompile(`^@([A-Za-z0-9_-]+)\s+(.*)$`).FindStringSubmatch(s); m != nil {
				lab, s = m[1], m[2]
			}
			e, err := parseExpr(s)
			if err != nil {
				return Clause{}, fail(err)
			}
			return Clause{E: e, Text: s, Line: fmt.Sprintf("%s:%d", base, l.no), Label: lab}, nil
		}
		switch kw {
		case "package":
			pkg = rest
			c, lem = nil, nil
		case "props":
			ps := strings.Fields(rest)
			if c != nil {
				c.Props = ps
			} else if lem != nil {
				lem.Props = ps
			} else {
				props = ps
			}
		case "defaultprops":
			props = strings.Fields(rest)
			c, lem = nil, nil
		case "func":
			name := rest
			name = strings.NewReplacer("(*", "", "(", "", ")", "").Replace(name)
			key := name
			if pkg != "" {
				key = pkg + "." + name
			}
			c = &Contract{Key: key, File: base, Props: props, Loops: map[int]*LoopSpec{}, Lets: map[string]*E{}, AbsCalls: map[string]bool{}}
			lem = nil
			if sp.Contracts[key] != nil {
				return fail("duplicate contract")
			}
			sp.Contracts[key] = c
			sp.Order = append(sp.Order, key)
		case "functype":
			m := sigRe.FindStringSubmatch(rest)
			if m == nil {
				return fail("bad functype")
			}
			key := pkg + "." + m[1] + ".$call"
			c = &Contract{Key: key, File: base, Props: props, Loops: map[int]*LoopSpec{}, Lets: map[string]*E{}, AbsCalls: map[string]bool{}}
			c.FnType = []string{}
			for _, q := range parseParams(m[2]) {
				c.FnType = append(c.FnType, q.Name)
			}
			lem = nil
			if sp.Contracts[key] != nil {
				return fail("duplicate contract")
			}
			sp.Contracts[key] = c
			sp.Order = append(sp.Order, key)
		case "define":
			m := sigRe.FindStringSubmatch(rest)
			if m == nil || m[4] == "" {
				return fail("bad define")
			}
			e, err := parseExpr(m[4])
			if err != nil {
				return fail(err)
			}
			if sp.Defines[m[1]] != nil {
				return fail("duplicate define")
			}
			sp.Defines[m[1]] = &Define{Name: m[1], Params: parseParams(m[2]), Body: e, File: base}
			c, lem = nil, nil
		case "function":
			m := sigRe.FindStringSubmatch(rest)
			if m == nil {
				return fail("bad function")
			}
			sp.Funcs[m[1]] = &FuncDecl{Name: m[1], Params: parseParams(m[2]), Ret: strings.TrimSpace(m[3])}
			c, lem = nil, nil
		case "lemma", "axiom":
			m := sigRe.FindStringSubmatch(rest)
			if m == nil {
				return fail("bad lemma")
			}
			lem = &Lemma{Name: m[1], Params: parseParams(m[2]), Axiom: kw == "axiom", Props: props, File: base, Pkg: pkg}
			sp.Lemmas[m[1]] = lem
			sp.LemOrder = append(sp.LemOrder, m[1])
			c = nil
		case "requires", "ensures":
			cl, err := clause(rest)
			if err != nil {
				return err
			}
			switch {
			case c != nil && kw == "requires":
				c.Requires = append(c.Requires, cl)
			case c != nil:
				c.Ensures = append(c.Ensures, cl)
			case lem != nil && kw == "requires":
				lem.Requires = append(lem.Requires, cl)
			case lem != nil:
				lem.Ensures = append(lem.Ensures, cl)
			default:
				return fail("no context")
			}
		case "induction":
			e, err := parseExpr(rest)
			if err != nil {
				return fail(err)
			}
			lem.Measure = e
		case "trigger":
			var tr []*E
			for _, s := range splitTop(rest, ',') {
				e, err := parseExpr(s)
				if err != nil {
					return fail(err)
				}
				tr = append(tr, e)
			}
			lem.Trigs = append(lem.Trigs, tr)
		case "apply":
			cl, err := clause(rest)
			if err != nil {
				return err
			}
			if c != nil {
				c.Apply = append(c.Apply, cl)
			} else {
				lem.Apply = append(lem.Apply, cl)
			}
		case "use":
			if c != nil {
				c.Use = append(c.Use, strings.Fields(rest)...)
			} else {
				lem.Use = append(lem.Use, strings.Fields(rest)...)
			}
		case "modifies":
			if rest == "*" {
				c.ModAll = true
				continue
			}
			for _, s := range splitTop(rest, ',') {
				s = strings.TrimSpace(s)
				s2 := strings.ReplaceAll(s, "[*]", "[ALL]")
				s2 = strings.ReplaceAll(s2, ".*", ".ALL")
				e, err := parseExpr(s2)
				if err != nil {
					return fail(err)
				}
				c.Modifies = append(c.Modifies, Clause{E: e, Text: s, Line: fmt.Sprintf("%s:%d", base, l.no)})
			}
		case "let":
			n, ex, ok := strings.Cut(rest, "=")
			if !ok {
				return fail("bad let")
			}
			e, err := parseExpr(ex)
			if err != nil {
				return fail(err)
			}
			c.Lets[strings.TrimSpace(n)] = e
		case "mode":
			if c == nil && lem != nil {
				lem.BV = rest == "bv"
				break
			}
			c.Mode = rest
		case "realfloat":
			c.RealFloat = true
			c.Units = rest == "units"
		case "sumfacts":
			c.SumFacts = true
		case "assumesafe":
			c.AssumeSafe = true
			c.Why = rest
		case "instance":
			for _, t := range strings.Split(rest, ",") {
				c.Instances = append(c.Instances, strings.TrimSpace(t))
			}
		case "functional":
			c.Functional = true
		case "maypanic":
			c.MayPanic = true
		case "trusted":
			c.Trusted = true
			c.Why = rest
		case "pureuf":
			c.PureUF = true
			c.Why = rest
		case "inline":
			c.Inline = true
		case "why":
			if c != nil {
				c.Why = rest
			} else {
				lem.Why = rest
			}
		case "timeout":
			n, _ := strconv.Atoi(rest)
			if c != nil {
				c.Timeout = n
			} else {
				lem.Timeout = n
			}
		case "loop":
			f := strings.SplitN(rest, " ", 3)
			n, err := strconv.Atoi(f[0])
			if err != nil || len(f) < 3 {
				return fail("bad loop clause")
			}
			ls := c.Loops[n]
			if ls == nil {
				ls = &LoopSpec{}
				c.Loops[n] = ls
			}
			switch f[1] {
			case "unroll":
				ls.Unroll, err = strconv.Atoi(strings.TrimSpace(f[2]))
				if err != nil {
					return fail(err)
				}
				continue
			}
			cl, err := clause(f[2])
			if err != nil {
				return err
			}
			switch f[1] {
			case "invariant":
				ls.Inv = append(ls.Inv, cl)
			case "decreases":
				ls.Dec = append(ls.Dec, cl)
			case "apply":
				ls.Apply = append(ls.Apply, cl)
			default:
				return fail("bad loop clause")
			}
		default:
			return fail("unknown keyword")
		}
	}
	return nil
}

// expression parser ----------------------------------------------------------
type tok struct {
	k byte // 'i' ident 'n' number 's' string 'o' op 'e' eof
	s string
}
type parser struct {
	toks []tok
	p    int
	src  string
}

func lexExpr(s string) ([]tok, error) {
	var out []tok
	rs := []rune(s)
	ops := []string{"<==>", "==>", "===", "!==", "...", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "&^", "::", ".."}
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{'i', string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || (rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1]))) {
				j++
			}
			out = append(out, tok{'n', strings.ReplaceAll(string(rs[i:j]), "_", "")})
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			out = append(out, tok{'s', string(rs[i+1 : j])})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					out = append(out, tok{'o', o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				if !strings.ContainsRune("+-*/%&|^!<>=()[]{}.,:;?", c) {
					return nil, fmt.Errorf("bad character %q", c)
				}
				out = append(out, tok{'o', string(c)})
				i++
			}
		}
	}
	return append(out, tok{'e', ""}), nil
}

func parseExpr(s string) (e *E, err error) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(perr); ok {
				err = fmt.Errorf("%s", string(m))
				return
			}
			panic(r)
		}
	}()
	ts, err := lexExpr(s)
	if err != nil {
		return nil, err
	}
	p := &parser{toks: ts, src: s}
	e = p.expr(0)
	if p.cur().k != 'e' {
		panic(perr("trailing input at " + p.cur().s))
	}
	e.Src = s
	return e, nil
}

type perr string

func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) next() tok {
	t := p.toks[p.p]
	p.p++
	return t
}
func (p *parser) is(s string) bool { return p.cur().k == 'o' && p.cur().s == s }
func (p *parser) expect(s string) {
	if !p.is(s) {
		panic(perr("expected " + s + " at " + p.cur().s))
	}
	p.p++
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "===": 5, "!==": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7, "&^": 7}

func (p *parser) expr(min int) *E {
	l := p.unary()
	for {
		t := p.cur()
		if t.k != 'o' {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.p++
		var r *E
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparisons a <= b < c
		if pr == 5 && l.Op == "bin" && prec[l.S] == 5 && (t.s[0] == '<' || t.s[0] == '>') && (l.S[0] == '<' || l.S[0] == '>') && l.Src != "paren" {
			l = &E{Op: "bin", S: "&&", Args: []*E{l, {Op: "bin", S: t.s, Args: []*E{l.Args[1], r}}}}
			continue
		}
		l = &E{Op: "bin", S: t.s, Args: []*E{l, r}}
	}
}
func (p *parser) unary() *E {
	t := p.cur()
	if t.k == 'o' && (t.s == "!" || t.s == "-" || t.s == "^" || t.s == "*") {
		p.p++
		return &E{Op: "un", S: t.s, Args: []*E{p.unary()}}
	}
	if t.k == 'i' && (t.s == "forall" || t.s == "exists") {
		p.p++
		e := &E{Op: t.s}
		for {
			n := p.next()
			if n.k != 'i' {
				panic(perr("quantifier variable"))
			}
			q := QVar{Name: n.s, Type: ""}
			if p.cur().k == 'i' {
				q.Type = p.next().s
				if p.is("<") {
					for d := 0; ; {
						t := p.next()
						q.Type += t.s
						if t.s == "<" {
							d++
						} else if t.s == ">" {
							d--
						} else if t.s == ">>" {
							d -= 2
						}
						if d <= 0 {
							break
						}
					}
				}
			}
			e.Vars = append(e.Vars, q)
			if p.is(",") {
				p.p++
				continue
			}
			break
		}
		ty := "int"
		for i := len(e.Vars) - 1; i >= 0; i-- {
			if e.Vars[i].Type != "" {
				ty = e.Vars[i].Type
			} else {
				e.Vars[i].Type = ty
			}
		}
		for p.is("{") {
			p.p++
			var tr []*E
			for {
				tr = append(tr, p.expr(0))
				if p.is(",") {
					p.p++
					continue
				}
				break
			}
			p.expect("}")
			e.Trigs = append(e.Trigs, tr)
		}
		if p.is(":") || p.is("::") {
			p.p++
		} else {
			panic(perr("expected : after quantifier"))
		}
		e.Args = []*E{p.expr(0)}
		return e
	}
	if t.k == 'i' && t.s == "if" {
		p.p++
		c := p.expr(0)
		if p.next().s != "then" {
			panic(perr("expected then"))
		}
		a := p.expr(0)
		if p.next().s != "else" {
			panic(perr("expected else"))
		}
		b := p.expr(0)
		return &E{Op: "if", Args: []*E{c, a, b}}
	}
	return p.postfix(p.primary())
}
func (p *parser) primary() *E {
	t := p.next()
	switch t.k {
	case 'i':
		return &E{Op: "id", S: t.s}
	case 'n':
		return &E{Op: "num", S: t.s}
	case 's':
		return &E{Op: "str", S: t.s}
	}
	if t.s == "(" {
		e := p.expr(0)
		p.expect(")")
		if e.Op == "bin" {
			c := *e
			c.Src = "paren"
			return &c
		}
		return e
	}
	panic(perr("unexpected " + t.s))
}
func (p *parser) postfix(e *E) *E {
	for {
		switch {
		case p.is("."):
			p.p++
			n := p.next()
			e = &E{Op: "sel", S: n.s, Args: []*E{e}}
		case p.is("["):
			p.p++
			var a, b *E
			if !p.is(":") && !p.is("..") {
				a = p.expr(0)
			}
			if p.is(":") || p.is("..") {
				sep := p.next().s
				if !p.is("]") {
					b = p.expr(0)
				}
				p.expect("]")
				e = &E{Op: "slice", S: sep, Args: []*E{e, a, b}}
				continue
			}
			p.expect("]")
			e = &E{Op: "index", Args: []*E{e, a}}
		case p.is("("):
			p.p++
			c := &E{Op: "call", Args: []*E{e}}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr(0))
				if p.is(",") {
					p.p++
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
