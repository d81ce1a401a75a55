package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SVal is a value in a specification.
type SVal struct {
	t types.Type // nil for the untyped nil
	c []*Term
	// pointer receiver kept for field access through memory
}

// Clause is one named formula of a contract.
type Clause struct {
	Name string
	Text string
	Expr ast.Expr
	Vars []metaVar // inv only
}

type metaVar struct{ name, typ string }

// Contract is the contract of one function (or a lemma without code).
type Contract struct {
	Name     string
	Pkg      string // end of the package path
	Func     string
	Params   []string
	Results  []string
	Props    []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Clause
	Invs     []*Clause
	Ats      []*AtClause
	Ghosts   []*Ghost
	Afters   []*AtClause // ghost updates after calls
	Loops    []*AtClause // ghost updates after iterations of outermost loops
	Inline   bool
	Trusted  bool
	Callback bool
	Theory   string // "strings" for the solver's theory of strings
	File     string
	Line     int

	Lemma  bool
	PTypes []string
	Steps  []lemmaStep
	Induct string // the parameter a lemma is proved by induction on
	Aspect string // one of several contracts of the function: proved by itself, and used in contracts of the same aspect

	fn  *ssa.Function
	pkg *types.Package
	err string
	// effects
	effDone bool
	eff     map[string]bool
	effErr  string
	effKeys map[string]heapKey
	insts   map[*ssa.Function]*Contract
	nonvac  bool
}

// AtClause is a condition on every call of function Func in the body.
type AtClause struct {
	Func    string
	Params  []string
	Results []string
	Target  string // the ghost variable changed
	*Clause
}

// Ghost is a ghost variable of a contract.
type Ghost struct {
	Name, Type string
	Init       ast.Expr
	typ        types.Type
}

// lemmaStep is one call in a lemma: the results of function Func applied to Args get the names Results.
type lemmaStep struct {
	Func    string
	Results []string
	Args    []ast.Expr
	fn      *ssa.Function
	lemma   *Contract // the lemma applied, for a use step
	have    *Clause   // an intermediate conclusion
}

// SpecFn is a specification function, unfolded at each use, or recursive.
type SpecFn struct {
	Name   string
	Params []string
	PTypes []string
	RType  string
	Rec    bool
	Body   ast.Expr
	Text   string
	pkg    string
	rec    *recFn
}

// Specs is everything in the contract files.
type Specs struct {
	cons  []*Contract
	fns   map[string]*SpecFn
	byFn  map[*ssa.Function]*Contract
	asp   map[string]map[*ssa.Function]*Contract
	files []string
}

var theSpecs = &Specs{fns: map[string]*SpecFn{}, byFn: map[*ssa.Function]*Contract{}, asp: map[string]map[*ssa.Function]*Contract{}}

// contractOf is the contract that stands for calls of f in a function proved under con.
func contractOf(f *ssa.Function, con *Contract) *Contract {
	f = fnOrigin(f)
	if con != nil && con.Aspect != "" {
		if c := theSpecs.asp[con.Aspect][f]; c != nil {
			return c
		}
	}
	return theSpecs.byFn[f]
}

func (c *Contract) invs() []*Clause {
	if c == nil {
		return nil
	}
	return c.Invs
}

func (c *Contract) hasProp(p string) bool {
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	return false
}

// parseSpecs reads the contract files in dir.
func parseSpecs(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		bs, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := parseSpecFile(filepath.Base(f), string(bs)); err != nil {
			return err
		}
	}
	return nil
}

var clauseWords = map[string]bool{"package": true, "func": true, "lemma": true, "induct": true, "use": true, "have": true, "spec": true, "rec": true, "props": true, "requires": true, "ensures": true,
	"modifies": true, "inv": true, "inline": true, "trusted": true, "call": true, "theory": true, "callback": true, "at": true, "ghost": true, "after": true, "step": true, "aspect": true}

func parseSpecFile(name, text string) error {
	type line struct {
		n    int
		text string
	}
	var ls []line
	for i, l := range strings.Split(text, "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "inv{") {
			t = "inv " + t[3:]
		}
		w, _, _ := strings.Cut(t, " ")
		if clauseWords[w] || len(ls) == 0 {
			ls = append(ls, line{i + 1, t})
		} else {
			ls[len(ls)-1].text += " " + t
		}
	}
	pkg := ""
	var con *Contract
	fail := func(n int, err any) error { return fmt.Errorf("%s:%d: %v", name, n, err) }
	for _, l := range ls {
		w, rest, _ := strings.Cut(l.text, " ")
		rest = strings.TrimSpace(rest)
		switch w {
		case "package":
			pkg = rest
			con = nil
		case "spec", "rec":
			head, body, ok := cutTop(rest, "=")
			if !ok {
				return fail(l.n, "no body")
			}
			e, err := parseFormula(body)
			if err != nil {
				return fail(l.n, err)
			}
			fnName, ps, res := splitHead(strings.TrimSpace(head))
			s := &SpecFn{Name: fnName, Rec: w == "rec", Body: e, Text: body, pkg: pkg, RType: strings.TrimSpace(res)}
			for _, p := range ps {
				n, t, _ := strings.Cut(p, " ")
				s.Params = append(s.Params, n)
				s.PTypes = append(s.PTypes, strings.TrimSpace(t))
			}
			if theSpecs.fns[fnName] != nil {
				return fail(l.n, "two specification functions called "+fnName)
			}
			theSpecs.fns[fnName] = s
			con = nil
		case "lemma":
			fnName, ps, _ := splitHead(rest)
			con = &Contract{Name: pkg + " lemma " + fnName, Pkg: pkg, Func: fnName, File: name, Line: l.n, Lemma: true}
			for _, p := range ps {
				n, t, _ := strings.Cut(p, " ")
				con.Params = append(con.Params, n)
				con.PTypes = append(con.PTypes, strings.TrimSpace(t))
			}
			theSpecs.cons = append(theSpecs.cons, con)
		case "func":
			fnName, ps, res := splitHead(rest)
			con = &Contract{Name: pkg + "." + fnName, Pkg: pkg, Func: fnName, Params: ps, File: name, Line: l.n}
			res = strings.Trim(strings.TrimSpace(res), "()")
			for _, r := range strings.Split(res, ",") {
				if r = strings.TrimSpace(r); r != "" {
					con.Results = append(con.Results, r)
				}
			}
			theSpecs.cons = append(theSpecs.cons, con)
		default:
			if con == nil {
				return fail(l.n, "clause outside a function: "+w)
			}
			switch w {
			case "props":
				con.Props = append(con.Props, strings.Fields(rest)...)
			case "inline":
				con.Inline = true
			case "trusted":
				con.Trusted = true
			case "callback":
				con.Callback = true
			case "aspect":
				con.Aspect = rest
				con.Name += " (" + rest + ")"
			case "induct":
				con.Induct = rest
			case "have":
				n, body, _ := strings.Cut(rest, ":")
				e, err := parseFormula(body)
				if err != nil {
					return fail(l.n, err)
				}
				con.Steps = append(con.Steps, lemmaStep{have: &Clause{Name: strings.TrimSpace(n), Text: body, Expr: e}})
			case "use":
				callee, as, _ := splitHead(rest)
				st := lemmaStep{Func: callee}
				for _, c := range theSpecs.cons {
					if c.Lemma && c != con && c.Func == callee && len(c.Steps) == 0 && len(c.Params) == len(as) {
						st.lemma = c
					}
				}
				if st.lemma == nil {
					return fail(l.n, "no earlier lemma "+callee)
				}
				for _, a := range as {
					e, err := parseFormula(a)
					if err != nil {
						return fail(l.n, err)
					}
					st.Args = append(st.Args, e)
				}
				con.Steps = append(con.Steps, st)
			case "call":
				res, body, ok := cutTop(rest, "=")
				if !ok {
					res, body = "", rest
				}
				callee, as, _ := splitHead(strings.TrimSpace(body))
				st := lemmaStep{Func: callee}
				for _, r := range strings.Split(strings.Trim(strings.TrimSpace(res), "()"), ",") {
					if r = strings.TrimSpace(r); r != "" {
						st.Results = append(st.Results, r)
					}
				}
				for _, a := range as {
					e, err := parseFormula(a)
					if err != nil {
						return fail(l.n, err)
					}
					st.Args = append(st.Args, e)
				}
				con.Steps = append(con.Steps, st)
			case "at":
				fnName, ps, rest := splitHead(rest)
				n, body, _ := strings.Cut(rest, ":")
				e, err := parseFormula(body)
				if err != nil {
					return fail(l.n, err)
				}
				con.Ats = append(con.Ats, &AtClause{Func: fnName, Params: ps, Clause: &Clause{Name: "at " + fnName + ": " + strings.TrimSpace(n), Text: strings.TrimSpace(body), Expr: e}})
			case "ghost":
				head, body, ok := cutTop(rest, "=")
				n, t, _ := strings.Cut(strings.TrimSpace(head), " ")
				g := &Ghost{Name: n, Type: strings.TrimSpace(t)}
				if ok {
					e, err := parseFormula(body)
					if err != nil {
						return fail(l.n, err)
					}
					g.Init = e
				}
				con.Ghosts = append(con.Ghosts, g)
			case "after", "step":
				a := &AtClause{}
				if w == "after" {
					a.Func, a.Params, rest = splitHead(rest)
					rest = strings.TrimSpace(rest)
					if strings.HasPrefix(rest, "(") {
						_, a.Results, rest = splitHead("x" + rest)
					}
					_, rest, _ = strings.Cut(rest, ":")
				}
				tgt, body, ok := cutTop(rest, "=")
				if !ok {
					return fail(l.n, "no ghost variable changed")
				}
				e, err := parseFormula(body)
				if err != nil {
					return fail(l.n, err)
				}
				a.Target, a.Clause = strings.TrimSpace(tgt), &Clause{Name: w + " " + strings.TrimSpace(tgt), Text: strings.TrimSpace(body), Expr: e}
				if w == "after" {
					con.Afters = append(con.Afters, a)
				} else {
					con.Loops = append(con.Loops, a)
				}
			case "theory":
				con.Theory = rest
			case "requires", "ensures", "inv":
				c := &Clause{Name: fmt.Sprintf("%s%d", w, l.n)}
				if w == "inv" {
					if i := strings.Index(rest, "{"); i >= 0 && i < strings.Index(rest+":", ":") {
						j := strings.Index(rest, "}")
						for _, mv := range splitTop(rest[i+1:j], ',') {
							n, t, _ := strings.Cut(strings.TrimSpace(mv), ":")
							c.Vars = append(c.Vars, metaVar{strings.TrimSpace(n), strings.TrimSpace(t)})
						}
						rest = rest[:i] + rest[j+1:]
					}
				}
				n, body, ok := strings.Cut(rest, ":")
				if !ok || strings.ContainsAny(n, "(=<>&|!\"") {
					body = rest
				} else if strings.TrimSpace(n) != "" {
					c.Name = strings.TrimSpace(n)
				}
				e, err := parseFormula(body)
				if err != nil {
					return fail(l.n, err)
				}
				c.Text, c.Expr = strings.TrimSpace(body), e
				switch w {
				case "requires":
					con.Requires = append(con.Requires, c)
				case "ensures":
					con.Ensures = append(con.Ensures, c)
				case "inv":
					con.Invs = append(con.Invs, c)
				}
			case "modifies":
				for _, m := range splitTop(rest, ',') {
					e, err := parseFormula(m)
					if err != nil {
						return fail(l.n, err)
					}
					con.Modifies = append(con.Modifies, &Clause{Name: strings.TrimSpace(m), Text: m, Expr: e})
				}
			}
		}
	}
	return nil
}

// splitHead takes "Name(a, b) rest" apart; the name may start with a receiver in parentheses.
func splitHead(s string) (name string, params []string, rest string) {
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		return s, nil, ""
	}
	j += i
	depth, e := 0, j
	for ; e < len(s); e++ {
		if s[e] == '(' {
			depth++
		}
		if s[e] == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	for _, p := range splitTop(s[j+1:e], ',') {
		if p = strings.TrimSpace(p); p != "" {
			params = append(params, p)
		}
	}
	return strings.TrimSpace(s[:j]), params, s[e+1:]
}

func splitTop(s string, sep byte) []string {
	var r []string
	depth, from := 0, 0
	inStr := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			inStr = !inStr
		case inStr:
		case s[i] == '(' || s[i] == '[' || s[i] == '{':
			depth++
		case s[i] == ')' || s[i] == ']' || s[i] == '}':
			depth--
		case s[i] == sep && depth == 0:
			r = append(r, s[from:i])
			from = i + 1
		}
	}
	return append(r, s[from:])
}

// cutTop cuts at the first sep outside parentheses that stands alone.
func cutTop(s, sep string) (string, string, bool) {
	depth := 0
	inStr := false
	for i := 0; i+len(sep) <= len(s); i++ {
		switch {
		case s[i] == '"':
			inStr = !inStr
		case inStr:
		case s[i] == '(' || s[i] == '[' || s[i] == '{':
			depth++
		case s[i] == ')' || s[i] == ']' || s[i] == '}':
			depth--
		case depth == 0 && s[i:i+len(sep)] == sep:
			if sep == "=" && (i > 0 && strings.IndexByte("=!<>", s[i-1]) >= 0 || i+1 < len(s) && (s[i+1] == '=' || s[i+1] == '>')) {
				continue
			}
			return s[:i], s[i+len(sep):], true
		}
	}
	return s, "", false
}

// rewriteImp turns "a ==> b" into imp(a, b) and "a <==> b" into iff(a, b), at every depth.
func rewriteImp(s string) string {
	var out strings.Builder
	inStr := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			inStr = !inStr
		}
		if !inStr && (c == '(' || c == '[') {
			depth, e := 0, i
			str2 := false
			for ; e < len(s); e++ {
				if s[e] == '"' {
					str2 = !str2
				}
				if str2 {
					continue
				}
				if s[e] == '(' || s[e] == '[' {
					depth++
				}
				if s[e] == ')' || s[e] == ']' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			if e >= len(s) {
				out.WriteString(s[i:])
				break
			}
			out.WriteByte(c)
			parts := splitTop(s[i+1:e], ',')
			for k, p := range parts {
				if k > 0 {
					out.WriteByte(',')
				}
				out.WriteString(rewriteImp(p))
			}
			out.WriteByte(s[e])
			i = e
			continue
		}
		out.WriteByte(c)
	}
	t := out.String()
	if a, b, ok := cutTop(t, "<==>"); ok {
		return "iff(" + a + ", " + b + ")"
	}
	if a, b, ok := cutTop(t, "==>"); ok {
		return "imp(" + a + ", " + rewriteTopImp(b) + ")"
	}
	return t
}

func rewriteTopImp(t string) string {
	if a, b, ok := cutTop(t, "==>"); ok {
		return "imp(" + a + ", " + rewriteTopImp(b) + ")"
	}
	return t
}

func parseFormula(s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(strings.TrimSpace(rewriteImp(s)))
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	return e, nil
}

// bindSpecs finds the functions the contracts are for.
func bindSpecs(p *Prog) {
	for _, c := range theSpecs.cons {
		sp := p.pkgNamed(c.Pkg)
		if sp == nil {
			c.err = "package " + c.Pkg + " not found"
			continue
		}
		c.pkg = sp.Pkg
		if c.Lemma {
			for i := range c.Steps {
				s := &c.Steps[i]
				if s.lemma != nil || s.have != nil {
					continue
				}
				fp, name := sp, s.Func
				if q, rest, ok := strings.Cut(s.Func, "."); ok {
					if o := findPkg(c.pkg, q); o != nil && p.prog.Package(o) != nil && c.pkg.Scope().Lookup(q) == nil {
						fp, name = p.prog.Package(o), rest
					}
				}
				if s.fn = p.findFunc(fp, name); s.fn == nil {
					c.err = "function " + s.Func + " of " + c.Name + " not found"
				} else if len(s.fn.Params) != len(s.Args) {
					c.err = fmt.Sprintf("%s has %d parameters, its call in %s %d", s.Func, len(s.fn.Params), c.Name, len(s.Args))
				}
			}
			continue
		}
		f := p.findFunc(sp, c.Func)
		if f == nil {
			c.err = "function " + c.Name + " not found"
			continue
		}
		c.fn = f
		if len(c.Params) != len(f.Params) {
			c.err = fmt.Sprintf("%s has %d parameters, its contract %d", c.Name, len(f.Params), len(c.Params))
			continue
		}
		if c.Aspect != "" {
			if theSpecs.asp[c.Aspect] == nil {
				theSpecs.asp[c.Aspect] = map[*ssa.Function]*Contract{}
			}
			theSpecs.asp[c.Aspect][f] = c
			continue
		}
		theSpecs.byFn[f] = c
	}
}

// evaluation --------------------------------------------------------------

type evalCtx struct {
	ex    *Exec
	st    *State
	old   *State
	entry *State
	vars  map[string]SVal
	pkg   *types.Package
	fn    *ssa.Function
	k     *Term
	its   []*iterInfo // map iterations: this loop's (nil if it is none), then those of the loops around it
	outK  *Term       // iterations done by the loop around this one
	depth int
	nb    *int
}

func specErr(format string, args ...any) { panic(unsupported{"spec: " + fmt.Sprintf(format, args...)}) }

var (
	tyInt  types.Type = types.Typ[types.Int]
	tyBool types.Type = types.Typ[types.Bool]
	tyStr  types.Type = types.Typ[types.String]
)

func sv(t types.Type, c ...*Term) SVal { return SVal{t: t, c: c} }

func (c *evalCtx) with(vars map[string]SVal) *evalCtx {
	n := *c
	n.vars = map[string]SVal{}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (c *evalCtx) formula(e ast.Expr) *Term {
	v := c.eval(e)
	if len(v.c) != 1 || v.c[0].sort != "Bool" {
		specErr("not a formula: %s", exprStr(e))
	}
	t := v.c[0]
	if t.spec {
		t = c.st.emit([]*Term{t})[0]
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (c *evalCtx) bound(t types.Type) ([]*Term, *Term) {
	*c.nb++
	ls := leaves(t)
	var vs []*Term
	for _, l := range ls {
		vs = append(vs, Bound(fmt.Sprintf("q%d%s", *c.nb, l.Path), l.Sort))
	}
	return vs, nil
}

func (c *evalCtx) eval(e ast.Expr) SVal {
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 200 {
		specErr("too deep")
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			i, err := strconv.ParseInt(x.Value, 0, 64)
			if err != nil {
				specErr("%v", err)
			}
			return sv(tyInt, Int(i))
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return sv(tyStr, StrLit(s))
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(x.Value[1:], '\'')
			return sv(tyInt, Int(int64(r)))
		}
	case *ast.Ident:
		return c.ident(x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := c.vars[id.Name]; !isVar {
				if p := findPkg(c.pkg, id.Name); p != nil {
					return c.member(p, x.Sel.Name)
				}
			}
		}
		return c.field(c.eval(x.X), x.Sel.Name)
	case *ast.StarExpr:
		v := c.eval(x.X)
		pt, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			specErr("* of %s", v.t)
		}
		return sv(pt.Elem(), c.st.loadAt(c.st.resolve(v.c, pt.Elem()), pt.Elem())...)
	case *ast.UnaryExpr:
		if x.Op == token.AND { // &slice[i]: the element is not read
			ix, ok := x.X.(*ast.IndexExpr)
			if !ok {
				specErr("& of %s", exprStr(x.X))
			}
			s, i := c.eval(ix.X), c.eval(ix.Index)
			st, ok := s.t.Underlying().(*types.Slice)
			if !ok {
				specErr("& of %s", exprStr(x.X))
			}
			return sv(types.NewPointer(st.Elem()), s.c[0], i.c[0])
		}
		v := c.eval(x.X)
		switch x.Op {
		case token.NOT:
			return sv(tyBool, Not(v.c[0]))
		case token.SUB:
			return sv(v.t, Sub(Int(0), v.c[0]))
		}
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.IndexExpr:
		v := c.eval(x.X)
		i := c.eval(x.Index)
		if lf, ok := asLogicFn(v.t); ok {
			key := keyTerm(lf.k, c.st.emit(c.coerce(i, lf.k).c))
			var r []*Term
			for _, a := range v.c {
				r = append(r, Select(a, key))
			}
			return sv(lf.v, r...)
		}
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			if isByteSlice(v.t) {
				return sv(tyInt, App("sat", "Int", v.c[0], i.c[0]))
			}
			et := u.Elem()
			r := make([]*Term, len(leaves(et)))
			sc := v.c
			if sc[0].spec {
				if cr, ok := sc[0].extra.(cellRef); ok {
					n := len(r)
					if _, prom := c.st.prom[cr.id]; !prom {
						if !i.c[0].isInt() {
							// a case split over the elements of the local array
							ln := sc[1]
							if !ln.isInt() || ln.ival > 16 || ln.ival < 1 {
								specErr("index of local array")
							}
							cell := c.st.cells[cr.id]
							for k := range r {
								t := cell[(int(ln.ival)-1)*n+k]
								for j := int(ln.ival) - 2; j >= 0; j-- {
									t = Ite(Eq(i.c[0], Int(int64(j))), cell[j*n+k], t)
								}
								r[k] = t
							}
							return sv(et, r...)
						}
						copy(r, c.st.cells[cr.id][int(i.c[0].ival)*n:])
						return sv(et, r...)
					}
				}
				sc = c.st.emit(sc)
			}
			for k := range r {
				r[k] = Select(Select(c.st.heap(c.ex.objKey(et, k)), sc[0]), i.c[0])
			}
			return sv(et, r...)
		case *types.Map:
			r, _ := c.ex.mapLoad(c.st, v.t, v.c[0], c.coerce(i, u.Key()).c)
			return sv(u.Elem(), r...)
		case *types.Basic:
			return sv(tyInt, App("sat", "Int", v.c[0], i.c[0]))
		}
		specErr("index of %s", v.t)
	case *ast.CallExpr:
		return c.call(x)
	}
	specErr("expression %s", exprStr(e))
	return SVal{}
}

// coerce adapts v (perhaps the untyped nil) to type t.
func (c *evalCtx) coerce(v SVal, t types.Type) SVal {
	if v.t == nil {
		return sv(t, zeros(t)...)
	}
	return v
}

func (c *evalCtx) binary(x *ast.BinaryExpr) SVal {
	switch x.Op {
	case token.LAND:
		a := c.eval(x.X).c[0]
		if a == tFalse {
			return sv(tyBool, tFalse)
		}
		return sv(tyBool, And(a, c.eval(x.Y).c[0]))
	case token.LOR:
		a := c.eval(x.X).c[0]
		if a == tTrue {
			return sv(tyBool, tTrue)
		}
		return sv(tyBool, Or(a, c.eval(x.Y).c[0]))
	}
	a, b := c.eval(x.X), c.eval(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case a.t == nil && b.t == nil:
			r = tTrue
		case a.t == nil:
			r = c.equal(c.coerce(a, b.t), b)
		default:
			r = c.equal(a, c.coerce(b, a.t))
		}
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return sv(tyBool, r)
	}
	if len(a.c) != 1 || len(b.c) != 1 {
		specErr("operator %s in %s", x.Op, exprStr(x))
	}
	p, q := a.c[0], b.c[0]
	if p.sort == "Str" {
		switch x.Op {
		case token.ADD:
			return sv(tyStr, Cat(p, q))
		case token.LSS:
			return sv(tyBool, App("slt", "Bool", p, q))
		}
	}
	switch x.Op {
	case token.ADD:
		return sv(a.t, Add(p, q))
	case token.SUB:
		return sv(a.t, Sub(p, q))
	case token.MUL:
		return sv(a.t, Mul(p, q))
	case token.LSS:
		return sv(tyBool, Lt(p, q))
	case token.LEQ:
		return sv(tyBool, Le(p, q))
	case token.GTR:
		return sv(tyBool, Lt(q, p))
	case token.GEQ:
		return sv(tyBool, Le(q, p))
	}
	specErr("operator %s", x.Op)
	return SVal{}
}

// equal compares values; slices are compared as the same slice (or with nil).
func (c *evalCtx) equal(a, b SVal) *Term {
	if len(a.c) != len(b.c) {
		specErr("comparison of %s and %s", a.t, b.t)
	}
	if _, ok := a.t.Underlying().(*types.Slice); ok && !isByteSlice(a.t) {
		if b.c[0].isInt() && b.c[0].ival == 0 || a.c[0].isInt() && a.c[0].ival == 0 {
			return c.st.scalarEq(a.c[0], b.c[0])
		}
	}
	if isByteSlice(a.t) && b.c[0].op == "str" && b.c[1] == tTrue {
		return a.c[1]
	}
	if len(a.c) == 1 && a.c[0].sort != b.c[0].sort {
		specErr("comparison of %s and %s", a.t, b.t)
	}
	return c.st.eq(a.t, a.c, b.c)
}

func (c *evalCtx) ident(n string) SVal {
	if v, ok := c.vars[n]; ok {
		return v
	}
	switch n {
	case "nil":
		return SVal{}
	case "true":
		return sv(tyBool, tTrue)
	case "false":
		return sv(tyBool, tFalse)
	case "ITER":
		if c.k == nil {
			specErr("ITER outside a loop")
		}
		return sv(tyInt, c.k)
	case "OUTERITER":
		if c.outK == nil {
			specErr("OUTERITER outside a nested loop")
		}
		return sv(tyInt, c.outK)
	}
	if v, ok := c.st.ghost["g:"+n]; ok && c.ex.con != nil {
		for _, g := range c.ex.con.Ghosts {
			if g.Name == n {
				return sv(g.typ, v...)
			}
		}
	}
	if c.pkg != nil {
		if c.pkg.Scope().Lookup(n) != nil {
			return c.member(c.pkg, n)
		}
	}
	specErr("unknown name %s", n)
	return SVal{}
}

// findPkg finds the package called name among those of the program.
func findPkg(from *types.Package, name string) *types.Package {
	if from != nil {
		for _, p := range from.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	if theProg == nil {
		return nil
	}
	if name == "catkincfg" {
		return theProg.byPkg[modPath+"/internal/gen/config/catkin"].Pkg
	}
	var best *types.Package
	for _, p := range theProg.byPkg {
		if p.Pkg.Name() == name && (best == nil || p.Pkg.Path() < best.Path()) {
			best = p.Pkg
		}
	}
	if best == nil {
		for _, p := range theProg.prog.AllPackages() {
			if p.Pkg.Name() == name && (best == nil || len(p.Pkg.Path()) < len(best.Path())) {
				best = p.Pkg
			}
		}
	}
	return best
}

func (c *evalCtx) member(p *types.Package, n string) SVal {
	switch o := p.Scope().Lookup(n).(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Bool:
			return sv(o.Type(), BoolT(constant.BoolVal(o.Val())))
		case constant.Int:
			return sv(o.Type(), intConst(o.Val()))
		case constant.String:
			return sv(o.Type(), StrLit(constant.StringVal(o.Val())))
		}
	case *types.Var:
		if sp := theProg.prog.Package(p); sp != nil {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				return sv(o.Type(), c.ex.globalVal(g)...)
			}
		}
	}
	specErr("%s.%s", p.Name(), n)
	return SVal{}
}

// field reads v.name, through pointers and embedded structs.
func (c *evalCtx) field(v SVal, name string) SVal {
	if v.t == nil {
		specErr("field %s of nil", name)
	}
	obj, idx, _ := types.LookupFieldOrMethod(v.t, true, c.pkgOf(v.t), name)
	if _, ok := obj.(*types.Var); !ok {
		// The type may be declared as one whose fields belong to another package.
		idx = nil
		if st, ok := v.t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					idx = []int{i}
				}
			}
		}
		if idx == nil {
			specErr("no field %s in %s", name, v.t)
		}
	}
	for _, i := range idx {
		if pt, ok := v.t.Underlying().(*types.Pointer); ok {
			a := c.st.resolve(v.c, pt.Elem())
			off, ft := fieldOff(pt.Elem(), i)
			a.off += off
			v = sv(ft, c.st.loadAt(a, ft)...)
			continue
		}
		off, ft := fieldOff(v.t, i)
		v = sv(ft, v.c[off:off+len(leaves(ft))]...)
	}
	return v
}

func (c *evalCtx) pkgOf(t types.Type) *types.Package {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := types.Unalias(t).(*types.Named); !named {
			t = p.Elem()
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return c.pkg
}

func (c *evalCtx) typeExpr(s string) types.Type {
	e, err := parser.ParseExpr(s)
	if err != nil {
		specErr("type %s: %v", s, err)
	}
	return c.typ(e)
}

func (c *evalCtx) typ(e ast.Expr) types.Type {
	switch x := e.(type) {
	case *ast.Ident:
		if c.fn != nil {
			if o := c.fn.Origin(); o != nil {
				for i := 0; i < o.TypeParams().Len() && i < len(c.fn.TypeArgs()); i++ {
					if o.TypeParams().At(i).Obj().Name() == x.Name {
						return c.fn.TypeArgs()[i]
					}
				}
			}
			for _, tp := range typeParamsOf(c.fn) {
				if tp.Obj().Name() == x.Name {
					return tp
				}
			}
		}
		if c.pkg != nil {
			if tn, ok := c.pkg.Scope().Lookup(x.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if tn, ok := types.Universe.Lookup(x.Name).(*types.TypeName); ok {
			return tn.Type()
		}
	case *ast.SelectorExpr:
		if p := findPkg(c.pkg, x.X.(*ast.Ident).Name); p != nil {
			if tn, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(c.typ(x.X))
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(c.typ(x.Elt))
		}
	case *ast.IndexExpr: // an instance of a generic type
		if n, ok := c.typ(x.X).(*types.Named); ok && n.TypeParams().Len() == 1 {
			if t, err := types.Instantiate(nil, n, []types.Type{c.typ(x.Index)}, false); err == nil {
				return t
			}
		}
	case *ast.IndexListExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Name == "fn" && len(x.Indices) == 2 {
			return fnType(c.typ(x.Indices[0]), c.typ(x.Indices[1]))
		}
	case *ast.MapType:
		return types.NewMap(c.typ(x.Key), c.typ(x.Value))
	case *ast.ParenExpr:
		return c.typ(x.X)
	}
	specErr("unknown type %s", exprStr(e))
	return nil
}

func typeParamsOf(f *ssa.Function) []*types.TypeParam {
	var r []*types.TypeParam
	sig := f.Signature
	for _, l := range []*types.TypeParamList{sig.TypeParams(), sig.RecvTypeParams()} {
		for i := 0; i < l.Len(); i++ {
			r = append(r, l.At(i))
		}
	}
	return r
}

func (c *evalCtx) call(x *ast.CallExpr) SVal {
	name := ""
	switch f := x.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, isVar := c.vars[id.Name]; !isVar {
				if p := findPkg(c.pkg, id.Name); p != nil {
					return c.goCall(p, f.Sel.Name, x.Args)
				}
			}
		}
		specErr("call of %s", exprStr(x.Fun))
	default:
		specErr("call of %s", exprStr(x.Fun))
	}
	need := func(n int) {
		if len(x.Args) != n {
			specErr("%s needs %d arguments", name, n)
		}
	}
	switch name {
	case "imp":
		need(2)
		a := c.eval(x.Args[0]).c[0]
		if a == tFalse {
			return sv(tyBool, tTrue)
		}
		return sv(tyBool, Implies(a, c.eval(x.Args[1]).c[0]))
	case "iff":
		need(2)
		return sv(tyBool, Eq(c.eval(x.Args[0]).c[0], c.eval(x.Args[1]).c[0]))
	case "ite":
		need(3)
		g := c.eval(x.Args[0]).c[0]
		a, b := c.eval(x.Args[1]), c.eval(x.Args[2])
		if a.t == nil {
			a = c.coerce(a, b.t)
		}
		b = c.coerce(b, a.t)
		r := make([]*Term, len(a.c))
		for i := range r {
			r[i] = Ite(g, a.c[i], b.c[i])
		}
		return sv(a.t, r...)
	case "old":
		need(1)
		n := *c
		n.st = c.old
		return n.eval(x.Args[0])
	case "called":
		need(1)
		v, ok := c.st.ghost["called:"+exprStr(x.Args[0])]
		if !ok {
			specErr("called(%s) without a clause at it", exprStr(x.Args[0]))
		}
		return sv(tyBool, v...)
	case "entry":
		need(1)
		if c.entry == nil {
			specErr("entry outside a loop")
		}
		n := *c
		n.st = c.entry
		return n.eval(x.Args[0])
	case "len":
		need(1)
		v := c.eval(x.Args[0])
		switch v.t.Underlying().(type) {
		case *types.Slice:
			if isByteSlice(v.t) {
				return sv(tyInt, slen(v.c[0]))
			}
			return sv(tyInt, v.c[1])
		case *types.Map:
			return sv(tyInt, Select(c.st.heap(c.ex.cardKey(v.t)), v.c[0]))
		case *types.Basic:
			return sv(tyInt, slen(v.c[0]))
		}
	case "string":
		need(1)
		v := c.eval(x.Args[0])
		return sv(tyStr, v.c[0])
	case "has":
		need(2)
		m := c.eval(x.Args[0])
		kt, _ := mapTypes(m.t)
		_, h := c.ex.mapLoad(c.st, m.t, m.c[0], c.coerce(c.eval(x.Args[1]), kt).c)
		return sv(tyBool, h)
	case "same":
		need(2)
		a, b := c.eval(x.Args[0]), c.eval(x.Args[1])
		b = c.coerce(b, a.t)
		var cs []*Term
		for i := range a.c {
			cs = append(cs, c.st.scalarEq(a.c[i], b.c[i]))
		}
		return sv(tyBool, And(cs...))
	case "fresh": // allocated by this function
		c.notRec()
		need(1)
		v := c.eval(x.Args[0])
		b := c.st.emit(v.c)
		i := 0
		if _, ok := v.t.Underlying().(*types.Interface); ok {
			i = 1
		}
		return sv(tyBool, Le(c.old.alloc, b[i]))
	case "alloced": // allocated now
		c.notRec()
		need(1)
		v := c.eval(x.Args[0])
		b := c.st.emit(v.c)
		return sv(tyBool, And(Le(Int(1), b[0]), Lt(b[0], c.st.alloc)))
	case "base":
		need(1)
		v := c.st.emit(c.eval(x.Args[0]).c)
		return sv(tyInt, v[0])
	case "ALLOC0":
		return sv(tyInt, c.old.alloc)
	case "forall", "exists":
		need(4)
		n := x.Args[0].(*ast.Ident).Name
		lo, hi := c.eval(x.Args[1]).c[0], c.eval(x.Args[2]).c[0]
		*c.nb++
		b := Bound(fmt.Sprintf("%s_%d", n, *c.nb), "Int")
		body := c.with(map[string]SVal{n: sv(tyInt, b)}).formula(x.Args[3])
		rng := And(Le(lo, b), Lt(b, hi))
		if name == "forall" {
			return sv(tyBool, Forall([]*Term{b}, Implies(rng, body)))
		}
		return sv(tyBool, Exists([]*Term{b}, And(rng, body)))
	case "forallkey", "existskey":
		need(3)
		n := x.Args[0].(*ast.Ident).Name
		m := c.eval(x.Args[1])
		kt, _ := mapTypes(m.t)
		*c.nb++
		b := Bound(fmt.Sprintf("%s_%d", n, *c.nb), keySort(kt))
		kv := sv(kt, unkey(kt, b)...)
		body := c.with(map[string]SVal{n: kv}).formula(x.Args[2])
		in := Select(Select(c.st.heap(c.ex.domKey(m.t)), m.c[0]), b)
		if name == "forallkey" {
			return sv(tyBool, Forall([]*Term{b}, Implies(in, body)))
		}
		return sv(tyBool, Exists([]*Term{b}, And(in, body)))
	case "all", "some": // all(x, T, body)
		need(3)
		n := x.Args[0].(*ast.Ident).Name
		t := c.typ(x.Args[1])
		vs, _ := c.bound(t)
		body := c.with(map[string]SVal{n: sv(t, vs...)}).formula(x.Args[2])
		if name == "all" {
			return sv(tyBool, Forall(vs, body))
		}
		return sv(tyBool, Exists(vs, body))
	case "DONE", "OUTERDONE": // DONE(key): the running (or the enclosing) map iteration has delivered key
		need(1)
		v := c.eval(x.Args[0])
		it := (*iterInfo)(nil)
		if name == "DONE" {
			it = c.iterator()
		} else {
			it = c.outerIterator()
		}
		kt, _ := mapTypes(it.typ)
		return sv(tyBool, Select(c.st.cells[it.cell][0], keyTerm(kt, c.st.emit(v.c))))
	case "ITERATED": // the map being iterated
		it := c.iterator()
		return sv(it.typ, it.m)
	case "upd": // upd(g, k, v): logic function g, but with value v for k
		need(3)
		g := c.eval(x.Args[0])
		lf, ok := asLogicFn(g.t)
		if !ok {
			specErr("upd of %s", g.t)
		}
		key := keyTerm(lf.k, c.st.emit(c.coerce(c.eval(x.Args[1]), lf.k).c))
		v := c.st.emit(c.coerce(c.eval(x.Args[2]), lf.v).c)
		var r []*Term
		for i, a := range g.c {
			r = append(r, Store(a, key, v[i]))
		}
		return sv(g.t, r...)
	case "always": // always(K, v): the logic function that is v everywhere
		need(2)
		kt := c.typ(x.Args[0])
		v := c.eval(x.Args[1])
		var r []*Term
		for _, t := range c.st.emit(v.c) {
			r = append(r, ConstArr(keySort(kt), t))
		}
		return sv(fnType(kt, v.t), r...)
	case "lam": // lam(i, K, e): the logic function with value e for i
		need(3)
		var kts []types.Type
		var bs []*Term
		vars := map[string]SVal{}
		body := ast.Expr(x)
		for { // lam(i, K, lam(j, L, e)) at once: e can speak of both
			l, ok := body.(*ast.CallExpr)
			if !ok || len(l.Args) != 3 {
				break
			}
			if f, ok := l.Fun.(*ast.Ident); !ok || f.Name != "lam" {
				break
			}
			n, kt := l.Args[0].(*ast.Ident).Name, c.typ(l.Args[1])
			*c.nb++
			bd := Bound(fmt.Sprintf("%s_%d", n, *c.nb), keySort(kt))
			vars[n] = sv(kt, unkey(kt, bd)...)
			kts, bs, body = append(kts, kt), append(bs, bd), l.Args[2]
		}
		v := c.with(vars).eval(body)
		var r []*Term
		for _, t := range v.c {
			if t.bnd && hasFree(Forall(bs, Eq(t, t))) {
				specErr("lam under a quantifier")
			}
			so := t.sort
			for i := len(bs) - 1; i >= 0; i-- {
				so = arr(bs[i].sort, so)
			}
			a := Fresh("lam", so)
			at := a
			for _, bd := range bs {
				at = Select(at, bd)
			}
			c.st.assume(Forall(bs, Eq(at, t), []*Term{at}))
			r = append(r, a)
		}
		ft := v.t
		for i := len(kts) - 1; i >= 0; i-- {
			ft = fnType(kts[i], ft)
		}
		return sv(ft, r...)
	case "choose": // choose(x, T, f): some x with f, if there is one
		need(3)
		n := x.Args[0].(*ast.Ident).Name
		t := c.typ(x.Args[1])
		vs, _ := c.bound(t)
		body := c.with(map[string]SVal{n: sv(t, vs...)}).formula(x.Args[2])
		m := map[*Term]*Term{}
		var r []*Term
		for _, b := range vs {
			f := Fresh("choice", b.sort)
			m[b] = f
			r = append(r, f)
		}
		e := Exists(vs, body)
		if e.bnd {
			specErr("choose under a quantifier")
		}
		c.st.assume(Implies(e, Subst(body, m)))
		return sv(t, r...)
	case "dyn": // dyn(e, T): e's dynamic type is T
		need(2)
		v := c.eval(x.Args[0])
		return sv(tyBool, Eq(v.c[0], tagOf(c.typ(x.Args[1]))))
	case "as": // as(e, T): the T in interface e
		need(2)
		v := c.eval(x.Args[0])
		t := c.typ(x.Args[1])
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return sv(t, v.c[1:]...)
		}
		if b, ok := v.c[1].extra.(boxRef); ok && types.Identical(b.typ, t) {
			return sv(t, v.c[1].args...)
		}
		var r []*Term
		for i, l := range leaves(t) {
			r = append(r, App(fmt.Sprintf("unbox_%s_%d", typeKey(t), i), l.Sort, v.c[1]))
		}
		return sv(t, r...)
	case "apply": // apply(f, args...): the value of pure function value f
		f := c.eval(x.Args[0])
		sig := f.t.Underlying().(*types.Signature)
		var args [][]*Term
		for i, a := range x.Args[1:] {
			args = append(args, c.coerce(c.eval(a), sig.Params().At(i).Type()).c)
		}
		r := c.st.applyFn(sig, f.c[0], args)
		return sv(sig.Results(), r...)
	case "nth": // nth(tuple, i)
		need(2)
		v := c.eval(x.Args[0])
		tu := v.t.(*types.Tuple)
		i := int(c.eval(x.Args[1]).c[0].ival)
		off := tupleOff(tu, i)
		t := tu.At(i).Type()
		return sv(t, v.c[off:off+len(leaves(t))]...)
	case "zero":
		need(1)
		t := c.typ(x.Args[0])
		return sv(t, zeros(t)...)
	case "errIs":
		need(2)
		a, b := c.eval(x.Args[0]), c.eval(x.Args[1])
		return sv(tyBool, App("errIs", "Bool", c.st.emit([]*Term{a.c[1]})[0], c.st.emit([]*Term{b.c[1]})[0]))
	case "trim":
		need(1)
		return sv(tyStr, App("trim", "Str", c.eval(x.Args[0]).c[0]))
	case "godiv", "gomod":
		need(2)
		return sv(tyInt, App(name, "Int", c.eval(x.Args[0]).c[0], c.eval(x.Args[1]).c[0]))
	case "fn": // fn("name", result example type, args): an uninterpreted function the verifier knows
		nm := c.eval(x.Args[0]).c[0].name
		t := c.typ(x.Args[1])
		var as []*Term
		for _, a := range x.Args[2:] {
			as = append(as, c.st.emit(c.eval(a).c)...)
		}
		var r []*Term
		for i, l := range leaves(t) {
			n := nm
			if i > 0 {
				n = fmt.Sprintf("%s.%d", nm, i)
			}
			r = append(r, App(n, l.Sort, as...))
		}
		return sv(t, r...)
	case "ssub":
		need(3)
		return sv(tyStr, ssub(c.eval(x.Args[0]).c[0], c.eval(x.Args[1]).c[0], c.eval(x.Args[2]).c[0]))
	case "runeCount":
		return sv(tyInt, runeCount(c.eval(x.Args[0]).c[0]))
	case "runeAt":
		return sv(tyInt, App("runeat", "Int", c.eval(x.Args[0]).c[0], c.eval(x.Args[1]).c[0]))
	case "runeStr":
		return sv(tyStr, runeStr(c.eval(x.Args[0]).c[0]))
	}
	if f, ok := theSpecs.fns[name]; ok {
		if len(f.Params) != len(x.Args) {
			specErr("%s takes %d arguments", name, len(f.Params))
		}
		vars := map[string]SVal{}
		var args []SVal
		for i, p := range f.Params {
			v := c.eval(x.Args[i])
			if v.t == nil && f.PTypes[i] != "" {
				v = c.coerce(v, (&evalCtx{pkg: c.pkgFor(f), fn: c.fn}).typeExpr(f.PTypes[i]))
			}
			vars[p] = v
			args = append(args, v)
		}
		if f.Rec {
			return c.recApp(f, args)
		}
		n := *c
		n.vars = vars
		n.pkg = c.pkgFor(f)
		n.depth += 5
		return n.eval(f.Body)
	}
	specErr("unknown function %s", name)
	return SVal{}
}

func (c *evalCtx) pkgFor(f *SpecFn) *types.Package {
	if p := theProg.pkgNamed(f.pkg); p != nil {
		return p.Pkg
	}
	return c.pkg
}

// iterator is the innermost running map iteration.
// headIter is the map iteration that the loop with header b drives, if any.
func headIter(st *State, d int, b *ssa.BasicBlock) *iterInfo {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if v := st.env[d].vals[n.Iter]; len(v) == 1 {
				if it, ok := v[0].extra.(*iterInfo); ok && !it.str {
					return it
				}
			}
		}
	}
	return nil
}

func (c *evalCtx) outerIterator() *iterInfo {
	if len(c.its) < 2 {
		specErr("no enclosing map iteration")
	}
	return c.its[1]
}

func (c *evalCtx) iterator() *iterInfo {
	if c.its != nil {
		if c.its[0] == nil {
			specErr("not a map iteration")
		}
		return c.its[0]
	}
	for i := len(c.st.env) - 1; i >= 0; i-- {
		var best *iterInfo
		for _, v := range c.st.env[i].vals {
			if len(v) == 1 {
				if it, ok := v[0].extra.(*iterInfo); ok && !it.str && (best == nil || it.cell > best.cell) {
					best = it
				}
			}
		}
		if best != nil {
			return best
		}
	}
	specErr("no map iteration")
	return nil
}

// goCall evaluates a call of a pure library function in a specification.
func (c *evalCtx) goCall(p *types.Package, name string, args []ast.Expr) SVal {
	fo, ok := p.Scope().Lookup(name).(*types.Func)
	if !ok {
		if tn, ok := p.Scope().Lookup(name).(*types.TypeName); ok && len(args) == 1 { // a conversion
			return sv(tn.Type(), c.eval(args[0]).c...)
		}
		specErr("%s.%s", p.Name(), name)
	}
	sig := fo.Type().(*types.Signature)
	var as [][]*Term
	for i, a := range args {
		as = append(as, c.coerce(c.eval(a), sig.Params().At(i).Type()).c)
	}
	r, ok := pureExtern(c.ex, c.st, p.Path()+"."+name, sig, as)
	if !ok {
		specErr("%s.%s is not known to be pure", p.Name(), name)
	}
	if sig.Results().Len() == 1 {
		return sv(sig.Results().At(0).Type(), r...)
	}
	return sv(sig.Results(), r...)
}

// contexts ----------------------------------------------------------------

// specCtx makes the context of con's clauses: params at entry, results if given.
func (ex *Exec) specCtx(con *Contract, f *ssa.Function, st, old *State, args [][]*Term, res []*Term) *evalCtx {
	c := &evalCtx{ex: ex, st: st, old: old, vars: map[string]SVal{}, pkg: con.pkg, fn: f, nb: &ex.nb}
	for i, p := range con.Params {
		if i < len(f.Params) {
			c.vars[p] = sv(f.Params[i].Type(), args[i]...)
		}
	}
	if res != nil || f.Signature.Results().Len() > 0 && st != old {
		rs := f.Signature.Results()
		off := 0
		for i := 0; i < rs.Len(); i++ {
			n := fmt.Sprintf("r%d", i)
			if i < len(con.Results) {
				n = con.Results[i]
			} else if rs.Len() == 1 {
				n = "result"
			}
			k := len(leaves(rs.At(i).Type()))
			if res != nil {
				c.vars[n] = sv(rs.At(i).Type(), res[off:off+k]...)
			}
			off += k
		}
	}
	return c
}

// contractCands instantiates a contract's loop invariant for the loop at hand.
func (ex *Exec) contractCands(iv *Clause, entry, h *State, d int, lp *loopInfo, m *loopMods) []*candidate {
	base := &evalCtx{ex: ex, st: h, old: ex.entry, entry: entry, vars: map[string]SVal{}, pkg: ex.con.pkg, fn: ex.fn, nb: &ex.nb}
	for n, v := range ex.params {
		base.vars[n] = v
	}
	base.its = []*iterInfo{headIter(h, d, lp.header)}
	for fi := d; fi >= 0; fi-- {
		ls := h.env[fi].loops
		for i := len(ls) - 1; i >= 0; i-- {
			if base.outK == nil {
				base.outK = ls[i].k
			}
			if it := headIter(h, fi, ls[i].loop.header); it != nil {
				base.its = append(base.its, it)
			}
		}
	}
	// where a metavariable can point to: values of the right type in the frames, and locals
	type place struct {
		name string
		get  func(st *State) ([]*Term, bool)
		now  []*Term
		hot  bool
	}
	var places [][]place
	for _, mv := range iv.Vars {
		var ps []place
		var t types.Type
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); !ok {
						panic(r)
					} else if os.Getenv("GOVER_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, u.what)
					}
				}
			}()
			t = base.typeExpr(mv.typ)
		}()
		if t == nil {
			return nil
		}
		seen := map[string]bool{}
		addPlace := func(p place) {
			key := ""
			for _, x := range p.now {
				key += fmt.Sprint(x.id, ",")
			}
			if !seen[key] {
				seen[key] = true
				ps = append(ps, p)
			}
		}
		for fi := d; fi >= 0; fi-- {
			fi := fi
			var vs []ssa.Value
			for v := range h.env[fi].vals {
				if v.Type() != nil && !invalidT(v.Type()) && types.Identical(v.Type(), t) {
					vs = append(vs, v)
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, v := range vs {
				v := v
				isPhi := false
				if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.header {
					isPhi = true
				}
				if _, isC := v.(*ssa.Const); isC {
					continue
				}
				if hasSpec(h.env[fi].vals[v]) {
					if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
						continue
					}
				}
				addPlace(place{v.Name(), func(st *State) ([]*Term, bool) { x, ok := st.env[fi].vals[v]; return x, ok }, h.env[fi].vals[v], isPhi})
			}
		}
		var ids []int
		for id := range h.cells {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			id := id
			if ex.cellType[id] != nil && types.Identical(ex.cellType[id], t) {
				addPlace(place{fmt.Sprintf("local%d", id), func(st *State) ([]*Term, bool) { x, ok := st.cells[id]; return x, ok }, h.cells[id], m.cells[id]})
			}
			// a field of a local structure
			if s, ok := structOf(ex.cellType[id]); ok {
				for fi := 0; fi < s.NumFields(); fi++ {
					if types.Identical(s.Field(fi).Type(), t) {
						off, ft := fieldOff(ex.cellType[id], fi)
						n := len(leaves(ft))
						addPlace(place{fmt.Sprintf("local%d.%s", id, s.Field(fi).Name()), func(st *State) ([]*Term, bool) {
							x, ok := st.cells[id]
							if !ok {
								return nil, false
							}
							return x[off : off+n], true
						}, h.cells[id][off : off+n], m.cells[id]})
					}
				}
			}
		}
		var pids []int
		for id := range h.prom {
			pids = append(pids, id)
		}
		sort.Ints(pids)
		for _, id := range pids {
			id := id
			if ex.cellType[id] != nil && types.Identical(ex.cellType[id], t) {
				get := func(st *State) ([]*Term, bool) {
					b, ok := st.prom[id]
					if !ok {
						return nil, false
					}
					return st.loadAt(addr{cell: -1, root: t, b: b, i: Int(0)}, t), true
				}
				now, _ := get(h)
				addPlace(place{fmt.Sprintf("var%d", id), get, now, true})
			}
		}
		// values the loop changes are the likelier ones
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].hot && !ps[j].hot })
		if len(ps) > 8 {
			ps = ps[:8]
		}
		places = append(places, ps)
	}
	var out []*candidate
	var pick func(i int, sel []place)
	pick = func(i int, sel []place) {
		if len(out) > 40 {
			return
		}
		if i == len(iv.Vars) {
			sel := append([]place(nil), sel...)
			name := "inv " + iv.Name
			for j, s := range sel {
				name += fmt.Sprintf(" %s=%s", iv.Vars[j].name, s.name)
			}
			var ts []types.Type
			for _, mv := range iv.Vars {
				ts = append(ts, base.typeExpr(mv.typ))
			}
			out = append(out, &candidate{name: name, at: func(st *State, k *Term) *Term {
				c := *base
				c.st, c.k = st, k
				vars := map[string]SVal{}
				for j, s := range sel {
					v, ok := s.get(st)
					if !ok {
						return nil
					}
					vars[iv.Vars[j].name] = sv(ts[j], v...)
				}
				return c.with(vars).formula(iv.Expr)
			}})
			return
		}
		for _, p := range places[i] {
			dup := false
			for j, s := range sel {
				if iv.Vars[j].typ == iv.Vars[i].typ && s.name == p.name {
					dup = true
				}
			}
			if !dup {
				pick(i+1, append(sel, p))
			}
		}
	}
	pick(0, nil)
	return out
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil || opaqueNamed(t) {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// notRec rejects what a recursive function may not depend on.
func (c *evalCtx) notRec() {
	if c.st != nil && c.st.alloc == recAlloc {
		specErr("allocation in a recursive function")
	}
}
