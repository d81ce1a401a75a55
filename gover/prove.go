package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// FuncResult is the outcome for one contract.
type FuncResult struct {
	con       *Contract
	ex        *Exec
	err       string
	dead      map[*Term]bool
	vac       string
	secs      float64
	live      int
	deadExits []string
	exits     int
	dropped   int
}

// ProofResult is the outcome for one property.
type ProofResult struct {
	Claimed bool
	prop    string
	funcs   []*FuncResult
	notes   []string
	trust   map[string]bool
	wall    float64
}

// findInput says whether the bounded harness shows a violation.
var findInput func() bool

// proveContract generates and decides the obligations of one contract.
func proveContract(p *Prog, c *Contract) *FuncResult {
	start := time.Now()
	if h := hints[hintKey(c)]; h != nil {
		r := proveWith(p, c, h)
		if r.err == "" && r.vac == "" && len(r.failed()) == 0 {
			return r
		}
		if r.err == "" && findInput != nil && findInput() {
			return r // there is a failing input: no need for more of the solvers' time
		}
		again := proveWith(p, c, nil)
		again.secs = time.Since(start).Seconds()
		if len(r.failed()) < len(again.failed()) { // out of time
			return r
		}
		return again
	}
	return proveWith(p, c, nil)
}

func proveWith(p *Prog, c *Contract, h *hint) *FuncResult {
	start := time.Now()
	r := &FuncResult{con: c}
	ex := newExec(p, c)
	ex.hint = h
	r.ex = ex
	defer func() { r.secs = time.Since(start).Seconds() }()
	if err := ex.run(); err != nil {
		r.err = err.Error()
		return r
	}
	ex.nameObls()
	r.dead = ex.solve()
	if len(r.failed()) > 0 && h == nil && (findInput == nil || !findInput()) {
		ex.retry(r.dead)
	}
	v, n := ex.vacuous(r.dead)
	r.live, r.exits, r.deadExits = n, len(ex.exitPCs), ex.deadExits
	if v && len(r.failed()) == 0 {
		r.vac = "no exit of the function is reachable under its contract"
	}
	return r
}

func (r *FuncResult) failed() []*Obl {
	var f []*Obl
	for _, o := range r.ex.obls {
		if o.cand == nil && o.Kind != "unsupported" && o.Status != "discharged" {
			f = append(f, o)
		}
	}
	return f
}

func (r *FuncResult) outside() []string {
	var u []string
	if r.err != "" {
		u = append(u, r.con.Name+": "+r.err)
	}
	seen := map[string]bool{}
	for _, o := range r.ex.obls {
		if o.Kind == "unsupported" && o.Status != "discharged" {
			s := r.con.Name + ": " + o.Name + " " + o.Pos
			if !seen[s] {
				seen[s] = true
				u = append(u, s)
			}
		}
	}
	if r.vac != "" {
		u = append(u, r.con.Name+": "+r.vac)
	}
	return u
}

func prove(prop, tier, tmp string) *ProofResult {
	start := time.Now()
	scratchDir = filepath.Join(tmp, "smt")
	_ = os.MkdirAll(scratchDir, 0o755)
	pr := &ProofResult{prop: prop, trust: map[string]bool{}}
	defer func() { pr.wall = time.Since(start).Seconds() }()
	if err := parseSpecs(filepath.Join(verifDir, "contracts")); err != nil {
		pr.notes = append(pr.notes, "contracts: "+err.Error())
		return pr
	}
	any := false
	for _, c := range theSpecs.cons {
		any = any || c.hasProp(prop)
	}
	if !any {
		return pr
	}
	pr.Claimed = true
	p, err := load(repoDir, nil)
	if err != nil {
		pr.notes = append(pr.notes, "the code does not load: "+err.Error())
		return pr
	}
	theProg = p
	bindSpecs(p)
	loadHints()
	done := map[*Contract]bool{}
	var queue []*Contract
	for _, c := range theSpecs.cons {
		if c.hasProp(prop) {
			queue = append(queue, c)
		}
	}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		if done[c] {
			continue
		}
		done[c] = true
		if c.err != "" {
			pr.notes = append(pr.notes, c.err)
			continue
		}
		if c.Trusted {
			pr.trust["assumed contract: "+c.Name] = true
			continue
		}
		if c.Inline {
			continue
		}
		r := proveContract(p, c)
		pr.funcs = append(pr.funcs, r)
		for t := range r.ex.trusted {
			pr.trust[t] = true
		}
		var us []*Contract
		for u := range r.ex.used {
			us = append(us, u)
		}
		sort.Slice(us, func(i, j int) bool { return us[i].Name < us[j].Name })
		queue = append(queue, us...)
	}
	return pr
}

func (p *ProofResult) failedObligations() []Obl {
	if p == nil {
		return nil
	}
	var r []Obl
	for _, f := range p.funcs {
		for _, o := range f.failed() {
			x := *o
			x.Detail = describe(o)
			x.Name = fmt.Sprintf("%s %s: %s", o.Func, o.Kind, o.Name)
			if o.Pos != "" {
				x.Name += " at " + o.Pos
			}
			r = append(r, x)
		}
	}
	return r
}

func describe(o *Obl) string {
	g := o.Goal.String()
	if len(g) > 1500 {
		g = g[:1500] + "..."
	}
	return fmt.Sprintf("%s; path:%s; goal: %s", o.Detail, o.Trail, g)
}

func (p *ProofResult) total() int {
	n := 0
	for _, f := range p.funcs {
		for _, o := range f.ex.obls {
			if o.cand == nil && (o.Kind != "unsupported" || o.Status == "discharged") {
				n++
			} else if o.cand != nil && !f.dead[o.cand] {
				n++
			}
		}
	}
	return n
}

func (p *ProofResult) discharged() int {
	n := 0
	for _, f := range p.funcs {
		for _, o := range f.ex.obls {
			if o.Status == "discharged" && (o.cand == nil || !f.dead[o.cand]) {
				n++
			}
		}
	}
	return n
}

func (p *ProofResult) summary() string {
	if p == nil || !p.Claimed {
		return "no proof"
	}
	s := fmt.Sprintf("%d of %d obligations discharged in %d functions (%.1fs)", p.discharged(), p.total(), len(p.funcs), p.wall)
	if u := p.unsupported(); len(u) > 0 {
		s += fmt.Sprintf("; outside the verifier: %d (%s)", len(u), u[0])
	}
	return s
}

func (p *ProofResult) trusted() []string {
	r := []string{"gover's translation of Go SSA (golang.org/x/tools/go/ssa) to verification conditions", "z3 " + z3Bin + " and cvc5"}
	var ts []string
	for t := range p.trust {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	return append(r, ts...)
}

func (p *ProofResult) functions() any {
	var r []map[string]any
	for _, f := range p.funcs {
		n, d, kept := 0, 0, 0
		for _, o := range f.ex.obls {
			if o.cand != nil {
				if !f.dead[o.cand] {
					kept++
				}
				continue
			}
			n++
			if o.Status == "discharged" {
				d++
			}
		}
		m := map[string]any{"function": f.con.Name, "contract": fmt.Sprintf("contracts/%s:%d", f.con.File, f.con.Line), "obligations": n, "discharged": d,
			"invariant_obligations_discharged": kept, "seconds": f.secs}
		r = append(r, m)
	}
	return r
}

func (p *ProofResult) backends() any {
	m := map[string]int{}
	for _, f := range p.funcs {
		for _, o := range f.ex.obls {
			if o.Status == "discharged" && (o.cand == nil || !f.dead[o.cand]) {
				m[o.Backend]++
			}
		}
	}
	return m
}

func (p *ProofResult) solverTime() any {
	t := 0.0
	for _, s := range solverSecs {
		t += s
	}
	return t
}

func (p *ProofResult) vacuity() any {
	var r []string
	for _, f := range p.funcs {
		r = append(r, fmt.Sprintf("%s: %d of %d exit paths examined not refutable", f.con.Name, f.live, f.exits))
	}
	return r
}

func (p *ProofResult) unsupported() []string {
	if p == nil {
		return nil
	}
	r := append([]string(nil), p.notes...)
	for _, f := range p.funcs {
		r = append(r, f.outside()...)
	}
	return r
}

func (p *ProofResult) assumptions() []string {
	r := []string{
		"machine integers are treated as mathematical integers (no overflow); allocation never fails and lengths fit",
		"values stored in interfaces of the module have dynamic types declared in the module (closed world), pointers non-nil",
		"distinct parameters may alias unless a contract says otherwise; no other goroutine touches the memory",
		"termination is not proved",
	}
	for t := range p.trust {
		if strings.HasPrefix(t, "assumed") {
			r = append(r, t)
		}
	}
	return r
}

// proveMain is the development command: prove [-repo R] [-verif V] [-f func] [-v] [-keep dir] [property...]
func proveMain(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	fs.StringVar(&repoDir, "repo", repoDir, "")
	fs.StringVar(&verifDir, "verif", verifDir, "")
	fn := fs.String("f", "", "only contracts whose name contains this")
	verbose := fs.Bool("v", false, "")
	keep := fs.String("keep", "", "keep queries here")
	only := fs.String("only", "", "dump queries of obligations whose name contains this")
	fs.StringVar(&dumpName, "dump", "", "dump undecided queries whose name contains this")
	learn := fs.Bool("learn", false, "write the hints")
	noHints := fs.Bool("nohints", false, "")
	_ = fs.Parse(args)
	useHints = !*noHints
	tmp, _ := os.MkdirTemp("", "gover")
	defer os.RemoveAll(tmp)
	scratchDir = tmp
	if *keep != "" {
		keepQueries = true
		scratchDir = *keep
		_ = os.MkdirAll(*keep, 0o755)
	}
	if err := parseSpecs(filepath.Join(verifDir, "contracts")); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	p, err := load(repoDir, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	theProg = p
	bindSpecs(p)
	loadHints()
	want := map[string]bool{}
	for _, a := range fs.Args() {
		want[a] = true
	}
	bad := 0
	for _, c := range theSpecs.cons {
		if *fn != "" && !strings.Contains(c.Name, *fn) {
			continue
		}
		if len(want) > 0 {
			hit := false
			for _, q := range c.Props {
				hit = hit || want[q]
			}
			if !hit {
				continue
			}
		}
		if c.err != "" {
			fmt.Println("NOT BOUND:", c.err)
			bad++
			continue
		}
		if c.Trusted || c.Inline {
			continue
		}
		r := proveContract(p, c)
		if *learn && len(r.failed()) == 0 && r.err == "" {
			h := r.ex.learn(r.dead)
			if r2 := proveWith(p, c, h); len(r2.failed()) == 0 && r2.err == "" {
				h2 := r2.ex.learn(r2.dead)
				h2.dead = nil
				hints[hintKey(c)] = h2
				hints[hintKey(c)].dead = map[string]bool{}
				for _, k := range h2.Dead {
					hints[hintKey(c)].dead[k] = true
				}
				fmt.Printf("     with hints: %.1fs\n", r2.secs)
				saveHints()
			} else {
				fmt.Println("     hints do not help")
			}
		}
		n, d, nc, kc := 0, 0, 0, 0
		for _, o := range r.ex.obls {
			if o.cand != nil {
				nc++
				if !r.dead[o.cand] {
					kc++
				}
				continue
			}
			n++
			if o.Status == "discharged" {
				d++
			}
		}
		mark := "ok  "
		if len(r.failed()) > 0 || len(r.outside()) > 0 {
			mark = "FAIL"
			bad++
		}
		fmt.Printf("%s %s: %d/%d obligations, %d/%d invariant obligations, %d/%d exits live, %.1fs\n", mark, c.Name, d, n, kc, nc, r.live, r.exits, r.secs)
		if *verbose {
			for _, t := range r.deadExits {
				fmt.Println("    not live:", t)
			}
		}
		for _, u := range r.outside() {
			fmt.Println("    outside:", u)
		}
		for _, o := range r.failed() {
			fmt.Printf("    failed: %s %s %s [%s] %s\n", o.Kind, o.Name, o.Pos, o.Detail, o.Trail)
		}
		if *verbose {
			for _, o := range r.ex.obls {
				if o.cand != nil {
					fmt.Printf("    cand %v %s [%s %.2f]\n", !r.dead[o.cand], o.Name, o.Status, o.Secs)
				} else {
					fmt.Printf("    %s %s %s %s [%s %s %.2f]\n", o.Status, o.Kind, o.Name, o.Pos, o.Backend, o.Detail, o.Secs)
				}
			}
		}
		if *only != "" {
			k := 0
			for _, o := range r.ex.obls {
				if strings.Contains(o.Kind+" "+o.Name, *only) && o.Status != "discharged" {
					k++
					f := fmt.Sprintf("/tmp/obl%d.smt2", k)
					_ = os.WriteFile(f, []byte("; "+o.Name+o.Trail+"\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"+buildQuery(r.ex, o.PC, o.Goal, r.dead, 2)), 0o644)
					fmt.Println("   wrote", f)
				}
			}
		}
	}
	for _, e := range solverErrs {
		fmt.Println("solver error:", e)
	}
	fmt.Printf("%d not ok; solver time %v\n", bad, solverSecs)
}
