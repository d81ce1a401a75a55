package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callbackFor gives special treatment to calls of a function parameter (none yet).
func (c *Contract) callbackFor(ex *Exec, f *Term) func(st *State, sig *types.Signature, f *Term, args [][]*Term, pos token.Pos, k contFn) {
	return nil
}

// atCall checks the conditions on calls of the function called name (or one of its other names).
func (ex *Exec) atCall(st *State, names map[string]bool, ts []types.Type, args [][]*Term, pos token.Pos) {
	if ex.con == nil || len(ex.con.Ats) == 0 || ex.effOnly || st.dead {
		return
	}
	for _, a := range ex.con.Ats {
		if !names[a.Func] {
			continue
		}
		a := a
		ex.guard(st, pos, func() {
			n := st.clone()
			c := &evalCtx{ex: ex, st: n, old: ex.entry.clone(), vars: map[string]SVal{}, pkg: ex.con.pkg, fn: ex.fn, nb: &ex.nb}
			for k, v := range ex.params {
				c.vars[k] = v
			}
			for i, p := range a.Params {
				if i < len(ts) && p != "_" {
					c.vars[p] = sv(ts[i], args[i]...)
				}
			}
			g := c.formula(a.Expr)
			n.pc = c.st.pc
			ex.oblige(n, "at", a.Name, g, pos)
		})
		st.ghost["called:"+a.Func] = []*Term{tTrue}
	}
}

// ghostInit gives the ghost variables their first values.
func (ex *Exec) ghostInit(st *State) {
	for _, g := range ex.con.Ghosts {
		c := &evalCtx{ex: ex, st: st, old: st, vars: map[string]SVal{}, pkg: ex.con.pkg, fn: ex.fn, nb: &ex.nb}
		for k, v := range ex.params {
			c.vars[k] = v
		}
		g.typ = c.typeExpr(g.Type)
		var v []*Term
		if g.Init != nil {
			v = st.emit(c.coerce(c.eval(g.Init), g.typ).c)
		} else {
			for _, l := range leaves(g.typ) {
				v = append(v, Fresh("ghost_"+g.Name+l.Path, l.Sort))
			}
		}
		st.ghost["g:"+g.Name] = v
	}
}

// ghostSet carries out the ghost update a in state st.
func (ex *Exec) ghostSet(c *evalCtx, st *State, a *AtClause) {
	for _, g := range ex.con.Ghosts {
		if g.Name == a.Target {
			st.ghost["g:"+g.Name] = st.emit(c.coerce(c.eval(a.Expr), g.typ).c)
			return
		}
	}
	specErr("no ghost variable %s", a.Target)
}

// afterCall is what follows a call of a function of the given names: its ghost updates, and k.
func (ex *Exec) afterCall(st *State, names map[string]bool, sig *types.Signature, args [][]*Term, pos token.Pos, k contFn) contFn {
	if ex.con == nil || ex.effOnly {
		return k
	}
	var as []*AtClause
	for _, a := range ex.con.Afters {
		if names[a.Func] {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return k
	}
	pre := st.clone()
	ts := sigTypes(sig)
	args = append([][]*Term(nil), args...)
	ex.lastGhosts = nil
	return func(st *State, res []*Term) {
		its := ex.lastGhosts // of the callee, if its contract stood for it
		ex.lastGhosts = nil
		for _, a := range as {
			a := a
			if !ex.guard(st, pos, func() {
				c := &evalCtx{ex: ex, st: st, old: pre.clone(), vars: map[string]SVal{}, pkg: ex.con.pkg, fn: ex.fn, nb: &ex.nb}
				for k, v := range ex.params {
					c.vars[k] = v
				}
				for i, p := range a.Params {
					if i < len(ts) && p != "_" {
						c.vars[p] = sv(ts[i], args[i]...)
					}
				}
				for k, v := range its {
					c.vars[k] = v
				}
				off := 0
				for i := 0; i < sig.Results().Len(); i++ {
					t := sig.Results().At(i).Type()
					n := len(leaves(t))
					if i < len(a.Results) && off+n <= len(res) {
						c.vars[a.Results[i]] = sv(t, res[off:off+n]...)
					}
					off += n
				}
				ex.ghostSet(c, st, a)
			}) {
				return
			}
		}
		k(st, res)
	}
}

// afterIteration carries out the ghost updates at the end of an iteration of an outermost loop.
func (ex *Exec) afterIteration(st, entry *State, k *Term) bool {
	if ex.con == nil || ex.effOnly || len(ex.con.Loops) == 0 {
		return true
	}
	for _, a := range ex.con.Loops {
		a := a
		if !ex.guard(st, ex.fn.Pos(), func() {
			c := &evalCtx{ex: ex, st: st, old: ex.entry.clone(), entry: entry, vars: map[string]SVal{}, pkg: ex.con.pkg, fn: ex.fn, nb: &ex.nb, k: k}
			for k, v := range ex.params {
				c.vars[k] = v
			}
			ex.ghostSet(c, st, a)
		}) {
			return false
		}
	}
	return true
}

// inLoop says whether st is inside a loop.
func inLoop(st *State) bool {
	for _, e := range st.env {
		if len(e.loops) > 0 {
			return true
		}
	}
	return false
}

// fnNames are the names contracts of package p can use for f.
func fnNames(f *ssa.Function, p *types.Package) map[string]bool {
	f = fnOrigin(f)
	n := f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n = nt.Obj().Name() + "." + n
		}
	}
	m := map[string]bool{}
	if fp := fnPkg(f); fp != nil {
		m[fp.Name()+"."+n] = true
		if fp == p {
			m[n] = true
		}
	}
	return m
}

func sigTypes(s *types.Signature) []types.Type {
	var ts []types.Type
	if s.Recv() != nil {
		ts = append(ts, s.Recv().Type())
	}
	for i := 0; i < s.Params().Len(); i++ {
		ts = append(ts, s.Params().At(i).Type())
	}
	return ts
}

// start makes the state in which con's function is entered.
func (ex *Exec) start() *State {
	f := ex.fn
	st := &State{ex: ex, heaps: map[string]*Term{}, alloc: ex.alloc0, cells: map[int][]*Term{}, prom: map[int]*Term{}, ghost: map[string][]*Term{}}
	for _, a := range ex.con.Ats {
		st.ghost["called:"+a.Func] = []*Term{tFalse}
	}
	st.assume(Le(Int(1000), ex.alloc0))
	vals := map[ssa.Value][]*Term{}
	ex.params = map[string]SVal{}
	var args [][]*Term
	for i, p := range f.Params {
		ls := leaves(p.Type())
		var v []*Term
		for _, l := range ls {
			v = append(v, Var("p_"+ex.con.Params[i]+l.Path, l.Sort))
		}
		st.assume(typeInv(ls, v, ex.alloc0)...)
		vals[p] = v
		args = append(args, v)
		ex.params[ex.con.Params[i]] = sv(p.Type(), v...)
	}
	st.env = []*Env{{fn: f, vals: vals, key: f.Name()}}
	for _, p := range ex.con.Requires {
		c := ex.specCtx(ex.con, f, st, st, args, nil)
		st.assume(c.formula(p.Expr))
	}
	if !ex.effOnly {
		ex.ghostInit(st)
	}
	ex.entry = st.clone()
	ex.entryArgs = args
	return st
}

// run executes the function under contract, collecting obligations.
func (ex *Exec) run() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupported:
				err = fmt.Errorf("%s", u.what)
			case tooMuch:
				err = fmt.Errorf("too many paths")
			default:
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				err = fmt.Errorf("the prover gave up: %v", r)
			}
		}
	}()
	if ex.con.Lemma {
		ex.lemma()
		return nil
	}
	if ex.fn.Blocks == nil {
		return fmt.Errorf("no body")
	}
	if ex.fn.Recover != nil || hasDefer(ex.fn) {
		return fmt.Errorf("defer in %s", ex.fn.Name())
	}
	st := ex.start()
	ex.block(st, 0, ex.fn.Blocks[0], nil, ex.exit)
	return nil
}

// lemma goes through the calls of a lemma, by contract where there is one, and checks its conclusions.
func (ex *Exec) lemma() {
	con := ex.con
	st := &State{ex: ex, heaps: map[string]*Term{}, alloc: ex.alloc0, cells: map[int][]*Term{}, prom: map[int]*Term{}, ghost: map[string][]*Term{}}
	st.assume(Le(Int(1000), ex.alloc0))
	c := &evalCtx{ex: ex, st: st, old: st, vars: map[string]SVal{}, pkg: con.pkg, nb: &ex.nb}
	for i, p := range con.Params {
		t := c.typeExpr(con.PTypes[i])
		ls := leaves(t)
		var v []*Term
		for _, l := range ls {
			v = append(v, Var("p_"+p+l.Path, l.Sort))
		}
		st.assume(typeInv(ls, v, ex.alloc0)...)
		c.vars[p] = sv(t, v...)
	}
	st.env = []*Env{{vals: map[ssa.Value][]*Term{}, key: con.Func}}
	for _, r := range con.Requires {
		st.assume(c.formula(r.Expr))
	}
	if con.Induct != "" {
		v, ok := c.vars[con.Induct]
		if !ok || len(con.Steps) != 0 {
			panic(unsupported{"induction in a lemma with calls, or on no parameter"})
		}
		st.assume(c.induction(con, v))
	}
	ex.entry = st.clone()
	ex.params = c.vars
	ex.lemmaStep(st, 0, c.vars)
}

// holds is what lemma con says of vars.
func (c *evalCtx) holds(con *Contract, vars map[string]SVal) *Term {
	n := *c
	n.vars, n.pkg, n.old = vars, con.pkg, c.st
	var hyp, concl []*Term
	for _, r := range con.Requires {
		hyp = append(hyp, n.formula(r.Expr))
	}
	for _, e := range con.Ensures {
		concl = append(concl, n.formula(e.Expr))
	}
	return Implies(And(hyp...), And(concl...))
}

// induction is the induction hypothesis of lemma con: it holds for all smaller natural numbers.
func (c *evalCtx) induction(con *Contract, v SVal) *Term {
	vs, _ := c.bound(tyInt)
	vars := map[string]SVal{}
	for k, x := range c.vars {
		vars[k] = x
	}
	vars[con.Induct] = sv(v.t, vs...)
	all := Forall(vs, Implies(And(Le(Int(0), vs[0]), Lt(vs[0], v.c[0])), c.holds(con, vars)))
	// The instance most often needed, so that what it says of recursive functions is unfolded.
	last := map[string]SVal{}
	for k, x := range vars {
		last[k] = x
	}
	last[con.Induct] = sv(v.t, Sub(v.c[0], Int(1)))
	return And(all, Implies(Le(Int(1), v.c[0]), c.holds(con, last)))
}

// lemmaFact is the instance of lemma con for the arguments; _ stands for every integer.
func (c *evalCtx) lemmaFact(con *Contract, args []ast.Expr) *Term {
	vars := map[string]SVal{}
	n := *c
	n.pkg = con.pkg
	var all []*Term
	for i, p := range con.Params {
		t := n.typeExpr(con.PTypes[i])
		if id, ok := args[i].(*ast.Ident); ok && id.Name == "_" {
			if !types.Identical(t, tyInt) {
				specErr("_ for a %s", t)
			}
			vs, _ := c.bound(t)
			all = append(all, vs...)
			vars[p] = sv(t, vs...)
			continue
		}
		vars[p] = c.coerce(c.eval(args[i]), t)
	}
	f := c.holds(con, vars)
	if len(all) > 0 {
		f = Forall(all, f)
	}
	return f
}

func (ex *Exec) lemmaStep(st *State, i int, vars map[string]SVal) {
	con := ex.con
	c := &evalCtx{ex: ex, st: st, old: ex.entry.clone(), vars: vars, pkg: con.pkg, nb: &ex.nb}
	if i == len(con.Steps) {
		ex.exits++
		ex.exitPCs = append(ex.exitPCs, st.pcs())
		ex.exitTrails = append(ex.exitTrails, st.trail)
		for _, e := range con.Ensures {
			e := e
			ex.guard(st, token.NoPos, func() {
				n := st.clone()
				c.st = n
				ex.oblige(n, "post", e.Name, c.formula(e.Expr), token.NoPos)
			})
		}
		return
	}
	s := con.Steps[i]
	if s.have != nil {
		if ex.guard(st, token.NoPos, func() {
			f := c.formula(s.have.Expr)
			ex.oblige(st.clone(), "have", s.have.Name, f, token.NoPos)
			st.assume(f)
		}) {
			ex.lemmaStep(st, i+1, vars)
		}
		return
	}
	if s.lemma != nil {
		if ex.guard(st, token.NoPos, func() { st.assume(c.lemmaFact(s.lemma, s.Args)) }) {
			ex.lemmaStep(st, i+1, vars)
		}
		return
	}
	var args [][]*Term
	if !ex.guard(st, token.NoPos, func() {
		for j, a := range s.Args {
			args = append(args, c.coerce(c.eval(a), s.fn.Params[j].Type()).c)
		}
	}) {
		return
	}
	ex.callFn(st, s.fn, nil, args, token.NoPos, func(st *State, res []*Term) {
		n := map[string]SVal{}
		for k, v := range vars {
			n[k] = v
		}
		rs := s.fn.Signature.Results()
		off := 0
		for j := 0; j < rs.Len(); j++ {
			k := len(leaves(rs.At(j).Type()))
			if j < len(s.Results) {
				n[s.Results[j]] = sv(rs.At(j).Type(), res[off:off+k]...)
			}
			off += k
		}
		ex.lemmaStep(st, i+1, n)
	})
}

// exit checks the postconditions.
func (ex *Exec) exit(st *State, res []*Term) {
	if st.dead {
		return
	}
	if ex.effOnly {
		ex.guard(st, ex.fn.Pos(), func() { st.emit(res) }) // locals the result points to become objects
		return
	}
	if ex.quiet > 0 {
		return
	}
	ex.guard(st, ex.fn.Pos(), func() {
		res = st.emit(res)
		ex.exits++
		ex.exitPCs = append(ex.exitPCs, st.pcs())
		ex.exitTrails = append(ex.exitTrails, st.trail)
		for _, e := range ex.con.Ensures {
			e := e
			ex.guard(st, ex.fn.Pos(), func() {
				n := st.clone()
				c := ex.specCtx(ex.con, ex.fn, n, ex.entry.clone(), ex.entryArgs, res)
				g := c.formula(e.Expr)
				n.pc = st.pc
				if n2 := c.st; n2.pc != st.pc { // facts learnt while evaluating
					n.pc = n2.pc
				}
				ex.oblige(n, "post", e.Name, g, token.NoPos)
			})
		}
		ex.frameObls(st)
	})
}

// mod is an object that may change: its base, the index of the one element that may (nil: all),
// and which heaps it is in.
type mod struct {
	base, idx *Term
	tkey      string
	kind      byte // 'o': object, 'm': map, 0: either
	// each: one object for each value of v in range rng
	v, rng *Term
	every  bool // all objects
}

// not says that b is none of m's objects.
func (m mod) not(b *Term) *Term {
	if m.every {
		return tFalse
	}
	if m.v != nil {
		return Forall([]*Term{m.v}, Implies(m.rng, Ne(b, m.base)))
	}
	return Ne(b, m.base)
}

// of says whether m may change heap k.
func (m mod) of(k heapKey) bool {
	return m.kind == 0 || m.tkey == k.tkey && (m.kind == 'o') == (k.kind == 'o')
}

// mods evaluates con's modifies clauses in state old: the objects that may change.
func (ex *Exec) mods(c *evalCtx, con *Contract) (ms []mod, any bool) {
	for _, cl := range con.Modifies {
		if cl.Text == "any" {
			return nil, true
		}
		n := *c
		n.st = c.old
		e := cl.Expr
		var each, rng *Term
		if call, ok := e.(*ast.CallExpr); ok { // each(j, lo, hi, object)
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "each" && len(call.Args) == 4 {
				*n.nb++
				each = Bound(fmt.Sprintf("each_%d", *n.nb), "Int")
				rng = And(Le(n.eval(call.Args[1]).c[0], each), Lt(each, n.eval(call.Args[2]).c[0]))
				n = *n.with(map[string]SVal{call.Args[0].(*ast.Ident).Name: sv(tyInt, each)})
				e = call.Args[3]
			}
		}
		if call, ok := e.(*ast.CallExpr); ok { // every(T): all objects of that type
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "every" && len(call.Args) == 1 {
				ms = append(ms, mod{every: true, tkey: typeKey(n.typ(call.Args[0])), kind: 'o'})
				continue
			}
		}
		star, one := e.(*ast.StarExpr)
		if one {
			e = star.X
		}
		v := n.eval(e)
		if v.t == nil {
			continue
		}
		cs := n.st.emit(v.c)
		m := mod{base: cs[0], v: each, rng: rng}
		if one && each != nil {
			specErr("each of single elements")
		}
		switch u := v.t.Underlying().(type) {
		case *types.Interface:
			m.base = cs[1]
		case *types.Pointer:
			m.tkey, m.kind = typeKey(u.Elem()), 'o'
			if one {
				m.idx = cs[1]
			}
		case *types.Slice:
			m.tkey, m.kind = typeKey(u.Elem()), 'o'
		case *types.Map:
			m.tkey, m.kind = mapKeyName(v.t), 'm'
		}
		ms = append(ms, m)
	}
	return ms, false
}

// unchanged says that heap n, named key, is h but for what may change in objects before alloc.
func (ex *Exec) unchanged(key string, n, h *Term, ms []mod, alloc *Term, low bool) *Term {
	b := Bound("b", "Int")
	g := []*Term{Lt(b, alloc)}
	if low {
		g = append(g, Le(Int(1), b))
	}
	k := ex.keys[key]
	for _, m := range ms {
		if m.of(k) {
			g = append(g, m.not(b))
		}
	}
	r := []*Term{Forall([]*Term{b}, Implies(And(g...), Eq(Select(n, b), Select(h, b))), []*Term{Select(n, b)})}
	for _, m := range ms {
		if m.idx == nil || !m.of(k) {
			continue
		}
		j := Bound("j", "Int")
		g := []*Term{}
		for _, o := range ms { // the object may be named by several clauses
			if !o.of(k) {
				continue
			}
			if o.idx == nil {
				g = append(g, o.not(m.base))
			} else {
				g = append(g, Or(Ne(m.base, o.base), Ne(j, o.idx)))
			}
		}
		r = append(r, Forall([]*Term{j}, Implies(And(g...), Eq(Select(Select(n, m.base), j), Select(Select(h, m.base), j))), []*Term{Select(Select(n, m.base), j)}))
	}
	return And(r...)
}

func (ex *Exec) frameObls(st *State) {
	c := ex.specCtx(ex.con, ex.fn, st, ex.entry.clone(), ex.entryArgs, nil)
	ms, any := ex.mods(c, ex.con)
	if any {
		return
	}
	var ks []string
	for k := range st.heaps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h := st.heaps[k]
		h0 := ex.heapSym(k, "@0", ex.alloc0)
		if h == h0 {
			continue
		}
		ex.oblige(st, "frame", "changes only what it may: "+k[2:], ex.unchanged(k, h, h0, ms, ex.alloc0, true), token.NoPos)
	}
}

// effects finds which heaps con's function can change, by following its body.
func (con *Contract) effects(p *Prog) map[string]bool {
	if con.effDone {
		return con.eff
	}
	con.effDone = true
	con.eff = map[string]bool{}
	ex := newExec(p, con)
	ex.effOnly = true
	ex.quiet = 1
	ex.onWrite = func(k string) {
		for _, g := range ex.groupKeys(k) {
			con.eff[g] = true
		}
	}
	if err := ex.run(); err != nil {
		con.effErr = err.Error()
	}
	if len(ex.outs) > 0 {
		con.effErr = ex.outs[0]
	}
	con.effKeys = ex.keys
	return con.eff
}

// instance is the contract for f, an instance of the generic function con is for: what it changes has f's types.
func (con *Contract) instance(f *ssa.Function) *Contract {
	if con.fn == nil || f == con.fn {
		return con
	}
	if n := con.insts[f]; n != nil {
		return n
	}
	if con.insts == nil {
		con.insts = map[*ssa.Function]*Contract{}
	}
	n := *con
	n.fn, n.effDone, n.eff, n.effKeys, n.effErr, n.insts = f, false, nil, nil, "", nil
	con.insts[f] = &n
	return &n
}

// callContract replaces a call by the callee's contract.
func (ex *Exec) callContract(st *State, con *Contract, f *ssa.Function, args [][]*Term, pos token.Pos, k contFn) {
	ok := ex.guard(st, pos, func() {
		for i := range args {
			args[i] = st.emit(args[i])
		}
	})
	if !ok || st.dead {
		return
	}
	ex.used[con] = true
	pre := st.clone()
	c := ex.specCtx(con, f, st, pre, args, nil)
	for _, r := range con.Requires {
		r := r
		if !ex.guard(st, pos, func() {
			ex.oblige(st, "pre", "call of "+con.Name+": "+r.Name, c.formula(r.Expr), pos)
		}) || st.dead {
			return
		}
	}
	ec := con.instance(f)
	eff := ec.effects(ex.p)
	if ec.effErr != "" && !con.Trusted {
		ex.outside(st, "effects of "+con.Name+": "+ec.effErr, pos)
		return
	}
	if !ex.guard(st, pos, func() {
		ms, any := ex.mods(c, con)
		var ks []string
		for key := range eff {
			ks = append(ks, key)
		}
		sort.Strings(ks)
		st.alloc = Fresh("alloc", "Int")
		st.assume(Le(pre.alloc, st.alloc))
		if len(ks) > 0 {
			ex.loopN++
			suffix := fmt.Sprintf("@C%d", ex.loopN)
			for _, key := range ks {
				if _, ok := ex.keys[key]; !ok {
					ex.keys[key] = ec.effKeys[key]
				}
				h := st.heap(key)
				n := ex.heapSym(key, suffix, st.alloc)
				st.setHeap(key, n)
				var bases []*Term
				wild := any
				for _, m := range ms {
					if m.of(ex.keys[key]) {
						if m.v != nil || m.every {
							wild = true
							continue
						}
						bases = append(bases, m.base)
					}
				}
				ex.havocOf[n] = havocInfo{prev: h, bases: bases, wild: wild}
				if !any {
					st.assume(ex.unchanged(key, n, h, ms, pre.alloc, false))
				}
			}
		}
		res := []*Term{}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, ex.havoc(st, rs.At(i).Type(), "ret")...)
		}
		c2 := ex.specCtx(con, f, st, pre, args, res)
		ghosts := map[string]SVal{}
		for _, g := range con.Ghosts {
			t := c2.typeExpr(g.Type)
			c2.vars[g.Name] = sv(t, ex.havoc(st, t, "ghost")...)
			ghosts["its_"+g.Name] = c2.vars[g.Name]
		}
		for _, e := range con.Ensures {
			st.assume(c2.formula(e.Expr))
		}
		ex.lastRes, ex.lastGhosts = res, ghosts
	}) {
		return
	}
	if !st.dead {
		k(st, ex.lastRes)
	}
}

// recursive specification functions ---------------------------------------

type recFn struct {
	f      *SpecFn
	keys   []string
	params []*Term
	heaps  []*Term
	body   []*Term
	rt     types.Type
	ptypes []types.Type
	pleaf  []Leaf
	base   *evalCtx
	// usesAlloc: the value depends on what is allocated, not just on what is in memory
	usesAlloc bool
}

func (c *evalCtx) rec(f *SpecFn) *recFn {
	ex := c.ex
	if ex.recs == nil {
		ex.recs = map[string]*recFn{}
	}
	if r, ok := ex.recs[f.Name]; ok {
		return r
	}
	base := &evalCtx{ex: ex, vars: map[string]SVal{}, pkg: c.pkgFor(f), fn: c.fn, nb: &ex.nb}
	r := &recFn{f: f, base: base, rt: base.typeExpr(f.RType)}
	ex.recs[f.Name] = r
	for i, p := range f.Params {
		t := base.typeExpr(f.PTypes[i])
		r.ptypes = append(r.ptypes, t)
		var v []*Term
		for _, l := range leaves(t) {
			v = append(v, Var("rp:"+f.Name+":"+p+l.Path, l.Sort))
			r.pleaf = append(r.pleaf, l)
		}
		r.params = append(r.params, v...)
		base.vars[p] = sv(t, v...)
	}
	ex.recNew = append(ex.recNew, r)
	if len(ex.recNew) > 1 {
		return r
	}
	// The heaps that this function and those it uses read: a fixpoint.
	for round := 0; ; round++ {
		if round > 20 {
			specErr("heaps of %s do not settle", f.Name)
		}
		stable := true
		for i := 0; i < len(ex.recNew); i++ {
			stable = ex.recNew[i].settle(ex) && stable
		}
		if stable {
			break
		}
	}
	for _, n := range ex.recNew {
		for _, o := range ex.recNew {
			n.usesAlloc = n.usesAlloc || mentionsAlloc(o.body, map[*Term]bool{})
		}
	}
	ex.recNew = nil
	return r
}

// settle evaluates the body of r and says whether it reads the heaps known before, and no others.
func (r *recFn) settle(ex *Exec) bool {
	st := &State{ex: ex, heaps: map[string]*Term{}, alloc: recAlloc, cells: map[int][]*Term{}, prom: map[int]*Term{}, ghost: map[string][]*Term{}}
	r.heaps = nil
	for _, k := range r.keys {
		h := Var("rh:"+r.f.Name+":"+k, ex.keys[k].sort())
		st.heaps[k] = h
		r.heaps = append(r.heaps, h)
	}
	n := len(ex.recNew)
	r.base.st, r.base.old = st, st
	v := r.base.coerce(r.base.eval(r.f.Body), r.rt)
	r.body = v.c
	if len(st.heaps) == len(r.keys) {
		return n == len(ex.recNew)
	}
	r.keys = nil
	for k := range st.heaps {
		r.keys = append(r.keys, k)
	}
	sort.Strings(r.keys)
	return false
}

// mentionsAlloc says whether ts depend on the allocation counter other than through recursive functions.
func mentionsAlloc(ts []*Term, seen map[*Term]bool) bool {
	for _, t := range ts {
		if t == recAlloc {
			return true
		}
		if seen[t] {
			continue
		}
		seen[t] = true
		as := t.args
		if t.op == "app" && strings.HasPrefix(t.name, "rec_") && len(as) > 0 && as[len(as)-1] == recAlloc {
			as = as[:len(as)-1]
		}
		if mentionsAlloc(as, seen) {
			return true
		}
	}
	return false
}

// recApp applies a recursive specification function.
func (c *evalCtx) recApp(f *SpecFn, args []SVal) SVal {
	r := c.rec(f)
	var as []*Term
	for i, a := range args {
		as = append(as, c.st.emit(c.coerce(a, r.ptypes[i]).c)...)
	}
	for _, k := range r.keys {
		as = append(as, c.st.heap(k))
	}
	if len(r.keys) > 0 {
		as = append(as, c.st.alloc)
	}
	var out []*Term
	for i, l := range leaves(r.rt) {
		out = append(out, App(fmt.Sprintf("rec_%s_%d", f.Name, i), l.Sort, as...))
	}
	return sv(r.rt, out...)
}

// memArgs is the number of arguments that give the memory a recursive function reads.
func (r *recFn) memArgs() int {
	if len(r.heaps) == 0 {
		return 0
	}
	return len(r.heaps) + 1
}

// memTokens replaces the memory arguments of recursive functions in ts by one symbol per memory.
func (ex *Exec) memTokens(ts []*Term) []*Term {
	toks := map[string]*Term{}
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := t.args
		var tok *Term
		if t.op == "app" && strings.HasPrefix(t.name, "rec_") {
			if r := ex.recOf(t.name); r != nil && r.memArgs() > 0 {
				np := len(r.params)
				key := r.f.Name
				bnd := false
				for j, a := range as[np:] {
					if r.usesAlloc || j < len(r.heaps) {
						key += fmt.Sprint(",", a.id)
					}
					bnd = bnd || a.bnd
				}
				if bnd {
					unsup("recursive function of a memory under a quantifier")
				}
				if tok = toks[key]; tok == nil {
					tok = Var(fmt.Sprintf("mem_%s_%d", r.f.Name, len(toks)), "Int")
					toks[key] = tok
				}
				as = as[:np]
			}
		}
		n := make([]*Term, len(as))
		ch := false
		for i, a := range as {
			n[i] = f(a)
			ch = ch || n[i] != a
		}
		r := t
		if tok != nil {
			r = App(t.name+"m", t.sort, append(n, tok)...)
		} else if ch {
			r = rebuild(t, n, f)
		}
		memo[t] = r
		return r
	}
	var out []*Term
	for _, t := range ts {
		out = append(out, f(t))
	}
	return out
}

// recAlloc stands for the allocation counter in the body of a recursive function.
var recAlloc = Var("rp:alloc", "Int")

// recFrame says that a recursive function has the same value in two memories of the query
// if they agree on the objects allocated in the first: its value depends only on what its arguments reach.
func (q *query) recFrame() {
	var names []string
	for n := range q.apps {
		if strings.HasPrefix(n, "rec_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r := q.ex.recOf(n)
		if r == nil || len(r.heaps) == 0 {
			continue
		}
		np := len(r.params)
		var cs [][]*Term
		seen := map[string]bool{}
		for _, t := range q.order {
			if t.op != "app" || t.name != n {
				continue
			}
			c := t.args[np:]
			key := ""
			for _, a := range c {
				if a.bnd {
					key = ""
					break
				}
				key += fmt.Sprint(a.id, ",")
			}
			if key != "" && !seen[key] {
				seen[key] = true
				cs = append(cs, c)
			}
		}
		if len(cs) > 8 {
			cs = cs[:8]
		}
		for i, c1 := range cs {
			for j, c2 := range cs {
				a1, a2 := c1[len(c1)-1], c2[len(c2)-1]
				if d, ok := constDiff(a2, a1); i == j || ok && (d < 0 || d == 0 && j < i) {
					continue
				}
				hyp := []*Term{Le(a1, a2)}
				for k := range r.heaps {
					if c1[k] != c2[k] {
						b := Bound("rb", "Int")
						hyp = append(hyp, Forall([]*Term{b}, Implies(Lt(b, a1), Eq(Select(c1[k], b), Select(c2[k], b)))))
					}
				}
				var vs, g []*Term
				for k, p := range r.params {
					v := Bound(fmt.Sprintf("ra%d", k), p.sort)
					vs = append(vs, v)
					switch r.pleaf[k].Kind {
					case lkPtrB, lkSliceA, lkMap, lkIfB:
						g = append(g, Lt(v, a1))
					}
				}
				x1, x2 := App(n, q.apps[n].sort, append(append([]*Term{}, vs...), c1...)...), App(n, q.apps[n].sort, append(append([]*Term{}, vs...), c2...)...)
				q.add(Implies(And(hyp...), Forall(vs, Implies(And(g...), Eq(x1, x2)), []*Term{x1}, []*Term{x2})))
			}
		}
	}
}

func (ex *Exec) recOf(name string) *recFn {
	for _, r := range ex.recs {
		for i := range leaves(r.rt) {
			if name == fmt.Sprintf("rec_%s_%d", r.f.Name, i) {
				return r
			}
		}
	}
	return nil
}

// unfold gives the definition of a ground application of a recursive function.
func (ex *Exec) unfold(t *Term) *Term {
	for _, r := range ex.recs {
		for i := range leaves(r.rt) {
			if t.name != fmt.Sprintf("rec_%s_%d", r.f.Name, i) || len(t.args) != len(r.params)+r.memArgs() {
				continue
			}
			m := map[*Term]*Term{}
			for j, p := range r.params {
				m[p] = t.args[j]
			}
			for j, h := range r.heaps {
				m[h] = t.args[len(r.params)+j]
			}
			if len(r.heaps) > 0 {
				m[recAlloc] = t.args[len(t.args)-1]
			}
			return Eq(t, Subst(r.body[i], m))
		}
	}
	return nil
}
