package main

import "sort"

// Preparation of quantified formulas for e-matching. Every step is an equivalence:
//   - select(store(a, p, v), i) with a bound variable in i becomes ite(i = p, v, select(a, i));
//   - exists x. B becomes B[p] or exists x. B, and forall x. B becomes B[p] and forall x. B, for the
//     ground store indices p met on the way.

type prepper struct {
	memo  map[*Term]*Term
	cmemo map[*Term]*Term
}

func newPrepper() *prepper { return &prepper{memo: map[*Term]*Term{}, cmemo: map[*Term]*Term{}} }

func (p *prepper) prep(t *Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := p.memo[t]; ok {
		return r
	}
	r := t
	if t.op == "forall" || t.op == "exists" {
		body := p.prep(t.args[0])
		inst := map[*Term]map[*Term]bool{}
		body = p.expand(body, inst, map[*Term]*Term{})
		body = p.ctx(body)
		pats := t.pats
		for _, pt := range pats {
			for _, x := range pt {
				if hasStoreSel(x) {
					pats = nil
				}
			}
		}
		r = quantifier(t.op, t.vars, body, pats)
		if len(t.vars) == 1 && r.op == t.op {
			v := t.vars[0]
			parts := []*Term{r}
			var gs []*Term
			for g := range inst[v] {
				gs = append(gs, g)
			}
			sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
			for _, g := range gs {
				parts = append(parts, Subst(body, map[*Term]*Term{v: g}))
				if len(parts) > 8 {
					break
				}
			}
			if t.op == "forall" {
				r = And(parts...)
			} else {
				r = Or(parts...)
			}
		}
	} else {
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = p.prep(a)
			ch = ch || as[i] != a
		}
		if ch {
			r = rebuild(t, as, nil)
		}
	}
	p.memo[t] = r
	return r
}

func hasStoreSel(t *Term) bool {
	if t.op == "select" && t.args[0].op == "store" && t.args[1].bnd {
		return true
	}
	for _, a := range t.args {
		if a.bnd && hasStoreSel(a) {
			return true
		}
	}
	return false
}

// expand rewrites reads at bound indices through stores, noting the indices written.
func (p *prepper) expand(t *Term, inst map[*Term]map[*Term]bool, memo map[*Term]*Term) *Term {
	if !t.bnd || len(t.args) == 0 {
		return t
	}
	if t.op == "forall" || t.op == "exists" { // inner ones are done already; stores at our variable may remain
		b := p.expand(t.args[0], inst, memo)
		if b != t.args[0] {
			pats := t.pats
			return quantifier(t.op, t.vars, b, pats)
		}
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = p.expand(a, inst, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, as, nil)
	}
	if r.op == "select" && r.args[1].bnd {
		r = p.sel(r.args[0], r.args[1], inst, 0)
	}
	memo[t] = r
	return r
}

func (p *prepper) sel(a, i *Term, inst map[*Term]map[*Term]bool, depth int) *Term {
	if depth > 30 {
		return Select(a, i)
	}
	switch a.op {
	case "store":
		idx := a.args[1]
		if !idx.bnd {
			if i.op == "bound" {
				if inst[i] == nil {
					inst[i] = map[*Term]bool{}
				}
				inst[i][idx] = true
			} else if i.op == "+" && i.ival != 0 && len(i.args) == 1 && i.args[0].op == "bound" {
				v := i.args[0]
				if inst[v] == nil {
					inst[v] = map[*Term]bool{}
				}
				inst[v][AddK(idx, -i.ival)] = true
			}
		}
		return Ite(Eq(i, idx), a.args[2], p.sel(a.args[0], i, inst, depth+1))
	case "ite":
		if a.args[1].op == "store" || a.args[2].op == "store" {
			return Ite(a.args[0], p.sel(a.args[1], i, inst, depth+1), p.sel(a.args[2], i, inst, depth+1))
		}
	}
	return Select(a, i)
}

// ctx simplifies a formula by what its other parts say: in a or b, b is read with a false; in a and b, with a true; in
// ite(c, x, y), x is read with c true and y with c false.
func (p *prepper) ctx(t *Term) *Term {
	if len(t.args) == 0 || !t.bnd {
		return t
	}
	if r, ok := p.cmemo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case "or", "and":
		val := t.op == "and"
		as := append([]*Term(nil), t.args...)
		for i := range as {
			a := as[i]
			v := val
			if a.op == "not" {
				a, v = a.args[0], !v
			}
			if a == tTrue || a == tFalse || !a.bnd || size(a, 30) >= 30 {
				continue
			}
			m := map[*Term]*Term{a: BoolT(v)}
			for j := range as {
				if j != i {
					as[j] = Subst(as[j], m)
				}
			}
		}
		for i := range as {
			as[i] = p.ctx(as[i])
		}
		r = rebuild(t, as, nil)
	case "ite":
		c := p.ctx(t.args[0])
		x, y := t.args[1], t.args[2]
		if c.bnd && size(c, 30) < 30 {
			x, y = Subst(x, map[*Term]*Term{c: tTrue}), Subst(y, map[*Term]*Term{c: tFalse})
		}
		r = Ite(c, p.ctx(x), p.ctx(y))
	case "forall", "exists":
		if b := p.ctx(t.args[0]); b != t.args[0] {
			r = quantifier(t.op, t.vars, b, t.pats)
		}
	default:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = p.ctx(a)
			ch = ch || as[i] != a
		}
		if ch {
			r = rebuild(t, as, nil)
		}
	}
	p.cmemo[t] = r
	return r
}

// size counts the nodes of t as a tree, up to lim.
func size(t *Term, lim int) int {
	n := 1
	for _, a := range t.args {
		if n >= lim {
			break
		}
		n += size(a, lim-n)
	}
	return n
}
