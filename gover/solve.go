package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"
)

// query builds SMT text for one obligation.
type query struct {
	ex    *Exec
	asrts []*Term
	goal  *Term
	// collected
	seen  map[*Term]bool
	refs  map[*Term]int
	vars  map[string]*Term
	bvars map[*Term]bool
	apps  map[string]*Term // one application of each function
	strs  map[string]bool
	sorts map[string]bool
	recs  []*Term
	order []*Term
}

func (q *query) collect(t *Term) {
	q.refs[t]++
	if q.seen[t] {
		return
	}
	q.seen[t] = true
	q.noteSort(t.sort)
	switch t.op {
	case "var":
		q.vars[t.name] = t
	case "str":
		q.strs[t.name] = true
	case "app":
		key := t.name
		if _, ok := q.apps[key]; !ok {
			q.apps[key] = t
		}
		if strings.HasPrefix(t.name, "rec_") && !t.bnd {
			q.recs = append(q.recs, t)
		}
	case "forall", "exists":
		for _, v := range t.vars {
			q.noteSort(v.sort)
		}
		for _, p := range t.pats {
			for _, x := range p {
				q.collect(x)
			}
		}
	}
	for _, a := range t.args {
		q.collect(a)
	}
	q.order = append(q.order, t)
}

// runes lists the characters the query mentions.
func (q *query) runes() []int64 {
	var r []int64
	if !q.has("isupper") && !q.has("islower") && !q.has("toupper") && !q.has("tolower") && !q.has("runestr") {
		return nil
	}
	for t := range q.seen {
		if t.op == "int" && 32 < t.ival && t.ival < 127 {
			r = append(r, t.ival)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (q *query) noteSort(s string) {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		q.sorts[f] = true
	}
}

func (q *query) has(fn string) bool { _, ok := q.apps[fn]; return ok }

// add asserts an axiom (collecting its symbols).
func (q *query) add(ts ...*Term) {
	for _, t := range ts {
		if t == tTrue {
			continue
		}
		if t.op == "and" {
			q.add(t.args...)
			continue
		}
		q.asrts = append(q.asrts, t)
		q.collect(t)
	}
}

func fa1(sort, name string, body func(x *Term) *Term, pat func(x *Term) []*Term) *Term {
	x := Bound("ax_"+name, sort)
	return Forall([]*Term{x}, body(x), pat(x))
}

func newQuery(ex *Exec) *query {
	return &query{ex: ex, seen: map[*Term]bool{}, refs: map[*Term]int{}, vars: map[string]*Term{}, bvars: map[*Term]bool{}, apps: map[string]*Term{},
		strs: map[string]bool{}, sorts: map[string]bool{}}
}

// skolem replaces what a goal says of all things by the same for an arbitrary thing.
func skolem(t *Term) *Term {
	switch t.op {
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = skolem(a)
		}
		if t.op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "not":
		if x := t.args[0]; x.op == "exists" && !t.bnd {
			return skolem(Forall(x.vars, Not(x.args[0])))
		} else if x.op == "and" && !t.bnd {
			as := make([]*Term, len(x.args))
			for i, a := range x.args {
				as[i] = skolem(Not(a))
			}
			return Or(as...)
		}
	case "forall":
		if t.bnd {
			return t
		}
		m := map[*Term]*Term{}
		for _, v := range t.vars {
			m[v] = Var(fmt.Sprintf("sk_%d_%d", t.id, v.id), v.sort)
		}
		return skolem(Subst(t.args[0], m))
	}
	return t
}

func buildQuery(ex *Exec, pc []*Term, goal *Term, dead map[*Term]bool, unfoldDepth int) string {
	q := newQuery(ex)
	pp := newPrepper()
	for _, f := range ex.facts {
		q.add(pp.prep(f))
	}
	for _, p := range pc {
		if p.op == "or" {
			skip := false
			for _, a := range p.args {
				if a.op == "not" && dead[a.args[0]] {
					skip = true
				}
			}
			if skip {
				continue
			}
		}
		q.add(pp.prep(p))
	}
	var tgs []*Term
	for _, tg := range q.vars {
		tgs = append(tgs, tg)
	}
	sort.Slice(tgs, func(i, j int) bool { return tgs[i].id < tgs[j].id })
	for _, tg := range tgs {
		if strings.HasPrefix(tg.name, "tag!") && !dead[tg] {
			q.asrts = append(q.asrts, tg)
		}
	}
	ng := Not(pp.prep(goal))
	q.goal = ng
	q.collect(ng)
	if len(q.recs) > 0 || q.hasRec() {
		q.goal = Not(skolem(pp.prep(goal)))
		q.collect(q.goal)
	}
	// recursive specification functions
	done := map[*Term]bool{}
	for i := 0; i < unfoldDepth; i++ {
		rs := append([]*Term(nil), q.recs...)
		for _, r := range rs {
			if !done[r] {
				done[r] = true
				if u := ex.unfold(r); u != nil {
					q.add(u)
				}
			}
		}
	}
	if len(q.recs) > 0 {
		q.recFrame()
		ts := ex.memTokens(append(append([]*Term{}, q.asrts...), q.goal))
		q = newQuery(ex)
		for _, t := range ts[:len(ts)-1] {
			q.asrts = append(q.asrts, t)
			q.collect(t)
		}
		q.goal = ts[len(ts)-1]
		q.collect(q.goal)
	}
	q.heapAxioms()
	q.stringAxioms()
	q.otherAxioms()
	return q.text()
}

// hasRec says whether the query has a recursive function.
func (q *query) hasRec() bool {
	for n := range q.apps {
		if strings.HasPrefix(n, "rec_") {
			return true
		}
	}
	return false
}

func (q *query) heapAxioms() {
	ex := q.ex
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		var names []string
		for n := range q.vars {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			hi := ex.hinfo[n]
			if hi == nil || done[n] {
				continue
			}
			changed = true
			h := q.vars[n]
			b := Bound("hb", "Int")
			switch hi.kind {
			case 'o', 'v':
				ks := "Int"
				if hi.kind == 'v' {
					ks = hi.ksort
				}
				i := Bound("hi_"+ks, ks)
				var comps []*Term
				for j, g := range hi.group {
					done[g] = true
					s := arr("Int", arr(ks, hi.ls[j].Sort))
					comps = append(comps, Select(Select(Var(g, s), b), i))
				}
				if hi.kind == 'v' {
					in := Select(Select(Var(hi.dom, arr("Int", arr(ks, "Bool"))), b), i)
					for j, c := range comps {
						q.add(Forall([]*Term{b, i}, Or(in, Eq(c, zeroOf(hi.ls[j]))), []*Term{c}))
					}
				}
				if hi.alloc == nil {
					continue
				}
				inv := And(typeInv(hi.ls, comps, hi.alloc)...)
				if inv == tTrue {
					continue
				}
				var pats [][]*Term
				for _, c := range comps {
					pats = append(pats, []*Term{c})
				}
				q.add(Forall([]*Term{b, i}, inv, pats...))
			case 'c':
				done[n] = true
				c := Select(h, b)
				q.add(Forall([]*Term{b}, Le(Int(0), c), []*Term{c}))
				q.add(Eq(Select(h, Int(0)), Int(0)))
			case 'd':
				done[n] = true
				x := Bound("hk_"+hi.ksort, hi.ksort)
				in := Select(Select(h, b), x)
				q.add(Forall([]*Term{x}, Not(Select(Select(h, Int(0)), x)), []*Term{Select(Select(h, Int(0)), x)}))
				c := Var("c"+n[1:], arr("Int", "Int"))
				if ex.hinfo[c.name] != nil {
					q.add(Forall([]*Term{b, x}, Implies(in, Le(Int(1), Select(c, b))), []*Term{in}))
				}
			}
		}
	}
}

func isIntLit64(s string) (int64, bool) {
	i, err := strconv.ParseInt(s, 10, 64)
	return i, err == nil
}

func (q *query) stringAxioms() {
	if !q.sorts["Str"] {
		return
	}
	S := func(n string) *Term { return Bound("s_"+n, "Str") }
	a, b, c := S("a"), S("b"), S("c")
	app := func(n string, so string, as ...*Term) *Term { return App(n, so, as...) }
	cat := func(x, y *Term) *Term { return App("cat", "Str", x, y) }
	sl := func(x *Term) *Term { return App("slen", "Int", x) }
	n := Bound("n", "Int")
	it := app("itoa", "Str", n)
	if q.has("itoa") {
		q.add(Forall([]*Term{n}, Eq(app("atoi", "Int", it), n), []*Term{it}))
		q.add(Forall([]*Term{n}, Ne(it, StrLit("")), []*Term{it}))
		if q.has("trim") {
			q.add(Forall([]*Term{n}, Eq(app("trim", "Str", it), it), []*Term{it}))
		}
		if q.has("parseintok") || q.has("parseint") {
			rng := And(Le(Int(-9223372036854775808), n), Le(n, Int(9223372036854775807)))
			q.add(Forall([]*Term{n}, Implies(rng, And(app("parseintok", "Bool", it), Eq(app("parseint", "Int", it), n))), []*Term{it}))
		}
		if q.has("contains") {
			for _, l := range []string{" ", ".", "/", ":", "\n", "\t", "_", "!", "?"} {
				if q.strs[l] {
					q.add(Forall([]*Term{n}, Not(app("contains", "Bool", it, StrLit(l))), []*Term{it}))
				}
			}
		}
	}
	if q.has("parseintok") {
		ok := app("parseintok", "Bool", a)
		pi := app("parseint", "Int", a)
		q.add(Forall([]*Term{a}, Implies(ok, And(Le(Int(-9223372036854775808), pi), Le(pi, Int(9223372036854775807)))), []*Term{ok}))
		q.add(Forall([]*Term{a}, Implies(ok, Ne(a, StrLit(""))), []*Term{ok}))
		if q.has("trim") {
			q.add(Forall([]*Term{a}, Implies(ok, Eq(app("trim", "Str", a), a)), []*Term{ok}))
		}
	}
	if q.has("trim") {
		tr := app("trim", "Str", a)
		q.add(Forall([]*Term{a}, Eq(app("trim", "Str", tr), tr), []*Term{tr}))
		if q.has("contains") { // trimming leaves a part of the text
			in := app("contains", "Bool", tr, b)
			q.add(Forall([]*Term{a, b}, Implies(in, app("contains", "Bool", a, b)), []*Term{in}))
		}
		if q.has("slen") {
			q.add(Forall([]*Term{a}, Le(sl(tr), sl(a)), []*Term{tr}))
		}
	}
	if q.has("lower") {
		lo := app("lower", "Str", a)
		q.add(Forall([]*Term{a}, Eq(app("lower", "Str", lo), lo), []*Term{lo}))
	}
	if q.has("cat") {
		ab := cat(a, b)
		q.add(Forall([]*Term{a, b}, Eq(app("sufx", "Str", a, ab), b), []*Term{ab}))
		q.add(Forall([]*Term{a, b}, Eq(app("prefx", "Str", ab, b), a), []*Term{ab}))
		e := StrLit("")
		q.add(Forall([]*Term{a, b}, Implies(Eq(ab, e), And(Eq(a, e), Eq(b, e))), []*Term{ab}))
		q.add(Forall([]*Term{a}, Eq(cat(a, e), a), []*Term{cat(a, e)}))
		q.add(Forall([]*Term{a}, Eq(cat(e, a), a), []*Term{cat(e, a)}))
		q.add(Forall([]*Term{a, b, c}, Eq(cat(cat(a, b), c), cat(a, cat(b, c))), []*Term{cat(cat(a, b), c)}))
	}
	if q.has("contains") {
		in := app("contains", "Bool", a, b)
		if q.has("before") || q.has("after") {
			bf, af := app("before", "Str", a, b), app("after", "Str", a, b)
			q.add(Forall([]*Term{a, b}, Implies(in, Eq(a, cat(bf, cat(b, af)))), []*Term{bf}, []*Term{af}))
			q.add(Forall([]*Term{a, b}, Implies(Ne(b, StrLit("")), Not(app("contains", "Bool", bf, b))), []*Term{bf}))
		}
		if q.has("cat") {
			var l1 []string
			for l := range q.strs {
				l1 = append(l1, l)
			}
			sort.Strings(l1)
			for _, l := range l1 {
				if utf8.RuneCountInString(l) != 1 {
					continue
				}
				L := StrLit(l)
				q.add(Forall([]*Term{a, c}, Eq(app("contains", "Bool", cat(a, c), L), Or(app("contains", "Bool", a, L), app("contains", "Bool", c, L))),
					[]*Term{app("contains", "Bool", cat(a, c), L)}))
				if q.has("before") || q.has("after") {
					full := cat(a, cat(L, c))
					q.add(Forall([]*Term{a, c}, Implies(Not(app("contains", "Bool", a, L)),
						And(Eq(app("before", "Str", full, L), a), Eq(app("after", "Str", full, L), c))), []*Term{full}))
					for _, l2 := range l1 { // the separator inside a longer literal
						x, y, ok := strings.Cut(l2, l)
						if !ok || l2 == l {
							continue
						}
						q.strs[x], q.strs[y] = true, true
						M := StrLit(l2)
						mid, end := cat(a, cat(M, c)), cat(a, M)
						q.add(Forall([]*Term{a, c}, Implies(Not(app("contains", "Bool", a, L)), And(Eq(app("before", "Str", mid, L), Cat(a, StrLit(x))),
							Eq(app("after", "Str", mid, L), Cat(StrLit(y), c)))), []*Term{mid}))
						q.add(Forall([]*Term{a}, Implies(Not(app("contains", "Bool", a, L)), And(Eq(app("before", "Str", end, L), Cat(a, StrLit(x))),
							Eq(app("after", "Str", end, L), StrLit(y)))), []*Term{end}))
						q.add(Forall([]*Term{c}, And(Eq(app("before", "Str", cat(M, c), L), StrLit(x)), Eq(app("after", "Str", cat(M, c), L), Cat(StrLit(y), c))), []*Term{cat(M, c)}))
					}
				}
			}
		}
	}
	if q.has("runeoff") {
		off := app("runeoff", "Int", a, n)
		q.add(Forall([]*Term{a}, Eq(app("runeoff", "Int", a, Int(0)), Int(0)), []*Term{app("runeoff", "Int", a, Int(0))}))
		q.add(Forall([]*Term{a, n}, Implies(Le(Int(0), n), Le(n, off)), []*Term{off}))
	}
	for _, k := range q.runes() {
		r := rune(k)
		if q.has("isupper") {
			q.add(Eq(app("isupper", "Bool", Int(k)), BoolT(unicode.IsUpper(r))))
		}
		if q.has("islower") {
			q.add(Eq(app("islower", "Bool", Int(k)), BoolT(unicode.IsLower(r))))
		}
		if q.has("toupper") {
			q.add(Eq(app("toupper", "Int", Int(k)), Int(int64(unicode.ToUpper(r)))))
		}
		if q.has("tolower") {
			q.add(Eq(app("tolower", "Int", Int(k)), Int(int64(unicode.ToLower(r)))))
		}
		if q.has("runestr") {
			q.add(Eq(app("runestr", "Str", Int(k)), StrLit(string(r))))
			q.strs[string(r)] = true
		}
	}
	if q.has("runecount") {
		rc := app("runecount", "Int", a)
		q.add(Forall([]*Term{a}, Le(Int(0), rc), []*Term{rc}))
		q.add(Forall([]*Term{a}, Eq(Eq(rc, Int(0)), Eq(a, StrLit(""))), []*Term{rc}))
		if q.has("slen") {
			q.add(Forall([]*Term{a}, Le(rc, sl(a)), []*Term{rc}))
		}
	}
	if q.has("slen") {
		q.add(Forall([]*Term{a}, And(Le(Int(0), sl(a)), Eq(Eq(sl(a), Int(0)), Eq(a, StrLit("")))), []*Term{sl(a)}))
		if q.has("cat") {
			q.add(Forall([]*Term{a, b}, Eq(sl(cat(a, b)), Add(sl(a), sl(b))), []*Term{cat(a, b)}))
		}
		if q.has("ssub") {
			lo, hi := Bound("lo", "Int"), Bound("hi", "Int")
			ss := App("ssub", "Str", a, lo, hi)
			q.add(Forall([]*Term{a, lo, hi}, Implies(And(Le(Int(0), lo), Le(lo, hi), Le(hi, sl(a))), Eq(sl(ss), Sub(hi, lo))), []*Term{ss}))
		}
	}
	if q.has("slt") {
		q.add(Forall([]*Term{a}, Not(app("slt", "Bool", a, a)), []*Term{app("slt", "Bool", a, a)}))
		q.add(Forall([]*Term{a, b}, Or(app("slt", "Bool", a, b), app("slt", "Bool", b, a), Eq(a, b)), []*Term{app("slt", "Bool", a, b)}))
		q.add(Forall([]*Term{a, b}, Not(And(app("slt", "Bool", a, b), app("slt", "Bool", b, a))), []*Term{app("slt", "Bool", a, b)}))
	}
	// literals
	var lits []string
	q.strs[""] = true
	for l := range q.strs {
		lits = append(lits, l)
	}
	sort.Strings(lits)
	for _, l := range lits {
		q.collect(StrLit(l))
	}
	for _, l := range lits {
		L := StrLit(l)
		if q.has("slen") {
			q.add(Eq(sl(L), Int(int64(len(l)))))
		}
		if q.has("runecount") {
			q.add(Eq(app("runecount", "Int", L), Int(int64(utf8.RuneCountInString(l)))))
		}
		lit := func(fn string, v string) {
			if q.has(fn) && q.strs[v] {
				q.add(Eq(app(fn, "Str", L), StrLit(v)))
			} else if q.has(fn) {
				// the value is none of the query's literals
				for _, l2 := range lits {
					q.add(Not(mk("=", "Bool", "", 0, app(fn, "Str", L), StrLit(l2))))
				}
			}
		}
		if q.has("before") {
			for _, l2 := range lits {
				if x, y, ok := strings.Cut(l, l2); ok && l2 != "" && q.strs[x] && q.strs[y] {
					q.add(Eq(app("before", "Str", L, StrLit(l2)), StrLit(x)), Eq(app("after", "Str", L, StrLit(l2)), StrLit(y)))
				}
			}
		}
		lit("trim", strings.TrimSpace(l))
		lit("lower", strings.ToLower(l))
		lit("upper", strings.ToUpper(l))
		if q.has("parseintok") {
			i, ok := isIntLit64(l)
			t := app("parseintok", "Bool", L)
			if ok {
				q.add(t, Eq(app("parseint", "Int", L), Int(i)))
			} else {
				q.add(Not(t))
			}
		}
		if q.has("contains") {
			for _, l2 := range lits {
				t := app("contains", "Bool", L, StrLit(l2))
				if !strings.Contains(l, l2) {
					t = Not(t)
				}
				q.add(t)
			}
		}
		if q.has("cat") {
			for _, l2 := range lits {
				if l == "" || len(lits) > 40 {
					continue
				}
				ca := cat(L, a)
				if strings.HasPrefix(l2, l) {
					if rest := l2[len(l):]; q.strs[rest] {
						q.add(Forall([]*Term{a}, Eq(Eq(ca, StrLit(l2)), Eq(a, StrLit(rest))), []*Term{ca}))
					}
				} else {
					q.add(Forall([]*Term{a}, Ne(ca, StrLit(l2)), []*Term{ca}))
				}
			}
		}
	}
}

func (q *query) otherAxioms() {
	var names []string
	for n := range q.apps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := q.apps[n]
		switch {
		case strings.HasPrefix(n, "constz_"):
			k, v := arrElem(t.sort)
			x, y := Bound("cx", v), Bound("cy", k)
			sel := mk("select", v, "", 0, App(n, t.sort, x), y)
			q.add(Forall([]*Term{x, y}, Eq(sel, x), []*Term{sel}))
		case strings.HasPrefix(n, "box_"):
			var vs []*Term
			for i, a := range t.args {
				vs = append(vs, Bound(fmt.Sprintf("bx%d", i), a.sort))
			}
			bx := App(n, "Int", vs...)
			for i, v := range vs {
				q.add(Forall(vs, Eq(App(fmt.Sprintf("unbox_%s_%d", n[4:], i), v.sort, bx), v), []*Term{bx}))
			}
			q.add(Forall(vs, Lt(bx, Int(0)), []*Term{bx}))
		}
	}
	if q.has("errIs") {
		b := Bound("eb", "Int")
		e := App("errIs", "Bool", b, b)
		q.add(Forall([]*Term{b}, e, []*Term{e}))
	}
	if q.has("gomod") || q.has("godiv") {
		x, y := Bound("dx", "Int"), Bound("dy", "Int")
		m, d := App("gomod", "Int", x, y), App("godiv", "Int", x, y)
		pos := And(Le(Int(0), x), Lt(Int(0), y))
		q.add(Forall([]*Term{x, y}, Implies(pos, And(Le(Int(0), m), Lt(m, y), Eq(x, Add(App("*", "Int", y, d), m)), Le(Int(0), d), Le(d, x))), []*Term{m}, []*Term{d}))
	}
}

func (q *query) text() string {
	var b strings.Builder
	// sorts
	var ss []string
	for s := range q.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	if q.sorts["Str"] || len(tupleSorts) > 0 {
		b.WriteString("(declare-sort Str 0)\n")
	}
	for _, s := range ss {
		if strings.HasPrefix(s, "TP_") {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
		}
	}
	for _, s := range ss {
		if strings.HasPrefix(s, "KT_") {
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", s, s)
			for i, l := range tupleSorts[s] {
				fmt.Fprintf(&b, " (%s_f%d %s)", s, i, l.Sort)
			}
			b.WriteString("))))\n")
		}
	}
	var names []string
	for n := range q.vars {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", sym(n), q.vars[n].sort)
	}
	if q.sorts["Str"] {
		var lits []string
		for l := range q.strs {
			lits = append(lits, l)
		}
		sort.Strings(lits)
		var ln []string
		for _, l := range lits {
			fmt.Fprintf(&b, "(declare-fun %s () Str)\n", strName(l))
			ln = append(ln, strName(l))
		}
		if len(ln) > 1 {
			fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ln, " "))
		}
	}
	names = names[:0]
	for n := range q.apps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := q.apps[n]
		if builtinFn(n) || strings.HasPrefix(n, "(- ") || n == "0.0" || strings.HasPrefix(n, "mk_KT_") || (strings.HasPrefix(n, "KT_") && strings.Contains(n, "_f")) {
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s (", sym(n))
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.sort)
		}
		fmt.Fprintf(&b, ") %s)\n", t.sort)
	}
	// shared ground subterms
	abbr := map[*Term]string{}
	for _, t := range q.order {
		if t.bnd || len(t.args) == 0 || q.refs[t] < 2 {
			continue
		}
		var d strings.Builder
		t.writeTop(&d, abbr)
		if d.Len() < 24 {
			continue
		}
		n := fmt.Sprintf("$%d", t.id)
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, d.String())
		abbr[t] = n
	}
	for _, a := range q.asrts {
		b.WriteString("(assert ")
		a.write(&b, abbr)
		b.WriteString(")\n")
	}
	b.WriteString("; goal, negated\n(assert ")
	q.goal.write(&b, abbr)
	b.WriteString(")\n(check-sat)\n")
	return b.String()
}

// solvers -------------------------------------------------------------------

const (
	z3Bin   = "z3-new"
	cvc5Bin = "cvc5"
)

var (
	solverMu   sync.Mutex
	solverSecs = map[string]float64{}
	solverRuns = map[string]int{}
	sem        = make(chan struct{}, 8)
	scratchDir string
	fileN      int
)

// runSolver says whether text is unsatisfiable; status is the solver's answer.
func runSolver(which, text string, effort int) (status string, secs float64) {
	sem <- struct{}{}
	defer func() { <-sem }()
	solverMu.Lock()
	fileN++
	f := filepath.Join(scratchDir, fmt.Sprintf("q%d.smt2", fileN))
	solverMu.Unlock()
	head := ""
	var args []string
	name := z3Bin
	wall := 20 * time.Second
	switch which {
	case "z3s":
		which = "z3"
		head = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit 1000000)\n"
		wall = 4 * time.Second
		args = []string{"-T:20", f}
	case "z3x": // the older z3, without extensionality of arrays: less to consider, sound for unsat
		which, name = "z3o", "z3"
		head = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.array.extensional false)\n"
		wall = time.Duration(3*effort) * time.Second
		args = []string{fmt.Sprintf("-T:%d", 20*effort), f}
	case "z3o": // the older z3
		name = "z3"
		head = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"
		wall = time.Duration(4*effort) * time.Second
		args = []string{fmt.Sprintf("-T:%d", 20*effort), f}
	case "z3os":
		which, name = "z3o", "z3"
		head = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :rlimit 1000000)\n"
		wall = 2 * time.Second
		args = []string{"-T:10", f}
	case "z3":
		head = fmt.Sprintf("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed %d)\n(set-option :rlimit %d)\n", 0, 4000000*effort)
		wall = time.Duration(10*effort) * time.Second
		args = []string{fmt.Sprintf("-T:%d", 50*effort), f}
	case "z3b":
		head = fmt.Sprintf("(set-option :smt.random_seed %d)\n(set-option :smt.arith.solver 2)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 20)\n(set-option :rlimit %d)\n", 7, 4000000*effort)
		wall = time.Duration(10*effort) * time.Second
		args = []string{fmt.Sprintf("-T:%d", 50*effort), f}
	case "cvc5":
		name = cvc5Bin
		head = "(set-logic ALL)\n"
		wall = time.Duration(6*effort) * time.Second
		args = []string{"--lang=smt2", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", 30000*effort), f}
	}
	if err := os.WriteFile(f, []byte(head+text), 0o644); err != nil {
		return "error: " + err.Error(), 0
	}
	if !keepQueries {
		defer os.Remove(f)
	}
	// The limit is on processor time, so that other work on the machine does not change the outcome.
	start := time.Now()
	max := 5*wall + 5*time.Second
	if !deadline.IsZero() {
		max = min(max, time.Until(deadline))
	}
	if max <= 0 {
		return "not started: time is up", 0
	}
	ctx, cancel := context.WithTimeout(context.Background(), max)
	defer cancel()
	c := exec.CommandContext(ctx, "sh", append([]string{"-c", fmt.Sprintf("ulimit -t %d; exec \"$0\" \"$@\"", int(wall.Seconds())), name}, args...)...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	_ = c.Run()
	secs = time.Since(start).Seconds()
	solverMu.Lock()
	solverSecs[which] += secs
	solverRuns[which]++
	solverMu.Unlock()
	o := strings.TrimSpace(out.String())
	l := ""
	for _, x := range strings.Split(o, "\n") {
		if !strings.HasPrefix(x, "WARNING") {
			l = strings.TrimSpace(x)
			break
		}
	}
	switch {
	case l == "unsat", l == "sat", l == "unknown", l == "timeout":
		return l, secs
	case strings.Contains(o, "error"):
		return "error: " + o, secs
	case l == "":
		return "timeout", secs
	default:
		return l, secs
	}
}

var (
	fast        = os.Getenv("GOVER_FAST") != "" // development
	keepQueries = false
	dumpName    string // dump the queries of undecided obligations of this name (development)
	dumpN       int
)

// decide tries to discharge o.
func (ex *Exec) decide(o *Obl, texts []string, stage int) bool {
	if o.Goal == tTrue {
		o.Status, o.Backend = "discharged", "simplifier"
		return true
	}
	try := func(which, text string, effort int) bool {
		if which == "z3o" && stage == 0 && !strings.Contains(text, "(declare-fun rec_") {
			which = "z3os" // a short try is enough
		}
		st, s := runSolver(which, text, effort)
		o.Secs += s
		o.Detail = which + ": " + st
		if strings.HasPrefix(st, "error") && !strings.HasPrefix(which, "z3o") {
			ex.solverErr(o, st, text)
		}
		if st == "unsat" {
			o.Status, o.Backend = "discharged", which
			return true
		}
		return false
	}
	text := texts[0]
	o.Status = "failed"
	if dumpName != "" && strings.Contains(o.Kind+" "+o.Name, dumpName) {
		defer func() {
			if o.Status != "discharged" {
				solverMu.Lock()
				dumpN++
				f := fmt.Sprintf("/tmp/dump%d.smt2", dumpN)
				solverMu.Unlock()
				fmt.Println("dumped", f, o.Name, o.Trail)
				_ = os.WriteFile(f, []byte("; "+o.Name+o.Trail+"\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"+text), 0o644)
			}
		}()
	}
	if ex.hint != nil && stage < 2 {
		if v, ok := ex.hint.Via[o.key]; ok && try(v, text, 6) {
			return true
		}
	}
	switch stage {
	case 0: // candidates
		if !strings.Contains(o.Name, ": inv ") {
			return try("z3s", text, 1) || try("z3x", text, 1) || try("z3o", text, 1)
		}
		if fast {
			return try("z3s", text, 1) || try("z3x", text, 1) || try("z3o", text, 1) || try("cvc5", text, 1)
		}
		return try("z3s", text, 1) || try("z3x", text, 1) || try("z3o", text, 1) || try("cvc5", text, 1) || try("z3", text, 2)
	case 1:
		return try("z3s", text, 1) || try("z3x", text, 1) || try("z3o", text, 1) || try("cvc5", text, 1) || try("z3", text, 2)
	}
	deep := texts[1]
	return try("z3x", deep, 8) || try("z3", deep, 8) || try("z3o", deep, 8) || try("z3b", text, 8) || try("cvc5", text, 5)
}

var (
	errMu      sync.Mutex
	solverErrs []string
)

func (ex *Exec) solverErr(o *Obl, st, text string) {
	errMu.Lock()
	defer errMu.Unlock()
	if len(solverErrs) < 5 {
		if len(st) > 400 {
			st = st[:400]
		}
		solverErrs = append(solverErrs, o.Func+": "+o.Name+": "+st)
		if keepQueries {
			_ = os.WriteFile(filepath.Join(scratchDir, fmt.Sprintf("err%d.smt2", len(solverErrs))), []byte(text), 0o644)
		}
	}
}

// texts builds the queries for obligations, one after another: the text does not depend on timing.
func (ex *Exec) texts(os []*Obl, dead map[*Term]bool, stage int) [][]string {
	r := make([][]string, len(os))
	for i, o := range os {
		if o.Goal == tTrue || o.cand != nil && dead[o.cand] {
			continue
		}
		r[i] = []string{buildQuery(ex, o.PC, o.Goal, dead, 2)}
		if stage == 2 {
			r[i] = append(r[i], buildQuery(ex, o.PC, o.Goal, dead, 3))
		}
	}
	return r
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 12)
	for i := 0; i < n; i++ {
		wg.Add(1)
		lim <- struct{}{}
		go func(i int) {
			defer wg.Done()
			f(i)
			<-lim
		}(i)
	}
	wg.Wait()
}

// solve runs Houdini on the candidates, then decides the other obligations.
func (ex *Exec) solve() (dead map[*Term]bool) {
	dead = map[*Term]bool{}
	var cands, rest []*Obl
	for _, o := range ex.obls {
		if o.cand != nil {
			cands = append(cands, o)
		} else {
			rest = append(rest, o)
		}
	}
	if names := os.Getenv("GOVER_DEAD"); names != "" { // development: candidates to leave out
		for _, o := range cands {
			for _, w := range strings.Split(names, "|") {
				if strings.Contains(o.Name, w) {
					dead[o.cand] = true
				}
			}
		}
	}
	if ex.hint != nil {
		for _, o := range cands {
			if ex.hint.dead[ex.tagKey[o.cand]] {
				dead[o.cand] = true
			}
		}
		var live []*Obl
		for _, o := range cands {
			if !dead[o.cand] {
				live = append(live, o)
			}
		}
		cands = live
	}
	uses := func(o *Obl) map[*Term]bool {
		r := map[*Term]bool{}
		for _, p := range o.PC {
			if p.op == "or" {
				for _, a := range p.args {
					if a.op == "not" && a.args[0].op == "var" && strings.HasPrefix(a.args[0].name, "tag!") {
						r[a.args[0]] = true
					}
				}
			}
		}
		return r
	}
	if only := os.Getenv("GOVER_ONLY"); only != "" { // development: some candidates, the others assumed
		var some []*Obl
		for _, o := range ex.obls {
			for _, w := range strings.Split(only, "|") {
				if strings.Contains(o.Kind+" "+o.Name, w) && !dead[o.cand] {
					some = append(some, o)
					break
				}
			}
		}
		texts := ex.texts(some, dead, 0)
		parallel(len(some), func(i int) {
			ok := ex.decide(some[i], texts[i], 0)
			fmt.Printf("%v %.1f %s %s %s\n", ok, some[i].Secs, some[i].Name, some[i].Backend, some[i].Trail)
		})
		os.Exit(0)
	}
	todo := cands
	for round := 1; len(todo) > 0; round++ {
		ok := make([]bool, len(todo))
		snapshot := map[*Term]bool{}
		for t := range dead {
			snapshot[t] = true
		}
		texts := ex.texts(todo, snapshot, 0)
		parallel(len(todo), func(i int) {
			if snapshot[todo[i].cand] {
				return
			}
			ok[i] = ex.decide(todo[i], texts[i], 0)
		})
		newly := map[*Term]bool{}
		for i, o := range todo {
			if !ok[i] && os.Getenv("GOVER_ROUNDS") != "" && strings.Contains(o.Name, ": inv ") { // development
				fmt.Println("round", round, o.Name, o.Trail)
			}
			if !ok[i] && !dead[o.cand] {
				dead[o.cand] = true
				newly[o.cand] = true
			}
		}
		if len(newly) == 0 {
			break
		}
		todo = nil
		for _, o := range cands {
			if dead[o.cand] {
				continue
			}
			if o.Backend == "simplifier" {
				continue
			}
			for t := range uses(o) {
				if newly[t] {
					todo = append(todo, o)
					break
				}
			}
		}
	}
	texts := ex.texts(rest, dead, 1)
	parallel(len(rest), func(i int) { ex.decide(rest[i], texts[i], 1) })
	return dead
}

// retry tries hard on the obligations that are left.
func (ex *Exec) retry(dead map[*Term]bool) {
	var left []*Obl
	for _, o := range ex.obls {
		if o.cand == nil && o.Status != "discharged" && o.Kind != "unsupported" {
			left = append(left, o)
		}
	}
	if len(left) > 6 {
		left = left[:6]
	}
	texts := ex.texts(left, dead, 2)
	parallel(len(left), func(i int) { ex.decide(left[i], texts[i], 2) })
}

// vacuous says whether no exit of the function is reachable, as far as the solver can tell.
func (ex *Exec) vacuous(dead map[*Term]bool) (bool, int) {
	if len(ex.exitPCs) == 0 {
		return true, 0
	}
	n := len(ex.exitPCs)
	if n > 64 {
		n = 64
	}
	live := make([]bool, n)
	var texts []string
	for _, pc := range ex.exitPCs[:n] {
		texts = append(texts, buildQuery(ex, pc, tFalse, dead, 1))
	}
	parallel(n, func(i int) {
		text := texts[i]
		st, _ := runSolver("z3", text, 1)
		live[i] = st != "unsat" && !strings.HasPrefix(st, "error")
	})
	k := 0
	for i, l := range live {
		if l {
			k++
		} else {
			ex.deadExits = append(ex.deadExits, ex.exitTrails[i])
			if os.Getenv("GOVER_DEAD") != "" {
				os.WriteFile(fmt.Sprintf("/tmp/dead%d.smt2", i), []byte(texts[i]), 0o644)
			}
		}
	}
	return k == 0, k
}
