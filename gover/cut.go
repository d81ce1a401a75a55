package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopMods is what one iteration of a loop can change.
type loopMods struct {
	heaps map[string]bool
	cells map[int]bool
	alloc bool
	// lin: component -> step per iteration, for components that change by a constant
	lin map[string]int64
	// writes: key -> bases stored to that are known before the loop; nil entry: unknown base
	bases map[string]map[*Term]bool
	wild  map[string]bool
	ghost map[string]bool // ghost variables changed
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// cellLeaves are the leaves of a cell; iterators have none.
func (ex *Exec) cellLeaves(id int, c []*Term) []Leaf {
	t := ex.cellType[id]
	if t != nil {
		return leaves(t)
	}
	ls := make([]Leaf, len(c))
	for i := range c {
		ls[i] = Leaf{Path: fmt.Sprint(i), Sort: c[i].sort, Kind: lkOpaque}
	}
	return ls
}

func compKey(kind string, id any, i int) string { return fmt.Sprintf("%s%v/%d", kind, id, i) }

// header makes the arbitrary state at the head of the loop. lin components get entry + step*k.
// orig maps new symbols to the entry values they stand for.
func (ex *Exec) header(st *State, d int, lp *loopInfo, m *loopMods, k *Term, suffix string, orig map[*Term]*Term) *State {
	h := st.clone()
	var gs []string
	for g, v := range h.ghost {
		if strings.HasPrefix(g, "called:") && v[0] != tTrue {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		c := Fresh("called", "Bool")
		h.assume(Implies(h.ghost[g][0], c))
		h.ghost[g] = []*Term{c}
	}
	gs = nil
	for g := range m.ghost {
		if len(h.ghost[g]) > 0 {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		var v []*Term
		for _, t := range h.ghost[g] {
			v = append(v, Fresh("ghost", t.sort))
		}
		h.ghost[g] = v
	}
	if m.alloc {
		h.alloc = Fresh("alloc", "Int")
		h.assume(Le(st.alloc, h.alloc))
	}
	havocComps := func(key string, old []*Term, ls []Leaf, name string) []*Term {
		r := make([]*Term, len(old))
		for i := range old {
			ck := key + fmt.Sprintf("/%d", i)
			if s, ok := m.lin[ck]; ok && k != nil {
				if s == 0 {
					r[i] = old[i]
				} else {
					r[i] = Add(old[i], Mul(Int(s), k))
				}
				continue
			}
			if old[i].spec {
				// an address or closure: kept if the loop does not change it
				if m.lin != nil {
					unsup("loop changes %s", short(old[i]))
				}
			}
			r[i] = Fresh(name+ls[i].Path, ls[i].Sort)
			if !old[i].spec && orig != nil {
				orig[r[i]] = old[i]
			}
		}
		return r
	}
	for _, p := range phisOf(lp.header) {
		old := st.env[d].vals[p]
		ls := leaves(p.Type())
		v := havocComps("p"+p.Name(), old, ls, "phi")
		h.env[d].vals[p] = v
		if !hasSpec(v) {
			h.assume(typeInv(ls, v, h.alloc)...)
		}
	}
	var ids []int
	for id := range m.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		old := st.cells[id]
		ls := ex.cellLeaves(id, old)
		v := havocComps(fmt.Sprintf("c%d", id), old, ls, "loc")
		h.cells[id] = v
		if ex.cellType[id] != nil && !hasSpec(v) {
			h.assume(typeInv(ls, v, h.alloc)...)
		}
	}
	done := map[string]bool{}
	var ks []string
	for key := range m.heaps {
		ks = append(ks, key)
	}
	sort.Strings(ks)
	for _, key := range ks {
		for _, g := range ex.groupKeys(key) {
			if done[g] {
				continue
			}
			done[g] = true
			st.heap(g)
			h.heaps[g] = ex.heapSym(g, suffix, h.alloc)
			var bs []*Term
			for b := range m.bases[g] {
				bs = append(bs, b)
			}
			ex.havocOf[h.heaps[g]] = havocInfo{prev: st.heaps[g], bases: bs, wild: m.wild[g]}
		}
	}
	return h
}

func hasSpec(v []*Term) bool {
	for _, t := range v {
		if t.spec {
			return true
		}
	}
	return false
}

// discoverLoop finds what the loop changes.
func (ex *Exec) discoverLoop(st *State, d int, lp *loopInfo) *loopMods {
	m := &loopMods{heaps: map[string]bool{}, cells: map[int]bool{}, bases: map[string]map[*Term]bool{}, wild: map[string]bool{}, ghost: map[string]bool{}}
	if ex.con != nil && !inLoop(st) {
		for _, a := range ex.con.Loops {
			m.ghost["g:"+a.Target] = true
		}
	}
	ncell := len(ex.cellType)
	for round := 0; round < 12; round++ {
		ex.loopN++
		orig := map[*Term]*Term{}
		suffix := fmt.Sprintf("@D%d", ex.loopN)
		h := ex.header(st, d, lp, m, nil, suffix, orig)
		changed := false
		promoted := map[int]bool{}
		phis := phisOf(lp.header)
		type comp struct {
			key    string
			old, e *Term
		}
		var comps []comp
		for _, p := range phis {
			for i, t := range h.env[d].vals[p] {
				comps = append(comps, comp{compKey("p", p.Name(), i), t, st.env[d].vals[p][i]})
			}
		}
		for id := range m.cells {
			for i, t := range h.cells[id] {
				comps = append(comps, comp{compKey("c", id, i), t, st.cells[id][i]})
			}
		}
		lin := map[string]int64{}
		bad := map[string]bool{}
		m.bases = map[string]map[*Term]bool{}
		m.wild = map[string]bool{}
		nback := 0
		ctx := &loopCtx{loop: lp, discover: true}
		base := h.clone()
		h0 := base
		escape := func(b *State, now, was, entry []*Term) ([]*Term, bool) {
			for i := range now {
				if now[i] != was[i] && (now[i].spec || entry[i].spec) && !(entry[i].spec && now[i] == entry[i]) {
					if _, isFn := now[i].extra.(*closure); isFn {
						continue
					}
					return b.emit(now), hasSpec(entry)
				}
			}
			return now, false
		}
		ctx.onBack = func(b *State) {
			nback++
			// what the loop changes can be an address only if it is one of an object
			for _, p := range phis {
				v, e := escape(b, b.env[d].vals[p], h0.env[d].vals[p], st.env[d].vals[p])
				b.env[d].vals[p] = v
				if e {
					st.env[d].vals[p] = st.emit(st.env[d].vals[p])
					changed = true
				}
			}
			for id := range m.cells {
				if b.cells[id] == nil || h0.cells[id] == nil || st.cells[id] == nil || ex.cellType[id] == nil {
					continue
				}
				v, e := escape(b, b.cells[id], h0.cells[id], st.cells[id])
				b.cells[id] = v
				if e {
					st.cells[id] = st.emit(st.cells[id])
					changed = true
				}
			}
			for key, t := range b.heaps {
				was, ok := base.heaps[key]
				if !ok {
					was = ex.heapSym(key, "@0", ex.alloc0)
				}
				if was != t {
					if !m.heaps[key] {
						m.heaps[key] = true
						changed = true
					}
					ex.collectBases(m, key, t, was, orig, base.alloc)
				}
			}
			for id, c := range b.cells {
				if id >= ncell {
					continue
				}
				was, ok := base.cells[id]
				if !ok {
					continue
				}
				for i := range c {
					if c[i] != was[i] && !m.cells[id] {
						m.cells[id] = true
						changed = true
					}
				}
			}
			for id := range b.prom {
				if _, was := base.prom[id]; !was && id < ncell {
					promoted[id] = true
				}
			}
			for g, v := range b.ghost {
				if strings.HasPrefix(g, "g:") && !m.ghost[g] && !sameTerms(v, base.ghost[g]) {
					m.ghost[g] = true
					changed = true
				}
			}
			if b.alloc != base.alloc && !m.alloc {
				m.alloc = true
				changed = true
			}
			for _, c := range comps {
				var now *Term
				var name string
				var i int
				if c.key[0] == 'p' {
					for _, p := range phis {
						if strings.HasPrefix(c.key, "p"+p.Name()+"/") {
							fmt.Sscanf(c.key[len(p.Name())+2:], "%d", &i)
							now = b.env[d].vals[p][i]
						}
					}
				} else {
					var id int
					fmt.Sscanf(strings.Replace(c.key[1:], "/", " ", 1), "%d %d", &id, &i)
					if cc, ok := b.cells[id]; ok {
						now = cc[i]
					}
				}
				_ = name
				if now == nil {
					bad[c.key] = true
					continue
				}
				if now == c.old || (c.e.spec && now == c.e) {
					if v, ok := lin[c.key]; ok && v != 0 {
						bad[c.key] = true
					}
					lin[c.key] = 0
					continue
				}
				if now.sort != "Int" || now.spec || c.old.spec {
					bad[c.key] = true
					continue
				}
				diff, ok := constDiff(now, c.old)
				if v, had := lin[c.key]; !ok || had && v != diff {
					bad[c.key] = true
					continue
				}
				lin[c.key] = diff
			}
		}
		h.env[d].loops = append(h.env[d].loops, ctx)
		ex.quiet++
		ex.instrs(h, d, lp.header, 0, func(*State, []*Term) {})
		ex.quiet--
		if len(promoted) > 0 {
			var ids []int
			for id := range promoted {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				st.promote(id)
				delete(m.cells, id)
			}
			changed = true
		}
		if !changed {
			for k := range bad {
				delete(lin, k)
			}
			if nback == 0 {
				lin = map[string]int64{}
				for _, c := range comps {
					lin[c.key] = 0
				}
			}
			m.lin = lin
			return m
		}
	}
	unsup("loop changes do not settle")
	return nil
}

// collectBases records the objects that stores lead from was to t.
func (ex *Exec) collectBases(m *loopMods, key string, t, was *Term, orig map[*Term]*Term, alloc *Term) {
	if m.bases[key] == nil {
		m.bases[key] = map[*Term]bool{}
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		for t != was && !seen[t] {
			seen[t] = true
			switch t.op {
			case "store":
				ex.baseOf(m, key, t.args[1], orig, alloc)
				t = t.args[0]
			case "ite":
				walk(t.args[1])
				t = t.args[2]
			default:
				hv, ok := ex.havocOf[t]
				if !ok {
					m.wild[key] = true
					return
				}
				for _, b := range hv.bases {
					ex.baseOf(m, key, b, orig, alloc)
				}
				if hv.wild {
					m.wild[key] = true
				}
				t = hv.prev
			}
		}
	}
	walk(t)
}

func (ex *Exec) baseOf(m *loopMods, key string, b *Term, orig map[*Term]*Term, alloc *Term) {
	if b.op == "ite" {
		ex.baseOf(m, key, b.args[1], orig, alloc)
		ex.baseOf(m, key, b.args[2], orig, alloc)
		return
	}
	if d, ok := constDiff(b, alloc); ok && d >= 0 {
		return // new in this iteration
	}
	if o, ok := orig[b]; ok {
		m.bases[key][o] = true
		return
	}
	if mentionsFresh(b) {
		m.wild[key] = true
		return
	}
	m.bases[key][b] = true
}

// mentionsFresh says whether t mentions a symbol made during discovery.
func mentionsFresh(t *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if found || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" && (strings.Contains(t.name, "@D") || strings.HasPrefix(t.name, "phi") || strings.HasPrefix(t.name, "loc") || strings.HasPrefix(t.name, "alloc!") || strings.HasPrefix(t.name, "key!") || strings.HasPrefix(t.name, "ret") || strings.HasPrefix(t.name, "ext")) {
			found = true
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return found
}

type candidate struct {
	name string
	// at gives the formula in a state in which k iterations are done
	at  func(st *State, k *Term) *Term
	tag *Term
}

// cut replaces the loop by an arbitrary iteration, constrained by candidate invariants.
func (ex *Exec) cut(st *State, d int, lp *loopInfo, ret contFn) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			ex.outside(st, u.what, firstPos(lp.header))
		}
	}()
	m := ex.discoverLoop(st, d, lp)
	ex.loopN++
	n := ex.loopN
	suffix := fmt.Sprintf("@L%d", n)
	k := Fresh("k", "Int")
	h := ex.header(st, d, lp, m, k, suffix, nil)
	h.assume(Le(Int(0), k))
	ex.iteratorFacts(h, m)
	var cands []*candidate
	if ex.quiet == 0 {
		cands = ex.candidates(st, h, d, lp, m, k)
		var kept []*candidate
		for _, c := range cands {
			f0, ok0 := safeAt(c, st, Int(0))
			fh, okh := safeAt(c, h, k)
			if !ok0 || !okh || f0 == tFalse || fh == tTrue {
				continue
			}
			name := fmt.Sprintf("%s loop %d: %s", st.env[d].fn.Name(), n, c.name)
			c.tag = Var(fmt.Sprintf("tag!%d", len(ex.tags)), "Bool")
			ex.tags[name+"#"+fmt.Sprint(len(ex.tags))] = c.tag
			ex.tagName[c.tag] = name
			ex.obls = append(ex.obls, &Obl{Func: ex.con.Name, Kind: "cand", Name: name + " (entry)", PC: st.pcs(), Goal: f0, cand: c.tag, Trail: st.trail})
			h.assume(Implies(c.tag, fh))
			kept = append(kept, c)
		}
		cands = kept
	}
	ctx := &loopCtx{loop: lp, k: k}
	outer := !inLoop(st)
	ctx.onBack = func(b *State) {
		if ex.quiet > 0 || b.dead {
			return
		}
		for _, p := range phisOf(lp.header) {
			for i, t := range b.env[d].vals[p] {
				if v, ok := m.lin[compKey("p", p.Name(), i)]; t.spec && !(ok && v == 0) {
					b.env[d].vals[p] = b.emit(b.env[d].vals[p])
					break
				}
			}
		}
		for id := range m.cells {
			for i, t := range b.cells[id] {
				if v, ok := m.lin[compKey("c", id, i)]; t.spec && !(ok && v == 0) && ex.cellType[id] != nil {
					b.cells[id] = b.emit(b.cells[id])
					break
				}
			}
		}
		if outer && !ex.afterIteration(b, st, k) {
			return
		}
		pc := b.pcs()
		for _, c := range cands {
			f, ok := safeAt(c, b, AddK(k, 1))
			if !ok {
				f = tFalse
			}
			if f == tTrue {
				continue
			}
			ex.obls = append(ex.obls, &Obl{Func: ex.con.Name, Kind: "cand", Name: ex.tagName[c.tag] + " (kept)", PC: pc, Goal: f, cand: c.tag, Trail: b.trail})
		}
	}
	h.env[d].loops = append(h.env[d].loops, ctx)
	h.trail += fmt.Sprintf(" loop%d", n)
	ex.instrs(h, d, lp.header, 0, ret)
}

func safeAt(c *candidate, st *State, k *Term) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			u, is := r.(unsupported)
			if !is {
				panic(r)
			}
			if os.Getenv("GOVER_DROP") != "" && strings.HasPrefix(c.name, "inv ") {
				fmt.Println("no candidate", c.name, u.what)
			}
			ok = false
		}
	}()
	n := st.clone()
	t = c.at(n, k)
	if t == nil || t.spec {
		return nil, false
	}
	return t, true
}

// iteratorFacts assumes what always holds of map iterators: the keys delivered are keys of the map.
func (ex *Exec) iteratorFacts(h *State, m *loopMods) {
	for _, e := range h.env {
		for _, v := range e.vals {
			if len(v) != 1 {
				continue
			}
			it, ok := v[0].extra.(*iterInfo)
			if !ok || it.str || !m.cells[it.cell] {
				if ok && it.str && m.cells[it.cell] {
					p := h.cells[it.cell][0]
					h.assume(Le(Int(0), p), Le(p, runeCount(it.m)))
				}
				continue
			}
			kt, _ := mapTypes(it.typ)
			c := h.cells[it.cell]
			b := Bound("x", keySort(kt))
			h.assume(Forall([]*Term{b}, Implies(Select(c[0], b), Select(it.dom0, b)), []*Term{Select(c[0], b)}))
			h.assume(Le(Int(0), c[1]))
		}
	}
}

// candidates are the invariants to try.
func (ex *Exec) candidates(st, h *State, d int, lp *loopInfo, m *loopMods, k *Term) []*candidate {
	var cs []*candidate
	add := func(name string, at func(st *State, k *Term) *Term) {
		cs = append(cs, &candidate{name: name, at: at})
	}
	entry := st.clone()
	// 1. heaps: what is not written stays
	var ks []string
	seen := map[string]bool{}
	for key := range m.heaps {
		for _, g := range ex.groupKeys(key) {
			if !seen[g] {
				seen[g] = true
				ks = append(ks, g)
			}
		}
	}
	sort.Strings(ks)
	for _, key := range ks {
		key := key
		he := entry.heap(key)
		var ex1 []*Term
		for b := range m.bases[key] {
			ex1 = append(ex1, b)
		}
		sort.Slice(ex1, func(i, j int) bool { return ex1[i].id < ex1[j].id })
		frame := func(name string, bound *Term, but []*Term) {
			add("frame "+key+" "+name, func(st *State, _ *Term) *Term {
				hn := st.heap(key)
				if hn == he {
					return tTrue
				}
				b := Bound("b", "Int")
				g := []*Term{Lt(b, bound)}
				if strings.HasPrefix(key, "o:") { // nothing is at nil
					g = append(g, Le(Int(1), b))
				}
				for _, x := range but {
					g = append(g, Ne(b, x))
				}
				return Forall([]*Term{b}, Implies(And(g...), Eq(Select(hn, b), Select(he, b))), []*Term{Select(hn, b)})
			})
		}
		frame("before the loop", entry.alloc, nil)
		if len(ex1) > 0 {
			frame("but written", entry.alloc, ex1)
		}
		frame("before the call", ex.alloc0, nil)
		if len(ex1) > 1 {
			for _, b := range ex1 {
				frame("but one", entry.alloc, []*Term{b})
			}
		}
	}
	if ex.con != nil && ex.entry != nil {
		var ms []mod
		any := true
		if ex.guard(entry.clone(), token.NoPos, func() {
			ms, any = ex.mods(ex.specCtx(ex.con, ex.fn, entry.clone(), ex.entry.clone(), ex.entryArgs, nil), ex.con)
		}) && !any {
			for _, key := range ks {
				key := key
				named := false
				for _, x := range ms {
					named = named || x.of(ex.keys[key])
				}
				if named {
					h0 := ex.heapSym(key, "@0", ex.alloc0)
					add("frame "+key+" as the contract says", func(st *State, _ *Term) *Term {
						if st.heap(key) == h0 {
							return tTrue
						}
						return ex.unchanged(key, st.heap(key), h0, ms, ex.alloc0, true)
					})
				}
			}
		}
	}
	var gs []string
	for g := range h.ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		g := g
		if strings.HasPrefix(g, "called:") && h.ghost[g][0] != entry.ghost[g][0] {
			add(g+" as before", func(st *State, _ *Term) *Term { return Eq(st.ghost[g][0], entry.ghost[g][0]) })
		}
	}
	// 2. components
	type comp struct {
		get  func(st *State) []*Term
		e    []*Term
		ls   []Leaf
		name string
	}
	var comps []comp
	for _, p := range phisOf(lp.header) {
		p := p
		comps = append(comps, comp{func(st *State) []*Term { return st.env[d].vals[p] }, entry.env[d].vals[p], leaves(p.Type()), p.Name()})
	}
	var ids []int
	for id := range m.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		if ex.cellType[id] == nil {
			continue
		}
		comps = append(comps, comp{func(st *State) []*Term { return st.cells[id] }, entry.cells[id], leaves(ex.cellType[id]), fmt.Sprintf("local%d", id)})
	}
	for _, c := range comps {
		c := c
		if hv := c.get(h); sameTerms(hv, c.e) {
			continue
		}
		for i, l := range c.ls {
			i, l := i, l
			nm := c.name + l.Path
			get := func(st *State) *Term { return c.get(st)[i] }
			if get(h) == c.e[i] || c.e[i].spec {
				continue
			}
			switch l.Kind {
			case lkInt, lkUint, lkSliceL:
				add(nm+" >= entry", func(st *State, _ *Term) *Term { return Le(c.e[i], get(st)) })
				add(nm+" <= entry", func(st *State, _ *Term) *Term { return Le(get(st), c.e[i]) })
				if l.Kind == lkSliceL {
					add(nm+" = entry+k", func(st *State, k *Term) *Term { return Eq(get(st), Add(c.e[i], k)) })
					add(nm+" <= entry+k", func(st *State, k *Term) *Term { return Le(get(st), Add(c.e[i], k)) })
				}
			case lkPtrB:
				add(nm+" non-nil", func(st *State, _ *Term) *Term { return Ne(get(st), Int(0)) })
			case lkSliceA:
				add(nm+" new, nil or entry's", func(st *State, _ *Term) *Term {
					return Or(Eq(get(st), Int(0)), Le(entry.alloc, get(st)), Eq(get(st), c.e[i]))
				})
				add(nm+" new or nil", func(st *State, _ *Term) *Term {
					return Or(Eq(get(st), Int(0)), Le(entry.alloc, get(st)))
				})
				add(nm+" new for the call or nil", func(st *State, _ *Term) *Term {
					return Or(Eq(get(st), Int(0)), Le(ex.alloc0, get(st)))
				})
				add(nm+" old elements stay", func(st *State, _ *Term) *Term {
					et := l.Typ.Underlying().(*types.Slice).Elem()
					var r []*Term
					j := Bound("j", "Int")
					for q := range leaves(et) {
						key := ex.objKey(et, q)
						now := Select(Select(st.heap(key), get(st)), j)
						was := Select(Select(entry.heap(key), c.e[i]), j)
						r = append(r, Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, c.e[i+1])), Eq(now, was)), []*Term{now}))
					}
					return And(r...)
				})
			case lkTag:
				add(nm+" nil", func(st *State, _ *Term) *Term { return Eq(get(st), Int(0)) })
			case lkBool, lkStr:
				add(nm+" as at entry", func(st *State, _ *Term) *Term { return Eq(get(st), c.e[i]) })
			}
		}
	}
	// 3. the loop condition bounds the counter: p < q in the body means p <= q at the head
	if c := ex.headerCond(h, d, lp); c != nil && !c.spec {
		var les []*Term
		var collect func(t *Term)
		collect = func(t *Term) {
			switch t.op {
			case "<=":
				les = append(les, t)
			case "and", "or":
				for _, a := range t.args {
					collect(a)
				}
			case "not":
				collect(t.args[0])
			}
		}
		collect(c)
		collect(Not(c))
		for i := range les {
			i := i
			add(fmt.Sprintf("bound %d", i), func(st *State, _ *Term) *Term {
				cc := ex.headerCond(st, d, lp)
				if cc == nil {
					return nil
				}
				les = nil
				collect(cc)
				collect(Not(cc))
				if i >= len(les) {
					return nil
				}
				t := les[i]
				return Le(t.args[0], AddK(t.args[1], 1))
			})
		}
	}
	// 4. the contract's candidates
	for _, iv := range ex.con.invs() {
		cs = append(cs, ex.contractCands(iv, entry, h, d, lp, m)...)
	}
	return cs
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
