package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env is the environment of one activation.
type Env struct {
	fn    *ssa.Function
	vals  map[ssa.Value][]*Term
	loops []*loopCtx
	key   string // call path, names loops
}

type pcNode struct {
	t    *Term
	up   *pcNode
	size int
}

// State is one symbolic state; states are cloned at branches.
type State struct {
	ex    *Exec
	pc    *pcNode
	heaps map[string]*Term
	alloc *Term
	cells map[int][]*Term
	prom  map[int]*Term
	env   []*Env
	ghost map[string][]*Term
	dead  bool
	trail string
}

func (st *State) clone() *State {
	n := &State{ex: st.ex, pc: st.pc, alloc: st.alloc, dead: st.dead, trail: st.trail}
	n.heaps = make(map[string]*Term, len(st.heaps)+4)
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.cells = make(map[int][]*Term, len(st.cells)+4)
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.prom = make(map[int]*Term, len(st.prom))
	for k, v := range st.prom {
		n.prom[k] = v
	}
	n.ghost = make(map[string][]*Term, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.env = make([]*Env, len(st.env))
	for i, e := range st.env {
		m := make(map[ssa.Value][]*Term, len(e.vals)+8)
		for k, v := range e.vals {
			m[k] = v
		}
		n.env[i] = &Env{fn: e.fn, vals: m, loops: append([]*loopCtx(nil), e.loops...), key: e.key}
	}
	return n
}

func (st *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == tTrue {
			continue
		}
		if t == tFalse {
			st.dead = true
		}
		if t.op == "and" {
			st.assume(t.args...)
			continue
		}
		n := Not(t)
		for p := st.pc; p != nil; p = p.up {
			if p.t == t {
				goto next
			}
			if p.t == n {
				st.dead = true
			}
		}
		if t.spec {
			unsup("assumption about an unexpressible value: %s", short(t))
		}
		{
			sz := 1
			if st.pc != nil {
				sz = st.pc.size + 1
			}
			st.pc = &pcNode{t, st.pc, sz}
		}
	next:
	}
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (st *State) pcs() []*Term {
	if st.pc == nil {
		return nil
	}
	r := make([]*Term, st.pc.size)
	for p := st.pc; p != nil; p = p.up {
		r[p.size-1] = p.t
	}
	return r
}

// heaps ------------------------------------------------------------------

// heapInfo describes a heap symbol.
type heapInfo struct {
	key   string
	kind  byte // 'o' object leaf, 'd' map domain, 'v' map value leaf, 'c' map cardinality
	leaf  Leaf
	group []string // names of the symbols of the leaf's group, starting with the group's first
	lpos  int
	ls    []Leaf
	alloc *Term
	ksort string
	dom   string // of a map value leaf: the symbol of the domain
}

// heapKey identifies one heap array: K = key text, with enough to make symbols of it.
type heapKey struct {
	kind  byte
	tkey  string
	leaf  Leaf
	ksort string
	group []Leaf
	gpos  int
	gfrom int // leaf index of the group's first leaf
}

func groupOf(ls []Leaf, i int) (from, n int) {
	switch ls[i].Kind {
	case lkPtrB, lkBytes:
		return i, 2
	case lkPtrI, lkBytesNil:
		return i - 1, 2
	case lkSliceA, lkTag:
		return i, 3
	case lkSliceL, lkIfB:
		return i - 1, 3
	case lkSliceC, lkIfI:
		return i - 2, 3
	}
	return i, 1
}

func objKeys(t types.Type) []string {
	ls := leaves(t)
	tk := typeKey(t)
	r := make([]string, len(ls))
	for i, l := range ls {
		r[i] = tk + l.Path + fmt.Sprintf("#%d", i)
	}
	return r
}

func (ex *Exec) regKey(name string, hk heapKey) string {
	if _, ok := ex.keys[name]; !ok {
		ex.keys[name] = hk
	}
	return name
}

// objKey is the key of leaf i of objects of type t.
func (ex *Exec) objKey(t types.Type, i int) string {
	ls := leaves(t)
	name := "o:" + typeKey(t) + ls[i].Path
	if _, ok := ex.keys[name]; !ok {
		f, n := groupOf(ls, i)
		ex.keys[name] = heapKey{kind: 'o', tkey: typeKey(t), leaf: ls[i], group: ls[f : f+n], gpos: i - f, gfrom: f}
	}
	return name
}

func mapTypes(t types.Type) (k, v types.Type) {
	m := t.Underlying().(*types.Map)
	return m.Key(), m.Elem()
}

func mapKeyName(t types.Type) string {
	k, v := mapTypes(t)
	return typeKey(k) + "->" + typeKey(v)
}

func keySort(k types.Type) string {
	ls := leaves(k)
	if len(ls) == 1 {
		return ls[0].Sort
	}
	return regTupleSort(k, ls)
}

var tupleSorts = map[string][]Leaf{}

func regTupleSort(k types.Type, ls []Leaf) string {
	n := "KT_" + strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, typeKey(k))
	keyMu.Lock()
	tupleSorts[n] = ls
	keyMu.Unlock()
	return n
}

func keyTerm(k types.Type, c []*Term) *Term {
	s := keySort(k)
	if len(c) == 1 {
		return c[0]
	}
	return App("mk_"+s, s, c...)
}

func unkey(k types.Type, t *Term) []*Term {
	ls := leaves(k)
	if len(ls) == 1 {
		return []*Term{t}
	}
	s := keySort(k)
	var r []*Term
	for i, l := range ls {
		if t.op == "app" && t.name == "mk_"+s {
			r = append(r, t.args[i])
		} else {
			r = append(r, App(fmt.Sprintf("%s_f%d", s, i), l.Sort, t))
		}
	}
	return r
}

func (ex *Exec) domKey(t types.Type) string {
	k, _ := mapTypes(t)
	return ex.regKey("d:"+mapKeyName(t), heapKey{kind: 'd', tkey: mapKeyName(t), ksort: keySort(k)})
}

func (ex *Exec) cardKey(t types.Type) string {
	k, _ := mapTypes(t)
	return ex.regKey("c:"+mapKeyName(t), heapKey{kind: 'c', tkey: mapKeyName(t), ksort: keySort(k)})
}

func (ex *Exec) mvalKey(t types.Type, i int) string {
	k, v := mapTypes(t)
	ls := leaves(v)
	f, n := groupOf(ls, i)
	return ex.regKey("v:"+mapKeyName(t)+ls[i].Path, heapKey{kind: 'v', tkey: mapKeyName(t), leaf: ls[i], ksort: keySort(k),
		group: ls[f : f+n], gpos: i - f, gfrom: f})
}

func (hk heapKey) sort() string {
	switch hk.kind {
	case 'o':
		return arr("Int", arr("Int", hk.leaf.Sort))
	case 'd':
		return arr("Int", arr(hk.ksort, "Bool"))
	case 'v':
		return arr("Int", arr(hk.ksort, hk.leaf.Sort))
	case 'c':
		return arr("Int", "Int")
	}
	panic("kind")
}

// groupKeys are the keys havoced together with key.
func (ex *Exec) groupKeys(key string) []string {
	hk := ex.keys[key]
	if len(hk.group) <= 1 {
		return []string{key}
	}
	base := strings.TrimSuffix(key, hk.leaf.Path)
	var r []string
	for _, l := range hk.group {
		k := base + l.Path
		if _, ok := ex.keys[k]; !ok {
			h2 := hk
			h2.leaf = l
			for j, g := range hk.group {
				if g.Path == l.Path {
					h2.gpos = j
				}
			}
			ex.keys[k] = h2
		}
		r = append(r, k)
	}
	return r
}

// newHeapSyms makes symbols named with suffix for all keys of key's group.
func (ex *Exec) heapSym(key, suffix string, alloc *Term) *Term {
	hk := ex.keys[key]
	name := key + suffix
	v := Var(name, hk.sort())
	if _, ok := ex.hinfo[name]; !ok {
		gk := ex.groupKeys(key)
		var names []string
		for _, k := range gk {
			names = append(names, k+suffix)
		}
		for i, k := range gk {
			h := ex.keys[k]
			lp := i
			ex.hinfo[k+suffix] = &heapInfo{key: k, kind: h.kind, leaf: h.leaf, group: names, lpos: lp, ls: h.group, alloc: alloc, ksort: h.ksort, dom: "d:" + h.tkey + suffix}
		}
		if len(gk) == 1 {
			ex.hinfo[name] = &heapInfo{key: key, kind: hk.kind, leaf: hk.leaf, group: []string{name}, ls: []Leaf{hk.leaf}, alloc: alloc, ksort: hk.ksort, dom: "d:" + hk.tkey + suffix}
		}
	}
	return v
}

func (st *State) heap(key string) *Term {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	h := st.ex.heapSym(key, "@0", st.ex.alloc0)
	st.heaps[key] = h
	return h
}

func (st *State) setHeap(key string, t *Term) {
	st.heap(key)
	st.heaps[key] = t
	if st.ex.onWrite != nil {
		st.ex.onWrite(key)
	}
}

func (st *State) newBase() *Term {
	b := st.alloc
	st.alloc = AddK(st.alloc, 1)
	return b
}

// addresses --------------------------------------------------------------

type cellRef struct {
	id, off int
	typ     types.Type // type of what is pointed to
}
type intrRef struct {
	root types.Type
	off  int
}
type globalRef struct {
	g   *ssa.Global
	off int
}
type closure struct {
	fn   *ssa.Function
	bind [][]*Term
}
type boxRef struct{ typ types.Type }

type addr struct {
	cell int // -1: not a cell
	glob *ssa.Global
	off  int
	root types.Type
	b, i *Term
}

func (ex *Exec) cellPtr(id, off int, t types.Type) []*Term {
	return []*Term{Special("cell", "Int", fmt.Sprintf("%d/%d+%d:%s", ex.num, id, off, types.TypeString(t, nil)), cellRef{id, off, t}), Int(0)}
}

func globPtr(g *ssa.Global, off int) []*Term {
	return []*Term{Special("global", "Int", fmt.Sprintf("%s+%d", g.String(), off), globalRef{g, off}), Int(0)}
}

// resolve finds where pointer (b,i) to a t points.
func (st *State) resolve(c []*Term, t types.Type) addr {
	b, i := c[0], c[1]
	switch x := b.extra.(type) {
	case cellRef:
		if base, ok := st.prom[x.id]; ok {
			ct := st.ex.cellType[x.id]
			if at, ok := ct.Underlying().(*types.Array); ok {
				n := len(leaves(at.Elem()))
				return addr{cell: -1, root: at.Elem(), off: x.off % n, b: base, i: Int(int64(x.off / n))}
			}
			return addr{cell: -1, root: ct, off: x.off, b: base, i: Int(0)}
		}
		return addr{cell: x.id, off: x.off}
	case intrRef:
		return addr{cell: -1, root: x.root, off: x.off, b: b.args[0], i: b.args[1]}
	case globalRef:
		return addr{cell: -1, glob: x.g, off: x.off}
	}
	if b.spec {
		unsup("pointer %s", short(b))
	}
	return addr{cell: -1, root: t, b: b, i: i}
}

// ptr makes a pointer to the t at a.
func (st *State) ptr(a addr, t types.Type) []*Term {
	switch {
	case a.cell >= 0:
		return st.ex.cellPtr(a.cell, a.off, t)
	case a.glob != nil:
		return globPtr(a.glob, a.off)
	case a.off == 0 && typeKey(a.root) == typeKey(t):
		return []*Term{a.b, a.i}
	}
	return []*Term{Special("intr", "Int", fmt.Sprintf("%s+%d", typeKey(a.root), a.off), intrRef{a.root, a.off}, a.b, a.i), Int(0)}
}

// loadAt reads a t at a without any check.
func (st *State) loadAt(a addr, t types.Type) []*Term {
	n := len(leaves(t))
	switch {
	case a.cell >= 0:
		c := st.cells[a.cell]
		if a.off+n > len(c) {
			unsup("read beyond a local")
		}
		return append([]*Term(nil), c[a.off:a.off+n]...)
	case a.glob != nil:
		return append([]*Term(nil), st.ex.globalVal(a.glob)[a.off:a.off+n]...)
	}
	r := make([]*Term, n)
	for k := range r {
		r[k] = Select(Select(st.heap(st.ex.objKey(a.root, a.off+k)), a.b), a.i)
	}
	return r
}

func (st *State) storeAt(a addr, v []*Term) {
	switch {
	case a.cell >= 0:
		c := append([]*Term(nil), st.cells[a.cell]...)
		copy(c[a.off:], v)
		st.cells[a.cell] = c
		return
	case a.glob != nil:
		unsup("assignment to global %s", a.glob.Name())
	}
	v = st.emit(v)
	for k := range v {
		key := st.ex.objKey(a.root, a.off+k)
		h := st.heap(key)
		st.setHeap(key, Store(h, a.b, Store(Select(h, a.b), a.i, v[k])))
	}
}

// newCell makes a local variable.
func (st *State) newCell(t types.Type, v []*Term) int {
	id := len(st.ex.cellType)
	st.ex.cellType = append(st.ex.cellType, t)
	st.cells[id] = v
	return id
}

// promote moves local cell id to the heap.
func (st *State) promote(id int) *Term {
	if b, ok := st.prom[id]; ok {
		return b
	}
	t := st.ex.cellType[id]
	if t == nil {
		unsup("escaping iterator")
	}
	b := st.newBase()
	st.prom[id] = b
	c := st.cells[id]
	if at, ok := t.Underlying().(*types.Array); ok {
		n := len(leaves(at.Elem()))
		for j := 0; j < int(at.Len()); j++ {
			st.storeAt(addr{cell: -1, root: at.Elem(), b: b, i: Int(int64(j))}, c[j*n:j*n+n])
		}
	} else {
		st.storeAt(addr{cell: -1, root: t, b: b, i: Int(0)}, c)
	}
	delete(st.cells, id)
	return b
}

// emit makes values expressible in logic, moving locals whose address escapes to the heap.
func (st *State) emit(v []*Term) []*Term {
	r := make([]*Term, len(v))
	copy(r, v)
	for k := 0; k < len(r); k++ {
		t := r[k]
		if !t.spec {
			continue
		}
		switch x := t.extra.(type) {
		case cellRef:
			b := st.promote(x.id)
			ct := st.ex.cellType[x.id]
			if at, ok := ct.Underlying().(*types.Array); ok {
				n := len(leaves(at.Elem()))
				if x.off%n != 0 || (typeKey(at.Elem()) != typeKey(x.typ) && x.off != 0) {
					unsup("escaping pointer into an element")
				}
				r[k] = b
				if typeKey(at.Elem()) == typeKey(x.typ) && k+1 < len(r) && x.off > 0 {
					r[k+1] = Int(int64(x.off / n))
				}
				continue
			}
			if x.off != 0 || (typeKey(ct) != typeKey(x.typ)) {
				unsup("escaping pointer to a field %s of %s", x.typ, ct)
			}
			r[k] = b
		case *closure:
			if len(x.bind) > 0 {
				unsup("escaping closure %s", x.fn.Name())
			}
			r[k] = Int(st.ex.funcID(x.fn))
		case boxRef:
			cs := st.emit(t.args)
			r[k] = App("box_"+typeKey(x.typ), "Int", cs...)
		default:
			if t.extra == nil { // a compound term with a special part
				m := map[*Term]*Term{}
				var walk func(u *Term)
				walk = func(u *Term) {
					if !u.spec {
						return
					}
					if u.extra != nil {
						m[u] = st.emit([]*Term{u})[0]
						return
					}
					for _, a := range u.args {
						walk(a)
					}
				}
				walk(t)
				r[k] = Subst(t, m)
				continue
			}
			unsup("escaping %s", short(t))
		}
	}
	return r
}

// eq compares two values of type t.
func (st *State) eq(t types.Type, a, b []*Term) *Term {
	ls := leaves(t)
	var cs []*Term
	for i := 0; i < len(ls); i++ {
		switch ls[i].Kind {
		case lkPtrB:
			cs = append(cs, st.ptrEq(a[i:i+2], b[i:i+2], t, ls[i].Typ))
			i++
		case lkTag:
			cs = append(cs, st.ifaceEq(a[i:i+3], b[i:i+3]))
			i += 2
		case lkSliceA:
			// only comparison with nil exists in Go
			cs = append(cs, st.scalarEq(a[i], b[i]))
			i += 2
		case lkBytes:
			cs = append(cs, Eq(a[i+1], b[i+1]))
			i++
		default:
			cs = append(cs, st.scalarEq(a[i], b[i]))
		}
	}
	return And(cs...)
}

func (st *State) scalarEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.spec || b.spec {
		if a.extra != nil && b.isInt() && b.ival == 0 || b.extra != nil && a.isInt() && a.ival == 0 {
			return tFalse // an address or a closure is not nil
		}
		x := st.emit([]*Term{a, b})
		return Eq(x[0], x[1])
	}
	return Eq(a, b)
}

func (st *State) ptrEq(a, b []*Term, _, pt types.Type) *Term {
	if a[0] == b[0] && a[1] == b[1] {
		return tTrue
	}
	if !a[0].spec && !b[0].spec {
		return And(Eq(a[0], b[0]), Eq(a[1], b[1]))
	}
	et := pt.Underlying().(*types.Pointer).Elem()
	nilp := func(c []*Term) bool { return c[0].isInt() && c[0].ival == 0 }
	if nilp(a) || nilp(b) {
		if a[0].extra != nil || b[0].extra != nil {
			return tFalse
		}
	}
	x, y := st.resolve(a, et), st.resolve(b, et)
	if x.cell >= 0 || y.cell >= 0 || x.glob != nil || y.glob != nil {
		return BoolT(x.cell == y.cell && x.glob == y.glob && x.off == y.off)
	}
	if x.off != y.off || typeKey(x.root) != typeKey(y.root) {
		if x.off == 0 || y.off == 0 { // could be a whole object against its own part of the same type
			return tFalse
		}
		return tFalse
	}
	return And(Eq(x.b, y.b), Eq(x.i, y.i))
}

func (st *State) ifaceEq(a, b []*Term) *Term {
	if a[0].isInt() && a[0].ival == 0 {
		return Eq(b[0], a[0])
	}
	if b[0].isInt() && b[0].ival == 0 {
		return Eq(a[0], b[0])
	}
	tg := Eq(a[0], b[0])
	if tg == tFalse {
		return tFalse
	}
	if t := typeOfTag(a[0]); t != nil && tg == tTrue {
		if ba, ok := a[1].extra.(boxRef); ok {
			if bb, ok := b[1].extra.(boxRef); ok && types.Identical(ba.typ, bb.typ) {
				return st.eq(ba.typ, a[1].args, b[1].args)
			}
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return st.ptrEq(a[1:], b[1:], nil, t)
		}
	}
	x, y := st.emit(a), st.emit(b)
	return And(tg, Eq(x[1], y[1]), Eq(x[2], y[2]))
}
