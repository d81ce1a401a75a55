package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Term is a hash-consed logical term. Besides SMT terms there are terms that exist only
// during symbolic execution (addresses of local cells, closures, ...): those with extra != nil.
type Term struct {
	id    int
	op    string
	args  []*Term
	sort  string
	name  string // variable, literal or function name
	ival  int64
	extra any
	// quantifiers
	vars []*Term
	pats [][]*Term
	// bnd is true if the term contains a bound variable, spec if it contains a special term.
	bnd, spec bool
}

var (
	termMu   sync.Mutex
	terms    = map[string]*Term{}
	termNext int
)

func mk(op, sort, name string, ival int64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(ival, 10))
	bnd, spec := op == "bound", false
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		bnd = bnd || a.bnd
		spec = spec || a.spec
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := terms[k]; ok {
		return t
	}
	termNext++
	t := &Term{id: termNext, op: op, sort: sort, name: name, ival: ival, args: append([]*Term(nil), args...), bnd: bnd, spec: spec}
	terms[k] = t
	return t
}

// Special makes a term that exists only during execution.
func Special(op, sort, key string, extra any, args ...*Term) *Term {
	t := mk(op, sort, key, 0, args...)
	termMu.Lock()
	t.extra = extra
	t.spec = true
	termMu.Unlock()
	return t
}

var (
	tTrue  = mk("true", "Bool", "", 0)
	tFalse = mk("false", "Bool", "", 0)
)

func Int(i int64) *Term { return mk("int", "Int", "", i) }
func BoolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func StrLit(s string) *Term         { return mk("str", "Str", s, 0) }
func Var(name, sort string) *Term   { return mk("var", sort, name, 0) }
func Bound(name, sort string) *Term { return mk("bound", sort, name, 0) }

var freshN = map[string]int{}

// Fresh makes a variable that is used nowhere else.
func Fresh(prefix, sort string) *Term {
	termMu.Lock()
	freshN[prefix]++
	n := freshN[prefix]
	termMu.Unlock()
	return Var(fmt.Sprintf("%s!%d", prefix, n), sort)
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) isLit() bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false"
}

// App applies an uninterpreted (or built-in) function.
func App(name, sort string, args ...*Term) *Term { return mk("app", sort, name, 0, args...) }

// linear form ------------------------------------------------------------

type lin struct {
	c map[*Term]int64
	k int64
}

func bigK(k int64) bool { return k >= 1<<40 || k <= -(1<<40) }

// small checks that the arithmetic of the simplifier itself stays far from overflow.
func small(k int64) int64 {
	if bigK(k >> 20) {
		panic("constant too large")
	}
	return k
}

func linOf(t *Term) lin {
	switch t.op {
	case "int":
		if bigK(t.ival) {
			return lin{map[*Term]int64{t: 1}, 0} // no arithmetic with it here: it could overflow
		}
		return lin{nil, t.ival}
	case "+":
		r := lin{map[*Term]int64{}, t.ival}
		for _, a := range t.args {
			if a.op == "*" {
				r.c[a.args[0]] += a.ival
			} else {
				r.c[a]++
			}
		}
		return r
	case "*":
		return lin{map[*Term]int64{t.args[0]: t.ival}, 0}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}

func (l lin) term() *Term {
	var ks []*Term
	for t, c := range l.c {
		if c != 0 {
			ks = append(ks, t)
		}
	}
	if len(ks) == 0 {
		return Int(l.k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var as []*Term
	for _, t := range ks {
		if l.c[t] == 1 {
			as = append(as, t)
		} else {
			as = append(as, mk("*", "Int", "", l.c[t], t))
		}
	}
	if l.k == 0 && len(as) == 1 {
		return as[0]
	}
	return mk("+", "Int", "", l.k, as...)
}

func linComb(a, b *Term, f int64) lin {
	x, y := linOf(a), linOf(b)
	r := lin{map[*Term]int64{}, small(x.k + f*y.k)}
	for t, c := range x.c {
		r.c[t] += c
	}
	for t, c := range y.c {
		r.c[t] += f * c
	}
	return r
}

func Add(a, b *Term) *Term        { return linComb(a, b, 1).term() }
func Sub(a, b *Term) *Term        { return linComb(a, b, -1).term() }
func AddK(a *Term, k int64) *Term { return Add(a, Int(k)) }

func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() && !bigK(a.ival) {
		l := linOf(b)
		for _, c := range l.c {
			if bigK(c) {
				return App("*", "Int", a, b)
			}
		}
		if bigK(l.k) {
			return App("*", "Int", a, b)
		}
		if a.ival != 0 && (bigK(l.k*a.ival) || l.k*a.ival/a.ival != l.k) {
			return App("*", "Int", a, b)
		}
		r := lin{map[*Term]int64{}, l.k * a.ival}
		for t, c := range l.c {
			if a.ival != 0 && c*a.ival/a.ival != c {
				return App("*", "Int", a, b)
			}
			r.c[t] = small(c * a.ival)
		}
		return r.term()
	}
	return App("*", "Int", a, b)
}

// constDiff says whether a-b is a constant.
func constDiff(a, b *Term) (int64, bool) {
	l := linComb(a, b, -1)
	for _, c := range l.c {
		if c != 0 {
			return 0, false
		}
	}
	return l.k, true
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq on sorts %s and %s: %s, %s", a.sort, b.sort, a, b))
	}
	if a.sort == "Int" && !a.spec && !b.spec {
		if d, ok := constDiff(a, b); ok {
			return BoolT(d == 0)
		}
	}
	if a.isLit() && b.isLit() {
		return tFalse
	}
	if a.sort == "Bool" {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return Not(b)
		case b == tFalse:
			return Not(a)
		}
	}
	// box(x) = box(y) iff x = y: boxes of one type are injective by construction.
	if a.op == "app" && a.op == b.op && a.name == b.name && strings.HasPrefix(a.name, "box_") {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == "ite" && b.isLit() {
		if a.args[1].isLit() || a.args[2].isLit() {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if b.op == "ite" && a.isLit() {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "Bool", "", 0, a, b)
}

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	case a.op == "<=": // not (a <= b)  ==  b < a  ==  b+1 <= a
		return Le(AddK(a.args[1], 1), a.args[0])
	}
	return mk("not", "Bool", "", 0, a)
}

func nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch {
		case a == unit:
		case a == zero:
			return false
		case a.op == op:
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
		case seen[a]:
		case seen[Not(a)]:
			return false
		default:
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return mk(op, "Bool", "", 0, out...)
}

func And(as ...*Term) *Term    { return nary("and", tTrue, tFalse, as) }
func Or(as ...*Term) *Term     { return nary("or", tFalse, tTrue, as) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Ne(a, b *Term) *Term      { return Not(Eq(a, b)) }
func Lt(a, b *Term) *Term      { return Le(AddK(a, 1), b) }
func Le(a, b *Term) *Term {
	if a.sort != "Int" {
		return App("<=", "Bool", a, b)
	}
	if d, ok := constDiff(a, b); ok {
		return BoolT(d <= 0)
	}
	return mk("<=", "Bool", "", 0, a, b)
}

func Ite(c, a, b *Term) *Term {
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	case a.sort == "Bool":
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk("ite", a.sort, "", 0, c, a, b)
}

func arrElem(s string) (string, string) {
	// "(Array K V)"
	s = s[len("(Array ") : len(s)-1]
	depth := 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

func Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			switch Eq(a.args[1], i) {
			case tTrue:
				return a.args[2]
			case tFalse:
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "app":
			if strings.HasPrefix(a.name, "constz_") {
				return a.args[0]
			}
		case "ite":
			if a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "constarr" {
				return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
			}
		}
		break
	}
	_, v := arrElem(a.sort)
	return mk("select", v, "", 0, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, "", 0, a, i, v)
}

func ConstArr(k string, v *Term) *Term {
	if !v.isLit() || v.op == "str" {
		return App("constz_"+k+"_"+v.sort, arr(k, v.sort), v)
	}
	return mk("constarr", arr(k, v.sort), "", 0, v)
}

type quant struct {
	vars []*Term
	pats [][]*Term
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quantifier("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quantifier("exists", vars, body, pats)
}

func quantifier(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse || len(vars) == 0 {
		return body
	}
	var key strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&key, "%d ", v.id)
	}
	for _, p := range pats {
		key.WriteByte('/')
		for _, t := range p {
			fmt.Fprintf(&key, "%d ", t.id)
		}
	}
	t := mk(op, "Bool", key.String(), 0, body)
	termMu.Lock()
	t.vars, t.pats = vars, pats
	t.bnd = hasFree(t)
	termMu.Unlock()
	return t
}

// hasFree says whether quantifier t has bound variables of an enclosing quantifier.
func hasFree(t *Term) bool {
	own := map[*Term]bool{}
	var free func(x *Term, bound map[*Term]bool) bool
	free = func(x *Term, bound map[*Term]bool) bool {
		if x.op == "bound" {
			return !bound[x]
		}
		if !x.bnd && x != t {
			return false
		}
		if x.vars != nil {
			b2 := map[*Term]bool{}
			for k := range bound {
				b2[k] = true
			}
			for _, v := range x.vars {
				b2[v] = true
			}
			bound = b2
		}
		for _, a := range x.args {
			if free(a, bound) {
				return true
			}
		}
		return false
	}
	return free(t, own)
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil)
	return b.String()
}

func sym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$@", c)) {
			return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
		}
	}
	return s
}

func (t *Term) write(b *strings.Builder, abbr map[*Term]string) {
	if n, ok := abbr[t]; ok {
		b.WriteString(n)
		return
	}
	t.writeTop(b, abbr)
}

func intLit(i int64) string {
	if i < 0 {
		if i == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -i)
	}
	return strconv.FormatInt(i, 10)
}

func (t *Term) writeTop(b *strings.Builder, abbr map[*Term]string) {
	list := func(head string, as []*Term) {
		b.WriteByte('(')
		b.WriteString(head)
		for _, a := range as {
			b.WriteByte(' ')
			a.write(b, abbr)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case "true", "false":
		b.WriteString(t.op)
	case "int":
		b.WriteString(intLit(t.ival))
	case "str":
		b.WriteString(strName(t.name))
	case "var", "bound":
		b.WriteString(sym(t.name))
	case "+":
		b.WriteString("(+ ")
		if t.ival != 0 {
			b.WriteString(intLit(t.ival))
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b, abbr)
		}
		if t.ival == 0 && len(t.args) == 1 {
			b.WriteString(" 0")
		}
		b.WriteByte(')')
	case "*":
		b.WriteString("(* " + intLit(t.ival) + " ")
		t.args[0].write(b, abbr)
		b.WriteByte(')')
	case "app":
		if len(t.args) == 0 {
			b.WriteString(sym(t.name))
			return
		}
		h := t.name
		if !builtinFn(h) {
			h = sym(h)
		}
		list(h, t.args)
	case "constarr":
		list("(as const "+t.sort+")", t.args)
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			fmt.Fprintf(b, "(%s %s)", sym(v.name), v.sort)
		}
		b.WriteString(") ")
		var pats [][]*Term
		for _, p := range t.pats {
			ok := true
			for _, x := range p {
				ok = ok && patternable(x)
			}
			if ok {
				pats = append(pats, p)
			}
		}
		if len(pats) > 0 {
			b.WriteString("(! ")
		}
		t.args[0].write(b, abbr)
		for _, p := range pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				x.write(b, abbr)
			}
			b.WriteByte(')')
		}
		if len(pats) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
	default:
		if t.extra != nil {
			fmt.Fprintf(b, "<%s %s>", t.op, t.name)
			return
		}
		list(t.op, t.args)
	}
}

// patternable says whether t can be (part of) a pattern.
func patternable(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=", "<=", "forall", "exists", "constarr":
		return false
	}
	for _, a := range t.args {
		if !patternable(a) {
			return false
		}
	}
	return true
}

func builtinFn(h string) bool {
	switch h {
	case "*", "<=", "<", "div", "mod", "+", "-", "=>", "/", "to_real":
		return true
	}
	return strings.HasPrefix(h, "str.") || strings.HasPrefix(h, "seq.") || strings.HasPrefix(h, "(_ ") || strings.HasPrefix(h, "(as ")
}

// Subst replaces terms throughout t.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, as, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term, f func(*Term) *Term) *Term {
	switch t.op {
	case "+":
		r := Int(t.ival)
		for _, a := range as {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(Int(t.ival), as[0])
	case "=":
		return Eq(as[0], as[1])
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "<=":
		return Le(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "app":
		return mkApp(t.name, t.sort, as)
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			pats = append(pats, q)
		}
		return quantifier(t.op, t.vars, as[0], pats)
	}
	if t.extra != nil {
		return Special(t.op, t.sort, t.name, t.extra, as...)
	}
	return mk(t.op, t.sort, t.name, t.ival, as...)
}

func mkApp(name, sort string, as []*Term) *Term {
	if name == "*" {
		return Mul(as[0], as[1])
	}
	if name == "cat" {
		return Cat(as[0], as[1])
	}
	return App(name, sort, as...)
}

// Cat concatenates strings (right-nested, literals merged).
func Cat(a, b *Term) *Term {
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	if a.op == "str" && b.op == "str" {
		return StrLit(a.name + b.name)
	}
	if a.op == "app" && a.name == "cat" {
		return Cat(a.args[0], Cat(a.args[1], b))
	}
	if a.op == "str" && b.op == "app" && b.name == "cat" && b.args[0].op == "str" {
		return Cat(StrLit(a.name+b.args[0].name), b.args[1])
	}
	return App("cat", "Str", a, b)
}
