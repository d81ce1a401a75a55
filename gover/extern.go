package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// strings -----------------------------------------------------------------

func slen(s *Term) *Term {
	switch {
	case s.op == "str":
		return Int(int64(len(s.name)))
	case s.op == "app" && s.name == "cat":
		return Add(slen(s.args[0]), slen(s.args[1]))
	}
	return App("slen", "Int", s)
}

func ssub(s, lo, hi *Term) *Term {
	if lo.isInt() && lo.ival == 0 && hi == slen(s) {
		return s
	}
	if s.op == "str" && lo.isInt() && hi.isInt() && 0 <= lo.ival && lo.ival <= hi.ival && hi.ival <= int64(len(s.name)) {
		return StrLit(s.name[lo.ival:hi.ival])
	}
	return App("ssub", "Str", s, lo, hi)
}

func runeStr(r *Term) *Term {
	if r.isInt() {
		return StrLit(string(rune(r.ival)))
	}
	return App("runestr", "Str", r)
}

func runeCount(s *Term) *Term {
	if s.op == "str" {
		return Int(int64(len([]rune(s.name))))
	}
	return App("runecount", "Int", s)
}

var strNames = map[string]string{}

// strName is the SMT constant of a string literal.
func strName(lit string) string {
	keyMu.Lock()
	defer keyMu.Unlock()
	if n, ok := strNames[lit]; ok {
		return n
	}
	b := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, lit)
	if len(b) > 20 {
		b = b[:20]
	}
	n := fmt.Sprintf("str%d_%s", len(strNames), b)
	strNames[lit] = n
	return n
}

// globals -----------------------------------------------------------------

const errBaseTag = 1000001

// globalVal is the value a package-level variable has after initialisation. No function of the module
// assigns to package-level variables except initialisers (checked: an assignment is outside the verifier).
func (ex *Exec) globalVal(g *ssa.Global) []*Term {
	if v, ok := ex.globals[g]; ok {
		return v
	}
	t := ptrElem(g.Type())
	v := ex.globalInit(g, t)
	if v == nil {
		for _, l := range leaves(t) {
			v = append(v, Var("g_"+g.Pkg.Pkg.Name()+"."+g.Name()+l.Path, l.Sort))
		}
		ex.facts = append(ex.facts, typeInv(leaves(t), v, Int(1000))...)
	}
	ex.globals[g] = v
	return v
}

func (ex *Exec) globalInit(g *ssa.Global, t types.Type) []*Term {
	if g.Pkg == nil || !inModule(g.Pkg.Pkg) {
		return nil
	}
	assigned := 0
	var val ssa.Value
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					assigned++
					if f.Name() == "init" {
						val = s.Val
					}
				}
			}
		}
	}
	if assigned != 1 || val == nil {
		return nil
	}
	switch x := val.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
			ex.gbase++
			b := Bound("t", "Int")
			ex.facts = append(ex.facts, Forall([]*Term{b}, Eq(App("errIs", "Bool", Int(ex.gbase), b), Eq(b, Int(ex.gbase))), []*Term{App("errIs", "Bool", Int(ex.gbase), b)}))
			return []*Term{Int(errBaseTag), Int(ex.gbase), Int(0)}
		}
	case *ssa.MakeMap:
		kt, vt := mapTypes(t)
		if len(leaves(kt)) != 1 || len(leaves(vt)) != 1 {
			return nil
		}
		row := ConstArr(keySort(kt), tFalse)
		vals := ConstArr(keySort(kt), zeroOf(leaves(vt)[0]))
		keys := map[*Term]bool{}
		for _, b := range g.Pkg.Func("init").Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || mu.Map != val {
					continue
				}
				k, v := ex.constFold(mu.Key), ex.constFold(mu.Value)
				if k == nil || v == nil {
					return nil
				}
				keys[k] = true
				row = Store(row, k, tTrue)
				vals = Store(vals, k, v)
			}
		}
		ex.gbase++
		b := Int(ex.gbase)
		dk, ck, vk := ex.domKey(t), ex.cardKey(t), ex.mvalKey(t, 0)
		ex.facts = append(ex.facts, Eq(Select(ex.heapSym(dk, "@0", ex.alloc0), b), row),
			Eq(Select(ex.heapSym(ck, "@0", ex.alloc0), b), Int(int64(len(keys)))))
		ex.facts = append(ex.facts, Eq(Select(ex.heapSym(vk, "@0", ex.alloc0), b), vals))
		ex.kept = append(ex.kept, dk, ck, vk)
		return []*Term{b}
	}
	return nil
}

// constFold evaluates an initialiser's expression.
func (ex *Exec) constFold(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil
		}
		switch x.Value.Kind() {
		case constant.String:
			return StrLit(constant.StringVal(x.Value))
		case constant.Int:
			return intConst(x.Value)
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || len(x.Call.Args) != 1 {
			return nil
		}
		a := ex.constFold(x.Call.Args[0])
		if a == nil || a.op != "str" {
			return nil
		}
		switch f.String() {
		case "strings.ToLower":
			return StrLit(strings.ToLower(a.name))
		case "strings.ToUpper":
			return StrLit(strings.ToUpper(a.name))
		}
	case *ssa.Slice:
		a := ex.constFold(x.X)
		lo, hi := Int(0), (*Term)(nil)
		if x.Low != nil {
			lo = ex.constFold(x.Low)
		}
		if a != nil && a.op == "str" {
			hi = Int(int64(len(a.name)))
		}
		if x.High != nil {
			hi = ex.constFold(x.High)
		}
		if a == nil || lo == nil || hi == nil || a.op != "str" {
			return nil
		}
		return ssub(a, lo, hi)
	}
	return nil
}

// library functions ---------------------------------------------------------

// pureFns are library functions that depend on the values of their scalar arguments alone, and what
// they are called in the logic.
var pureFns = map[string]string{
	"strings.ToLower": "lower", "strings.ToUpper": "upper", "strings.TrimSpace": "trim", "strings.Contains": "contains",
	"strings.HasPrefix": "hasprefix", "strings.HasSuffix": "hassuffix", "strings.ReplaceAll": "replaceall", "strings.Index": "strindex",
	"strings.ContainsAny": "containsany", "strings.TrimPrefix": "trimprefix", "strings.TrimSuffix": "trimsuffix", "strings.EqualFold": "equalfold",
	"strings.ContainsRune": "containsrune", "strings.Title": "title", "strings.Repeat": "repeat",
	"bytes.ToLower": "lower", "bytes.ToUpper": "upper", "bytes.TrimSpace": "trim", "bytes.Equal": "bytesequal",
	"strconv.Itoa": "itoa", "strconv.Quote": "quote",
	"unicode.IsUpper": "isupper", "unicode.IsLower": "islower", "unicode.ToUpper": "toupper", "unicode.ToLower": "tolower",
	"unicode.IsSpace": "isspace", "unicode.IsDigit": "isdigit", "unicode.IsLetter": "isletter",
	"path/filepath.Clean": "cleanpath", "path/filepath.Base": "basepath", "path/filepath.Dir": "dirpath", "path/filepath.IsLocal": "islocal",
	"os.Getwd": "fs_getwd", "os.Stat": "fs_stat", "os.Lstat": "fs_lstat", "os.SameFile": "fs_same", "path/filepath.EvalSymlinks": "fs_links", "path/filepath.Abs": "fs_abs",
	"path.Clean": "cleanslash", "path.Base": "baseslash", "path.Dir": "dirslash",
	"utf8.RuneCountInString": "runecount", "unicode/utf8.RuneCountInString": "runecount",
}

func concretePure(name string, a []*Term) *Term {
	for _, t := range a {
		if !t.isLit() {
			return nil
		}
	}
	switch {
	case name == "lower" && len(a) == 1:
		return StrLit(strings.ToLower(a[0].name))
	case name == "upper" && len(a) == 1:
		return StrLit(strings.ToUpper(a[0].name))
	case name == "trim" && len(a) == 1:
		return StrLit(strings.TrimSpace(a[0].name))
	case name == "contains" && len(a) == 2:
		return BoolT(strings.Contains(a[0].name, a[1].name))
	case name == "itoa":
		return StrLit(fmt.Sprint(a[0].ival))
	}
	return nil
}

// pureExtern applies a pure library function.
func pureExtern(ex *Exec, st *State, name string, sig *types.Signature, args [][]*Term) ([]*Term, bool) {
	switch name {
	case "strconv.FormatInt":
		if args[1][0].isInt() && args[1][0].ival == 10 {
			return []*Term{App("itoa", "Str", args[0][0])}, true
		}
	case "strconv.ParseInt": // value alone, for specifications
		return []*Term{App("parseint", "Int", args[0][0])}, true
	case "strings.Join":
		return nil, false
	}
	fn, ok := pureFns[name]
	if !ok {
		return nil, false
	}
	var as []*Term
	for i, a := range args {
		if isByteSlice(sig.Params().At(i).Type()) {
			a = a[:1]
		}
		as = append(as, st.emit(a)...)
	}
	if strings.HasPrefix(fn, "fs_") {
		ex.trusted["library: "+name+" depends on its arguments alone while the function under contract runs (nobody else changes the file system)"] = true
	} else {
		ex.trusted["library: "+name+" is a deterministic function of its arguments"] = true
	}
	rs := sig.Results()
	if rs.Len() != 1 || strings.HasPrefix(fn, "fs_") {
		ls := leaves(rs)
		var r []*Term
		for i, l := range ls {
			r = append(r, App(fmt.Sprintf("%s_%d", fn, i), l.Sort, as...))
		}
		bound := false
		for _, t := range r {
			bound = bound || t.bnd
		}
		if !bound {
			st.assume(typeInv(ls, r, ex.alloc0)...)
		}
		return r, true
	}
	rt := rs.At(0).Type()
	ls := leaves(rt)
	if t := concretePure(fn, as); t != nil {
		return []*Term{t}, true
	}
	if isByteSlice(rt) {
		s := App(fn, "Str", as...)
		n := Fresh("extnil", "Bool") // whether an empty result is nil is not known
		if s.bnd {
			return []*Term{s, Ne(s, s)}, true
		}
		st.assume(Implies(n, Eq(s, StrLit(""))))
		return []*Term{s, n}, true
	}
	if len(ls) != 1 {
		return nil, false
	}
	return []*Term{App(fn, ls[0].Sort, as...)}, true
}

// newError makes a new non-nil error.
func (ex *Exec) newError(st *State) []*Term {
	return []*Term{Int(errBaseTag), st.newBase(), Int(0)}
}

// variadic gives the elements of a variadic argument built at the call, if they are known.
func (ex *Exec) variadic(st *State, v []*Term, elem types.Type) ([][]*Term, bool) {
	if v[1].isInt() && v[1].ival == 0 {
		return nil, true
	}
	cr, ok := v[0].extra.(cellRef)
	if !ok || !v[1].isInt() {
		return nil, false
	}
	if _, prom := st.prom[cr.id]; prom {
		return nil, false
	}
	n := len(leaves(elem))
	var r [][]*Term
	for j := 0; j < int(v[1].ival); j++ {
		r = append(r, st.loadAt(addr{cell: cr.id, off: cr.off + j*n}, elem))
	}
	return r, true
}

var anyT = types.NewInterfaceType(nil, nil)

// extern models a call of a library function.
func (ex *Exec) extern(st *State, f *ssa.Function, args [][]*Term, pos token.Pos, k contFn) {
	name := fnOrigin(f).String()
	if name == "os.Exit" {
		ex.trusted["library: os.Exit does not return"] = true
		return
	}
	if (name == "fmt.Sprintf" || name == "fmt.Sprint") && ex.printed(st, name, args, pos, k) {
		return
	}
	var res []*Term
	handled := false
	if !ex.guard(st, pos, func() { res, handled = ex.extern1(st, f, name, args, pos) }) {
		return
	}
	if handled {
		if !st.dead {
			k(st, res)
		}
		return
	}
	if h := splitters[name]; h != nil {
		ex.trusted["library: "+name+" as axiomatised in the verifier"] = true
		var alts []splitAlt
		if !ex.guard(st, pos, func() { alts = h(ex, st, args) }) {
			return
		}
		for _, a := range alts {
			n := st.clone()
			n.trail += " " + a.name
			var r []*Term
			if ex.guard(n, pos, func() { n.assume(a.cond...); r = a.res(n) }) && !n.dead {
				k(n, r)
			}
		}
		return
	}
	ex.outside(st, "call of "+name, pos)
}

type splitAlt struct {
	name string
	cond []*Term
	res  func(st *State) []*Term
}

// splitters are library functions whose result is described case by case.
var splitters = map[string]func(ex *Exec, st *State, args [][]*Term) []splitAlt{
	"strings.Cut": func(ex *Exec, st *State, args [][]*Term) []splitAlt {
		s, sep := args[0][0], args[1][0]
		c := App("contains", "Bool", s, sep)
		b, a := App("before", "Str", s, sep), App("after", "Str", s, sep)
		return []splitAlt{
			{"cut", []*Term{c}, func(*State) []*Term { return []*Term{b, a, tTrue} }},
			{"nocut", []*Term{Not(c)}, func(*State) []*Term { return []*Term{s, StrLit(""), tFalse} }},
		}
	},
	"strconv.ParseInt": func(ex *Exec, st *State, args [][]*Term) []splitAlt {
		s := args[0][0]
		if !args[1][0].isInt() || args[1][0].ival != 10 || !args[2][0].isInt() || args[2][0].ival != 64 {
			unsup("ParseInt with another base or size")
		}
		ok := App("parseintok", "Bool", s)
		return []splitAlt{
			{"int", []*Term{ok}, func(st *State) []*Term {
				v := App("parseint", "Int", s)
				return []*Term{v, Int(0), Int(0), Int(0)}
			}},
			{"noint", []*Term{Not(ok)}, func(st *State) []*Term {
				return append([]*Term{Fresh("ext", "Int")}, ex.newError(st)...)
			}},
		}
	},
	"bytes.SplitN": func(ex *Exec, st *State, args [][]*Term) []splitAlt {
		s, sep, n := args[0][0], args[1][0], args[2][0]
		if !n.isInt() || n.ival < 1 || n.ival > 6 || sep.op != "str" || sep.name == "" {
			unsup("SplitN in general")
		}
		var alts []splitAlt
		var conds []*Term
		var parts []*Term
		rest := s
		for i := int64(1); i <= n.ival; i++ {
			ps := append(append([]*Term(nil), parts...), rest)
			cs := append([]*Term(nil), conds...)
			c := App("contains", "Bool", rest, sep)
			if i < n.ival {
				cs = append(cs, Not(c))
			}
			alts = append(alts, splitAlt{fmt.Sprintf("split%d", i), cs, func(st *State) []*Term {
				at := types.NewArray(types.NewSlice(types.Typ[types.Byte]), int64(len(ps)))
				var v []*Term
				for _, p := range ps {
					v = append(v, p, tFalse)
				}
				id := st.newCell(at, v)
				return []*Term{ex.cellPtr(id, 0, at.Elem())[0], Int(int64(len(ps))), Int(int64(len(ps)))}
			}})
			conds = append(conds, c)
			parts = append(parts, App("before", "Str", rest, sep))
			rest = App("after", "Str", rest, sep)
		}
		return alts
	},
}

func (ex *Exec) extern1(st *State, f *ssa.Function, name string, args [][]*Term, pos token.Pos) ([]*Term, bool) {
	if r, ok := pureExtern(ex, st, name, f.Signature, args); ok && name != "strconv.ParseInt" {
		return r, true
	}
	trust := func(what string) { ex.trusted["library: "+what] = true }
	switch name {
	case "errors.New":
		trust("errors.New returns a new non-nil error")
		return ex.newError(st), true
	case "fmt.Errorf":
		trust("fmt.Errorf returns a new non-nil error that wraps its %w operands and changes nothing")
		e := ex.newError(st)
		if els, ok := ex.variadic(st, args[1], anyT); ok && args[0][0].op == "str" {
			for i, verb := range verbs(args[0][0].name) {
				if verb == 'w' && i < len(els) {
					ex.wraps(st, e, els[i])
				}
			}
		}
		return e, true
	case "errors.Join":
		trust("errors.Join is nil iff all its arguments are, and wraps the others")
		if els, ok := ex.variadic(st, args[0], types.Universe.Lookup("error").Type()); ok {
			var nils []*Term
			for _, e := range els {
				nils = append(nils, Eq(e[0], Int(0)))
			}
			e := ex.newError(st)
			for _, x := range els {
				ex.wraps(st, e, x)
			}
			n := And(nils...)
			return []*Term{Ite(n, Int(0), e[0]), Ite(n, Int(0), e[1]), Int(0)}, true
		}
	case "errors.Is":
		trust("errors.Is(e, t) is reflexive and follows wrapping")
		a, b := st.emit(args[0]), st.emit(args[1])
		return []*Term{And(Ne(a[0], Int(0)), App("errIs", "Bool", a[1], b[1]))}, true
	case "fmt.Sprintf":
		trust("fmt.Sprintf changes nothing; %s and %d of strings and integers print their text")
		els, ok := ex.variadic(st, args[1], anyT)
		if !ok {
			return []*Term{Fresh("ext_text", "Str")}, true
		}
		return []*Term{ex.sprintf(st, args[0][0], els, nil)}, true
	case "fmt.Sprint", "fmt.Sprintln":
		trust(name + " changes nothing")
		return []*Term{Fresh("ext_text", "Str")}, true
	case "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint", "fmt.Println", "fmt.Printf":
		trust(name + " changes nothing in memory")
		return append([]*Term{Fresh("ext", "Int")}, ex.havoc(st, types.Universe.Lookup("error").Type(), "ext_err")...), true
	case "os.Open", "os.Create":
		trust(name + " returns a new file, or an error")
		p, e := Fresh("file", "Int"), ex.havoc(st, types.Universe.Lookup("error").Type(), "ext_err")
		b := st.newBase()
		st.assume(Implies(Eq(e[0], Int(0)), Eq(p, b)), Implies(Ne(e[0], Int(0)), Eq(p, Int(0))))
		return append([]*Term{p, Int(0)}, e...), true
	case "os.RemoveAll", "os.MkdirAll", "os.Remove", "os.Mkdir":
		trust(name + " changes nothing in memory")
		return ex.havoc(st, types.Universe.Lookup("error").Type(), "ext_err"), true
	case "time.Now":
		trust("time.Now changes nothing in memory")
		return ex.havoc(st, f.Signature.Results().At(0).Type(), "now"), true
	case "flag.PrintDefaults", "(*encoding/xml.Encoder).Indent", "(*encoding/json.Encoder).SetIndent":
		trust(name + " changes nothing in memory")
		return nil, true
	case "io.WriteString", "io.Copy", "(*encoding/xml.Encoder).Encode", "(*encoding/json.Encoder).Encode", "(*text/template.Template).ExecuteTemplate", "(*text/template.Template).Execute",
		"(*os.File).Close", "(*os.File).WriteString":
		trust(name + " changes nothing in memory")
		return ex.havoc(st, f.Signature.Results(), "ext"), true
	case "encoding/xml.NewEncoder", "encoding/json.NewEncoder", "encoding/json.NewDecoder", "text/template.New":
		trust(name + " returns a new object and changes nothing")
		return []*Term{st.newBase(), Int(0)}, true
	case "encoding/csv.NewReader":
		trust("csv.NewReader returns a new Reader with commas as separators and no other setting")
		ct := ptrElem(f.Signature.Results().At(0).Type())
		p := []*Term{st.newBase(), Int(0)}
		v := zeros(ct)
		off := 0
		cs := ct.Underlying().(*types.Struct)
		for i := 0; i < cs.NumFields() && cs.Field(i).Name() != "Comma"; i++ {
			off += len(leaves(cs.Field(i).Type()))
		}
		v[off] = Int(',')
		st.storeAt(st.resolve(p, ct), v)
		return p, true
	case "(*encoding/csv.Reader).Read":
		trust("csv.Reader.Read returns a new row, or an error, and changes no setting")
		b := st.newBase()
		r := ex.havoc(st, f.Signature.Results(), "row")
		st.assume(Implies(Eq(r[3], Int(0)), Eq(r[0], b)))
		return r, true
	case "reflect.DeepEqual":
		return []*Term{ex.deepEqual(st, args[0], args[1])}, true
	case "strings.Join":
		trust("strings.Join of known pieces concatenates them")
		if els, ok := ex.variadic(st, args[0], tyStr); ok {
			return []*Term{joinTerms(els, args[1][0])}, true
		}
		return []*Term{Fresh("ext_text", "Str")}, true
	case "bytes.Join":
		trust("bytes.Join of known pieces concatenates them")
		if els, ok := ex.variadic(st, args[0], types.NewSlice(types.Typ[types.Byte])); ok {
			return []*Term{joinTerms(els, args[1][0]), tFalse}, true
		}
	case "strconv.AppendInt":
		trust("strconv.AppendInt appends strconv.FormatInt's text")
		if args[2][0].isInt() && args[2][0].ival == 10 {
			return []*Term{Cat(args[0][0], App("itoa", "Str", args[1][0])), tFalse}, true
		}
	case "path/filepath.Join", "path.Join":
		trust(name + " is a deterministic function of its arguments")
		fn := "joinpath"
		if name == "path.Join" {
			fn = "joinslash"
		}
		if els, ok := ex.variadic(st, args[0], tyStr); ok {
			var as []*Term
			for _, e := range els {
				as = append(as, st.emit(e)...)
			}
			return []*Term{App(fmt.Sprintf("%s%d", fn, len(as)), "Str", as...)}, true
		}
	case "sort.Strings":
		trust("sort.Strings permutes its argument's elements and changes nothing else")
		s := st.emit(args[0])
		key := ex.objKey(tyStr, 0)
		h := st.heap(key)
		row := Fresh("row", arr("Int", "Str"))
		old := Select(h, s[0])
		perm := Fresh("perm", arr("Int", "Int"))
		inv := Fresh("perm", arr("Int", "Int"))
		j := Bound("j", "Int")
		in := And(Le(Int(0), j), Lt(j, s[1]))
		st.assume(Forall([]*Term{j}, Implies(in, And(Le(Int(0), Select(perm, j)), Lt(Select(perm, j), s[1]), Eq(Select(inv, Select(perm, j)), j),
			Eq(Select(row, j), Select(old, Select(perm, j))))), []*Term{Select(row, j)}))
		st.assume(Forall([]*Term{j}, Implies(in, And(Le(Int(0), Select(inv, j)), Lt(Select(inv, j), s[1]), Eq(Select(perm, Select(inv, j)), j),
			Eq(Select(row, Select(inv, j)), Select(old, j)))), []*Term{Select(old, j)}))
		st.assume(Forall([]*Term{j}, Implies(Not(in), Eq(Select(row, j), Select(old, j))), []*Term{Select(row, j)}))
		st.setHeap(key, Store(h, s[0], row))
		return nil, true
	case "(*strings.Builder).WriteRune", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).String",
		"(*strings.Builder).Len", "(*strings.Builder).Grow", "(*strings.Builder).Reset":
		trust("strings.Builder accumulates what is written to it")
		bt := ptrElem(f.Signature.Recv().Type())
		a := st.resolve(args[0], bt)
		ex.nonNil(st, a, pos)
		cur := st.loadAt(a, bt)[0]
		switch f.Name() {
		case "WriteRune":
			st.storeAt(a, []*Term{Cat(cur, runeStr(args[1][0]))})
			return []*Term{Fresh("ext", "Int"), Int(0), Int(0), Int(0)}, true
		case "WriteByte":
			st.storeAt(a, []*Term{Cat(cur, App("bytestr", "Str", args[1][0]))})
			return []*Term{Int(0), Int(0), Int(0)}, true
		case "WriteString":
			st.storeAt(a, []*Term{Cat(cur, args[1][0])})
			return []*Term{slen(args[1][0]), Int(0), Int(0), Int(0)}, true
		case "String":
			return []*Term{cur}, true
		case "Len":
			return []*Term{slen(cur)}, true
		case "Reset":
			st.storeAt(a, []*Term{StrLit("")})
			return nil, true
		case "Grow":
			return nil, true
		}
	}
	return nil, false
}

func joinTerms(els [][]*Term, sep *Term) *Term {
	r := StrLit("")
	for i := len(els) - 1; i >= 0; i-- {
		if i < len(els)-1 {
			r = Cat(sep, r)
		}
		r = Cat(els[i][0], r)
	}
	return r
}

// wraps assumes that error e wraps x.
func (ex *Exec) wraps(st *State, e, x []*Term) {
	if len(x) != 3 || hasSpec(x) {
		return
	}
	b := Bound("t", "Int")
	st.assume(Forall([]*Term{b}, Implies(And(Ne(x[0], Int(0)), App("errIs", "Bool", x[1], b)), App("errIs", "Bool", e[1], b)), []*Term{App("errIs", "Bool", e[1], b)}))
}

// verbs lists the verbs of a format, in order of the operands.
func verbs(f string) []rune {
	var r []rune
	rs := []rune(f)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			continue
		}
		i++
		for i < len(rs) && strings.ContainsRune("+-# 0123456789.", rs[i]) {
			i++
		}
		if i < len(rs) && rs[i] != '%' {
			r = append(r, rs[i])
		}
	}
	return r
}

// printed models fmt.Sprintf, and fmt.Sprint of one operand, calling the String methods of operands in the module.
func (ex *Exec) printed(st *State, name string, args [][]*Term, pos token.Pos, k contFn) bool {
	va := args[len(args)-1]
	els, ok := ex.variadic(st, va, anyT)
	format := StrLit("%v")
	if !ok || name == "fmt.Sprint" && len(els) != 1 {
		return false
	}
	if name == "fmt.Sprintf" {
		format = args[0][0]
	}
	type call struct {
		i  int
		f  *ssa.Function
		as []*Term
	}
	var calls []call
	if format.op == "str" {
		vs := verbs(format.name)
		for i, e := range els {
			b, isBox := e[1].extra.(boxRef)
			if !isBox || i >= len(vs) || (vs[i] != 's' && vs[i] != 'v') {
				continue
			}
			n, isNamed := types.Unalias(b.typ).(*types.Named)
			if !isNamed || !inModule(n.Obj().Pkg()) || types.NewMethodSet(b.typ).Lookup(n.Obj().Pkg(), "Error") != nil {
				continue
			}
			if sel := types.NewMethodSet(b.typ).Lookup(n.Obj().Pkg(), "String"); sel != nil {
				calls = append(calls, call{i, ex.p.prog.MethodValue(sel), e[1].args})
			}
		}
	}
	ex.trusted["library: fmt.Sprint and fmt.Sprintf change nothing; %s, %d and %v of strings and integers print their text, and of operands with a String method its result"] = true
	var rec func(st *State, j int, texts map[int]*Term)
	rec = func(st *State, j int, texts map[int]*Term) {
		if j == len(calls) {
			k(st, []*Term{ex.sprintf(st, format, els, texts)})
			return
		}
		ex.callFn(st, calls[j].f, nil, [][]*Term{calls[j].as}, pos, func(st *State, r []*Term) {
			t2 := map[int]*Term{calls[j].i: r[0]}
			for a, b := range texts {
				t2[a] = b
			}
			rec(st, j+1, t2)
		})
	}
	rec(st, 0, nil)
	return true
}

// sprintf renders a format whose operands are strings and integers; anything else is arbitrary text.
// texts has the text of the operands that print themselves.
func (ex *Exec) sprintf(st *State, format *Term, els [][]*Term, texts map[int]*Term) *Term {
	if format.op != "str" {
		return Fresh("ext_text", "Str")
	}
	r := StrLit("")
	n := 0
	rs := []rune(format.name)
	var lit strings.Builder
	flush := func() {
		r = Cat(r, StrLit(lit.String()))
		lit.Reset()
	}
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			lit.WriteRune(rs[i])
			continue
		}
		i++
		if i >= len(rs) {
			return Fresh("ext_text", "Str")
		}
		if rs[i] == '%' {
			lit.WriteByte('%')
			continue
		}
		flush()
		if n >= len(els) {
			return Fresh("ext_text", "Str")
		}
		e := els[n]
		if t := texts[n]; t != nil && (rs[i] == 's' || rs[i] == 'v') {
			r = Cat(r, t)
			n++
			continue
		}
		n++
		b, isBox := e[1].extra.(boxRef)
		if !isBox {
			r = Cat(r, Fresh("ext_text", "Str"))
			continue
		}
		ls := leaves(b.typ)
		hasString := types.NewMethodSet(b.typ).Lookup(nil, "String") != nil || types.NewMethodSet(b.typ).Lookup(nil, "Error") != nil
		switch {
		case rs[i] == 'd' && len(ls) == 1 && isIntType(b.typ):
			r = Cat(r, itoa(e[1].args[0]))
		case (rs[i] == 's' || rs[i] == 'v') && len(ls) == 1 && ls[0].Kind == lkStr && !hasString && !opaqueNamed(b.typ):
			r = Cat(r, e[1].args[0])
		case rs[i] == 'v' && len(ls) == 1 && isIntType(b.typ) && !hasString:
			r = Cat(r, itoa(e[1].args[0]))
		case rs[i] == 'q' && len(ls) == 1 && ls[0].Kind == lkStr && !hasString:
			r = Cat(r, App("quote", "Str", e[1].args[0]))
		default:
			r = Cat(r, Fresh("ext_text", "Str"))
		}
	}
	flush()
	return r
}

func itoa(t *Term) *Term {
	if t.isInt() {
		return StrLit(fmt.Sprint(t.ival))
	}
	return App("itoa", "Str", t)
}

// deepEqual models reflect.DeepEqual on two interface values (already boxed) of a module interface:
// equal dynamic types, and pointers to equal scalars.
func (ex *Exec) deepEqual(st *State, a, b []*Term) *Term {
	ex.trusted["library: reflect.DeepEqual compares dynamic types and the scalars pointed to"] = true
	// The operands arrive as interface values converted to any.
	cands := map[int64]types.Type{}
	note := func(t *Term) bool {
		if ty := typeOfTag(t); ty != nil {
			cands[t.ival] = ty
			return true
		}
		return false
	}
	known := note(a[0])
	known = note(b[0]) || known
	if !known {
		if ex.deepTypes == nil {
			unsup("DeepEqual of unknown types")
		}
		for _, t := range ex.deepTypes {
			cands[tagOf(t).ival] = t
		}
	}
	tagEq := Eq(a[0], b[0])
	var alts []*Term
	alts = append(alts, And(Eq(a[0], Int(0)), Eq(b[0], Int(0))))
	var covered []*Term
	covered = append(covered, Eq(a[0], Int(0)), Eq(b[0], Int(0)))
	for n, t := range cands {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			unsup("DeepEqual of %s", t)
		}
		for _, l := range leaves(pt.Elem()) {
			switch l.Kind {
			case lkInt, lkUint, lkBool, lkStr:
			default:
				unsup("DeepEqual of %s", t)
			}
		}
		x := st.loadAt(st.resolve(a[1:], pt.Elem()), pt.Elem())
		y := st.loadAt(st.resolve(b[1:], pt.Elem()), pt.Elem())
		var cs []*Term
		for i := range x {
			cs = append(cs, Eq(x[i], y[i]))
		}
		nn := And(Ne(a[1], Int(0)), Ne(b[1], Int(0)))
		alts = append(alts, And(Eq(a[0], Int(n)), tagEq, Or(And(nn, And(cs...)), And(Eq(a[1], Int(0)), Eq(b[1], Int(0))))))
		covered = append(covered, Eq(a[0], Int(n)))
	}
	ex.mustOrUnsup(st, "DeepEqual of another type", Or(covered...), token.NoPos)
	return Or(alts...)
}

// externInvoke models a method call on a library interface.
func (ex *Exec) externInvoke(st *State, c *ssa.CallCommon, fv []*Term, args [][]*Term, pos token.Pos, k contFn) {
	n := c.Method.Name()
	switch {
	case n == "Error" && c.Signature().Params().Len() == 0:
		ex.trusted["library: Error methods change nothing"] = true
		k(st, []*Term{Fresh("ext_text", "Str")})
		return
	case n == "String" && c.Signature().Params().Len() == 0:
		ex.trusted["library: String methods change nothing"] = true
		k(st, []*Term{Fresh("ext_text", "Str")})
		return
	}
	ex.outside(st, "call of interface method "+n, pos)
}
