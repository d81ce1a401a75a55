package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Func, Name, Kind, Pos string
	PC                    []*Term
	Goal                  *Term
	Trail                 string
	cand                  *Term  // tag of the candidate this decides, if any
	key                   string // name in hints
	// results
	Status, Backend, Detail string
	Secs                    float64
}

// havocInfo says what a heap symbol made by a loop or a call came from, and which objects can differ.
type havocInfo struct {
	prev  *Term
	bases []*Term
	wild  bool
}

type contFn func(st *State, res []*Term)

// Exec symbolically executes one function under contract.
type Exec struct {
	num                   int64
	p                     *Prog
	con                   *Contract
	fn                    *ssa.Function
	obls                  []*Obl
	quiet                 int
	steps                 int
	cellType              []types.Type
	keys                  map[string]heapKey
	hinfo                 map[string]*heapInfo
	alloc0                *Term
	entry                 *State
	params                map[string]SVal
	tags                  map[string]*Term
	tagName               map[*Term]string
	tagKey                map[*Term]string
	hint                  *hint
	trusted               map[string]bool
	used                  map[*Contract]bool
	writes                map[string]bool
	onWrite               func(string)
	loopN                 int
	funcIDs               map[*ssa.Function]int64
	facts                 []*Term // facts about the initial state (globals)
	exits                 int
	depth                 int
	globals               map[*ssa.Global][]*Term
	gbase                 int64
	nb                    int
	havocOf               map[*Term]havocInfo
	exitTrails, deadExits []string
	kept                  []string
	deepTypes             []types.Type
	recs                  map[string]*recFn
	recNew                []*recFn // being defined
	exitPCs               [][]*Term
	outs                  []string
	entryArgs             [][]*Term
	lastRes               []*Term
	lastGhosts            map[string]SVal
	effOnly               bool
}

// execNum numbers the executions: terms that stand for a local are their own in each.
var execNum atomic.Int64

func newExec(p *Prog, con *Contract) *Exec {
	ex := &Exec{p: p, con: con, keys: map[string]heapKey{}, hinfo: map[string]*heapInfo{}, tags: map[string]*Term{}, tagName: map[*Term]string{},
		trusted: map[string]bool{}, used: map[*Contract]bool{}, writes: map[string]bool{}, funcIDs: map[*ssa.Function]int64{},
		globals: map[*ssa.Global][]*Term{}, gbase: 10, havocOf: map[*Term]havocInfo{}}
	ex.alloc0 = Var("alloc0", "Int")
	ex.num = execNum.Add(1)
	if con != nil {
		ex.fn = con.fn
	}
	return ex
}

func (ex *Exec) funcID(f *ssa.Function) int64 {
	if id, ok := ex.funcIDs[f]; ok {
		return id
	}
	id := int64(len(ex.funcIDs) + 1)
	ex.funcIDs[f] = id
	return id
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.p.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

// oblige records that goal must hold in st, and assumes it from there on.
func (ex *Exec) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if st.dead {
		return
	}
	if ex.quiet == 0 {
		if goal.spec {
			goal = st.emit([]*Term{goal})[0]
		}
		ex.obls = append(ex.obls, &Obl{Func: ex.con.Name, Kind: kind, Name: name, Pos: ex.pos(pos), PC: st.pcs(), Goal: goal, Trail: st.trail})
	}
	if kind != "post" {
		st.assume(goal)
	}
}

// outside records that the verifier cannot follow the path any further.
func (ex *Exec) outside(st *State, what string, pos token.Pos) {
	if !st.dead {
		ex.outs = append(ex.outs, what)
	}
	if ex.quiet == 0 && !st.dead {
		ex.obls = append(ex.obls, &Obl{Func: ex.con.Name, Kind: "unsupported", Name: "unsupported: " + what, Pos: ex.pos(pos), PC: st.pcs(), Goal: tFalse, Trail: st.trail})
	}
}

// guard runs f; an unsupported construct in it ends the path.
func (ex *Exec) guard(st *State, pos token.Pos, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			u, isU := r.(unsupported)
			if !isU {
				panic(r)
			}
			ex.outside(st, u.what, pos)
			ok = false
		}
	}()
	f()
	return true
}

type tooMuch struct{}

// val is the value of v in the current frame.
func (ex *Exec) val(st *State, d int, v ssa.Value) []*Term {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return globPtr(x, 0)
	case *ssa.Function:
		return ex.fnVal(x, nil)
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.env[d].vals[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), st.env[d].fn.Name())
	}
	return r
}

func (ex *Exec) fnVal(f *ssa.Function, bind [][]*Term) []*Term {
	key := f.String()
	var all []*Term
	for _, b := range bind {
		all = append(all, b...)
	}
	return []*Term{Special("closure", "Int", key, &closure{f, bind}, all...)}
}

func (ex *Exec) constVal(c *ssa.Const) []*Term {
	if c.Value == nil {
		return zeros(c.Type())
	}
	ls := leaves(c.Type())
	if len(ls) != 1 {
		unsup("constant of type %s", c.Type())
	}
	switch ls[0].Sort {
	case "Bool":
		return []*Term{BoolT(constant.BoolVal(c.Value))}
	case "Int":
		return []*Term{intConst(c.Value)}
	case "Str":
		return []*Term{StrLit(constant.StringVal(c.Value))}
	}
	return []*Term{App("real_"+strings.NewReplacer("/", "_").Replace(c.Value.ExactString()), ls[0].Sort)}
}

func intConst(v constant.Value) *Term {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return Int(i)
	}
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	if b == nil {
		unsup("constant %s", v)
	}
	return App("(- "+b.String()+" 0)", "Int")
}

// block executes blk, coming from pred.
func (ex *Exec) block(st *State, d int, blk, pred *ssa.BasicBlock, ret contFn) {
	if st.dead {
		return
	}
	ex.steps++
	if ex.steps > 60000 {
		panic(tooMuch{})
	}
	env := st.env[d]
	for n := len(env.loops); n > 0 && !env.loops[n-1].loop.body[blk]; n = len(env.loops) {
		if env.loops[n-1].discover {
			return
		}
		env.loops = env.loops[:n-1]
	}
	if !ex.guard(st, firstPos(blk), func() { ex.setPhis(st, d, blk, pred) }) {
		return
	}
	if lp := loopsOf(env.fn)[blk]; lp != nil {
		if n := len(env.loops); n > 0 && env.loops[n-1].loop == lp {
			env.loops[n-1].onBack(st)
			return
		}
		ex.enterLoop(st, d, lp, ret)
		return
	}
	ex.instrs(st, d, blk, 0, ret)
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func (ex *Exec) setPhis(st *State, d int, blk, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	pi := -1
	for i, p := range blk.Preds {
		if p == pred {
			pi = i
		}
	}
	type asg struct {
		p *ssa.Phi
		v []*Term
	}
	var as []asg
	for _, in := range blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{p, ex.val(st, d, p.Edges[pi])})
	}
	for _, a := range as {
		st.env[d].vals[a.p] = a.v
	}
}

// instrs executes the instructions of blk from number i.
func (ex *Exec) instrs(st *State, d int, blk *ssa.BasicBlock, i int, ret contFn) {
	for ; i < len(blk.Instrs); i++ {
		if st.dead {
			return
		}
		in := blk.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			ex.block(st, d, blk.Succs[0], blk, ret)
			return
		case *ssa.If:
			var c *Term
			if !ex.guard(st, x.Pos(), func() {
				c = ex.val(st, d, x.Cond)[0]
				if c.spec {
					c = st.emit([]*Term{c})[0]
				}
			}) {
				return
			}
			if c == tTrue || c == tFalse {
				s := blk.Succs[0]
				if c == tFalse {
					s = blk.Succs[1]
				}
				ex.block(st, d, s, blk, ret)
				return
			}
			pos := ex.pos(condPos(x))
			for k, s := range blk.Succs {
				n := st.clone()
				g := c
				if k == 1 {
					g = Not(c)
				}
				n.trail += fmt.Sprintf(" %s=%v", pos, k == 0)
				if ex.guard(n, x.Pos(), func() { n.assume(g) }) && !n.dead {
					ex.block(n, d, s, blk, ret)
				}
			}
			return
		case *ssa.Return:
			var res []*Term
			if !ex.guard(st, x.Pos(), func() {
				for _, r := range x.Results {
					res = append(res, ex.val(st, d, r)...)
				}
			}) {
				return
			}
			// leaving: any loop under discovery ends the path
			for _, l := range st.env[d].loops {
				if l.discover {
					return
				}
			}
			ret(st, res)
			return
		case *ssa.Panic:
			ex.oblige(st, "safety", "no panic", tFalse, x.Pos())
			return
		case *ssa.Call:
			j := i + 1
			ex.call(st, d, &x.Call, x.Pos(), func(st *State, res []*Term) {
				st.env[d].vals[x] = res
				ex.instrs(st, d, blk, j, ret)
			})
			return
		case *ssa.Next:
			j := i + 1
			ex.next(st, d, x, func(st *State, res []*Term) {
				st.env[d].vals[x] = res
				ex.instrs(st, d, blk, j, ret)
			})
			return
		case *ssa.TypeAssert:
			j := i + 1
			ex.typeAssert(st, d, x, func(st *State, res []*Term) {
				st.env[d].vals[x] = res
				ex.instrs(st, d, blk, j, ret)
			})
			return
		case *ssa.RunDefers:
			continue
		default:
			if !ex.guard(st, in.Pos(), func() { ex.simple(st, d, in) }) {
				return
			}
		}
	}
}

func condPos(x *ssa.If) token.Pos {
	if x.Cond.Pos().IsValid() {
		return x.Cond.Pos()
	}
	return firstPos(x.Block())
}

func (ex *Exec) nonNil(st *State, a addr, pos token.Pos) {
	if a.cell < 0 && a.glob == nil {
		ex.oblige(st, "safety", "no nil dereference", Ne(a.b, Int(0)), pos)
	}
}

func ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// simple executes an instruction that neither branches nor calls.
func (ex *Exec) simple(st *State, d int, in ssa.Instruction) {
	env := st.env[d]
	val := func(v ssa.Value) []*Term { return ex.val(st, d, v) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := ptrElem(x.Type())
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() > 32 {
			unsup("large array")
		}
		id := st.newCell(t, zeros(t))
		env.vals[x] = ex.cellPtr(id, 0, t)
	case *ssa.Store:
		t := x.Val.Type()
		a := st.resolve(val(x.Addr), t)
		ex.nonNil(st, a, x.Pos())
		st.storeAt(a, val(x.Val))
	case *ssa.UnOp:
		env.vals[x] = ex.unop(st, d, x)
	case *ssa.BinOp:
		env.vals[x] = []*Term{ex.binop(st, x.Op, x.X.Type(), val(x.X), val(x.Y), x.Pos(), x.Type())}
	case *ssa.FieldAddr:
		t := ptrElem(x.X.Type())
		a := st.resolve(val(x.X), t)
		ex.nonNil(st, a, x.Pos())
		off, ft := fieldOff(t, x.Field)
		a.off += off
		env.vals[x] = st.ptr(a, ft)
	case *ssa.Field:
		off, ft := fieldOff(x.X.Type(), x.Field)
		env.vals[x] = val(x.X)[off : off+len(leaves(ft))]
	case *ssa.IndexAddr:
		env.vals[x] = ex.indexAddr(st, x, val(x.X), val(x.Index)[0])
	case *ssa.Index:
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			i := val(x.Index)[0]
			if !i.isInt() {
				unsup("array value indexed by a variable")
			}
			n := len(leaves(u.Elem()))
			env.vals[x] = val(x.X)[int(i.ival)*n : int(i.ival)*n+n]
		default:
			s, i := val(x.X)[0], val(x.Index)[0]
			ex.oblige(st, "safety", "index in range", And(Le(Int(0), i), Lt(i, slen(s))), x.Pos())
			env.vals[x] = []*Term{App("sat", "Int", s, i)}
		}
	case *ssa.Extract:
		tu := x.Tuple.Type().(*types.Tuple)
		off := tupleOff(tu, x.Index)
		env.vals[x] = val(x.Tuple)[off : off+len(leaves(x.Type()))]
	case *ssa.MakeClosure:
		var bind [][]*Term
		for _, b := range x.Bindings {
			bind = append(bind, val(b))
		}
		env.vals[x] = ex.fnVal(x.Fn.(*ssa.Function), bind)
	case *ssa.MakeInterface:
		v := val(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			env.vals[x] = []*Term{tagOf(x.X.Type()), v[0], v[1]}
		} else {
			env.vals[x] = []*Term{tagOf(x.X.Type()), Special("box", "Int", types.TypeString(x.X.Type(), nil), boxRef{x.X.Type()}, v...), Int(0)}
		}
	case *ssa.ChangeInterface:
		env.vals[x] = val(x.X)
	case *ssa.ChangeType:
		env.vals[x] = val(x.X)
	case *ssa.Convert:
		env.vals[x] = ex.convert(st, x.X.Type(), x.Type(), val(x.X))
	case *ssa.MultiConvert:
		env.vals[x] = ex.convert(st, x.X.Type(), x.Type(), val(x.X))
	case *ssa.MakeMap:
		env.vals[x] = []*Term{ex.makeMap(st, x.Type())}
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l, c := val(x.Len)[0], val(x.Cap)[0]
		ex.oblige(st, "safety", "slice length in range", And(Le(Int(0), l), Le(l, c)), x.Pos())
		if isByteSlice(x.Type()) {
			if !(l.isInt() && l.ival == 0) {
				unsup("make of a non-empty byte slice")
			}
			env.vals[x] = []*Term{StrLit(""), tFalse}
			return
		}
		b := st.newBase()
		for i, lf := range leaves(et) {
			k := ex.objKey(et, i)
			st.setHeap(k, Store(st.heap(k), b, ConstArr("Int", zeroOf(lf))))
		}
		env.vals[x] = []*Term{b, l, c}
	case *ssa.MapUpdate:
		m := val(x.Map)[0]
		ex.oblige(st, "safety", "no write to a nil map", Ne(m, Int(0)), x.Pos())
		ex.mapStore(st, x.Map.Type(), m, val(x.Key), val(x.Value))
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s, i := val(x.X)[0], val(x.Index)[0]
			ex.oblige(st, "safety", "index in range", And(Le(Int(0), i), Lt(i, slen(s))), x.Pos())
			env.vals[x] = []*Term{App("sat", "Int", s, i)}
			return
		}
		v, has := ex.mapLoad(st, x.X.Type(), val(x.X)[0], val(x.Index))
		if x.CommaOk {
			v = append(v, has)
		}
		env.vals[x] = v
	case *ssa.Slice:
		env.vals[x] = ex.slice(st, d, x)
	case *ssa.Range:
		env.vals[x] = ex.rangeIter(st, x, val(x.X))
	default:
		unsup("instruction %T", in)
	}
}

func (ex *Exec) unop(st *State, d int, x *ssa.UnOp) []*Term {
	v := ex.val(st, d, x.X)
	switch x.Op {
	case token.MUL:
		a := st.resolve(v, x.Type())
		ex.nonNil(st, a, x.Pos())
		return st.loadAt(a, x.Type())
	case token.NOT:
		return []*Term{Not(v[0])}
	case token.SUB:
		if v[0].sort == "Int" {
			return []*Term{Sub(Int(0), v[0])}
		}
		return []*Term{App("fneg", v[0].sort, v[0])}
	}
	unsup("operator %s", x.Op)
	return nil
}

func (ex *Exec) binop(st *State, op token.Token, t types.Type, a, b []*Term, pos token.Pos, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return st.eq(t, a, b)
	case token.NEQ:
		return Not(st.eq(t, a, b))
	}
	ls := leaves(t)
	if len(ls) != 1 {
		unsup("operator %s on %s", op, t)
	}
	x, y := a[0], b[0]
	switch ls[0].Sort {
	case "Bool":
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	case "Int":
		switch op {
		case token.ADD:
			return Add(x, y)
		case token.SUB:
			return Sub(x, y)
		case token.MUL:
			return Mul(x, y)
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Lt(y, x)
		case token.GEQ:
			return Le(y, x)
		case token.QUO, token.REM:
			ex.oblige(st, "safety", "no division by zero", Ne(y, Int(0)), pos)
			if x.isInt() && y.isInt() {
				if op == token.QUO {
					return Int(x.ival / y.ival)
				}
				return Int(x.ival % y.ival)
			}
			if op == token.QUO {
				return App("godiv", "Int", x, y)
			}
			return App("gomod", "Int", x, y)
		default:
			return App("bit_"+op.String(), "Int", x, y)
		}
	case "Str":
		switch op {
		case token.ADD:
			return Cat(x, y)
		case token.LSS:
			return App("slt", "Bool", x, y)
		case token.GTR:
			return App("slt", "Bool", y, x)
		case token.LEQ:
			return Not(App("slt", "Bool", y, x))
		case token.GEQ:
			return Not(App("slt", "Bool", x, y))
		}
	}
	return App("op_"+op.String()+"_"+ls[0].Sort, leaves(rt)[0].Sort, x, y)
}

func (ex *Exec) indexAddr(st *State, x *ssa.IndexAddr, v []*Term, i *Term) []*Term {
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		if isByteSlice(x.X.Type()) {
			unsup("element of a byte slice")
		}
		et := u.Elem()
		ex.oblige(st, "safety", "index in range", And(Le(Int(0), i), Lt(i, v[1])), x.Pos())
		if cr, ok := v[0].extra.(cellRef); ok {
			if _, prom := st.prom[cr.id]; !prom && i.isInt() {
				n := len(leaves(et))
				return ex.cellPtr(cr.id, int(i.ival)*n, et)
			}
			return []*Term{st.promote(cr.id), i}
		}
		return []*Term{v[0], i}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := st.resolve(v, u.Elem())
		ex.oblige(st, "safety", "index in range", And(Le(Int(0), i), Lt(i, Int(at.Len()))), x.Pos())
		n := len(leaves(at.Elem()))
		switch {
		case a.cell >= 0 && i.isInt():
			a.off += int(i.ival) * n
			return st.ptr(a, at.Elem())
		case a.cell >= 0 && a.off == 0:
			return []*Term{st.promote(a.cell), i}
		case a.cell < 0 && a.glob == nil && a.off == 0 && typeKey(a.root) == typeKey(at.Elem()):
			return []*Term{a.b, Add(a.i, i)}
		}
		unsup("address of an array element")
	}
	unsup("index of %s", x.X.Type())
	return nil
}

func (ex *Exec) slice(st *State, d int, x *ssa.Slice) []*Term {
	v := ex.val(st, d, x.X)
	var lo, hi *Term = Int(0), nil
	if x.Low != nil {
		lo = ex.val(st, d, x.Low)[0]
	}
	if x.High != nil {
		hi = ex.val(st, d, x.High)[0]
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		cr, ok := v[0].extra.(cellRef)
		if !ok || cr.off != 0 || !(lo.isInt() && lo.ival == 0) {
			unsup("slice of an array")
		}
		l := Int(at.Len())
		if isByteSlice(x.Type()) {
			if hi != nil && hi != l {
				unsup("slice of a byte array")
			}
			if al, ok := x.X.(*ssa.Alloc); !ok || al.Comment != "slicelit" {
				unsup("slice of a byte array")
			}
			r := StrLit("")
			for j, b := range st.cells[cr.id] {
				if _, prom := st.prom[cr.id]; prom || j > 64 {
					unsup("slice of a byte array")
				}
				if b.isInt() && 0 <= b.ival && b.ival < 128 {
					r = Cat(r, StrLit(string(rune(b.ival))))
				} else {
					r = Cat(r, App("bytestr", "Str", b))
				}
			}
			return []*Term{r, tFalse}
		}
		if hi == nil {
			hi = l
		} else {
			ex.oblige(st, "safety", "slice bounds in range", And(Le(Int(0), hi), Le(hi, l)), x.Pos())
		}
		return []*Term{ex.cellPtr(cr.id, 0, at.Elem())[0], hi, l}
	case *types.Slice:
		if isByteSlice(x.X.Type()) {
			if hi == nil {
				hi = slen(v[0])
			}
			ex.oblige(st, "safety", "slice bounds in range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, slen(v[0]))), x.Pos())
			return []*Term{ssub(v[0], lo, hi), v[1]}
		}
		if x.Max != nil {
			unsup("three-index slice")
		}
		if hi == nil {
			hi = v[1]
		} else {
			ex.oblige(st, "safety", "slice bounds in range", And(Le(Int(0), hi), Le(hi, v[2])), x.Pos())
			ex.mustOrUnsup(st, "reslice beyond length", Le(hi, v[1]), x.Pos())
		}
		if lo.isInt() && lo.ival == 0 {
			return []*Term{v[0], hi, v[2]}
		}
		// A slice with an offset is modelled as a fresh copy: sound only if nobody writes through either.
		unsup("slice with a lower bound")
	default: // string
		if hi == nil {
			hi = slen(v[0])
		}
		ex.oblige(st, "safety", "slice bounds in range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, slen(v[0]))), x.Pos())
		return []*Term{ssub(v[0], lo, hi)}
	}
	return nil
}

// mustOrUnsup requires goal for the verifier's model to apply.
func (ex *Exec) mustOrUnsup(st *State, what string, goal *Term, pos token.Pos) {
	if goal == tTrue {
		return
	}
	if ex.quiet == 0 && !st.dead {
		ex.obls = append(ex.obls, &Obl{Func: ex.con.Name, Kind: "unsupported", Name: "unsupported unless never: " + what, Pos: ex.pos(pos), PC: st.pcs(), Goal: goal, Trail: st.trail})
	}
	st.assume(goal)
}

// Maps are three kinds of heap array: the domain, the cardinality, and the values, which are zero outside the domain.

func (ex *Exec) makeMap(st *State, t types.Type) *Term {
	_, vt := mapTypes(t)
	b := st.newBase()
	dk, ck := ex.domKey(t), ex.cardKey(t)
	kt, _ := mapTypes(t)
	st.setHeap(dk, Store(st.heap(dk), b, ConstArr(keySort(kt), tFalse)))
	st.setHeap(ck, Store(st.heap(ck), b, Int(0)))
	for i, l := range leaves(vt) {
		vk := ex.mvalKey(t, i)
		st.setHeap(vk, Store(st.heap(vk), b, ConstArr(keySort(kt), zeroOf(l))))
	}
	return b
}

func (ex *Exec) mapStore(st *State, t types.Type, m *Term, key, v []*Term) {
	kt, vt := mapTypes(t)
	v = st.emit(v)
	k := keyTerm(kt, st.emit(key))
	dk, ck := ex.domKey(t), ex.cardKey(t)
	dom := st.heap(dk)
	row := Select(dom, m)
	card := st.heap(ck)
	n := Select(card, m)
	st.setHeap(ck, Store(card, m, Ite(Select(row, k), n, AddK(n, 1))))
	st.setHeap(dk, Store(dom, m, Store(row, k, tTrue)))
	for i := range leaves(vt) {
		vk := ex.mvalKey(t, i)
		h := st.heap(vk)
		st.setHeap(vk, Store(h, m, Store(Select(h, m), k, v[i])))
	}
}

func (ex *Exec) mapLoad(st *State, t types.Type, m *Term, key []*Term) ([]*Term, *Term) {
	kt, vt := mapTypes(t)
	k := keyTerm(kt, st.emit(key))
	has := Select(Select(st.heap(ex.domKey(t)), m), k)
	var r []*Term
	for i := range leaves(vt) {
		r = append(r, Select(Select(st.heap(ex.mvalKey(t, i)), m), k))
	}
	return r, has
}

func (ex *Exec) convert(st *State, from, to types.Type, v []*Term) []*Term {
	fl, tl := leaves(from), leaves(to)
	switch {
	case isByteSlice(from) && len(tl) == 1 && tl[0].Sort == "Str":
		return []*Term{v[0]}
	case isByteSlice(to) && len(fl) == 1 && fl[0].Sort == "Str":
		return []*Term{v[0], tFalse}
	case len(fl) == 1 && len(tl) == 1 && fl[0].Sort == "Int" && tl[0].Sort == "Int" && isIntType(from) && isIntType(to):
		return []*Term{wrapInt(from, to, v[0])}
	case len(fl) == 1 && len(tl) == 1 && fl[0].Sort == "Int" && tl[0].Sort == "Str":
		return []*Term{runeStr(v[0])}
	case len(fl) == 1 && len(tl) == 1 && fl[0].Sort == tl[0].Sort && fl[0].Sort == "Str":
		return v
	case types.Identical(from.Underlying(), to.Underlying()):
		return v
	case len(fl) == 1 && len(tl) == 1:
		return []*Term{App("conv_"+fl[0].Sort+"_"+typeKey(to), tl[0].Sort, v[0])}
	}
	unsup("conversion from %s to %s", from, to)
	return nil
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func bits(t types.Type) (n int, signed bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	}
	return 64, false
}

// wrapInt converts an integer, exactly.
func wrapInt(from, to types.Type, v *Term) *Term {
	fb, fs := bits(from)
	tb, ts := bits(to)
	if (fs == ts && tb >= fb) || (!fs && ts && tb > fb) {
		return v
	}
	if v.isInt() && tb <= 32 {
		m := int64(1) << tb
		r := ((v.ival % m) + m) % m
		if ts && r >= m/2 {
			r -= m
		}
		return Int(r)
	}
	if v.isInt() && v.ival >= 0 {
		return v
	}
	if tb >= 63 {
		return App(fmt.Sprintf("wrap_%d_%v", tb, ts), "Int", v)
	}
	m := Int(int64(1) << tb)
	r := App("mod", "Int", v, m)
	if ts {
		h := int64(1) << (tb - 1)
		r = AddK(App("mod", "Int", AddK(v, h), m), -h)
	}
	return r
}

type iterInfo struct {
	str  bool
	typ  types.Type
	m    *Term // map handle, or the string
	dom0 *Term
	cell int
}

func (ex *Exec) rangeIter(st *State, x *ssa.Range, v []*Term) []*Term {
	t := x.X.Type()
	if _, ok := t.Underlying().(*types.Map); !ok {
		id := st.newCell(nil, []*Term{Int(0)})
		return []*Term{Special("iter", "Int", fmt.Sprintf("%d/%d", ex.num, id), &iterInfo{str: true, typ: t, m: v[0], cell: id}, v[0])}
	}
	kt, _ := mapTypes(t)
	dom0 := Select(st.heap(ex.domKey(t)), v[0])
	id := st.newCell(nil, []*Term{ConstArr(keySort(kt), tFalse), Int(0)})
	return []*Term{Special("iter", "Int", fmt.Sprintf("%d/%d", ex.num, id), &iterInfo{typ: t, m: v[0], dom0: dom0, cell: id}, v[0])}
}

// next advances an iterator.
func (ex *Exec) next(st *State, d int, x *ssa.Next, k contFn) {
	var it *iterInfo
	if !ex.guard(st, x.Pos(), func() {
		t := ex.val(st, d, x.Iter)[0]
		it, _ = t.extra.(*iterInfo)
		if it == nil {
			unsup("unknown iterator")
		}
	}) {
		return
	}
	tu := x.Type().(*types.Tuple)
	// components of the tuple that the code ignores are invalid-typed
	used := func(i int) bool {
		b, ok := tu.At(i).Type().(*types.Basic)
		return !ok || b.Kind() != types.Invalid
	}
	if it.str {
		pos := st.cells[it.cell][0]
		n := runeCount(it.m)
		more, done := st.clone(), st
		more.assume(Lt(pos, n))
		done.assume(Le(n, pos))
		tup := func(ok, i, r *Term) []*Term {
			t := []*Term{ok}
			if used(1) {
				t = append(t, i)
			}
			if used(2) {
				t = append(t, r)
			}
			return t
		}
		if !more.dead {
			more.cells[it.cell] = []*Term{AddK(pos, 1)}
			k(more, tup(tTrue, App("runeoff", "Int", it.m, pos), App("runeat", "Int", it.m, pos)))
		}
		if !done.dead {
			k(done, tup(tFalse, Int(0), Int(0)))
		}
		return
	}
	kt, vt := mapTypes(it.typ)
	done0, n := st.cells[it.cell][0], st.cells[it.cell][1]
	card := Select(st.heap(ex.cardKey(it.typ)), it.m)
	row := Select(st.heap(ex.domKey(it.typ)), it.m)
	ok := true
	if row != it.dom0 {
		ok = ex.guard(st, x.Pos(), func() {
			ex.mustOrUnsup(st, "map changed while ranging over it", Eq(row, it.dom0), x.Pos())
		})
	}
	if !ok {
		return
	}
	more, fin := st.clone(), st
	key := Fresh("key", keySort(kt))
	kc := unkey(kt, key)
	inv := typeInv(leaves(kt), kc, more.alloc)
	more.assume(Select(row, key), Not(Select(done0, key)), Lt(n, card))
	more.assume(inv...)
	if !more.dead {
		more.cells[it.cell] = []*Term{Store(done0, key, tTrue), AddK(n, 1)}
		res := []*Term{tTrue}
		if !invalidT(tu.At(1).Type()) {
			res = append(res, kc...)
		}
		if !invalidT(tu.At(2).Type()) {
			for i := range leaves(vt) {
				res = append(res, Select(Select(more.heap(ex.mvalKey(it.typ, i)), it.m), key))
			}
		}
		k(more, res)
	}
	b := Bound("x", keySort(kt))
	fin.assume(Forall([]*Term{b}, Implies(Select(row, b), Select(done0, b)), []*Term{Select(row, b)}), Eq(n, card))
	if !fin.dead {
		res := []*Term{tFalse}
		if !invalidT(tu.At(1).Type()) {
			res = append(res, zeros(kt)...)
		}
		if !invalidT(tu.At(2).Type()) {
			res = append(res, zeros(vt)...)
		}
		k(fin, res)
	}
}

func invalidT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (ex *Exec) typeAssert(st *State, d int, x *ssa.TypeAssert, k contFn) {
	var v []*Term
	if !ex.guard(st, x.Pos(), func() {
		v = ex.val(st, d, x.X)
		if types.IsInterface(x.AssertedType) {
			unsup("assertion to an interface type")
		}
	}) {
		return
	}
	is := Eq(v[0], tagOf(x.AssertedType))
	unwrap := func() []*Term {
		if _, ok := x.AssertedType.Underlying().(*types.Pointer); ok {
			return v[1:]
		}
		if b, ok := v[1].extra.(boxRef); ok && types.Identical(b.typ, x.AssertedType) {
			return v[1].args
		}
		var r []*Term
		for i, l := range leaves(x.AssertedType) {
			r = append(r, App(fmt.Sprintf("unbox_%s_%d", typeKey(x.AssertedType), i), l.Sort, v[1]))
		}
		return r
	}
	if x.CommaOk {
		yes, no := st.clone(), st
		yes.assume(is)
		no.assume(Not(is))
		if !yes.dead {
			k(yes, append(append([]*Term(nil), unwrap()...), tTrue))
		}
		if !no.dead {
			k(no, append(zeros(x.AssertedType), tFalse))
		}
		return
	}
	ex.oblige(st, "safety", "type assertion holds", is, x.Pos())
	if !st.dead {
		k(st, unwrap())
	}
}

// calls ------------------------------------------------------------------

func (ex *Exec) call(st *State, d int, c *ssa.CallCommon, pos token.Pos, k contFn) {
	var args [][]*Term
	var types_ []types.Type
	var fv []*Term
	if !ex.guard(st, pos, func() {
		for _, a := range c.Args {
			args = append(args, ex.val(st, d, a))
			types_ = append(types_, a.Type())
		}
		if c.IsInvoke() || c.StaticCallee() == nil {
			fv = ex.val(st, d, c.Value)
		}
	}) {
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var res []*Term
		if ex.guard(st, pos, func() { res = ex.builtin(st, b, c, args, pos) }) && !st.dead {
			k(st, res)
		}
		return
	}
	if c.IsInvoke() {
		ex.invoke(st, c, fv, args, pos, k)
		return
	}
	if f := c.StaticCallee(); f != nil {
		if f.String() == "reflect.DeepEqual" {
			ex.deepTypes = nil
			if ci, ok := c.Args[0].(*ssa.ChangeInterface); ok {
				ex.deepTypes = implementers(ci.X.Type())
			}
		}
		var bind [][]*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if !ex.guard(st, pos, func() { bind = ex.val(st, d, mc)[0].extra.(*closure).bind }) {
				return
			}
		}
		ex.callFn(st, f, bind, args, pos, k)
		return
	}
	if cl, ok := fv[0].extra.(*closure); ok {
		ex.callFn(st, cl.fn, cl.bind, args, pos, k)
		return
	}
	ex.callSymbolic(st, c.Signature(), fv[0], args, pos, k)
}

// invoke calls a method of an interface value: known dynamic types are followed one by one.
func (ex *Exec) invoke(st *State, c *ssa.CallCommon, fv []*Term, args [][]*Term, pos token.Pos, k contFn) {
	it := c.Value.Type()
	ex.oblige(st, "safety", "no method call on a nil interface", Ne(fv[0], Int(0)), pos)
	if st.dead {
		return
	}
	dispatch := func(st *State, t types.Type) {
		f := ex.p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			ex.outside(st, "method "+c.Method.Name(), pos)
			return
		}
		recv := fv[1:]
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			if b, ok := fv[1].extra.(boxRef); ok {
				_ = b
				recv = fv[1].args
			} else {
				recv = nil
				for i, l := range leaves(t) {
					recv = append(recv, App(fmt.Sprintf("unbox_%s_%d", typeKey(t), i), l.Sort, fv[1]))
				}
			}
		}
		ex.callFn(st, f, nil, append([][]*Term{recv}, args...), pos, k)
	}
	if t := typeOfTag(fv[0]); t != nil {
		dispatch(st, t)
		return
	}
	impls := implementers(it)
	if impls == nil {
		ex.externInvoke(st, c, fv, args, pos, k)
		return
	}
	for _, t := range impls {
		n := st.clone()
		n.trail += " " + types.TypeString(t, func(p *types.Package) string { return p.Name() })
		n.assume(Eq(fv[0], tagOf(t)))
		if !n.dead {
			dispatch(n, t)
		}
	}
}

func fnOrigin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func fnPkg(f *ssa.Function) *types.Package {
	o := fnOrigin(f)
	for o.Parent() != nil {
		o = fnOrigin(o.Parent())
	}
	if o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if ob := o.Object(); ob != nil {
		return ob.Pkg()
	}
	return nil
}

func (ex *Exec) callFn(st *State, f *ssa.Function, bind, args [][]*Term, pos token.Pos, k contFn) {
	if ex.con != nil && len(ex.con.Ats) > 0 {
		ex.atCall(st, fnNames(f, ex.con.pkg), sigTypes(f.Signature), args, pos)
	}
	if ex.con != nil && len(ex.con.Afters) > 0 {
		k = ex.afterCall(st, fnNames(f, ex.con.pkg), f.Signature, args, pos, k)
	}
	if con := contractOf(f, ex.con); con != nil && !con.Inline && !(con == ex.con && ex.effOnly) {
		interior := false
		for i, a := range args {
			if i < len(f.Params) {
				for j, l := range leaves(f.Params[i].Type()) {
					if l.Kind == lkPtrB && a[j].extra != nil {
						if !ex.wholeObject(st, a[j]) {
							interior = true
						}
					}
					if l.Kind == lkFunc && a[j].extra != nil && !con.Callback {
						interior = true
					}
				}
			}
		}
		if !interior {
			ex.callContract(st, con, f, args, pos, k)
			return
		}
		if args2, k2 := ex.copyInOut(st, con, f, args, k); k2 != nil {
			ex.callContract(st, con, f, args2, pos, k2)
			return
		}
	}
	if f.Blocks != nil && (inModule(fnPkg(f)) || f.Synthetic != "") {
		ex.inline(st, f, bind, args, pos, k)
		return
	}
	ex.extern(st, f, args, pos, k)
}

// copyInOut prepares the call of f, by its contract, with a pointer into the middle of an object: f gets a
// copy, which is copied back afterwards. That is the same if f can reach the object in no other way
// and does not keep the pointer; otherwise the result is nil.
func (ex *Exec) copyInOut(st *State, con *Contract, f *ssa.Function, args [][]*Term, k contFn) ([][]*Term, contFn) {
	which := -1
	for i, a := range args {
		if i >= len(f.Params) {
			return nil, nil
		}
		for j, l := range leaves(f.Params[i].Type()) {
			if l.Kind == lkFunc {
				return nil, nil
			}
			if l.Kind == lkPtrB && a[j].extra != nil && !ex.wholeObject(st, a[j]) {
				if _, ok := f.Params[i].Type().Underlying().(*types.Pointer); !ok || which >= 0 {
					return nil, nil
				}
				which = i
			}
		}
	}
	if which < 0 {
		return nil, nil
	}
	t := f.Params[which].Type().Underlying().(*types.Pointer).Elem()
	at := st.resolve(args[which], t)
	if at.glob != nil {
		return nil, nil
	}
	ec := con.instance(f)
	eff := ec.effects(ex.p)
	if ec.effErr != "" {
		return nil, nil
	}
	tk := typeKey(t)
	n := len(leaves(t))
	if at.cell < 0 {
		for i := 0; i < n; i++ {
			if _, touched := ec.effKeys[ex.objKey(at.root, at.off+i)]; touched {
				return nil, nil
			}
		}
		if named, ok := types.Unalias(at.root).(*types.Named); !ok || imports(fnPkg(f), named.Obj().Pkg(), map[*types.Package]bool{}) {
			return nil, nil
		}
	}
	keeps := func(l Leaf) bool { // may the pointer be here?
		switch l.Kind {
		case lkPtrB:
			pt, ok := l.Typ.Underlying().(*types.Pointer)
			return !ok || typeKey(pt.Elem()) == tk
		case lkTag, lkIfB, lkIfI, lkFunc, lkParam, lkOpaque:
			return true
		}
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		for _, l := range leaves(f.Signature.Results().At(i).Type()) {
			if keeps(l) {
				return nil, nil
			}
		}
	}
	for key := range eff {
		if keeps(ec.effKeys[key].leaf) {
			return nil, nil
		}
	}
	c := st.newCell(t, st.loadAt(at, t))
	args2 := append([][]*Term(nil), args...)
	args2[which] = ex.cellPtr(c, 0, t)
	return args2, func(st *State, res []*Term) {
		v := st.loadAt(st.resolve(args2[which], t), t)
		to := st.resolve(args[which], t)
		if to.cell >= 0 {
			st.storeAt(to, v)
		} else {
			v = st.emit(v)
			for i, x := range v {
				if eff[ex.objKey(t, i)] {
					a := to
					a.off += i
					st.storeAt(a, []*Term{x})
				}
			}
		}
		k(st, res)
	}
}

// imports says whether p is q or imports it, directly or not.
func imports(p, q *types.Package, seen map[*types.Package]bool) bool {
	if p == q {
		return true
	}
	if p == nil || q == nil || seen[p] {
		return p == nil || q == nil
	}
	seen[p] = true
	for _, i := range p.Imports() {
		if imports(i, q, seen) {
			return true
		}
	}
	return false
}

// wholeObject says whether an address is that of a whole local variable (which can move to the heap).
func (ex *Exec) wholeObject(st *State, b *Term) bool {
	cr, ok := b.extra.(cellRef)
	if !ok {
		return false
	}
	ct := ex.cellType[cr.id]
	return ct != nil && cr.off == 0 && typeKey(ct) == typeKey(cr.typ)
}

func (ex *Exec) inline(st *State, f *ssa.Function, bind, args [][]*Term, pos token.Pos, k contFn) {
	for _, e := range st.env {
		if e.fn == f {
			ex.outside(st, "recursion through "+f.Name(), pos)
			return
		}
	}
	if len(st.env) > 14 {
		ex.outside(st, "calls nested too deeply", pos)
		return
	}
	if f.Recover != nil || hasDefer(f) {
		ex.outside(st, "defer in "+f.Name(), pos)
		return
	}
	vals := map[ssa.Value][]*Term{}
	for i, p := range f.Params {
		vals[p] = args[i]
	}
	for i, fv := range f.FreeVars {
		if i < len(bind) {
			vals[fv] = bind[i]
		}
	}
	d := len(st.env)
	st.env = append(st.env, &Env{fn: f, vals: vals, key: st.env[d-1].key + ">" + f.Name()})
	ex.block(st, d, f.Blocks[0], nil, func(st *State, res []*Term) {
		st.env = st.env[:d]
		k(st, res)
	})
}

func hasDefer(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Select:
				return true
			}
		}
	}
	return false
}

func (ex *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args [][]*Term, pos token.Pos) []*Term {
	switch b.Name() {
	case "len":
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if isByteSlice(t) {
				return []*Term{slen(args[0][0])}
			}
			return []*Term{args[0][1]}
		case *types.Map:
			return []*Term{Select(st.heap(ex.cardKey(t)), args[0][0])}
		case *types.Basic:
			return []*Term{slen(args[0][0])}
		case *types.Array:
			return []*Term{Int(u.Len())}
		}
	case "cap":
		if !isByteSlice(c.Args[0].Type()) {
			return []*Term{args[0][2]}
		}
	case "append":
		return ex.append(st, c.Args[0].Type(), c.Args[1].Type(), args[0], args[1])
	case "delete":
		t := c.Args[0].Type()
		kt, _ := mapTypes(t)
		k := keyTerm(kt, st.emit(args[1]))
		m := args[0][0]
		dk, ck := ex.domKey(t), ex.cardKey(t)
		row := Select(st.heap(dk), m)
		n := Select(st.heap(ck), m)
		st.setHeap(ck, Store(st.heap(ck), m, Ite(Select(row, k), AddK(n, -1), n)))
		st.setHeap(dk, Store(st.heap(dk), m, Store(row, k, tFalse)))
		_, vt := mapTypes(t)
		for i, l := range leaves(vt) {
			vk := ex.mvalKey(t, i)
			h := st.heap(vk)
			st.setHeap(vk, Store(h, m, Store(Select(h, m), k, zeroOf(l))))
		}
		return nil
	case "min", "max":
		r := args[0][0]
		for _, a := range args[1:] {
			if r.sort != "Int" {
				unsup("builtin %s", b.Name())
			}
			if b.Name() == "min" {
				r = Ite(Le(r, a[0]), r, a[0])
			} else {
				r = Ite(Le(r, a[0]), a[0], r)
			}
		}
		return []*Term{r}
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return nil
	case "copy":
		return ex.copyBuiltin(st, c, args)
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (ex *Exec) copyBuiltin(st *State, c *ssa.CallCommon, args [][]*Term) []*Term {
	t := c.Args[0].Type()
	if isByteSlice(t) || isByteSlice(c.Args[1].Type()) || len(args[1]) != 3 {
		unsup("copy of bytes")
	}
	et := t.Underlying().(*types.Slice).Elem()
	dst, src := st.emit(args[0]), st.emit(args[1])
	n := Ite(Le(dst[1], src[1]), dst[1], src[1])
	for i, lf := range leaves(et) {
		key := ex.objKey(et, i)
		h := st.heap(key)
		old, from := Select(h, dst[0]), Select(h, src[0])
		row := Fresh("row", arr("Int", lf.Sort))
		j := Bound("j", "Int")
		st.assume(Forall([]*Term{j}, Eq(Select(row, j), Ite(And(Le(Int(0), j), Lt(j, n)), Select(from, j), Select(old, j))), []*Term{Select(row, j)}))
		st.setHeap(key, Store(h, dst[0], row))
	}
	return []*Term{n}
}

// append models append(s, t...).
func (ex *Exec) append(st *State, ty, ty2 types.Type, s, t []*Term) []*Term {
	if isByteSlice(ty) {
		return []*Term{Cat(s[0], t[0]), And(s[1], Eq(slen(t[0]), Int(0)))}
	}
	et := ty.Underlying().(*types.Slice).Elem()
	ls := leaves(et)
	// the elements of t, if they are known
	var elems [][]*Term
	known := false
	if t[1].isInt() && t[1].ival <= 32 {
		if cr, ok := t[0].extra.(cellRef); ok {
			if _, prom := st.prom[cr.id]; !prom {
				known = true
				for j := 0; j < int(t[1].ival); j++ {
					elems = append(elems, st.emit(st.loadAt(addr{cell: cr.id, off: cr.off + j*len(ls)}, et)))
				}
			}
		} else if t[1].ival == 0 {
			known = true
		}
	}
	s = st.emit(s)
	if known && len(elems) == 0 {
		return s
	}
	if !known {
		t = st.emit(t)
	}
	n := t[1]
	fits := Le(Add(s[1], n), s[2])
	if s[0].isInt() && s[0].ival == 0 && known {
		fits = tFalse
	}
	nb := st.newBase()
	na := Ite(fits, s[0], nb)
	nc := s[2]
	if fits != tTrue {
		fc := Fresh("cap", "Int")
		st.assume(Le(Add(s[1], n), fc))
		nc = Ite(fits, s[2], fc)
	}
	newRow := func(h *Term, i int, lf Leaf) *Term {
		old := Select(h, s[0])
		if known {
			r := old
			for j, e := range elems {
				r = Store(r, AddK(s[1], int64(j)), e[i])
			}
			return r
		}
		from := Select(h, t[0])
		row := Fresh("row", arr("Int", lf.Sort))
		j := Bound("j", "Int")
		st.assume(Forall([]*Term{j}, Implies(Or(Lt(j, s[1]), Le(Add(s[1], n), j)), Eq(Select(row, j), Select(old, j))), []*Term{Select(row, j)}))
		st.assume(Forall([]*Term{j}, Implies(And(Le(s[1], j), Lt(j, Add(s[1], n))), Eq(Select(row, j), Select(from, Sub(j, s[1])))), []*Term{Select(row, j)}))
		// the same, seen from the source
		st.assume(Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, n)), Eq(Select(row, Add(s[1], j)), Select(from, j))), []*Term{Select(from, j)}))
		return row
	}
	if !known {
		// appending nothing changes nothing
		z := Eq(n, Int(0))
		if z != tFalse {
			na = Ite(z, s[0], na)
			nc = Ite(z, s[2], nc)
		}
	}
	for i, lf := range ls {
		key := ex.objKey(et, i)
		h := st.heap(key)
		row := newRow(h, i, lf)
		st.setHeap(key, Store(h, na, row))
	}
	return []*Term{na, Add(s[1], n), nc}
}

// havoc makes arbitrary values of type t.
func (ex *Exec) havoc(st *State, t types.Type, prefix string) []*Term {
	var r []*Term
	ls := leaves(t)
	for _, l := range ls {
		r = append(r, Fresh(prefix+l.Path, l.Sort))
	}
	st.assume(typeInv(ls, r, st.alloc)...)
	return r
}

func sigResults(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

// callSymbolic calls an unknown function value: a pure, deterministic function of its arguments.
func (ex *Exec) callSymbolic(st *State, sig *types.Signature, f *Term, args [][]*Term, pos token.Pos, k contFn) {
	if h := ex.con.callbackFor(ex, f); h != nil {
		h(st, sig, f, args, pos, k)
		return
	}
	if ex.con != nil {
		for n, v := range ex.params {
			if len(v.c) == 1 && v.c[0] == f {
				ex.atCall(st, map[string]bool{n: true}, sigTypes(sig), args, pos)
				k = ex.afterCall(st, map[string]bool{n: true}, sig, args, pos, k)
			}
		}
	}
	var res []*Term
	if !ex.guard(st, pos, func() { res = st.applyFn(sig, f, args) }) {
		return
	}
	k(st, res)
}

// applyFn is the value of the pure function f on args.
func (st *State) applyFn(sig *types.Signature, f *Term, args [][]*Term) []*Term {
	all := []*Term{f}
	for _, a := range args {
		all = append(all, st.emit(a)...)
	}
	var res []*Term
	name := "call_" + typeKey(sig)
	ls := leaves(sig.Results())
	for i, l := range ls {
		res = append(res, App(fmt.Sprintf("%s_%d", name, i), l.Sort, all...))
	}
	st.assume(typeInv(ls, res, st.ex.alloc0)...)
	return res
}

// loops ------------------------------------------------------------------

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	n      int
}

type loopCtx struct {
	loop     *loopInfo
	discover bool
	onBack   func(st *State)
	k        *Term
	unroll   int
}

var loopMemo = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

// loopsOf finds the natural loops of f.
func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	keyMu.Lock()
	defer keyMu.Unlock()
	if m, ok := loopMemo[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := m[s]
			if l == nil {
				l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				m[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		m[h].n = i
	}
	loopMemo[f] = m
	return m
}

// headerCond evaluates the header's branch condition, if that needs no calls.
func (ex *Exec) headerCond(st *State, d int, lp *loopInfo) (c *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			c = nil
		}
	}()
	n := st.clone()
	ex.quiet++
	defer func() { ex.quiet-- }()
	for _, in := range lp.header.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.Lookup, *ssa.IndexAddr:
			ex.simple(n, d, in)
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
			n.env[d].vals[x] = ex.builtin(n, b, &x.Call, [][]*Term{ex.val(n, d, x.Call.Args[0])}, x.Pos())
		case *ssa.If:
			y := x.Cond
			if u, ok := y.(*ssa.UnOp); ok && u.Op == token.NOT {
				y = u.X
			}
			if _, ok := y.(*ssa.Phi); ok {
				return nil // a flag says nothing about how often the loop runs
			}
			return ex.val(n, d, x.Cond)[0]
		default:
			return nil
		}
	}
	return nil
}

func (ex *Exec) enterLoop(st *State, d int, lp *loopInfo, ret contFn) {
	c := ex.headerCond(st, d, lp)
	if c == tTrue || c == tFalse {
		ctx := &loopCtx{loop: lp, unroll: 1}
		outer := !inLoop(st)
		entry := st.clone()
		ctx.onBack = func(st *State) {
			if outer && !ex.afterIteration(st, entry, Int(int64(ctx.unroll-1))) {
				return
			}
			c := ex.headerCond(st, d, lp)
			if (c == tTrue || c == tFalse) && ctx.unroll < 40 {
				ctx.unroll++
				ex.instrs(st, d, lp.header, 0, ret)
				return
			}
			env := st.env[d]
			env.loops = env.loops[:len(env.loops)-1]
			ex.cut(st, d, lp, ret)
		}
		st.env[d].loops = append(st.env[d].loops, ctx)
		ex.instrs(st, d, lp.header, 0, ret)
		return
	}
	ex.cut(st, d, lp, ret)
}
