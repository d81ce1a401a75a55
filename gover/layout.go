package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Kinds of leaves, for type invariants.
const (
	lkInt = iota
	lkUint
	lkBool
	lkStr
	lkReal
	lkPtrB
	lkPtrI
	lkSliceA
	lkSliceL
	lkSliceC
	lkMap
	lkTag
	lkIfB
	lkIfI
	lkFunc
	lkParam
	lkOpaque
	lkBytes // a []byte's text
	lkBytesNil
)

// Leaf is one scalar component of a value.
type Leaf struct {
	Path string
	Sort string
	Kind int
	Typ  types.Type
}

type unsupported struct{ what string }

func unsup(format string, args ...any) { panic(unsupported{fmt.Sprintf(format, args...)}) }

const modPath = "github.com/UoY-RoboStar/rtcg"

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

var (
	layoutMu   sync.Mutex
	layoutMemo typeutil.Map
)

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8 && types.Identical(s.Elem(), types.Typ[types.Byte])
}

// leaves is the flattening of type t.
func leaves(t types.Type) []Leaf {
	layoutMu.Lock()
	if v := layoutMemo.At(t); v != nil {
		layoutMu.Unlock()
		return v.([]Leaf)
	}
	layoutMu.Unlock()
	ls := leaves0(t)
	layoutMu.Lock()
	layoutMemo.Set(t, ls)
	layoutMu.Unlock()
	return ls
}

func opaqueNamed(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || inModule(n.Obj().Pkg()) {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	return st && !shown[types.TypeString(n, nil)]
}

// shown are the library structs whose exported fields the code uses.
var shown = map[string]bool{"encoding/csv.Reader": true}

// logicFns are the types fn[K, V] of specifications: total functions from K to V.
var logicFns typeutil.Map

type logicFn struct{ k, v types.Type }

// fnType is the specification type fn[k, v].
func fnType(k, v types.Type) types.Type {
	layoutMu.Lock()
	defer layoutMu.Unlock()
	sig := types.NewTuple(types.NewVar(token.NoPos, nil, "", k), types.NewVar(token.NoPos, nil, "", v))
	if t := logicFns.At(sig); t != nil {
		return t.(types.Type)
	}
	n := types.NewNamed(types.NewTypeName(token.NoPos, nil, "fn["+k.String()+","+v.String()+"]", nil), types.NewStruct(nil, nil), nil)
	logicFns.Set(sig, n)
	logicOf[n] = logicFn{k, v}
	return n
}

var logicOf = map[*types.Named]logicFn{}

// asLogicFn says whether t is a type fn[k, v].
func asLogicFn(t types.Type) (logicFn, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != nil {
		return logicFn{}, false
	}
	layoutMu.Lock()
	defer layoutMu.Unlock()
	f, ok := logicOf[n]
	return f, ok
}

func leaves0(t types.Type) []Leaf {
	if f, ok := asLogicFn(t); ok {
		var ls []Leaf
		for _, l := range leaves(f.v) {
			ls = append(ls, Leaf{l.Path, arr(keySort(f.k), l.Sort), lkOpaque, t})
		}
		return ls
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return []Leaf{{"", "TP_" + tp.Obj().Name(), lkParam, t}}
	}
	if opaqueNamed(t) {
		if types.TypeString(t, nil) == "strings.Builder" {
			return []Leaf{{"", "Str", lkStr, t}}
		}
		return []Leaf{{"", "Int", lkOpaque, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Invalid: // a component the code does not use
			return nil
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", "Bool", lkBool, t}}
		case u.Info()&types.IsUnsigned != 0:
			return []Leaf{{"", "Int", lkUint, t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", "Int", lkInt, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", "Str", lkStr, t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", "Real", lkReal, t}}
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return []Leaf{{"", "Int", lkOpaque, t}}
		}
	case *types.Pointer:
		return []Leaf{{".b", "Int", lkPtrB, t}, {".i", "Int", lkPtrI, t}}
	case *types.Slice:
		if isByteSlice(t) {
			return []Leaf{{".s", "Str", lkBytes, t}, {".nil", "Bool", lkBytesNil, t}}
		}
		return []Leaf{{".a", "Int", lkSliceA, t}, {".l", "Int", lkSliceL, t}, {".c", "Int", lkSliceC, t}}
	case *types.Map:
		return []Leaf{{"", "Int", lkMap, t}}
	case *types.Signature:
		return []Leaf{{"", "Int", lkFunc, t}}
	case *types.Chan:
		return []Leaf{{"", "Int", lkOpaque, t}}
	case *types.Interface:
		return []Leaf{{".t", "Int", lkTag, t}, {".b", "Int", lkIfB, t}, {".i", "Int", lkIfI, t}}
	case *types.Struct:
		ls := []Leaf{}
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				ls = append(ls, Leaf{"." + u.Field(i).Name() + l.Path, l.Sort, l.Kind, l.Typ})
			}
		}
		return ls
	case *types.Array:
		if u.Len() > 32 {
			unsup("array of length %d", u.Len())
		}
		ls := []Leaf{}
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				ls = append(ls, Leaf{fmt.Sprintf("[%d]%s", i, l.Path), l.Sort, l.Kind, l.Typ})
			}
		}
		return ls
	case *types.Tuple:
		ls := []Leaf{}
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				ls = append(ls, Leaf{fmt.Sprintf("#%d%s", i, l.Path), l.Sort, l.Kind, l.Typ})
			}
		}
		return ls
	}
	unsup("type %s", t)
	return nil
}

// fieldOff is the leaf offset of field i of struct type t.
func fieldOff(t types.Type, i int) (int, types.Type) {
	if opaqueNamed(t) {
		unsup("field of foreign type %s", t)
	}
	st := t.Underlying().(*types.Struct)
	off := 0
	for j := 0; j < i; j++ {
		off += len(leaves(st.Field(j).Type()))
	}
	return off, st.Field(i).Type()
}

func tupleOff(t *types.Tuple, i int) int {
	off := 0
	for j := 0; j < i; j++ {
		off += len(leaves(t.At(j).Type()))
	}
	return off
}

// canonical keys of types (by underlying type), with short display names.
var (
	keyMu   sync.Mutex
	keyName = map[string]string{}
)

// typeKey names the heap of objects of type t; types with one underlying type share it.
func typeKey(t types.Type) string {
	var full string
	if opaqueNamed(t) {
		full = types.TypeString(t, nil)
	} else if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		full = "tp:" + tp.Obj().Name()
	} else {
		full = types.TypeString(t.Underlying(), nil)
	}
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keyName[full]; ok {
		return k
	}
	short := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
	for _, k := range keyName {
		if k == short {
			short = fmt.Sprintf("%s'%d", short, len(keyName))
		}
	}
	if len(short) > 60 {
		short = fmt.Sprintf("anon%d", len(keyName))
	}
	keyName[full] = short
	return short
}

func zeroOf(l Leaf) *Term {
	switch l.Sort {
	case "Int":
		return Int(0)
	case "Bool":
		if l.Kind == lkBytesNil {
			return tTrue
		}
		return tFalse
	case "Str":
		return StrLit("")
	case "Real":
		return App("0.0", "Real")
	}
	return App("zero_"+l.Sort, l.Sort)
}

func zeros(t types.Type) []*Term {
	var r []*Term
	for _, l := range leaves(t) {
		r = append(r, zeroOf(l))
	}
	return r
}

// intRange is the range of an integer type.
func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Int8:
		return "(- 128)", "127", true
	case types.Int16:
		return "(- 32768)", "32767", true
	case types.Int32:
		return "(- 2147483648)", "2147483647", true
	case types.Int, types.Int64:
		return "(- 9223372036854775808)", "9223372036854775807", true
	}
	return
}

// typeInv is what holds of every value of type t (comps) when alloc objects have been allocated.
func typeInv(ls []Leaf, c []*Term, alloc *Term) []*Term {
	var r []*Term
	for i, l := range ls {
		switch l.Kind {
		case lkUint:
			r = append(r, Le(Int(0), c[i]))
			if _, hi, ok := intRange(l.Typ); ok && len(hi) < 19 {
				var h int64
				fmt.Sscan(hi, &h)
				r = append(r, Le(c[i], Int(h)))
			}
		case lkInt:
			if b, ok := l.Typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.Int16 || b.Kind() == types.Int8) {
				var hi int64 = 1<<31 - 1
				r = append(r, Le(Int(-hi-1), c[i]), Le(c[i], Int(hi)))
			}
		case lkPtrB:
			r = append(r, Le(Int(0), c[i]), Lt(c[i], alloc), Le(Int(0), c[i+1]),
				Implies(Eq(c[i], Int(0)), Eq(c[i+1], Int(0))))
		case lkSliceA:
			a, n, cp := c[i], c[i+1], c[i+2]
			r = append(r, Le(Int(0), a), Lt(a, alloc), Le(Int(0), n), Le(n, cp),
				Implies(Eq(a, Int(0)), Eq(cp, Int(0))))
		case lkMap:
			r = append(r, Le(Int(0), c[i]), Lt(c[i], alloc))
		case lkTag:
			r = append(r, Le(Int(0), c[i]), Lt(c[i+1], alloc),
				Implies(Eq(c[i], Int(0)), And(Eq(c[i+1], Int(0)), Eq(c[i+2], Int(0)))))
			if r2 := ifaceInv(l.Typ, c[i], c[i+1]); r2 != nil {
				r = append(r, r2)
			}
		case lkBytes:
			r = append(r, Implies(c[i+1], Eq(c[i], StrLit(""))))
		}
	}
	return r
}

// ifaceInv restricts the dynamic type of a module interface to the module's implementers
// (closed world), holding non-nil pointers.
func ifaceInv(t types.Type, tag, b *Term) *Term {
	impls := implementers(t)
	if impls == nil {
		return nil
	}
	alts := []*Term{Eq(tag, Int(0))}
	var nn []*Term
	for _, im := range impls {
		alts = append(alts, Eq(tag, tagOf(im)))
		if _, ok := im.Underlying().(*types.Pointer); ok {
			nn = append(nn, Implies(Eq(tag, tagOf(im)), Le(Int(1), b)))
		}
	}
	return And(Or(alts...), And(nn...))
}

var (
	tagMu  sync.Mutex
	tagMap typeutil.Map
	tagTyp = map[int64]types.Type{}
)

// tagOf is the number of a dynamic type.
func tagOf(t types.Type) *Term {
	tagMu.Lock()
	defer tagMu.Unlock()
	if v := tagMap.At(t); v != nil {
		return Int(v.(int64))
	}
	n := int64(tagMap.Len() + 1)
	tagMap.Set(t, n)
	tagTyp[n] = t
	return Int(n)
}

func typeOfTag(t *Term) types.Type {
	if !t.isInt() {
		return nil
	}
	tagMu.Lock()
	defer tagMu.Unlock()
	return tagTyp[t.ival]
}
