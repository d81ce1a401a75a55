package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded module.
type Prog struct {
	fset  *token.FileSet
	pkgs  []*packages.Package
	prog  *ssa.Program
	byPkg map[string]*ssa.Package          // by package path
	named []types.Type                     // named types of the module (non-generic, non-interface), and pointers to them
	into  map[string]map[string]types.Type // by interface: the types some instruction of the module converts to it
}

var theProg *Prog

// load loads the module at dir, with overlay files added.
func load(dir string, overlay map[string][]byte) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax, Dir: dir, Fset: fset, Overlay: overlay, Env: goEnv(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	for _, p := range spkgs {
		if p != nil {
			p.Build()
		}
	}
	if len(pkgs) == 0 || len(spkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	r := &Prog{fset: fset, pkgs: pkgs, prog: prog, byPkg: map[string]*ssa.Package{}}
	for _, p := range spkgs {
		if p != nil {
			r.byPkg[p.Pkg.Path()] = p
		}
	}
	var paths []string
	for k := range r.byPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sc := r.byPkg[path].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 || types.IsInterface(nt) {
				continue
			}
			r.named = append(r.named, nt, types.NewPointer(nt))
		}
	}
	r.flow()
	return r, nil
}

// flow finds, for each interface, the dynamic types that the module's instructions put into it: by
// a conversion, or through another interface by a conversion or an assertion.
func (p *Prog) flow() {
	p.into = map[string]map[string]types.Type{}
	add := func(i string, t types.Type) bool {
		m := p.into[i]
		if m == nil {
			m = map[string]types.Type{}
			p.into[i] = m
		}
		if _, ok := m[t.String()]; ok {
			return false
		}
		m[t.String()] = t
		return true
	}
	type edge struct{ from, to types.Type }
	var edges []edge
	for f := range ssautil.AllFunctions(p.prog) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					if _, ok := in.X.Type().(*types.TypeParam); !ok {
						add(in.Type().String(), in.X.Type())
					}
				case *ssa.ChangeInterface:
					edges = append(edges, edge{in.X.Type(), in.Type()})
				case *ssa.TypeAssert:
					if types.IsInterface(in.AssertedType) {
						edges = append(edges, edge{in.X.Type(), in.AssertedType})
					}
				}
			}
		}
	}
	for change := true; change; {
		change = false
		for _, e := range edges {
			it, ok := e.to.Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for _, t := range p.into[e.from.String()] {
				if types.Implements(t, it) && add(e.to.String(), t) {
					change = true
				}
			}
		}
	}
}

// pkgNamed finds a package by the end of its path.
func (p *Prog) pkgNamed(suffix string) *ssa.Package {
	if s, ok := p.byPkg[modPath+"/internal/"+suffix]; ok {
		return s
	}
	if s, ok := p.byPkg[modPath+"/"+suffix]; ok {
		return s
	}
	var best *ssa.Package
	for path, s := range p.byPkg {
		if strings.HasSuffix(path, "/"+suffix) && (best == nil || len(path) < len(best.Pkg.Path())) {
			best = s
		}
	}
	return best
}

// findFunc finds "Name", "Type.Method" or "(*Type).Method" in pkg.
func (p *Prog) findFunc(pkg *ssa.Package, name string) *ssa.Function {
	recv, meth, ok := strings.Cut(name, ".")
	if !ok {
		return pkg.Func(name)
	}
	recv = strings.Trim(recv, "()")
	ptr := strings.HasPrefix(recv, "*")
	recv = strings.TrimPrefix(recv, "*")
	tn, ok := pkg.Pkg.Scope().Lookup(recv).(*types.TypeName)
	if !ok {
		return nil
	}
	nt, ok := tn.Type().(*types.Named)
	if !ok {
		return nil
	}
	_ = ptr // a change of the receiver between value and pointer does not change the behaviour
	for i := 0; i < nt.NumMethods(); i++ {
		if m := nt.Method(i); m.Name() == meth {
			return p.prog.FuncValue(m)
		}
	}
	return nil
}

var (
	implMu   sync.Mutex
	implMemo = map[string][]types.Type{}
)

// implementers lists the types of the module whose values a module interface can hold; nil for
// foreign interfaces.
func implementers(t types.Type) []types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !inModule(n.Obj().Pkg()) || theProg == nil {
		return nil
	}
	iface, ok := n.Underlying().(*types.Interface)
	if !ok || iface.NumMethods() == 0 {
		return nil
	}
	key := n.String()
	implMu.Lock()
	defer implMu.Unlock()
	if r, ok := implMemo[key]; ok {
		return r
	}
	var r []types.Type
	for _, c := range theProg.named {
		if !types.Implements(c, iface) {
			continue
		}
		if _, ok := theProg.into[n.String()][c.String()]; !ok {
			continue
		}
		r = append(r, c)
	}
	implMemo[key] = r
	return r
}

func readFile(p string) string { bs, _ := os.ReadFile(p); return string(bs) }
