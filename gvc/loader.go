package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loader holds the program under verification, loaded from the repository's working tree on every run.
type Loader struct {
	fset    *token.FileSet
	repo    string
	prog    *ssa.Program
	pkgs    []*packages.Package
	byName  map[string][]*types.Package
	fns     map[string]*ssa.Function
	globs   map[*types.Var]*ssa.Global
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	mu      sync.Mutex
	inl     map[string]bool
	mutable map[*ssa.Global]bool
}

var inlinePkgs = []string{
	"github.com/allenxuxu/ringbuffer", "github.com/allenxuxu/ringbuffer/pool", "github.com/allenxuxu/toolkit/",
	"encoding/binary", "sync/atomic", "internal/byteorder", "math/bits",
}

func Load(repo string) (*Loader, error) {
	L := &Loader{repo: repo, fset: token.NewFileSet(), byName: map[string][]*types.Package{}, fns: map[string]*ssa.Function{},
		globs: map[*types.Var]*ssa.Global{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, inl: map[string]bool{}, mutable: map[*ssa.Global]bool{}}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo, Fset: L.fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	var keep []*packages.Package
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/example") || strings.Contains(p.PkgPath, "/benchmarks") {
			continue
		}
		keep = append(keep, p)
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	_ = errs
	L.pkgs = keep
	prog, _ := ssautil.AllPackages(keep, ssa.InstantiateGenerics|ssa.GlobalDebug)
	L.prog = prog
	for _, p := range prog.AllPackages() {
		L.byName[p.Pkg.Name()] = append(L.byName[p.Pkg.Name()], p.Pkg)
	}
	for n, l := range L.byName {
		sort.Slice(l, func(i, j int) bool {
			return L.rank(l[i]) < L.rank(l[j]) || L.rank(l[i]) == L.rank(l[j]) && l[i].Path() < l[j].Path()
		})
		L.byName[n] = l
	}
	for _, p := range prog.AllPackages() {
		if L.rank(p.Pkg) < 3 {
			p.Build()
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || L.rank(fn.Pkg.Pkg) >= 3 {
			continue
		}
		if fn.Synthetic != "" && fn.Parent() == nil && fn.Object() == nil {
			continue
		}
		if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "wrapper") {
			continue
		}
		k := fnKey(fn)
		if o := L.fns[k]; o == nil || L.rank(fn.Pkg.Pkg) < L.rank(o.Pkg.Pkg) {
			L.fns[k] = fn
		}
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := globalUnder(s.Addr); g != nil {
						L.mutable[g] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						if g := globalUnder(a); g != nil {
							L.mutable[g] = true
						}
					}
				}
			}
		}
	}
	return L, nil
}

func globalUnder(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (L *Loader) rank(p *types.Package) int {
	if strings.HasPrefix(p.Path(), "github.com/Allenxuxu/gev") || strings.HasPrefix(p.Path(), "github.com/allenxuxu/gev") {
		if strings.Contains(p.Path(), "/example") || strings.Contains(p.Path(), "/benchmarks") {
			return 4
		}
		return 0
	}
	for _, i := range inlinePkgs {
		if strings.EqualFold(p.Path(), i) || strings.HasSuffix(i, "/") && strings.HasPrefix(strings.ToLower(p.Path()), i) {
			return 1
		}
	}
	return 3
}

func (L *Loader) inlinable(fn *ssa.Function) bool {
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && (fn.Pkg == nil || L.rank(fn.Pkg.Pkg) < 3) {
		return true
	}
	p := fn.Pkg
	for q := fn; p == nil && q.Parent() != nil; {
		q = q.Parent()
		p = q.Pkg
	}
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	return p != nil && L.rank(p.Pkg) < 3
}

func (L *Loader) fnNamed(k string) *ssa.Function {
	if f := L.fns[k]; f != nil {
		return f
	}
	return nil
}

func (L *Loader) pkgNamed(n string) *types.Package {
	if l := L.byName[n]; len(l) > 0 {
		return l[0]
	}
	return nil
}

func (L *Loader) globalOf(v *types.Var) *ssa.Global {
	p := L.prog.Package(v.Pkg())
	if p == nil {
		return nil
	}
	g, _ := p.Members[v.Name()].(*ssa.Global)
	return g
}

func (L *Loader) typ(t *TypeX) types.Type {
	switch t.k {
	case "*":
		return types.NewPointer(L.typ(t.a))
	case "[]":
		return types.NewSlice(L.typ(t.a))
	case "arr":
		return types.NewArray(L.typ(t.a), t.n)
	case "map":
		return types.NewMap(L.typ(t.a), L.typ(t.b))
	case "func":
		var ps []*types.Var
		for _, p := range t.ps {
			ps = append(ps, types.NewVar(token.NoPos, nil, "", L.typ(p)))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), nil, false)
	case "typeof":
		i := strings.LastIndex(t.name, ".")
		// type of a struct field: pkg.T.f
		o := L.typ(&TypeX{k: "name", name: t.name[:i]})
		s, ok := under(o).(*types.Struct)
		if ok {
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Name() == t.name[i+1:] {
					return s.Field(k).Type()
				}
			}
		}
		panic(specErr{"no field " + t.name})
	}
	switch t.name {
	case "error":
		return types.Universe.Lookup("error").Type()
	case "interface", "any", "iface":
		return types.NewInterfaceType(nil, nil)
	case "func":
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	if o := types.Universe.Lookup(t.name); o != nil {
		return o.Type()
	}
	i := strings.Index(t.name, ".")
	if i > 0 {
		for _, p := range L.byName[t.name[:i]] {
			if o := p.Scope().Lookup(t.name[i+1:]); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	panic(specErr{"unknown type " + t.name})
}

func (L *Loader) fileOf(fn *ssa.Function) string {
	p := L.fset.Position(fn.Pos())
	r, err := filepath.Rel(L.repo, p.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		return p.Filename
	}
	return fmt.Sprintf("%s:%d", r, p.Line)
}
