package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Repo is the type-checked program under analysis, in SSA form.
type Repo struct {
	Dir    string
	Module string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	Prog   *ssa.Program
	Root   *ssa.Package // the library package (module root)
	RootP  *packages.Package
	SPkgs  map[string]*ssa.Package
	Funcs  []*ssa.Function // every non-synthetic function with a body, closures included
	All    map[*ssa.Function]bool
	Lines  int
}

func loadRepo(dir string) (*Repo, error) {
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("CGO_ENABLED", "0")
	// the loader must never rewrite /repo's go.mod or go.sum: analyse with copies
	tmp, err := os.MkdirTemp("", "mp4verif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, n), b, 0o644); err != nil {
			return nil, err
		}
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Dir:        dir,
		Fset:       fset,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes |
			packages.NeedDeps | packages.NeedModule,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	r := &Repo{Dir: dir, Fset: fset, Pkgs: pkgs, SPkgs: map[string]*ssa.Package{}}
	for _, p := range pkgs {
		if p.Module != nil {
			r.Module = p.Module.Path
		}
	}
	// dependencies get declarations only, apart from a few packages of pure functions
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	for _, sp := range spkgs {
		if sp != nil {
			sp.Build()
		}
	}
	for _, path := range []string{"math/bits", "unicode/utf8", "encoding/binary"} {
		if sp := prog.ImportedPackage(path); sp != nil {
			sp.Build()
		}
	}
	r.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		r.SPkgs[sp.Pkg.Path()] = sp
		if sp.Pkg.Path() == r.Module {
			r.Root = sp
			r.RootP = pkgs[i]
		}
		for _, f := range pkgs[i].CompiledGoFiles {
			b, _ := os.ReadFile(f)
			r.Lines += strings.Count(string(b), "\n")
		}
	}
	if r.Root == nil {
		return nil, fmt.Errorf("module root package %q not found", r.Module)
	}
	r.All = ssautil.AllFunctions(prog)
	for fn := range r.All {
		if r.InRepo(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			r.Funcs = append(r.Funcs, fn)
		}
	}
	sort.Slice(r.Funcs, func(i, j int) bool {
		a, b := r.Funcs[i], r.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return r, nil
}

func (r *Repo) InRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			p := f.Pkg.Pkg.Path()
			return p == r.Module || strings.HasPrefix(p, r.Module+"/")
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		p := fn.Object().Pkg().Path()
		return p == r.Module || strings.HasPrefix(p, r.Module+"/")
	}
	return false
}

// InLib: the library (root package and its internal packages), not the command line tool.
func (r *Repo) InLib(fn *ssa.Function) bool {
	return r.InRepo(fn) && !r.InCLI(fn)
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (r *Repo) InCLI(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(fn), r.Module+"/cmd/")
}

func (r *Repo) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := r.Fset.Position(p)
	rel, err := filepath.Rel(r.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Name is a stable readable name: package-relative function name.
func (r *Repo) Name(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, r.Module+"/cmd/mp4tool/internal/", "mp4tool/")
	s = strings.ReplaceAll(s, r.Module+"/cmd/", "")
	s = strings.ReplaceAll(s, r.Module+"/internal/", "internal/")
	s = strings.ReplaceAll(s, r.Module, "mp4")
	return s
}

// Func finds a package-level function of the given package (path relative to the module root).
func (r *Repo) Func(pkg, name string) *ssa.Function {
	p := r.Module
	if pkg != "" {
		p += "/" + pkg
	}
	sp := r.SPkgs[p]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds the method of a named type (value or pointer receiver).
func (r *Repo) Method(pkg, typ, name string) *ssa.Function {
	p := r.Module
	if pkg != "" {
		p += "/" + pkg
	}
	sp := r.SPkgs[p]
	if sp == nil {
		return nil
	}
	m, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	return r.methodOf(m.Type(), name)
}

func (r *Repo) methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := r.Prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := r.Prog.MethodValue(ms.At(i))
				return r.declared(f)
			}
		}
	}
	return nil
}

// declared unwraps synthetic wrappers (promoted methods, pointer wrappers) to the declared function.
func (r *Repo) declared(f *ssa.Function) *ssa.Function {
	if f == nil || f.Synthetic == "" {
		return f
	}
	if o, ok := f.Object().(*types.Func); ok {
		if g := r.Prog.FuncValue(o); g != nil {
			return g
		}
	}
	return f
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}
