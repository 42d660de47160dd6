package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/analyzer/sim"
)

const Mod = "github.com/Aize-Public/forego"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	Dir  string
	Pkgs map[string]*packages.Package // repo packages by path relative to the module
	SSA  *ssa.Program
	Fset *token.FileSet
	Fns  []*ssa.Function // every repo function, methods and closures included

	owners  map[*types.Var]*types.Named
	globals map[*ssa.Global]*sim.V
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load() (*Prog, error) {
	dir := repoDir()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	nerr := 0
	for _, p := range ps {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			nerr++
		}
	}
	if nerr > 0 {
		return nil, fmt.Errorf("%d errors while loading %s", nerr, dir)
	}
	prog, _ := ssautil.AllPackages(ps, 0)
	p := &Prog{Dir: dir, Pkgs: map[string]*packages.Package{}, SSA: prog, Fset: prog.Fset}
	for _, x := range ps {
		rel := strings.TrimPrefix(strings.TrimPrefix(x.PkgPath, Mod), "/")
		p.Pkgs[rel] = x
	}
	for _, sp := range prog.AllPackages() {
		if isRepoPath(sp.Pkg.Path()) {
			sp.Build()
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if o := fn.Origin(); o != nil && o != fn {
			continue
		}
		if fn.Synthetic != "" && fn.Parent() == nil && fn.Name() != "init" {
			continue
		}
		if fn.Pkg != nil && isRepoPath(fn.Pkg.Pkg.Path()) {
			p.Fns = append(p.Fns, fn)
		}
	}
	// generic methods and unreferenced closures are not always reached by AllFunctions
	have := map[*ssa.Function]bool{}
	for _, f := range p.Fns {
		have[f] = true
	}
	var addAnon func(f *ssa.Function)
	addAnon = func(f *ssa.Function) {
		if !have[f] {
			have[f] = true
			p.Fns = append(p.Fns, f)
		}
		for _, a := range f.AnonFuncs {
			addAnon(a)
		}
	}
	for _, x := range ps {
		for _, name := range x.Types.Scope().Names() {
			switch o := x.Types.Scope().Lookup(name).(type) {
			case *types.Func:
				if f := prog.FuncValue(o); f != nil {
					addAnon(f)
				}
			case *types.TypeName:
				if n, ok := o.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							addAnon(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool { return p.Fns[i].Pos() < p.Fns[j].Pos() })
	return p, nil
}

func isRepoPath(path string) bool { return path == Mod || strings.HasPrefix(path, Mod+"/") }

func isRepoFn(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return isRepoPath(fn.Pkg.Pkg.Path())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return isRepoPath(o.Pkg().Path())
	}
	if p := fn.Parent(); p != nil {
		return isRepoFn(p)
	}
	// synthetic wrappers ($bound, $thunk) of repo methods
	return fn.Synthetic != "" && len(fn.Blocks) > 0
}

func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	return strings.TrimPrefix(strings.TrimPrefix(path, Mod), "/")
}

// Func finds a package level function.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	x := p.Pkgs[pkg]
	if x == nil {
		return nil
	}
	if o, ok := x.Types.Scope().Lookup(name).(*types.Func); ok {
		return p.SSA.FuncValue(o)
	}
	return nil
}

func (p *Prog) Type(pkg, name string) *types.Named {
	x := p.Pkgs[pkg]
	if x == nil {
		return nil
	}
	if o, ok := x.Types.Scope().Lookup(name).(*types.TypeName); ok {
		n, _ := types.Unalias(o.Type()).(*types.Named)
		return n
	}
	return nil
}

// Method finds a declared method (pointer or value receiver).
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	n := p.Type(pkg, typ)
	if n == nil {
		return nil
	}
	return p.MethodOf(n, name)
}

func (p *Prog) MethodOf(n *types.Named, name string) *ssa.Function {
	n = n.Origin()
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// MethodSetFn finds a method by name through embedding as well.
func (p *Prog) MethodSetFn(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// NamedTypes lists the named types declared in a package.
func (p *Prog) NamedTypes(pkg string) []*types.Named {
	x := p.Pkgs[pkg]
	if x == nil {
		return nil
	}
	var out []*types.Named
	for _, name := range x.Types.Scope().Names() {
		if o, ok := x.Types.Scope().Lookup(name).(*types.TypeName); ok && !o.IsAlias() {
			if n, ok := o.Type().(*types.Named); ok {
				out = append(out, n)
			}
		}
	}
	return out
}

// Implementors lists the repo types (T or *T) implementing the interface.
func (p *Prog) Implementors(it *types.Interface, pkgs ...string) []types.Type {
	var out []types.Type
	var rels []string
	for rel := range p.Pkgs {
		if len(pkgs) > 0 && !contains(pkgs, rel) {
			continue
		}
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		for _, n := range p.NamedTypes(rel) {
			if types.IsInterface(n) || n.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(n, it) {
				out = append(out, n)
			} else if types.Implements(types.NewPointer(n), it) {
				out = append(out, types.NewPointer(n))
			}
		}
	}
	return out
}

func (p *Prog) FnsIn(pkgs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Fns {
		if contains(pkgs, pkgOf(f)) {
			out = append(out, f)
		}
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	q := p.Fset.Position(pos)
	if !q.IsValid() {
		return "?"
	}
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// fnLabel names a function without line numbers: Type.Method or Func, closures by parent.
func fnLabel(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	suffix := ""
	for fn.Parent() != nil {
		suffix = " (closure)"
		fn = fn.Parent()
	}
	n := sim.FuncName(fn)
	n = strings.ReplaceAll(n, Mod+"/", "")
	return n + suffix
}

func init() {
	sim.MarkNonNil(Mod+"/ctx.NewErrorf", Mod+"/ctx.WithTag", Mod+"/ctx.WithValue", Mod+"/ctx.TODO", Mod+"/ctx.Background", Mod+"/ctx.WithCancel", Mod+"/ctx.WithTimeout")
}

// newSim makes an interpreter that looks inside repository code only.
func (p *Prog) newSim() *sim.Sim {
	s := sim.New(p.SSA)
	s.Internal = isRepoFn
	s.GlobalVal = p.constGlobal
	s.Opaque = func(fn *ssa.Function) bool { return logOpaque(fn) }
	return s
}

// logOpaque: logging and error construction have no effect on the state the
// properties talk about; the packages defining them have their own checks.
func logOpaque(fn *ssa.Function) bool {
	pk := pkgOf(fn)
	return pk == "ctx/log" || pk == "ctx"
}

// FieldOwner finds the named struct type declaring a field.
func (p *Prog) FieldOwner(f *types.Var) *types.Named {
	if p.owners == nil {
		p.owners = map[*types.Var]*types.Named{}
		for rel := range p.Pkgs {
			for _, n := range p.NamedTypes(rel) {
				if s, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						p.owners[s.Field(i).Origin()] = n
					}
				}
			}
		}
	}
	return p.owners[f.Origin()]
}
