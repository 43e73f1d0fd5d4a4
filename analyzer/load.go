package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/fdymylja/tmos"

// Prog is the resolved program under analysis: every package of the
// repository (tests excluded), type-checked and in SSA form.
type Prog struct {
	inits     map[string][]*Path // initialisation of the package variables
	Dir       string
	Fset      *token.FileSet
	Pkgs      []*packages.Package
	SSA       *ssa.Program
	ByPth     map[string]*packages.Package
	SPkg      map[string]*ssa.Package
	Funcs     []*ssa.Function // all source functions of the repo (incl. anonymous)
	loops     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	impls     map[string][]types.Type
	allFuncs  []*ssa.Function // including package initialisers
	gconst    map[*ssa.Global]*T
	callerMap map[*ssa.Function]map[*ssa.Function]bool
	mutFields map[string]bool
	mutMaps   map[string]bool
}

func load(dir string) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOROOT", "GOTOOLCHAIN", "GOENV", "GOPROXY", "GOWORK", "CGO_ENABLED", "PATH", "GOPATH":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT=/opt/veriftools/go1.23.12", "GOTOOLCHAIN=local", "GOENV=off", "GOPATH=/root/go", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=1")
	// x/tools runs "go" found through the process PATH
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir:   dir,
		Env:   env,
		Tests: false,
	}
	// NeedDeps would type-check all dependencies from source; drop it so
	// that they come from export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Dir: dir, Pkgs: pkgs, SSA: prog, ByPth: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, impls: map[string][]types.Type{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ByPth[pkgs[i].PkgPath] = pkgs[i]
		p.SPkg[pkgs[i].PkgPath] = sp
	}
	prog.Build()
	if len(pkgs) > 0 {
		p.Fset = pkgs[0].Fset
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || !inRepoFn(f) {
			continue
		}
		p.allFuncs = append(p.allFuncs, f)
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func inRepoPath(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

func inRepoFn(f *ssa.Function) bool { return inRepoPath(fnPkgPath(f)) }

func (p *Prog) pos(at token.Pos) string {
	if !at.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(at)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// file returns the repo-relative file in which f is declared.
func (p *Prog) file(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if !f.Pos().IsValid() {
		return ""
	}
	ps := p.Fset.Position(f.Pos())
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		return ps.Filename
	}
	return rel
}

func (p *Prog) generatedPB(f *ssa.Function) bool { return strings.HasSuffix(p.file(f), ".pb.go") }

// obj looks up a package-level object, "core/rbac/v1alpha1".Role
func (p *Prog) obj(pkg, name string) types.Object {
	pk := p.ByPth[modPath+"/"+pkg]
	if pk == nil {
		return nil
	}
	return pk.Types.Scope().Lookup(name)
}

func (p *Prog) named(pkg, name string) *types.Named {
	o := p.obj(pkg, name)
	if o == nil {
		return nil
	}
	t, _ := types.Unalias(o.Type()).(*types.Named)
	return t
}

func (p *Prog) iface(pkg, name string) *types.Interface {
	n := p.named(pkg, name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

// fn looks up a package-level function.
func (p *Prog) fn(pkg, name string) *ssa.Function {
	sp := p.SPkg[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method looks up a method on the named type (value or pointer receiver).
func (p *Prog) method(pkg, typ, name string) *ssa.Function {
	n := p.named(pkg, typ)
	if n == nil {
		return nil
	}
	return p.methodOf(n, name)
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// repoTypes lists every named non-interface type declared in the repository.
func (p *Prog) repoTypes() []*types.Named {
	var out []*types.Named
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			out = append(out, nt)
		}
	}
	return out
}

// implementers returns the repo types (T or *T) that implement iface.
func (p *Prog) implementers(it types.Type) []types.Type {
	key := types.TypeString(it, nil)
	if r, ok := p.impls[key]; ok {
		return r
	}
	var out []types.Type
	i, ok := it.Underlying().(*types.Interface)
	if ok && i.NumMethods() > 0 {
		for _, t := range p.repoTypes() {
			if types.Implements(t, i) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), i) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	p.impls[key] = out
	return out
}

// natural loops: header -> set of body blocks
func (p *Prog) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if r, ok := p.loops[f]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				body := r[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					r[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, pr := range x.Preds {
						if !body[pr] {
							body[pr] = true
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	p.loops[f] = r
	return r
}

// innermost is the smallest loop around the block.
func (p *Prog) innermost(b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var h *ssa.BasicBlock
	var best map[*ssa.BasicBlock]bool
	for k, body := range p.loopsOf(b.Parent()) {
		if body[b] && (best == nil || len(body) < len(best) || len(body) == len(best) && k.Index > h.Index) {
			h, best = k, body
		}
	}
	return h, best
}

func (p *Prog) syntaxOf(path string) []*ast.File {
	pk := p.ByPth[modPath+"/"+path]
	if pk == nil {
		return nil
	}
	return pk.Syntax
}
