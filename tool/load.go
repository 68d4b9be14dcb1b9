package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/eaburns/toaq"

type Program struct {
	dir  string
	pkgs map[string]*packages.Package // by path relative to the module
	ssa  map[string]*ssa.Package
	prog *ssa.Program
	fset *token.FileSet
	errs []string
}

func load(dir string, withMain bool) *Program {
	p := &Program{dir: dir, pkgs: map[string]*packages.Package{}, ssa: map[string]*ssa.Package{}}
	p.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedDeps | packages.NeedModule,
		Dir: dir, Fset: p.fset, Env: os.Environ(),
	}
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	pats := []string{"./ast", "./logic", "./tone", "./dict"}
	if withMain {
		pats = []string{"./..."}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		p.errs = append(p.errs, "load: "+err.Error())
		return p
	}
	for _, pk := range ps {
		for _, e := range pk.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	if len(p.errs) > 0 {
		return p
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	p.prog = prog
	for i, pk := range ps {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		p.pkgs[rel] = pk
		if sps[i] == nil {
			p.errs = append(p.errs, "no SSA for "+pk.PkgPath)
			continue
		}
		sps[i].Build()
		p.ssa[rel] = sps[i]
	}
	return p
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	var pk *types.Package
	if f.Pkg != nil {
		pk = f.Pkg.Pkg
	} else if f.Object() != nil {
		pk = f.Object().Pkg()
	}
	if pk == nil {
		// synthetic wrapper of a method of one of our types
		if f.Synthetic != "" && f.Signature.Recv() != nil {
			if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
				return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
			}
		}
		return false
	}
	return pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/")
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	return strings.TrimPrefix(q.Filename, p.dir+"/") + ":" + fmt.Sprint(q.Line)
}

// fn finds a package-level function.
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.ssa[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) typ(pkg, name string) types.Type {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

// method finds the method name of t (or *t).
func (p *Program) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	n := namedOf(t)
	var pk *types.Package
	if n != nil {
		pk = n.Obj().Pkg()
	}
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pk, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// allFuncs returns the source functions (and function literals) of a package.
func (p *Program) allFuncs(pkg string) []*ssa.Function {
	var out []*ssa.Function
	sp := p.ssa[pkg]
	if sp == nil {
		return nil
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.pkgs[pkg].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			o, _ := p.pkgs[pkg].TypesInfo.Defs[fd.Name].(*types.Func)
			if o == nil {
				continue
			}
			if fn := p.prog.FuncValue(o); fn != nil && !seen[fn] {
				seen[fn] = true
				add(fn)
			}
		}
	}
	if in := sp.Func("init"); in != nil {
		for _, a := range in.AnonFuncs {
			add(a)
		}
	}
	return out
}
