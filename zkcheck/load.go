package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bnb-chain/zkbnb-setup"

type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    []*packages.Package
	ssa     map[string]*ssa.Package // by import path
	dir     string
	globals *globalUse
}

func loadProgram(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Fset: fset,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{fset: fset, ssa: map[string]*ssa.Package{}, dir: dir}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, e)
		}
		p.pkgs = append(p.pkgs, pk)
	}
	prog, spkgs := ssautil.Packages(p.pkgs, ssa.InstantiateGenerics)
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", p.pkgs[i].PkgPath)
		}
		p.ssa[p.pkgs[i].PkgPath] = sp
	}
	prog.Build()
	p.prog = prog
	return p, nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.ssa[modPath+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// all source functions (with closures) of the analysed module
func (p *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Pkg == nil || f.Synthetic != "" {
			continue
		}
		if len(f.Blocks) > 0 && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			out = append(out, f)
		}
	}
	return out
}

func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	q := p.fset.Position(x)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.dir+"/"), q.Line)
}
