package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type pkgKey = *ssa.Package

func load(dir string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, pkgs: spkgs, glob: map[*ssa.Global]int{}}
	ep := prog.ImportedPackage("errors")
	if ep == nil {
		return nil, fmt.Errorf("package errors not loaded")
	}
	p.errStr = p.ti(types.NewPointer(ep.Type("errorString").Type()))
	return p, nil
}

// harnesses returns the entry points whose name starts with prefix.
func (p *Prog) harnesses(prefix string) []*ssa.Function {
	var out []*ssa.Function
	for _, pk := range p.pkgs {
		if pk == nil {
			continue
		}
		for n, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
