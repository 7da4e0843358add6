// Loading the checked tree and the specification harness.
package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/libsv/libsv"
const specPkg = modPath + "/zzverif"

type Loaded struct {
	prog *ssa.Program
	pkgs []*ssa.Package
	spec *ssa.Package
	repo map[*types.Package]bool
	init []*packages.Package
}

func load(repo, specDir string) (*Loaded, error) {
	overlay := map[string][]byte{}
	if specDir != "" {
		fs, _ := filepath.Glob(filepath.Join(specDir, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			overlay[filepath.Join(repo, "zzverif", filepath.Base(f))] = b
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Env: append(os.Environ(), "CGO_ENABLED=0")}
	pats := []string{"./..."}
	if specDir != "" {
		pats = append(pats, specPkg)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var bad []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		if len(bad) > 8 {
			bad = bad[:8]
		}
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(bad, "; "))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{prog: prog, repo: map[*types.Package]bool{}, init: ps}
	for i, p := range ps {
		if sp[i] == nil {
			continue
		}
		l.pkgs = append(l.pkgs, sp[i])
		if p.PkgPath == specPkg {
			l.spec = sp[i]
		} else {
			l.repo[p.Types] = true
		}
	}
	return l, nil
}
