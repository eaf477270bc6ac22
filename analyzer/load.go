package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

func relPath(p string) string {
	if r, err := filepath.Rel(repoDir, p); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return p
}

// Program is the analysed code.
type Program struct {
	deadline time.Time
	prog     *ssa.Program
	module   string
	pkgs     map[string]*ssa.Package // by path relative to the module
	paths    []string
	tpkgs    map[string]*packages.Package
}

func load(driver bool) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedModule,
		Dir: repoDir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	if driver {
		mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
		if err != nil {
			return nil, err
		}
		path := ""
		for _, l := range strings.Split(string(mod), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				path = strings.Trim(f[1], `"`)
			}
		}
		cfg.Overlay = map[string][]byte{filepath.Join(repoDir, driverPkg, "driver.go"): []byte(driverSource(path + "/encoding/cp949"))}
	}
	list, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(list, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not type-check: %s", strings.Join(errs, "; "))
	}
	p := &Program{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}}
	if len(list) == 0 || list[0].Module == nil {
		return nil, fmt.Errorf("no module in %s", repoDir)
	}
	p.module = list[0].Module.Path
	prog, spkgs := ssautil.AllPackages(list, ssa.InstantiateGenerics)
	p.prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("package %s not built", list[i].PkgPath)
		}
		sp.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(list[i].PkgPath, p.module), "/")
		p.pkgs[rel] = sp
		p.tpkgs[rel] = list[i]
		p.paths = append(p.paths, rel)
	}
	sort.Strings(p.paths)
	return p, nil
}

// pkg finds a package by the end of its path.
func (p *Program) pkg(suffix string) *ssa.Package {
	if suffix == "" {
		return p.pkgs[""]
	}
	for _, r := range p.paths {
		if r == suffix || strings.HasSuffix(r, "/"+suffix) {
			return p.pkgs[r]
		}
	}
	return nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkg(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// engine makes an engine with the package variables initialised, that is,
// with the initialisation code interpreted.
func (p *Program) engine(reverse bool) (*Engine, *State) {
	e := newEngine(p.prog, p.module)
	e.reverse = reverse
	e.deadline = p.deadline
	e.initing = true
	s := e.newState()
	for _, r := range p.paths {
		sp := p.pkgs[r]
		for _, m := range memberNames(sp) {
			if g, ok := sp.Members[m].(*ssa.Global); ok {
				e.globalPtr(s, g)
			}
		}
	}
	for _, r := range p.paths {
		outs := e.call(s, p.pkgs[r].Func("init"), nil, nil, nil)
		if len(outs) != 1 {
			e.undecided(nil, "initialisation of package %s has %d outcomes", r, len(outs))
			break
		}
		s = outs[0].S
	}
	for id, o := range s.heap {
		o.origin = origGlobal
		o.owner = 0
		e.base[id] = o
	}
	for _, o := range e.base {
		o.owner = 0
	}
	s.heap = map[ObjID]*Obj{}
	s.id = e.nextID()
	e.initing = false
	return e, s
}

func memberNames(sp *ssa.Package) []string {
	var out []string
	for n := range sp.Members {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func sig(fn *ssa.Function) *types.Signature { return fn.Signature }
