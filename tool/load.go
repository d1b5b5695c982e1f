package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/qbeon/webwire-go"

// Program is the loaded program under analysis.
type Program struct {
	Repo    string
	Fset    *token.FileSet
	SSA     *ssa.Program
	Pkgs    map[string]*ssa.Package // by import path suffix relative to modPath ("" = root)
	Funcs   []*ssa.Function         // all repository functions with bodies
	isRepo  map[*ssa.Package]bool
	LoadErr []string

	impls         map[string]types.Type
	mutableField  map[string]bool
	mutableArr    map[string]bool // array fields whose elements change
	chainEsc      map[string]bool // nested fields whose address escapes
	chainMut      map[string]bool // nested fields stored to
	mutableGlobal map[string]bool
	initMutable   bool // something reachable from a global array or slice is modified
	nilableField  map[string]bool
	allocMut      map[*ssa.Alloc]bool
}

// load type-checks the current working tree of repo in GOPATH mode through a
// private GOPATH, so that nothing outside of tmp is written.
func load(repo string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "wwrstatic")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	link := filepath.Join(tmp, "src", filepath.FromSlash(modPath))
	if err := os.MkdirAll(filepath.Dir(link), 0755); err != nil {
		return nil, err
	}
	if err := os.Symlink(repo, link); err != nil {
		return nil, err
	}
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOPATH", "GO111MODULE", "GOFLAGS", "GOCACHE", "GOENV", "GOWORK", "GOPROXY", "CGO_ENABLED", "PWD", "GOTOOLCHAIN":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GO111MODULE=off", "GOPATH="+tmp, "GOFLAGS=", "GOENV=off",
		"GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local",
		"GOCACHE="+filepath.Join(tmp, "cache"), "PWD="+link)
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   link,
		Env:   env,
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Repo: repo, Pkgs: map[string]*ssa.Package{}, isRepo: map[*ssa.Package]bool{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			p.LoadErr = append(p.LoadErr, e.Error())
		}
	}
	if len(p.LoadErr) > 0 {
		return p, fmt.Errorf("the tree does not type-check: %s", strings.Join(p.LoadErr, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.SSA = prog
	p.Fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		path := pkgs[i].PkgPath
		if j := strings.Index(path, "/vendor/"); j >= 0 {
			continue
		}
		if !strings.HasPrefix(path, modPath) || path == modPath+"/test" {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		sp.Build()
		p.Pkgs[rel] = sp
		p.isRepo[sp] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.InRepo(fn) && fn.Blocks != nil {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// InRepo reports whether fn is declared by a repository package.
func (p *Program) InRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.isRepo[f.Pkg]
		}
		if f.Parent() == nil && f.Object() != nil && f.Object().Pkg() != nil {
			// synthesized wrappers (bound methods, promoted methods)
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath) && !strings.Contains(f.Object().Pkg().Path(), "/vendor/")
		}
	}
	return false
}

// Pos renders a source position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if i := strings.Index(f, modPath+"/"); i >= 0 {
		f = f[i+len(modPath)+1:]
	} else if strings.HasPrefix(f, p.Repo+"/") {
		f = f[len(p.Repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// InRepoType reports whether the type is declared by the repository.
func (p *Program) InRepoType(n *types.Named) bool {
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !strings.Contains(n.Obj().Pkg().Path(), "/vendor/")
}
