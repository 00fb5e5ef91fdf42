package main

// Loading of the repository's packages and their SSA form.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog      *ssa.Program
	mod       string
	pkgs      map[string]*ssa.Package
	funcs     map[string]*ssa.Function
	contracts map[string]*Contract
	order     []*Contract
	defs      map[string]*Define
	recs      map[string]*Rec
	pkgCons   map[string]*pkgInfo
	written   map[*ssa.Global]bool // stored to outside of package initialization
}

func goEnv() []string {
	r := "/opt/veriftools/go1.23.12"
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "PATH", "GOROOT", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
	if _, err := os.Stat(r); err == nil {
		env = append(env, "GOROOT="+r, "PATH="+r+"/bin:"+os.Getenv("PATH"))
		// packages.Load looks the go command up in the PATH of this process
		os.Setenv("PATH", r+"/bin:"+os.Getenv("PATH"))
		os.Setenv("GOROOT", r)
	} else {
		env = append(env, "PATH="+os.Getenv("PATH"))
	}
	return env
}

// drivers are the functions that connect entry points of the repository; they
// are compiled with its packages but are not part of it.
func drivers(repo, dir string) map[string][]byte {
	m := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go.txt"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		pkg := strings.ReplaceAll(strings.TrimSuffix(filepath.Base(f), ".go.txt"), "__", "/")
		if pkg == "root" {
			pkg = "."
		}
		m[filepath.Join(repo, pkg, "zz_govc_driver.go")] = b
	}
	return m
}

func load(dir string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax,
		Dir:     dir,
		Env:     goEnv(),
		Overlay: overlay,
	}
	ps, err := packages.Load(cfg, "./...", "slices", "maps", "cmp")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 && len(overlay) > 0 {
		// the contracts that need the drivers will fail, the others do not
		fmt.Fprintln(os.Stderr, "govc: a driver does not compile with this tree:", errs[0])
		rest := map[string][]byte{}
		for f, b := range overlay {
			bad := false
			for _, e := range errs {
				bad = bad || strings.Contains(e, f) || strings.Contains(e, strings.TrimPrefix(f, dir+"/"))
			}
			if !bad {
				rest[f] = b
			}
		}
		if len(rest) == len(overlay) {
			rest = nil
		}
		return load(dir, rest)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not load: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	p := &Prog{prog: prog, mod: "github.com/hyperonym/ratus", pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{},
		contracts: map[string]*Contract{}, defs: map[string]*Define{}, recs: map[string]*Rec{}, pkgCons: map[string]*pkgInfo{}, written: map[*ssa.Global]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.pkgs[ps[i].PkgPath] = sp
		sp.Build()
	}
	for f := range ssautil.AllFunctions(prog) {
		n := fullName(f)
		if _, ok := p.funcs[n]; !ok || f.Origin() == nil {
			p.funcs[n] = f
		}
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), p.mod) {
			continue
		}
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						p.written[g] = true
					}
				}
			}
		}
	}
	// methods of types that are only reached through interfaces
	for _, sp := range p.pkgs {
		if !strings.HasPrefix(sp.Pkg.Path(), p.mod) {
			continue
		}
		for _, m := range sp.Members {
			switch t := m.(type) {
			case *ssa.Function:
				p.funcs[fullName(t)] = t
			case *ssa.Type:
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							p.funcs[fullName(f)] = f
						}
					}
				}
			}
		}
	}
	return p, nil
}

// typ finds a named type of the repository or its imports.
func (p *Prog) typ(path, name string) types.Type {
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == path {
			if o := sp.Pkg.Scope().Lookup(name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	return nil
}

// pkgByName finds a package by its name, preferring the repository.
func (p *Prog) pkgByName(name string) *types.Package {
	var best *types.Package
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Name() == name {
			if strings.HasPrefix(sp.Pkg.Path(), p.mod) {
				return sp.Pkg
			}
			if best == nil || len(sp.Pkg.Path()) < len(best.Path()) {
				best = sp.Pkg
			}
		}
	}
	return best
}
