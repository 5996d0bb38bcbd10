package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded source of /repo as SSA.
type Program struct {
	repo       string
	fset       *token.FileSet
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	roots      map[string]bool // package paths inside the repository
	fns        map[string]*ssa.Function
	loops      map[*ssa.Function]*loopInfo
	typeIDs    map[string]int
	globNonNil map[string]bool
	globConst  map[string]ssa.Value // package-level vars initialised once with a constant and never stored elsewhere
	built      map[*ssa.Package]bool
}

func loadProgram(repo string, tags string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Tests: false, Fset: token.NewFileSet()}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	cfg.Env = append(os.Environ(), "CGO_ENABLED=0")
	// the whole module
	list, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range list {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(list, ssa.InstantiateGenerics)
	p := &Program{repo: repo, fset: cfg.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, roots: map[string]bool{}, fns: map[string]*ssa.Function{},
		loops: map[*ssa.Function]*loopInfo{}, typeIDs: map[string]int{}, globNonNil: map[string]bool{}, globConst: map[string]ssa.Value{}, built: map[*ssa.Package]bool{}}
	for _, pk := range list {
		p.roots[pk.PkgPath] = true
	}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	for path := range p.roots {
		if sp := p.pkgs[path]; sp != nil {
			p.build(sp)
		}
	}
	p.scanGlobals()
	return p, nil
}

func (p *Program) build(sp *ssa.Package) {
	if p.built[sp] {
		return
	}
	p.built[sp] = true
	sp.Build()
	for _, m := range sp.Members {
		switch x := m.(type) {
		case *ssa.Function:
			p.fns[x.String()] = x
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						p.fns[f.String()] = f
					}
				}
			}
		}
	}
}

func (p *Program) lookup(name string) *ssa.Function {
	if f, ok := p.fns[name]; ok {
		return f
	}
	return nil
}

// scanGlobals finds package-level variables that are never assigned outside init.
func (p *Program) scanGlobals() {
	stores := map[string]int{}
	initVal := map[string]ssa.Value{}
	seen := map[*ssa.Function]bool{}
	for path := range p.roots {
		sp := p.pkgs[path]
		if sp == nil {
			continue
		}
		fns := []*ssa.Function{}
		for _, f := range p.fns {
			if f.Pkg == sp {
				fns = append(fns, f)
			}
		}
		if i := sp.Func("init"); i != nil {
			fns = append(fns, i)
		}
		for len(fns) > 0 {
			f := fns[len(fns)-1]
			fns = fns[:len(fns)-1]
			if seen[f] {
				continue
			}
			seen[f] = true
			fns = append(fns, f.AnonFuncs...)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							stores[g.String()]++
							initVal[g.String()] = s.Val
						}
					}
				}
			}
		}
	}
	for g, n := range stores {
		if n == 1 {
			switch v := initVal[g].(type) {
			case *ssa.Const:
				p.globConst[g] = v
			case *ssa.Call, *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap:
				// errors.New(..), &T{}, regexp.MustCompile(..)
				if c, ok := v.(*ssa.Call); ok {
					if sc := c.Call.StaticCallee(); sc != nil {
						switch sc.String() {
						case "errors.New", "fmt.Errorf", "regexp.MustCompile":
							p.globNonNil[g] = true
						}
					}
				} else {
					p.globNonNil[g] = true
				}
			}
		}
	}
	for _, g := range []string{"io.EOF", "database/sql.ErrNoRows", "context.Canceled", "context.DeadlineExceeded"} {
		p.globNonNil[g] = true
	}
}

func (p *Program) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	l := analyzeLoops(fn)
	p.loops[fn] = l
	return l
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return ""
	}
	q := p.fset.Position(ps)
	f, err := filepath.Rel(p.repo, q.Filename)
	if err != nil || strings.HasPrefix(f, "..") {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && p.roots[pk.Path()]
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg
		}
	}
	return nil
}

// srcHash-like description of a function for evidence.
func (p *Program) fnWhere(fn *ssa.Function) string { return p.pos(fn.Pos()) }

var _ = ast.Inspect
var _ = sort.Strings
