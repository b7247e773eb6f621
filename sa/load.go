package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is the import path prefix of the code under analysis.
const Module = "github.com/arr-ai/frozen"

// Prog is the type-checked program in SSA form, for one build configuration.
type Prog struct {
	Dir    string
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	Funcs  []*ssa.Function          // every repo function with a body (origins and closures)
	ByName map[string]*ssa.Function // origin functions by short name
	Named  []*types.Named           // every named type declared in the repo
	Fset   *token.FileSet
	live   map[*ssa.Function]map[*ssa.BasicBlock]bool
}

// Load type-checks dir and builds SSA. tags and env select the configuration.
func Load(dir, tags string, env ...string) (*Prog, error) {
	return loadOverlay(dir, tags, nil, env...)
}

// LoadDrivers is Load with the drivers added to their packages, in memory only,
// except for those that don't fit the code.
func LoadDrivers(dir, tags string, env ...string) (*Prog, error) {
	ov := map[string][]byte{}
	for d, src := range drivers {
		ov[filepath.Join(dir, filepath.Dir(d), "zz_verif_"+filepath.Base(d)+".go")] = []byte(src)
	}
	for len(ov) > 0 {
		p, err := loadOverlay(dir, tags, ov, env...)
		if err == nil {
			return p, nil
		}
		n := len(ov)
		for f := range ov {
			if strings.Contains(err.Error(), filepath.Base(f)) {
				fmt.Println("NOTE driver does not fit the code:", err)
				delete(ov, f)
			}
		}
		if len(ov) == n {
			break
		}
	}
	return Load(dir, tags, env...)
}

func loadOverlay(dir, tags string, overlay map[string][]byte, env ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: dir,
		Env: append(append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off"), env...),
	}
	cfg.Overlay = overlay
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p := &Prog{Dir: dir, Pkgs: pkgs, SSA: prog, ByName: map[string]*ssa.Function{}, Fset: prog.Fset,
		live: map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		if f.Origin() != nil && f.Origin() != f {
			add(f.Origin())
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		if strings.Contains(pkgs[i].PkgPath, "/internal/pkg/test") {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				if nt.Obj().Pkg() != sp.Pkg {
					continue
				}
				p.Named = append(p.Named, nt)
				for j := 0; j < nt.NumMethods(); j++ {
					add(prog.FuncValue(nt.Method(j)))
				}
			}
		}
	}
	for _, f := range p.Funcs {
		p.ByName[ShortName(f)] = f
	}
	if len(p.Funcs) < 200 {
		return nil, fmt.Errorf("only %d functions found", len(p.Funcs))
	}
	return p, nil
}

// Org returns the generic origin of f (or f).
func Org(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func isRepo(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == Module || strings.HasPrefix(pkg.Path(), Module+"/"))
}

func pkgOf(f *ssa.Function) *types.Package {
	if f == nil {
		return nil
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	if o := f.Origin(); o != nil && o != f {
		return pkgOf(o)
	}
	if f.Parent() != nil {
		return pkgOf(f.Parent())
	}
	return nil
}

func shortPkg(pkg *types.Package) string {
	if pkg == nil {
		return ""
	}
	p := pkg.Path()
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	return p
}

// ShortName is a stable human-readable name: pkg.Func, pkg.Type.Method or parent$n.
func ShortName(f *ssa.Function) string {
	if f.Parent() != nil {
		return ShortName(Org(f.Parent())) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return shortPkg(pkgOf(f)) + "." + strings.SplitN(f.Name(), "[", 2)[0]
}

// namedOf strips one pointer and returns the origin of a named type.
func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Origin()
	}
	return nil
}

func typeName(n *types.Named) string {
	if n == nil {
		return "?"
	}
	return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
}

// Live returns the blocks of f reachable when branches on constants are pruned.
func (p *Prog) Live(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := p.live[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if m[b] {
			return
		}
		m[b] = true
		if len(b.Instrs) > 0 {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if c, ok := i.Cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					if constant.BoolVal(c.Value) {
						visit(b.Succs[0])
					} else {
						visit(b.Succs[1])
					}
					return
				}
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	if len(f.Blocks) > 0 {
		visit(f.Blocks[0])
		if f.Recover != nil {
			visit(f.Recover)
		}
	}
	p.live[f] = m
	return m
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}
