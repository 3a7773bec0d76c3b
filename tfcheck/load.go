package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Ctx is the type-checked program in SSA form with a resolved call graph.
type Ctx struct {
	sync    *Sync
	Dir     string
	ModPath string
	Fset    *token.FileSet
	Prog    *ssa.Program
	Roots   []*packages.Package
	All     map[string]*packages.Package // by import path, dependencies included
	Pkgs    map[string]*ssa.Package      // module packages by path relative to the module
	Fns     []*ssa.Function              // module functions with a body, in source order
	CG      *callgraph.Graph

	callees map[ssa.CallInstruction][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	ids     map[ssa.Value]int
}

func Load(dir string) (*Ctx, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Dir:   dir,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off"),
		Tests: false,
	}
	roots, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(roots) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	var bad []string
	packages.Visit(roots, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(bad, "; "))
	}
	c := &Ctx{Dir: dir, Fset: roots[0].Fset, Roots: roots,
		All: map[string]*packages.Package{}, Pkgs: map[string]*ssa.Package{},
		ids: map[ssa.Value]int{}}
	packages.Visit(roots, nil, func(p *packages.Package) { c.All[p.PkgPath] = p })
	for _, r := range roots {
		if r.Module != nil && r.Module.Main {
			c.ModPath = r.Module.Path
		}
	}
	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics)
	c.Prog = prog
	for _, p := range prog.AllPackages() {
		ld := c.All[p.Pkg.Path()]
		if ld != nil && ld.Module != nil { // third party or own; the standard library stays without bodies
			p.Build()
		}
		if c.inModulePath(p.Pkg.Path()) {
			c.Pkgs[strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), c.ModPath), "/")] = p
		}
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue // a generic function is analysed through its instances
		}
		if len(fn.Blocks) > 0 && c.InModule(fn) && fn.Synthetic == "" || c.isInstance(fn) {
			c.Fns = append(c.Fns, fn)
		}
	}
	// package initialisers and wrappers are not obligations of their own
	sort.Slice(c.Fns, func(i, j int) bool {
		a, b := c.Fset.Position(c.Fns[i].Pos()), c.Fset.Position(c.Fns[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return c.Fns[i].String() < c.Fns[j].String()
	})
	bodies := map[*ssa.Function]bool{}
	for fn := range all {
		if len(fn.Blocks) > 0 {
			bodies[fn] = true
		}
	}
	c.CG = vta.CallGraph(bodies, cha.CallGraph(prog))
	c.callees = map[ssa.CallInstruction][]*ssa.Function{}
	c.callers = map[*ssa.Function][]ssa.CallInstruction{}
	for fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				seen := map[*ssa.Function]bool{}
				add := func(f *ssa.Function) {
					if f != nil && !seen[f] {
						seen[f] = true
						c.callees[call] = append(c.callees[call], f)
						c.callers[f] = append(c.callers[f], call)
					}
				}
				if f := call.Common().StaticCallee(); f != nil {
					add(f)
				}
				if n := c.CG.Nodes[fn]; n != nil {
					for _, e := range n.Out {
						if e.Site == call {
							add(e.Callee.Func)
						}
					}
				}
				sort.Slice(c.callees[call], func(i, j int) bool { return c.callees[call][i].String() < c.callees[call][j].String() })
			}
		}
	}
	for f := range c.callers {
		cs := c.callers[f]
		sort.SliceStable(cs, func(i, j int) bool { return cs[i].Pos() < cs[j].Pos() })
	}
	return c, nil
}

func (c *Ctx) isInstance(fn *ssa.Function) bool {
	return fn.Origin() != nil && fn.Origin() != fn && len(fn.Blocks) > 0 && c.InModule(fn)
}

func (c *Ctx) inModulePath(p string) bool {
	return p == c.ModPath || strings.HasPrefix(p, c.ModPath+"/")
}

// PkgOf is the package a function belongs to, also for closures and instances.
func PkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func (c *Ctx) InModule(fn *ssa.Function) bool {
	p := PkgOf(fn)
	return p != nil && c.inModulePath(p.Path())
}

// RelPkg is the module-relative package path of a function ("" outside of the module).
func (c *Ctx) RelPkg(fn *ssa.Function) string {
	p := PkgOf(fn)
	if p == nil || !c.inModulePath(p.Path()) {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), c.ModPath), "/")
}

// Callees are the possible targets of a call.
func (c *Ctx) Callees(call ssa.CallInstruction) []*ssa.Function { return c.callees[call] }

// ModCallees are the targets of a call that have a body in the module.
func (c *Ctx) ModCallees(call ssa.CallInstruction) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.callees[call] {
		if len(f.Blocks) > 0 && c.InModule(f) {
			r = append(r, f)
		}
	}
	return r
}

// Callers are the call sites of a function within the module.
func (c *Ctx) Callers(fn *ssa.Function) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for _, s := range c.callers[fn] {
		if c.InModule(s.Parent()) {
			r = append(r, s)
		}
	}
	return r
}

func (c *Ctx) ID(v ssa.Value) int {
	if n, ok := c.ids[v]; ok {
		return n
	}
	c.ids[v] = len(c.ids) + 1
	return c.ids[v]
}

// Func finds a package-level function of the module.
func (c *Ctx) Func(pkg, name string) *ssa.Function {
	if p := c.Pkgs[pkg]; p != nil {
		return p.Func(name)
	}
	return nil
}

// NamedType finds a named type of the module.
func (c *Ctx) NamedType(pkg, name string) *types.Named {
	if p := c.Pkgs[pkg]; p != nil {
		if t := p.Type(name); t != nil {
			if n, ok := t.Type().(*types.Named); ok {
				return n
			}
		}
	}
	return nil
}

// Pos renders the position of an instruction or function relative to the tree.
func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, c.Dir+"/"), q.Line)
}

// PosOf renders the best known position of an instruction.
func (c *Ctx) PosOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return c.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return c.Pos(r.Pos())
				}
			}
		}
	}
	b := in.Block()
	if b != nil {
		for i := range b.Instrs {
			if b.Instrs[i] == in {
				for j := i; j >= 0; j-- {
					if b.Instrs[j].Pos().IsValid() {
						return c.Pos(b.Instrs[j].Pos())
					}
				}
				for j := i; j < len(b.Instrs); j++ {
					if b.Instrs[j].Pos().IsValid() {
						return c.Pos(b.Instrs[j].Pos())
					}
				}
			}
		}
	}
	if in.Parent() != nil {
		return c.Pos(in.Parent().Pos())
	}
	return "?"
}

// FnName names a function for people, relative to the module.
func (c *Ctx) FnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), c.ModPath+"/", ""), c.ModPath, "")
}

// infoOf is the type information of the package a function belongs to.
func (c *Ctx) infoOf(fn *ssa.Function) *types.Info {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return nil
	}
	if p := c.All[fn.Pkg.Pkg.Path()]; p != nil {
		return p.TypesInfo
	}
	return nil
}
