package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P08", p08) }

// effects lists standard library operations by what they would do to the
// outside. A trailing * matches every function or method of that prefix.
var effects = []struct{ name, effect string }{
	{"os.Create", "creates a file"}, {"os.CreateTemp", "creates a file"}, {"os.WriteFile", "writes a file"},
	{"os.Mkdir*", "creates a directory"}, {"os.Remove*", "deletes a file"}, {"os.Rename", "renames a file"},
	{"os.Chmod", "changes a file"}, {"os.Chown", "changes a file"}, {"os.Lchown", "changes a file"}, {"os.Chtimes", "changes a file"},
	{"os.Truncate", "changes a file"}, {"os.Symlink", "creates a file"}, {"os.Link", "creates a file"}, {"os.CopyFS", "creates files"},
	{"os.Exit", "ends the process"}, {"os.StartProcess", "starts a program"},
	{"os.Setenv", "changes the environment"}, {"os.Unsetenv", "changes the environment"}, {"os.Clearenv", "changes the environment"}, {"os.Chdir", "changes the working directory"},
	{"(*os.File).Write*", "writes a file"}, {"(*os.File).ReadFrom", "writes a file"}, {"(*os.File).Truncate", "changes a file"},
	{"(*os.File).Ch*", "changes a file"}, {"(*os.Process)*", "controls a process"}, {"(*os.Root)*", "accesses files"},
	{"io/ioutil.WriteFile", "writes a file"}, {"io/ioutil.Temp*", "creates a file"},
	{"os/exec.*", "starts a program"}, {"(*os/exec.Cmd)*", "starts a program"},
	{"syscall.*", "makes a system call"}, {"plugin.*", "loads code"},
	{"net.Dial*", "connects to the network"}, {"(*net.Dialer)*", "connects to the network"}, {"net.Listen*", "listens on the network"},
	{"net.Lookup*", "asks the network"}, {"(*net.Resolver)*", "asks the network"}, {"net.Resolve*", "asks the network"},
	{"crypto/tls.Dial*", "connects to the network"}, {"net/smtp.*", "connects to the network"}, {"net/rpc.Dial*", "connects to the network"},
	{"net/http.Get", "connects to the network"}, {"net/http.Head", "connects to the network"}, {"net/http.Post*", "connects to the network"},
	{"(*net/http.Client)*", "connects to the network"}, {"(*net/http.Transport)*", "connects to the network"},
	{"(net/http.RoundTripper)*", "connects to the network"}, {"net/http.ListenAndServe*", "listens on the network"}, {"(*net/http.Server)*", "controls the server"},
	{"log.Fatal*", "ends the process"}, {"(*log.Logger).Fatal*", "ends the process"},
}

func stdName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if f.Pkg() == nil {
		return f.Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return "(" + star + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")." + f.Name()
		}
		return "(" + f.Pkg().Path() + ")." + f.Name()
	}
	return f.Pkg().Path() + "." + f.Name()
}

func effectOf(f *types.Func) string {
	n := stdName(f)
	for _, e := range effects {
		if strings.HasSuffix(e.name, "*") {
			if strings.HasPrefix(n, e.name[:len(e.name)-1]) {
				return e.effect
			}
		} else if n == e.name {
			return e.effect
		}
	}
	return ""
}

// reach computes what is reachable from the roots, remembering one way to get there.
func reach(c *Ctx, roots []*ssa.Function, stop func(*ssa.Function) bool) (map[*ssa.Function]*ssa.Function, []*ssa.Function) {
	via := map[*ssa.Function]*ssa.Function{}
	var order []*ssa.Function
	var queue []*ssa.Function
	push := func(f, from *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 || stop != nil && stop(f) {
			return
		}
		if _, ok := via[f]; ok {
			return
		}
		via[f] = from
		queue = append(queue, f)
	}
	for _, r := range roots {
		push(r, nil)
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		order = append(order, f)
		inMod := c.InModule(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if inMod || !call.Common().IsInvoke() {
						for _, g := range c.Callees(call) {
							if !inMod && call.Common().StaticCallee() == nil {
								continue // dynamic calls inside of dependencies: see the assumption
							}
							push(g, f)
						}
					}
				}
				// a function mentioned as a value may be called by whoever receives it
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						push(g, f)
					}
				}
			}
		}
	}
	return via, order
}

func chain(c *Ctx, via map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var names []string
	for ; f != nil && len(names) < 12; f = via[f] {
		names = append(names, c.FnName(f))
	}
	for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
		names[i], names[j] = names[j], names[i]
	}
	return strings.Join(names, " -> ")
}

// isHandler tells functions that serve HTTP requests by their type.
func isHandler(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Params().Len() != 2 || s.Results().Len() != 0 {
		return false
	}
	return s.Params().At(0).Type().String() == "net/http.ResponseWriter" && s.Params().At(1).Type().String() == "*net/http.Request"
}

// isCreator tells the operation that creates filing folders: the exported
// function of the serializables package that takes the folder metadata.
func (c *Ctx) isCreator(fn *ssa.Function) bool {
	if fn.Parent() != nil || c.RelPkg(fn) != "pkg/serializables" || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if n, ok := deref(fn.Signature.Params().At(i).Type()).(*types.Named); ok && n.Obj().Name() == "Underscore" {
			return true
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// servingRoots are the entry points through which requests and filings are
// processed: HTTP handlers and the exported operations of the library
// packages, except the one that creates folders.
func (c *Ctx) servingRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.Fns {
		if isHandler(fn) {
			r = append(r, fn)
			continue
		}
		p := c.RelPkg(fn)
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || c.isCreator(fn) {
			continue
		}
		if strings.HasPrefix(p, "pkg/") || p == "internal/graph" || p == "internal/order" {
			r = append(r, fn)
		}
	}
	return r
}

func p08(c *Ctx, r *Report) {
	r.Rule("no operation of the standard library that writes, creates, renames or deletes files, opens connections, starts programs, changes the process environment or ends the process is called or mentioned in any function reachable from an HTTP handler, from a package initialiser or from an exported operation of pkg/*, except the one that creates filing folders; calls into dependencies are followed through their static calls")
	r.Assume("dynamic calls made inside of third-party dependencies have no such effect")
	roots := c.servingRoots()
	r.Need(len(roots) >= 10, "only %d entry points found", len(roots))
	for _, p := range c.Pkgs {
		if f := p.Func("init"); f != nil && p.Pkg.Name() != "main" {
			roots = append(roots, f)
		}
	}
	via, order := reach(c, roots, func(f *ssa.Function) bool { return c.isCreator(f) })
	r.Count("entry_points", len(roots))
	for _, f := range order {
		if c.InModule(f) {
			r.Fn(c, f)
		} else {
			r.Count("dependency_functions", 1)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				check := func(obj *types.Func, args []ssa.Value) {
					if obj == nil || obj.Pkg() == nil || c.inModulePath(obj.Pkg().Path()) {
						return
					}
					if ld := c.All[obj.Pkg().Path()]; ld != nil && ld.Module != nil {
						return
					}
					r.Count("standard_library_references", 1)
					eff := effectOf(obj)
					if stdName(obj) == "os.OpenFile" {
						eff = "opens a file for writing"
						if len(args) == 3 {
							if k, ok := args[1].(*ssa.Const); ok && k.Value != nil {
								if n, ok := constant.Int64Val(k.Value); ok && n == 0 {
									eff = ""
								}
							}
						}
					}
					if eff == "" {
						r.OK(stdName(obj) + " in " + c.FnName(f))
						return
					}
					r.Bad("effect", stdName(obj)+" in "+c.FnName(f), c.PosOf(in), "%s %s and is reachable while serving: %s", stdName(obj), eff, chain(c, via, f))
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					cc := call.Common()
					if cc.IsInvoke() {
						check(cc.Method, cc.Args)
						continue
					}
					if g := cc.StaticCallee(); g != nil && g.Object() != nil {
						if o, ok := g.Object().(*types.Func); ok {
							check(o, cc.Args)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if call, ok := in.(ssa.CallInstruction); ok && call.Common().Value == g {
							continue
						}
						if o, ok := g.Object().(*types.Func); ok {
							check(o, nil)
						}
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "net/http" && (g.Name() == "DefaultClient" || g.Name() == "DefaultTransport") {
						r.Bad("effect", "net/http."+g.Name()+" in "+c.FnName(f), c.PosOf(in), "the default HTTP client is used while serving: %s", chain(c, via, f))
					}
				}
			}
		}
	}
}
