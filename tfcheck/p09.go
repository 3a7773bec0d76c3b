package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P09", p09) }

// where is what is known of a text used as a path.
type where struct {
	k   string // "in" inside a configured directory, "local" a name that cannot lead out, "out" an unchecked name, "?" unknown
	why string
	at  ssa.Instruction
}

type pathCheck struct {
	c     *Ctx
	r     *Report
	busy  map[string]bool
	steps int
	memo  map[*ssa.Parameter]where
}

type pframe struct {
	fn    *ssa.Function
	env   map[*ssa.Parameter]where
	guard map[*ssa.Parameter]bool
	up    *pframe
}

// openers are the operations that open, list or examine what a path names, with the position of the path.
var openers = map[string]int{
	"os.Open": 0, "os.OpenFile": 0, "os.ReadFile": 0, "os.ReadDir": 0, "os.Stat": 0, "os.Lstat": 0, "os.DirFS": 0, "os.OpenRoot": 0,
	"os.Readlink": 0, "os.Create": 0, "os.WriteFile": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.Remove": 0, "os.RemoveAll": 0, "os.Chdir": 0,
	"io/ioutil.ReadFile": 0, "io/ioutil.ReadDir": 0, "path/filepath.Walk": 0, "path/filepath.WalkDir": 0, "path/filepath.Glob": 0,
	"net/http.ServeFile": 2, "os.OpenInRoot": 0,
}

func p09(c *Ctx, r *Report) {
	r.Rule("Every path passed to an operation that opens, lists or examines a file is traced back, through calls, callers, closures and fields, to its parts. It starts with a configured directory (a package variable, the environment or the process's own directory) and every further part is a constant name, a generated identifier, a name the operating system listed, or a text that was tested to be local (filepath.IsLocal, fs.ValidPath, absence of '..', a prefix ending in a separator, a relative path tested) on every path to the opening.")
	r.Rule("A text that comes from a request, a filing or the caller of an exported operation and is joined untested is reported, as is a test of a different text and a prefix test that does not end in a separator.")
	r.Assume("no symbolic link inside the data directories leads outside; filepath.IsLocal is as documented")
	p := &pathCheck{c: c, r: r, busy: map[string]bool{}}
	roots := c.servingRoots()
	_, order := reach(c, roots, nil)
	n := 0
	for _, fn := range order {
		if !c.InModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				nm := calleeName(ci.Common())
				i, ok := openers[nm]
				if !ok || i >= len(ci.Common().Args) {
					continue
				}
				n++
				r.Fn(c, fn)
				p.steps = 0
				p.busy = map[string]bool{}
				p.memo = map[*ssa.Parameter]where{}
				w := p.ev(&pframe{fn: fn}, ci.Common().Args[i], b)
				what := c.FnName(fn) + " " + nm
				switch w.k {
				case "in":
					r.OK(what + " opens a path inside a configured directory")
				case "out":
					at := ssa.Instruction(ci)
					if w.at != nil {
						at = w.at
					}
					r.Bad("escape", what+" "+c.FnName(at.Parent())+" "+w.why, c.PosOf(at), "%s can be given a path outside of the configured directories by %s: %s", nm, c.FnName(fn), w.why)
				case "local":
					r.Bad("base", what, c.PosOf(ci), "%s is given a path in %s that does not start with a configured directory", nm, c.FnName(fn))
				default:
					r.Open(what + ": " + w.why)
				}
			}
		}
	}
	r.Need(n > 0, "nothing opens a file")
	r.Count("openings", n)
}

func out(why string, at ssa.Instruction) where { return where{"out", why, at} }
func unknown(why string) where                 { return where{"?", why, nil} }

// both joins what is known over two sources.
func both(a, b where) where {
	rank := map[string]int{"": 0, "in": 1, "local": 1, "?": 2, "out": 3}
	if a.k == "" {
		return b
	}
	if b.k == "" {
		return a
	}
	if rank[b.k] > rank[a.k] {
		return b
	}
	if rank[a.k] > rank[b.k] || a.k == b.k {
		return a
	}
	return unknown("a name or a path")
}

func (p *pathCheck) ev(f *pframe, v ssa.Value, at *ssa.BasicBlock) where {
	p.steps++
	if p.steps > 4000 {
		return unknown("too deep")
	}
	v = fwd(v)
	w := p.ev1(f, v, at)
	if w.k == "out" || w.k == "?" {
		if g := p.guarded(f, v, at); g != "" {
			if g == "weak" {
				return out("the path is tested with a prefix that does not end in a separator", w.at)
			}
			return where{k: g}
		}
	}
	return w
}

func sourceName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if s := placeOf(x.X); s != "" {
			return s
		}
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Field:
		nm, _ := fieldName(x.X.Type(), x.Field)
		return nm
	}
	if i, ok := v.(ssa.Instruction); ok && i.Parent() != nil {
		return name(v)
	}
	return v.Name()
}

func (p *pathCheck) ev1(f *pframe, v ssa.Value, at *ssa.BasicBlock) where {
	c := p.c
	ins, _ := v.(ssa.Instruction)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.String {
			return where{k: "local"}
		}
		s := constant.StringVal(x.Value)
		if s == "" || filepath.IsLocal(s) {
			return where{k: "local"}
		}
		return out("the constant "+x.Value.String(), nil)
	case *ssa.ChangeType:
		return p.ev(f, x.X, at)
	case *ssa.MakeInterface:
		return p.ev(f, x.X, at)
	case *ssa.Convert:
		return p.ev(f, x.X, at)
	case *ssa.Phi:
		key := "phi" + c.FnName(f.fn) + x.Name()
		if p.busy[key] {
			return where{}
		}
		p.busy[key] = true
		var w where
		for i, e := range x.Edges {
			w = both(w, p.ev(f, e, x.Block().Preds[i]))
		}
		delete(p.busy, key)
		return w
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return p.concat(f, flatten(x), at, ins)
		}
	case *ssa.Slice:
		w := p.ev(f, x.X, at)
		if w.k == "local" {
			return unknown("part of a name")
		}
		return w
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return p.call(f, t, x.Index, at)
		case *ssa.Lookup:
			return p.element(f, t.X, at, ins)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return p.element(f, rg.X, at, ins)
			}
		case *ssa.TypeAssert:
			return p.ev(f, t.X, at)
		}
	case *ssa.Call:
		return p.call(f, x, 0, at)
	case *ssa.Lookup:
		return p.element(f, x.X, at, ins)
	case *ssa.Index:
		return p.element(f, x.X, at, ins)
	case *ssa.TypeAssert:
		return p.ev(f, x.X, at)
	case *ssa.Parameter:
		if w, ok := f.env[x]; ok {
			return w
		}
		return p.param(f, x)
	case *ssa.FreeVar:
		mc := c.closureSite(f.fn)
		b := c.binding(x)
		if mc == nil || b == nil {
			return unknown("a captured variable")
		}
		up := &pframe{fn: mc.Parent()}
		if f.up != nil && f.up.fn == mc.Parent() {
			up = f.up
		}
		return p.ev(up, b, mc.Block())
	case *ssa.Field:
		return p.field(f, x.X.Type(), x.Field, x.X, at, ins)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if c.InModulePkg(a.Pkg) {
				return where{k: "in"}
			}
			return unknown("a variable of another package")
		case *ssa.FieldAddr:
			return p.field(f, deref(a.X.Type()), a.Field, a.X, at, ins)
		case *ssa.IndexAddr:
			return p.element(f, a.X, at, ins)
		case *ssa.Alloc:
			return p.variable(f, a, at)
		case *ssa.FreeVar:
			root := c.rootBinding(a)
			if al, ok := root.(*ssa.Alloc); ok {
				return p.variable(&pframe{fn: al.Parent()}, al, at)
			}
		}
	}
	return unknown("not traced")
}

func (c *Ctx) InModulePkg(pk *ssa.Package) bool {
	return pk != nil && pk.Pkg != nil && strings.HasPrefix(pk.Pkg.Path(), c.ModPath)
}

func (p *pathCheck) variable(f *pframe, al *ssa.Alloc, at *ssa.BasicBlock) where {
	key := "var" + p.c.FnName(al.Parent()) + al.Name()
	if p.busy[key] {
		return where{}
	}
	p.busy[key] = true
	defer delete(p.busy, key)
	sts, _ := p.c.storesTo(al)
	var w where
	for _, st := range sts {
		g := f
		if st.Parent() != f.fn {
			g = &pframe{fn: st.Parent()}
		}
		w = both(w, p.ev(g, st.Val, st.Block()))
	}
	if w.k == "" {
		return unknown("a variable")
	}
	return w
}

// field: what any place of the module stores there; a field nobody stores is filled by a decoder.
func (p *pathCheck) field(f *pframe, t types.Type, i int, base ssa.Value, at *ssa.BasicBlock, ins ssa.Instruction) where {
	nm, ft := fieldName(t, i)
	place := typeName(t) + "." + nm
	if !isString(ft) {
		// part of a structure the text is taken from
		if base != nil {
			return p.ev(f, base, at)
		}
		return unknown(place)
	}
	if p.busy["field"+place] {
		return where{}
	}
	p.busy["field"+place] = true
	defer delete(p.busy, "field"+place)
	var w where
	for _, fn := range p.c.Fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && placeOf(st.Addr) == place {
					w = both(w, p.ev(&pframe{fn: fn}, st.Val, b))
				}
			}
		}
	}
	if w.k == "" {
		return out(place+" is joined without a test that it stays inside", ins)
	}
	return w
}

// element of a list or map.
func (p *pathCheck) element(f *pframe, list ssa.Value, at *ssa.BasicBlock, ins ssa.Instruction) where {
	list = fwd(list)
	switch x := list.(type) {
	case *ssa.Call:
		w := p.call(f, x, 0, at)
		return w
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			nm, _ := fieldName(deref(fa.X.Type()), fa.Field)
			place := typeName(deref(fa.X.Type())) + "." + nm
			for _, fn := range p.c.Fns {
				for _, b := range fn.Blocks {
					for _, i := range b.Instrs {
						if st, ok := i.(*ssa.Store); ok && placeOf(st.Addr) == place {
							return unknown("an element of " + place)
						}
					}
				}
			}
			return out("an element of "+place+" is joined without a test that it stays inside", ins)
		}
		return p.ev(f, x, at)
	case *ssa.Extract, *ssa.Parameter, *ssa.Phi:
		return p.ev(f, x, at)
	case *ssa.Slice:
		return p.element(f, x.X, at, ins)
	case *ssa.Alloc:
		// a literal list
		var w where
		for _, r := range *x.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, u := range *ia.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						w = both(w, p.ev(f, st.Val, at))
					}
				}
			}
		}
		if w.k != "" {
			return w
		}
	}
	return unknown("an element")
}

func (p *pathCheck) param(f *pframe, x *ssa.Parameter) where {
	c := p.c
	fn := x.Parent()
	key := "param" + c.FnName(fn) + x.Name()
	if p.busy[key] {
		return where{}
	}
	if w, ok := p.memo[x]; ok {
		return w
	}
	p.busy[key] = true
	defer delete(p.busy, key)
	cs := c.Callers(fn)
	n := 0
	var w where
	for _, ci := range cs {
		if ci.Parent() == nil || !c.InModule(ci.Parent()) {
			continue
		}
		a := argOf(ci, fn, x)
		if a == nil {
			continue
		}
		n++
		w = both(w, p.ev(&pframe{fn: ci.Parent()}, a, ci.Block()))
	}
	if n == 0 {
		return out(x.Name()+" is joined without a test that it stays inside", firstInstr(fn))
	}
	if w.k == "out" && w.at == nil {
		w.at = firstInstr(fn)
	}
	p.memo[x] = w
	return w
}

func firstInstr(fn *ssa.Function) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i
			}
		}
	}
	return nil
}

// flatten lists the parts of a concatenation.
func flatten(v ssa.Value) []ssa.Value {
	v = fwd(v)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isString(b.Type()) {
		return append(flatten(b.X), flatten(b.Y)...)
	}
	return []ssa.Value{v}
}

// concat: parts written one after the other.
func (p *pathCheck) concat(f *pframe, parts []ssa.Value, at *ssa.BasicBlock, ins ssa.Instruction) where {
	var w where
	for i, v := range parts {
		if s, ok := constStr(v); ok {
			if i == 0 {
				w = p.ev(f, v, at)
				continue
			}
			if strings.Contains(s, "..") {
				return out("the constant \""+s+"\"", ins)
			}
			continue
		}
		if isSeparator(v) {
			continue
		}
		x := p.ev(f, v, at)
		if i == 0 {
			w = x
			continue
		}
		switch x.k {
		case "out":
			if x.at == nil || x.at.Parent() != f.fn {
				x.at = ins
			}
			return x
		case "?":
			w = both(w, x)
		}
	}
	return w
}

func isSeparator(v ssa.Value) bool {
	if s, ok := constStr(v); ok {
		return s == "/"
	}
	if cv, ok := v.(*ssa.Convert); ok {
		if k, ok := cv.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			return k.Int64() == '/'
		}
	}
	return false
}

// joined: parts joined with separators and cleaned.
func (p *pathCheck) joined(f *pframe, parts []ssa.Value, at *ssa.BasicBlock, ins ssa.Instruction) where {
	if len(parts) == 0 {
		return unknown("a list of parts")
	}
	w := p.ev(f, parts[0], at)
	for _, v := range parts[1:] {
		x := p.ev(f, v, at)
		switch x.k {
		case "out":
			if x.at == nil || x.at.Parent() != f.fn {
				x.at = ins
			}
			if w.k == "in" {
				return x
			}
			w = both(w, x)
		case "?":
			w = both(w, x)
		}
	}
	return w
}

func (p *pathCheck) call(f *pframe, call *ssa.Call, res int, at *ssa.BasicBlock) where {
	c := p.c
	cc := &call.Call
	nm := calleeName(cc)
	args := cc.Args
	switch nm {
	case "path/filepath.Join", "path.Join":
		return p.joined(f, variadicArgs(args[0]), at, call)
	case "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash", "path/filepath.Abs", "path/filepath.EvalSymlinks", "path/filepath.Dir", "path.Dir":
		return p.ev(f, args[0], at)
	case "path/filepath.Base", "path.Base", "path/filepath.Ext", "path.Ext", "path/filepath.VolumeName":
		return where{k: "local"}
	case "os.Getwd", "os.Getenv", "os.LookupEnv", "os.Executable", "os.UserHomeDir", "os.TempDir", "flag.String":
		return where{k: "in"}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "encoding/hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString":
		return where{k: "local"}
	case "net/url.PathUnescape", "net/url.QueryUnescape", "html.UnescapeString", "strings.ReplaceAll", "strings.Replace":
		if w := p.ev(f, args[0], at); w.k == "out" || w.k == "local" && !isConst(args[0]) {
			return out("a text is decoded after the test that it stays inside", call)
		}
	case "fmt.Sprintf":
		if s, ok := constStr(args[0]); ok && len(args) > 1 {
			return p.sprintf(f, s, variadicArgs(args[1]), at, call)
		}
	case "strings.Join":
		return p.element(f, args[0], at, call)
	}
	if cc.IsInvoke() && cc.Method.Name() == "Name" && strings.Contains(types.Unalias(cc.Value.Type()).String(), "fs.") {
		return where{k: "local"}
	}
	g := cc.StaticCallee()
	if g != nil && g.Signature.Recv() != nil && strings.HasSuffix(typeName(deref(g.Signature.Recv().Type())), "UUID") {
		return where{k: "local"}
	}
	var fns []*ssa.Function
	if g != nil {
		if c.InModule(g) && len(g.Blocks) > 0 {
			fns = []*ssa.Function{g}
		}
	} else {
		fns = c.ModCallees(call)
	}
	if len(fns) > 0 {
		var w where
		for _, g := range fns {
			w = both(w, p.expand(f, call, g, res, at))
		}
		return w
	}
	// elsewhere: as trustworthy as what it is given
	var w where
	all := args
	if cc.IsInvoke() {
		all = append([]ssa.Value{cc.Value}, args...)
	}
	for _, a := range all {
		t := a.Type()
		if strings.HasSuffix(t.String(), "http.Request") {
			return out("what the request says is joined without a test that it stays inside", call)
		}
		switch deref(t).Underlying().(type) {
		case *types.Basic:
			if !isString(t) {
				continue
			}
		case *types.Struct, *types.Slice, *types.Map:
		default:
			continue
		}
		x := p.ev(f, a, at)
		if x.k == "local" || x.k == "in" || x.k == "" {
			x = unknown("the result of " + nm)
		}
		w = both(w, x)
	}
	if w.k == "" {
		return unknown("the result of " + nm)
	}
	return w
}

// sprintf: the verbs are replaced by the arguments in turn.
func (p *pathCheck) sprintf(f *pframe, format string, args []ssa.Value, at *ssa.BasicBlock, ins ssa.Instruction) where {
	if strings.Contains(format, "..") {
		return out("the format "+format, ins)
	}
	if len(args) == 0 {
		return unknown("a format")
	}
	for i, a := range args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			args[i] = mi.X
		}
	}
	if !strings.HasPrefix(format, "%") {
		return both(where{k: "local"}, p.concat(f, args, at, ins))
	}
	return p.concat(f, args, at, ins)
}

// expand evaluates the result of a function of the module with the arguments of this call.
func (p *pathCheck) expand(f *pframe, call ssa.CallInstruction, g *ssa.Function, res int, at *ssa.BasicBlock) where {
	key := "call" + p.c.FnName(g)
	if p.busy[key] {
		return where{}
	}
	n := &pframe{fn: g, env: map[*ssa.Parameter]where{}, up: f}
	for _, prm := range g.Params {
		if !isString(prm.Type()) {
			if a := argOf(call, g, prm); a != nil {
				switch deref(prm.Type()).Underlying().(type) {
				case *types.Slice, *types.Map:
					n.env[prm] = p.ev(f, a, at)
				}
			}
			continue
		}
		if a := argOf(call, g, prm); a != nil {
			n.env[prm] = p.ev(f, a, at)
			if n.env[prm].k == "" {
				n.env[prm] = unknown(prm.Name())
			}
		}
	}
	p.busy[key] = true
	defer delete(p.busy, key)
	var w where
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		rs := results(ret)
		if res >= len(rs) {
			continue
		}
		failed := false
		for i, r := range rs {
			if i != res && isErrorType(r.Type()) && definitelyNonNil(r) {
				failed = true
			}
			if i != res && isErrorType(r.Type()) && !failed {
				if st := p.c.Facts(g); st != nil {
					if s := st.At(ret); s != nil && s.has("nn", p.c.Exprs().X(r, nil)) {
						failed = true
					}
				}
			}
		}
		if s, ok := constStr(rs[res]); failed || ok && s == "" {
			continue
		}
		w = both(w, p.ev(n, rs[res], b))
	}
	if w.k == "" {
		return unknown("the result of " + p.c.FnName(g))
	}
	return w
}

// pathKey names a text with what does not change where it leads stripped.
func (p *pathCheck) pathKey(v ssa.Value) string {
	for {
		v = fwd(v)
		if cl, ok := v.(*ssa.Call); ok {
			switch calleeName(&cl.Call) {
			case "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
				v = cl.Call.Args[0]
				continue
			}
		}
		break
	}
	return p.c.Exprs().X(v, nil).Key
}

// guarded: on every way to the block the text was tested.
func (p *pathCheck) guarded(f *pframe, v ssa.Value, at *ssa.BasicBlock) string {
	if at == nil || at.Parent() != v.Parent() && v.Parent() != nil {
		return ""
	}
	weak := ""
	for d := at; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range id.Succs {
			if (s == at || s.Dominates(at)) && len(s.Preds) == 1 {
				g := p.implies(f, iff.Cond, i == 0, v, 0)
				if g == "weak" {
					weak = g
				} else if g != "" {
					return g
				}
			}
		}
	}
	return weak
}

// implies: the condition having this outcome means that v stays inside.
func (p *pathCheck) implies(f *pframe, cond ssa.Value, truth bool, v ssa.Value, depth int) string {
	if depth > 4 {
		return ""
	}
	c := p.c
	cond = fwd(cond)
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return p.implies(f, x.X, !truth, v, depth)
		}
	case *ssa.Phi:
		// && and ||: the outcome was reached by one of the edges
		res := "none"
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
				continue
			}
			g := p.implies(f, e, truth, v, depth+1)
			if g == "" || g == "weak" {
				pr := x.Block().Preds[i]
				if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok {
					for j, s := range pr.Succs {
						if s == x.Block() {
							if h := p.implies(f, iff.Cond, j == 0, v, depth+1); h != "" {
								g = h
							}
						}
					}
				}
				if h := p.guarded(f, v, pr); g == "" && h != "" {
					g = h
				}
			}
			if g == "" {
				return ""
			}
			if res == "none" || g == "weak" {
				res = g
			}
		}
		if res == "none" {
			return ""
		}
		return res
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			// strings.Index(x, "..") < 0 and the like
			if cl, ok := fwd(x.X).(*ssa.Call); ok && (x.Op == token.LSS && truth || x.Op == token.GEQ && !truth) {
				if calleeName(&cl.Call) == "strings.Index" && p.dots(cl, v) {
					return "local"
				}
			}
			return ""
		}
		eq := (x.Op == token.EQL) == truth
		for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if k, ok := pr[1].(*ssa.Const); ok {
				switch {
				case k.IsNil() && eq && isErrorType(pr[0].Type()):
					return p.noError(f, pr[0], v, depth)
				case k.Value != nil && k.Value.Kind() == constant.Bool:
					return p.implies(f, pr[0], constant.BoolVal(k.Value) == eq, v, depth+1)
				case k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == -1 && eq:
					if cl, ok := fwd(pr[0]).(*ssa.Call); ok && calleeName(&cl.Call) == "strings.Index" && p.dots(cl, v) {
						return "local"
					}
				}
			} else if eq && depth == 0 {
				// equal to a text that is known
				if p.pathKey(pr[0]) == p.pathKey(v) && pr[0] != v {
					if cl, ok := fwd(pr[1]).(*ssa.Call); ok && strings.HasSuffix(calleeName(&cl.Call), ".Base") {
						return "local"
					}
				}
				if cl, ok := fwd(pr[1]).(*ssa.Call); ok && strings.HasSuffix(calleeName(&cl.Call), ".Base") && p.pathKey(cl.Call.Args[0]) == p.pathKey(v) && p.pathKey(pr[0]) == p.pathKey(v) {
					return "local"
				}
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "path/filepath.IsLocal", "io/fs.ValidPath":
			if truth && p.pathKey(x.Call.Args[0]) == p.pathKey(v) {
				return "local"
			}
			if truth && p.relOf(x.Call.Args[0], v) {
				return "in"
			}
		case "strings.Contains":
			if !truth && p.dots(x, v) {
				return "local"
			}
		case "strings.HasPrefix":
			tested := flatten(x.Call.Args[0])
			for len(tested) > 1 && isSeparator(tested[len(tested)-1]) {
				tested = tested[:len(tested)-1]
			}
			if truth && len(tested) == 1 && p.pathKey(tested[0]) == p.pathKey(v) {
				b := p.ev(f, x.Call.Args[1], x.Block())
				if b.k == "in" {
					parts := flatten(x.Call.Args[1])
					if l := parts[len(parts)-1]; isSeparator(l) {
						return "in"
					} else if s, ok := constStr(l); ok && strings.HasSuffix(s, "/") {
						return "in"
					}
					return "weak"
				}
			}
			if !truth && p.relOf(x.Call.Args[0], v) {
				if s, ok := constStr(x.Call.Args[1]); ok && strings.HasPrefix("../", s) {
					return "in"
				}
			}
		default:
			for _, g := range p.callee(x) {
				return p.summary(f, x, g, 0, truth, v, depth)
			}
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			for _, g := range p.callee(cl) {
				return p.summary(f, cl, g, x.Index, truth, v, depth)
			}
		}
	}
	_ = c
	return ""
}

func (p *pathCheck) callee(call *ssa.Call) []*ssa.Function {
	if g := call.Call.StaticCallee(); g != nil {
		if p.c.InModule(g) && len(g.Blocks) > 0 {
			return []*ssa.Function{g}
		}
		return nil
	}
	if l := p.c.ModCallees(call); len(l) == 1 {
		return l
	}
	return nil
}

// dots: the call looks for '..' in v.
func (p *pathCheck) dots(cl *ssa.Call, v ssa.Value) bool {
	s, ok := constStr(cl.Call.Args[1])
	return ok && (s == ".." || s == ".") && p.pathKey(cl.Call.Args[0]) == p.pathKey(v)
}

// relOf: the text is v relative to a configured directory.
func (p *pathCheck) relOf(t, v ssa.Value) bool {
	ex, ok := fwd(t).(*ssa.Extract)
	if !ok {
		return false
	}
	cl, ok := ex.Tuple.(*ssa.Call)
	return ok && calleeName(&cl.Call) == "path/filepath.Rel" && p.pathKey(cl.Call.Args[1]) == p.pathKey(v)
}

// noError: a call that returned no error tested the text.
func (p *pathCheck) noError(f *pframe, e ssa.Value, v ssa.Value, depth int) string {
	switch x := fwd(e).(type) {
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			for _, g := range p.callee(cl) {
				return p.summary(f, cl, g, x.Index, true, v, depth)
			}
		}
	case *ssa.Call:
		for _, g := range p.callee(x) {
			return p.summary(f, x, g, 0, true, v, depth)
		}
	}
	return ""
}

// summary: whenever result res of g is true (or no error) the argument holding v was tested.
func (p *pathCheck) summary(f *pframe, call *ssa.Call, g *ssa.Function, res int, truth bool, v ssa.Value, depth int) string {
	if depth > 3 {
		return ""
	}
	for _, prm := range g.Params {
		a := argOf(call, g, prm)
		if a == nil || !isString(prm.Type()) || p.pathKey(a) != p.pathKey(v) {
			continue
		}
		all := "none"
		n := &pframe{fn: g, env: map[*ssa.Parameter]where{}, up: f}
		for _, q := range g.Params {
			if q != prm && isString(q.Type()) {
				if b := argOf(call, g, q); b != nil {
					n.env[q] = p.ev(f, b, call.Block())
				}
			}
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			rs := results(ret)
			if res >= len(rs) {
				return ""
			}
			r := rs[res]
			got := ""
			if isErrorType(r.Type()) {
				if definitelyNonNil(r) {
					continue
				}
				if s := p.c.Facts(g).At(ret); s != nil && s.has("nn", p.c.Exprs().X(r, nil)) {
					continue
				}
				got = p.guarded(n, prm, b)
				if k, ok := r.(*ssa.Const); got == "" && !(ok && k.IsNil()) {
					got = p.noError(n, r, prm, depth+1)
				}
			} else {
				if k, ok := r.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
					continue
				}
				got = p.guarded(n, prm, b)
				if got == "" {
					got = p.implies(n, r, truth, prm, depth+1)
				}
			}
			if got == "" {
				all = ""
				break
			}
			if all == "none" || got == "weak" {
				all = got
			}
		}
		if all != "none" && all != "" {
			return all
		}
	}
	return ""
}
