package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P05", p05) }

// A cache entry's key is a sequence of fixed texts and values.
type keyPart struct {
	lit  string
	v    *Expr // nil for a fixed text
	safe bool  // the value is written so that its end is recognisable
	lost string
}

type cacheOp struct {
	set   bool
	via   []ssa.CallInstruction
	op    ssa.Instruction
	at    ssa.Instruction // where it happens as seen from the unit
	fn    *ssa.Function   // the function at is in
	place string
	key   []keyPart
	known bool      // the key could be taken apart
	val   ssa.Value // stored
	res   ssa.Value // looked up
	types []types.Type
}

func unitOf(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func isGoCache(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "Cache" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/go-cache")
}

func isSyncMap(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

// cachePlace names the package variable a cache lives in.
func (c *Ctx) cachePlace(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return c.cachePlace(x.X)
		}
	case *ssa.Global:
		return strings.TrimPrefix(x.String(), c.ModPath+"/")
	case *ssa.FieldAddr:
		return c.cachePlace(x.X)
	case *ssa.Field:
		return c.cachePlace(x.X)
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				for _, s := range c.Callers(x.Parent()) {
					if a := s.Common().Args; i < len(a) && a[i] != v {
						return c.cachePlace(a[i])
					}
				}
			}
		}
	case *ssa.Extract, *ssa.Phi, *ssa.Call:
	}
	return ""
}

// findCacheOps lists lookups and stores in package-level caches.
func (c *Ctx) findCacheOps() []*cacheOp {
	var ops []*cacheOp
	for _, fn := range c.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					cc := x.Common()
					f := cc.StaticCallee()
					if f == nil || f.Signature.Recv() == nil || len(cc.Args) < 2 {
						continue
					}
					rt := f.Signature.Recv().Type()
					o := &cacheOp{op: in, at: in, fn: fn}
					switch {
					case isGoCache(rt) || isGoCacheInner(rt):
						switch f.Name() {
						case "Get", "GetWithExpiration":
						case "Set", "Add", "Replace":
							o.set, o.val = true, cc.Args[2]
						case "SetDefault":
							o.set, o.val = true, cc.Args[2]
						default:
							continue
						}
						o.place = "cache"
					case isSyncMap(rt):
						switch f.Name() {
						case "Load":
						case "Store", "LoadOrStore", "Swap":
							o.set, o.val = true, cc.Args[2]
						default:
							continue
						}
						o.place = c.cachePlace(cc.Args[0])
						if o.place == "" {
							continue
						}
					default:
						continue
					}
					o.key, o.known = c.keyParts(cc.Args[1], 0)
					ops = append(ops, o)
					if f.Name() == "LoadOrStore" {
						g := *o
						g.set, g.val = false, nil
						ops = append(ops, &g)
					}
				case *ssa.MapUpdate:
					if p := c.globalMap(x.Map); p != "" && fn.Name() != "init" {
						k, known := c.keyParts(x.Key, 0)
						ops = append(ops, &cacheOp{set: true, op: in, at: in, fn: fn, place: p, key: k, known: known, val: x.Value})
					}
				case *ssa.Lookup:
					if p := c.globalMap(x.X); p != "" {
						k, known := c.keyParts(x.Index, 0)
						ops = append(ops, &cacheOp{op: in, at: in, fn: fn, place: p, key: k, known: known})
					}
				}
			}
		}
	}
	// a package-level map nobody fills at run time is a table, not a cache
	filled := map[string]bool{}
	for _, o := range ops {
		if o.set {
			filled[o.place] = true
		}
	}
	var r []*cacheOp
	for _, o := range ops {
		if filled[o.place] {
			r = append(r, o)
		}
	}
	return r
}

func isGoCacheInner(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "cache" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/go-cache")
}

func (c *Ctx) globalMap(v ssa.Value) string {
	if _, ok := v.Type().Underlying().(*types.Map); !ok {
		return ""
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return c.cachePlace(u)
	}
	return ""
}

// keyParts takes the construction of a key apart.
func (c *Ctx) keyParts(v ssa.Value, depth int) ([]keyPart, bool) {
	t := c.Exprs()
	if depth > 12 {
		return nil, false
	}
	if e := t.X(v, nil); e.Op == "const" && isString(e.Type) {
		return []keyPart{{lit: e.Aux[1 : len(e.Aux)-1]}}, true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return c.keyParts(x.X, depth+1)
	case *ssa.ChangeType:
		return c.keyParts(x.X, depth+1)
	case *ssa.ChangeInterface:
		return c.keyParts(x.X, depth+1)
	case *ssa.Convert:
		if isString(x.Type()) && isString(x.X.Type()) {
			return c.keyParts(x.X, depth+1)
		}
	case *ssa.Parameter:
		return []keyPart{{v: t.X(x, nil)}}, true
	case *ssa.FreeVar:
		if b := c.binding(x); b != nil {
			return c.keyParts(b, depth+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w := fwd(x); w != x {
				return c.keyParts(w, depth+1)
			}
			addr := x.X
			if fv, ok := addr.(*ssa.FreeVar); ok {
				if b := c.rootBinding(fv); b != nil {
					addr = b
				}
			}
			if al, ok := addr.(*ssa.Alloc); ok {
				if st := t.onlyStore(al); st != nil {
					return c.keyParts(st.Val, depth+1)
				}
				if parts, ok := c.structParts(al, x, depth); ok {
					return parts, true
				}
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			a, ok1 := c.keyParts(x.X, depth+1)
			b, ok2 := c.keyParts(x.Y, depth+1)
			return joinParts(append(append([]keyPart{}, a...), b...)), ok1 && ok2
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			break
		}
		switch stdFuncName(f) {
		case "fmt.Sprintf", "fmt.Sprint":
			if stdFuncName(f) == "fmt.Sprint" {
				break
			}
			format, ok := constStr(x.Call.Args[0])
			args, ok2 := variadic(x.Call.Args[1])
			if !ok || !ok2 {
				break
			}
			return c.formatParts(format, args, depth)
		case "strings.Join":
			args, ok := variadic(x.Call.Args[0])
			sep, ok2 := constStr(x.Call.Args[1])
			if !ok || !ok2 {
				break
			}
			var r []keyPart
			for i, a := range args {
				if i > 0 {
					r = append(r, keyPart{lit: sep})
				}
				p, ok := c.keyParts(a, depth+1)
				if !ok {
					return nil, false
				}
				r = append(r, p...)
			}
			return joinParts(r), true
		case "path.Join", "path/filepath.Join":
			args, ok := variadic(x.Call.Args[0])
			if !ok {
				break
			}
			var r []keyPart
			for i, a := range args {
				if i > 0 {
					r = append(r, keyPart{lit: "/"})
				}
				p, ok := c.keyParts(a, depth+1)
				if !ok {
					return nil, false
				}
				for _, q := range p {
					if q.v != nil {
						q.lost = "path.Join cleans it"
					}
					r = append(r, q)
				}
			}
			return joinParts(r), true
		case "strconv.Quote", "strconv.QuoteToASCII", "net/url.QueryEscape", "net/url.PathEscape", "strconv.Itoa", "strconv.FormatInt", "encoding/hex.EncodeToString", "strconv.FormatBool":
			p, ok := c.keyParts(x.Call.Args[0], depth+1)
			if ok && len(p) == 1 && p[0].v != nil {
				p[0].safe = true
				return p, true
			}
			return p, ok && len(p) <= 1
		case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Title",
			"path/filepath.Base", "path.Base", "path/filepath.Clean", "path.Clean", "path/filepath.Dir", "path/filepath.Ext", "path.Ext", "path.Dir", "strings.ReplaceAll", "strings.Replace":
			p, ok := c.keyParts(x.Call.Args[0], depth+1)
			var r []keyPart
			for _, q := range p {
				if q.v != nil {
					q.lost = stdFuncName(f) + " maps different values to the same text"
				}
				r = append(r, q)
			}
			return r, ok
		}
		if c.InModule(f) && len(f.Blocks) == 1 {
			if ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				p, ok := c.keyParts(results(ret)[0], depth+1)
				if ok {
					return c.liftParts(p, f, x, depth)
				}
			}
		}
	case *ssa.Slice:
		p, ok := c.keyParts(x.X, depth+1)
		if isString(x.X.Type()) && ok && (x.Low != nil || x.High != nil) {
			var r []keyPart
			for _, q := range p {
				if q.v != nil {
					q.lost = "only a part of it is used"
				}
				r = append(r, q)
			}
			return r, true
		}
	}
	e := t.X(v, nil)
	if e.Op == "fld" || e.Op == "deref" || e.Op == "param" {
		return []keyPart{{v: e}}, true
	}
	if isInt(v.Type()) {
		return []keyPart{{v: e, safe: true}}, true
	}
	return []keyPart{{v: e}}, false
}

// structParts: a key of struct or array type, field by field.
func (c *Ctx) structParts(al *ssa.Alloc, load ssa.Instruction, depth int) ([]keyPart, bool) {
	n := 0
	switch st := deref(al.Type()).Underlying().(type) {
	case *types.Struct:
		n = st.NumFields()
	case *types.Array:
		n = int(st.Len())
	default:
		return nil, false
	}
	parts := make([][]keyPart, n)
	for _, ref := range *al.Referrers() {
		i := -1
		var a ssa.Value
		switch r := ref.(type) {
		case *ssa.FieldAddr:
			i, a = r.Field, r
		case *ssa.IndexAddr:
			k, ok := r.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			m, _ := constant.Int64Val(k.Value)
			i, a = int(m), r
		case *ssa.Store:
			return nil, false
		default:
			continue
		}
		if i < 0 || i >= n {
			return nil, false
		}
		for _, u := range *a.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == a {
				if parts[i] != nil {
					return nil, false
				}
				p, ok := c.keyParts(s.Val, depth+1)
				if !ok {
					return nil, false
				}
				for j := range p {
					p[j].safe = true
				}
				parts[i] = p
			}
		}
	}
	var r []keyPart
	for i := range parts {
		if i > 0 {
			r = append(r, keyPart{lit: "\x00"})
		}
		r = append(r, parts[i]...)
	}
	return r, true
}

func (c *Ctx) formatParts(format string, args []ssa.Value, depth int) ([]keyPart, bool) {
	var r []keyPart
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			r = append(r, keyPart{lit: format[i : i+1]})
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			return nil, false
		}
		if format[i] == '%' {
			r = append(r, keyPart{lit: "%"})
			continue
		}
		if n >= len(args) {
			return nil, false
		}
		p, ok := c.keyParts(args[n], depth+1)
		n++
		if !ok {
			return nil, false
		}
		switch format[i] {
		case 'q', 'x', 'X':
			if len(p) != 1 || p[0].v == nil {
				allLit := true
				for _, q := range p {
					if q.v != nil {
						allLit = false
					}
				}
				if !allLit {
					return nil, false
				}
			} else {
				p[0].safe = true
			}
		case 'd', 't':
			for j := range p {
				p[j].safe = true
			}
		case 's', 'v':
		default:
			return nil, false
		}
		r = append(r, p...)
	}
	return joinParts(r), true
}

func joinParts(ps []keyPart) []keyPart {
	var r []keyPart
	for _, p := range ps {
		if p.v == nil && len(r) > 0 && r[len(r)-1].v == nil {
			r[len(r)-1].lit += p.lit
			continue
		}
		if p.v == nil && p.lit == "" {
			continue
		}
		r = append(r, p)
	}
	return r
}

// liftParts restates parts given in terms of a callee's parameters for a call of it.
func (c *Ctx) liftParts(p []keyPart, f *ssa.Function, call ssa.CallInstruction, depth int) ([]keyPart, bool) {
	var r []keyPart
	for _, q := range p {
		if q.v == nil || q.v.Op != "param" || q.v.Val.Parent() != f {
			if q.v != nil && !c.Exprs().overParams(q.v, nil) {
				return p, false
			}
			r = append(r, q)
			continue
		}
		i := paramIndex(q.v.Val.(*ssa.Parameter))
		args := call.Common().Args
		if i < 0 || i >= len(args) {
			return p, false
		}
		sub, ok := c.keyParts(args[i], depth+1)
		if !ok {
			return p, false
		}
		if q.safe || q.lost != "" {
			vars := 0
			for _, s := range sub {
				if s.v != nil {
					vars++
				}
			}
			if vars > 0 && len(sub) > 1 && q.safe {
				// a quoted composite: only as clear as the composite itself
				for j := range sub {
					sub[j].lost = q.lost
				}
				r = append(r, sub...)
				continue
			}
			for j := range sub {
				if sub[j].v != nil {
					sub[j].safe = sub[j].safe || q.safe
					if q.lost != "" {
						sub[j].lost = q.lost
					}
				}
			}
		}
		r = append(r, sub...)
	}
	return joinParts(r), true
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// variadic lists the elements of a literal argument list.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	r := make([]ssa.Value, arr.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		i, _ := constant.Int64Val(k.Value)
		for _, u := range *ia.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ia {
				r[i] = s.Val
			}
		}
	}
	for _, x := range r {
		if x == nil {
			return nil, false
		}
	}
	return r, true
}

func keyString(ps []keyPart) string {
	var sb strings.Builder
	for _, p := range ps {
		if p.v == nil {
			sb.WriteString(fmt.Sprintf("%q", p.lit))
		} else {
			q := "raw"
			if p.safe {
				q = "quoted"
			}
			if p.lost != "" {
				q += "!" + p.lost
			}
			sb.WriteString("<" + q + " " + p.v.Key + ">")
		}
	}
	return sb.String()
}

// keyShow is keyString for people.
func keyShow(ps []keyPart) string {
	var sb strings.Builder
	for _, p := range ps {
		if p.v == nil {
			sb.WriteString(p.lit)
		} else {
			n := "…"
			if p.v.Val != nil && p.v.Op == "param" {
				n = p.v.Val.Name()
			} else if p.v.Op == "fld" {
				n = "." + p.v.Aux
			}
			if p.safe {
				n = `"` + n + `"`
			}
			sb.WriteString("<" + n + ">")
		}
	}
	return sb.String()
}

// dataSlice collects the values a value is computed from within its function
// (and the functions enclosing it), calls being computed from their arguments.
func (c *Ctx) dataSlice(v ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FreeVar:
			if b := c.binding(x); b != nil {
				visit(b)
			}
		case *ssa.Alloc:
			st, _ := c.storesTo(x)
			for _, s := range st {
				visit(s.Val)
			}
			for _, r := range *x.Referrers() {
				switch r := r.(type) {
				case *ssa.FieldAddr:
					for _, u := range *r.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == r {
							visit(s.Val)
						}
					}
				case *ssa.IndexAddr:
					for _, u := range *r.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == r {
							visit(s.Val)
						}
					}
				case ssa.CallInstruction: // filled through its address
					for _, a := range r.Common().Args {
						visit(a)
					}
				}
			}
		case *ssa.MakeMap, *ssa.MakeSlice:
			for _, r := range *v.Referrers() {
				if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == v {
					visit(mu.Key)
					visit(mu.Value)
				}
			}
		case *ssa.MakeClosure:
			for _, b := range x.Bindings {
				visit(b)
			}
		case *ssa.Call:
			visit(x.Call.Value)
			for _, a := range x.Call.Args {
				visit(a)
			}
			for _, g := range c.ModCallees(x) {
				for p := g.Parent(); p != nil; p = p.Parent() {
					if p == x.Parent() { // a local closure
						for _, bb := range g.Blocks {
							if ret, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok {
								for _, rv := range results(ret) {
									visit(rv)
								}
							}
						}
					}
				}
			}
		default:
			if in, ok := v.(ssa.Instruction); ok {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						visit(*op)
					}
				}
			}
		}
	}
	visit(v)
	return seen
}

// flows lists the values of the same function a value is copied to.
func flows(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Phi:
			flows(u, seen)
		case *ssa.ChangeInterface:
			flows(u, seen)
		case *ssa.Extract:
			if u.Index == 0 {
				flows(u, seen)
			}
		case *ssa.TypeAssert:
			if types.IsInterface(u.AssertedType) {
				flows(u, seen)
			}
		case *ssa.Store:
			if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == v {
				for _, w := range *al.Referrers() {
					if l, ok := w.(*ssa.UnOp); ok {
						flows(l, seen)
					}
				}
			}
		}
	}
}

// assertedTypes: the types a looked-up value is converted to in the function that looks it up.
func (c *Ctx) assertedTypes(v ssa.Value, seen map[ssa.Value]bool) []types.Type {
	flows(v, seen)
	var r []types.Type
	for x := range seen {
		for _, u := range *x.Referrers() {
			if ta, ok := u.(*ssa.TypeAssert); ok && ta.X == x && !types.IsInterface(ta.AssertedType) {
				r = append(r, ta.AssertedType)
			}
		}
	}
	return r
}

// liftResult is the value of a call through which a helper hands out what it looked up.
func liftResult(v ssa.Value, site ssa.CallInstruction) ssa.Value {
	call, ok := site.(*ssa.Call)
	if !ok || v == nil {
		return nil
	}
	seen := map[ssa.Value]bool{}
	flows(v, seen)
	for x := range seen {
		for _, u := range *x.Referrers() {
			ret, ok := u.(*ssa.Return)
			if !ok {
				continue
			}
			for i, rv := range ret.Results {
				if rv != x {
					continue
				}
				if len(ret.Results) == 1 || i == 0 {
					return call
				}
				for _, w := range *call.Referrers() {
					if ex, ok := w.(*ssa.Extract); ok && ex.Index == i {
						return ex
					}
				}
			}
		}
	}
	return nil
}

// storedTypes: the type of a value put into a cache, when it is known here.
func storedTypes(v ssa.Value) []types.Type {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return []types.Type{mi.X.Type()}
	}
	if v != nil && !types.IsInterface(v.Type()) {
		if _, fn := v.Type().Underlying().(*types.Signature); !fn {
			return []types.Type{v.Type()}
		}
	}
	return nil
}

// cacheSwitch is the package-level flag that turns caching off: a bool
// variable set from a parameter of the function that hands out the cache.
func (c *Ctx) cacheSwitch() *ssa.Global {
	for _, fn := range c.Fns {
		rs := fn.Signature.Results()
		hands := false
		for i := 0; i < rs.Len(); i++ {
			if isGoCache(rs.At(i).Type()) {
				hands = true
			}
		}
		if !hands {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if p, ok := s.Val.(*ssa.Parameter); ok && p.Type().Underlying() == types.Typ[types.Bool] {
					return g
				}
			}
		}
	}
	return nil
}

// switchedOff: caching is known to be on wherever in is executed.
func (c *Ctx) underFlag(fn *ssa.Function, in ssa.Instruction, a Atom, depth int) bool {
	if _, ok := c.Facts(fn).At(in).m[a.key()]; ok {
		return true
	}
	if depth > 4 {
		return false
	}
	if mc := c.closureSite(fn); mc != nil {
		if c.underFlag(mc.Parent(), mc, a, depth+1) {
			return true
		}
	}
	callers := c.Callers(fn)
	if len(callers) == 0 {
		return false
	}
	for _, s := range callers {
		if !c.underFlag(s.Parent(), s, a, depth+1) {
			return false
		}
	}
	return true
}

func p05(c *Ctx, r *Report) {
	r.Rule("no store: at a store into a cache, no error of a call the stored value is computed from may be non-nil")
	r.Rule("same key: within the computation that looks an entry up and stores it, both keys are built from the same texts and values in the same order")
	r.Rule("separating key: every parameter the stored value is computed from is part of the key, is not shortened or folded, and at most one part is written without quoting")
	r.Rule("separate kinds: keys of different computations that store values of the same type begin with texts neither of which is a prefix of the other")
	r.Rule("same kind: a looked-up value is converted to the type that is stored")
	r.Rule("same answer: the value stored and the value returned afterwards are computed one from the other")
	r.Rule("switch: every lookup and store in the answer cache happens only where the caching switch is known to be on")
	r.Assume("the taxonomy cache in hydratables is injected and has no switch of its own; it is absent or present as a whole")
	t := c.Exprs()
	ops := c.findCacheOps()
	r.Need(len(ops) > 0, "no cache lookups or stores found")
	gets, sets := 0, 0
	for _, o := range ops {
		if o.set {
			sets++
		} else {
			gets++
		}
		r.Fn(c, o.fn)
	}
	r.Count("lookups", gets)
	r.Count("stores", sets)

	for _, o := range ops {
		if o.set {
			o.types = storedTypes(o.val)
		} else if v, ok := o.op.(ssa.Value); ok && o.place == "cache" {
			o.res = v
			o.types = c.assertedTypes(v, map[ssa.Value]bool{})
		}
	}

	// the switch
	if sw := c.cacheSwitch(); sw != nil {
		flag := t.derefOf(t.X(sw, nil), sw, nil)
		for _, o := range ops {
			if o.place != "cache" || PkgOf(o.fn) != sw.Pkg.Pkg {
				continue
			}
			name := "lookup"
			if o.set {
				name = "store"
			}
			if c.underFlag(o.fn, o.op, Atom{K: "false", A: flag}, 0) {
				r.OK(fmt.Sprintf("%s in %s happens only with caching on", name, c.FnName(unitOf(o.fn))))
			} else {
				r.Bad("switch", name+" in "+c.FnName(unitOf(o.fn)), c.PosOf(o.op), "this %s is reached with caching switched off: %s is not known to be false here", name, sw.Name())
			}
		}
	} else {
		r.Open("no switch that turns caching off was recognised")
	}

	// lift operations of helpers to the computations that use them
	units := map[*ssa.Function][]*cacheOp{}
	work := ops
	for round := 0; round < 6; round++ {
		units = map[*ssa.Function][]*cacheOp{}
		for _, o := range work {
			units[unitOf(o.fn)] = append(units[unitOf(o.fn)], o)
		}
		changed := false
		var next []*cacheOp
		for _, o := range work {
			u := unitOf(o.fn)
			if !c.partial(u, units[u]) || c.awaits(u, units, 0) {
				next = append(next, o)
				continue
			}
			callers := c.Callers(u)
			if len(callers) == 0 {
				next = append(next, o)
				continue
			}
			for _, s := range callers {
				n := *o
				n.via = append(append([]ssa.CallInstruction{}, o.via...), s)
				n.at, n.fn = s, s.Parent()
				if o.known {
					n.key, n.known = c.liftParts(o.key, u, s, 0)
				}
				if o.set {
					// errors are judged in the frame the value was computed in
					n.val = c.liftValue(o.val, u, s)
					if len(n.types) == 0 {
						n.types = storedTypes(n.val)
					}
					p05errors(c, r, o)
				} else if len(n.types) == 0 {
					n.res = liftResult(o.res, s)
					if n.res != nil {
						n.types = c.assertedTypes(n.res, map[ssa.Value]bool{})
					}
				}
				next = append(next, &n)
				changed = true
			}
		}
		work = next
		if !changed {
			break
		}
	}
	units = map[*ssa.Function][]*cacheOp{}
	var order []*ssa.Function
	for _, o := range work {
		u := unitOf(o.fn)
		if units[u] == nil {
			order = append(order, u)
		}
		units[u] = append(units[u], o)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Pos() < order[j].Pos() })
	r.Count("memoising_computations", len(order))

	for _, u := range order {
		name := c.FnName(u)
		r.Fn(c, u)
		var g, s []*cacheOp
		for _, o := range units[u] {
			if o.set {
				s = append(s, o)
			} else {
				g = append(g, o)
			}
		}
		for _, o := range s {
			p05errors(c, r, o)
			p05answer(c, r, u, o)
			p05deps(c, r, u, o)
		}
		for _, a := range g {
			if !a.known {
				r.Open("the key of a lookup in " + name + " is not understood")
				continue
			}
			p05clear(c, r, u, a)
		}
		for _, b := range s {
			if !b.known {
				r.Open("the key of a store in " + name + " is not understood")
				continue
			}
			p05clear(c, r, u, b)
			if len(g) == 0 {
				continue
			}
			same, understood := false, true
			for _, a := range g {
				if a.place != b.place {
					continue
				}
				if !a.known {
					understood = false
				} else if keyString(a.key) == keyString(b.key) {
					same = true
				}
			}
			if same {
				r.OK(fmt.Sprintf("%s stores under the key it looks up (%s)", name, keyShow(b.key)))
			} else if understood {
				r.Bad("same-key", "store in "+name, c.PosOf(b.op), "%s stores its answer under %s but looks it up under %s", name, keyShow(b.key), keyShow(g[0].key))
			}
		}
		// kind
		for _, a := range g {
			for _, at := range a.types {
				ok, any := false, false
				for _, b := range s {
					if b.place != a.place {
						continue
					}
					for _, bt := range b.types {
						any = true
						if types.Identical(at, bt) || types.IsInterface(at) && types.AssignableTo(bt, at) {
							ok = true
						}
					}
				}
				if ok {
					r.OK(fmt.Sprintf("%s stores the type it looks up (%s)", name, types.TypeString(at, types.RelativeTo(u.Pkg.Pkg))))
				} else if any {
					r.Bad("same-kind", "lookup in "+name, c.PosOf(a.op), "%s expects %s in the cache but stores another type", name, at)
				}
			}
		}
	}
	p05kinds(c, r, order, units)
}

// awaits: a helper that holds the other half of u's operations has yet to be lifted into it.
func (c *Ctx) awaits(u *ssa.Function, units map[*ssa.Function][]*cacheOp, depth int) bool {
	g, s := halves(units[u])
	if g == s {
		return false
	}
	for w, ops := range units {
		wg, ws := halves(ops)
		if w == u || wg == ws || wg == g || !c.partial(w, ops) {
			continue
		}
		for _, site := range c.Callers(w) {
			if unitOf(site.Parent()) == u {
				return true
			}
		}
	}
	// through a helper that has no operation of its own yet
	for w, ops := range units {
		wg, ws := halves(ops)
		if w == u || wg == ws || wg == g || !c.partial(w, ops) {
			continue
		}
		for _, site := range c.Callers(w) {
			m := unitOf(site.Parent())
			if units[m] != nil {
				continue
			}
			for _, s2 := range c.Callers(m) {
				if unitOf(s2.Parent()) == u {
					return true
				}
			}
		}
	}
	return false
}

func halves(ops []*cacheOp) (g, s bool) {
	for _, o := range ops {
		if o.set {
			s = true
		} else {
			g = true
		}
	}
	return
}

// partial: the operations only make up half of a memoised computation, the
// other half being in its callers.
func (c *Ctx) partial(u *ssa.Function, ops []*cacheOp) bool {
	g, s := false, false
	for _, o := range ops {
		if o.set {
			s = true
		} else {
			g = true
		}
	}
	keyIsParam := true
	for _, o := range ops {
		ok := false
		for _, p := range o.key {
			if p.v != nil && p.v.Op == "param" && p.v.Val.Parent() == u {
				ok = true
			}
		}
		if !ok {
			keyIsParam = false
		}
	}
	if !keyIsParam {
		return false
	}
	if g != s {
		return true
	}
	// computes the value by calling one of its parameters
	for _, o := range ops {
		if !o.set {
			continue
		}
		for v := range c.dataSlice(o.val) {
			call, ok := v.(*ssa.Call)
			if !ok {
				continue
			}
			if p, ok := call.Call.Value.(*ssa.Parameter); ok && p.Parent() == u {
				return true
			}
		}
	}
	return false
}

// liftValue restates a value of a helper for one of its calls.
func (c *Ctx) liftValue(v ssa.Value, u *ssa.Function, site ssa.CallInstruction) ssa.Value {
	args := site.Common().Args
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.FreeVar:
			if b := c.rootBinding(x); b != nil {
				v = b
				continue
			}
		case *ssa.UnOp:
			if w := fwd(x); w != x {
				v = w
				continue
			}
			a := x.X
			if fv, ok := a.(*ssa.FreeVar); ok {
				if b := c.rootBinding(fv); b != nil {
					a = b
				}
			}
			if al, ok := a.(*ssa.Alloc); ok {
				if s := c.Exprs().onlyStore(al); s != nil {
					v = s.Val
					continue
				}
			}
		case *ssa.Parameter:
			if i := paramIndex(x); i >= 0 && i < len(args) && x.Parent() == u {
				return args[i]
			}
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.Call:
			if p, ok := x.Call.Value.(*ssa.Parameter); ok {
				if i := paramIndex(p); i >= 0 && i < len(args) && p.Parent() == u {
					return args[i] // the function that computes it
				}
			}
		}
		return nil
	}
}

// p05errors: nothing that may have failed is stored.
func p05errors(c *Ctx, r *Report, o *cacheOp) {
	if o.val == nil {
		return
	}
	sl := c.dataSlice(o.val)
	name := c.FnName(unitOf(o.fn))
	at, fn := o.at, o.fn
	bad := false
	n := 0
	for {
		pend := c.pendingAt(fn, nil)(at)
		for v := range sl {
			call, ok := v.(*ssa.Call)
			if !ok || call.Parent() != fn {
				continue
			}
			ei := errIndex(call.Call.Signature())
			if ei < 0 || call.Call.Signature().Results().Len() < 2 {
				continue
			}
			n++
			ev := errValues(call)
			if len(ev) == 0 {
				if !c.harmlessError(call) {
					bad = true
					r.Bad("no-failures", "store in "+name, c.PosOf(o.op), "%s stores a value computed by %s, whose error is ignored", name, calleeName(call.Common()))
				}
				continue
			}
			for _, p := range pend {
				if p.call == call {
					bad = true
					r.Bad("no-failures", "store in "+name, c.PosOf(o.op), "%s stores the outcome of %s (%s) where it may have failed", name, calleeName(call.Common()), c.PosOf(call))
				}
			}
		}
		mc := c.closureSite(fn)
		if mc == nil {
			break
		}
		at, fn = mc, mc.Parent()
	}
	if !bad {
		r.OK(fmt.Sprintf("store in %s follows the success of the %d calls it depends on", name, n))
	}
}

// p05answer: what is stored is what is answered.
func p05answer(c *Ctx, r *Report, u *ssa.Function, o *cacheOp) {
	if o.val == nil {
		return
	}
	if _, ok := o.val.Type().Underlying().(*types.Signature); ok {
		return
	}
	at := o.at
	for fn := o.fn; fn.Parent() != nil; fn = fn.Parent() {
		mc := c.closureSite(fn)
		if mc == nil {
			return
		}
		at = mc
	}
	if at.Parent() != u || u.Signature.Results().Len() == 0 {
		return
	}
	stored := c.dataSlice(o.val)
	ei := errIndex(u.Signature)
	f := c.Facts(u)
	for _, b := range u.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !reachesInstr(at, ret) {
			continue
		}
		rs := results(ret)
		if ei >= 0 && f.nonNil(rs[ei], f.At(ret)) {
			continue
		}
		v := rs[0]
		if isConst(v) {
			r.Bad("same-answer", "store in "+c.FnName(u), c.PosOf(ret), "%s stores one value but answers a constant", c.FnName(u))
			continue
		}
		sl := c.dataSlice(v)
		related := false
		for x := range stored {
			if sl[x] {
				switch x.(type) {
				case *ssa.Call, *ssa.Extract, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
					// shared computation, and nothing else computed on top
					if c.coreOf(o.val)[x] && c.coreOf(v)[x] {
						related = true
					}
				}
			}
		}
		if x := t0(c, o.val); x != nil && sl[x] {
			related = true
		}
		if stored[v] {
			related = true
		}
		if related {
			r.OK(fmt.Sprintf("%s answers what it stores", c.FnName(u)))
		} else if len(c.coreOf(v)) == 0 || len(c.coreOf(o.val)) == 0 {
			r.Open("how the answer of " + c.FnName(u) + " relates to what it stores is not understood")
		} else {
			r.Bad("same-answer", "store in "+c.FnName(u), c.PosOf(o.op), "%s stores a value unrelated to the one it answers at %s", c.FnName(u), c.PosOf(ret))
		}
	}
	// a shortened copy
	v := o.val
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		break
	}
	if s, ok := v.(*ssa.Slice); ok && (s.Low != nil || s.High != nil) {
		r.Bad("same-answer", "store in "+c.FnName(u), c.PosOf(o.op), "%s stores only a part of its answer", c.FnName(u))
	}
}

func t0(c *Ctx, v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.FreeVar:
			b := c.rootBinding(x)
			if b == nil {
				return nil
			}
			v = b
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return v
		}
	}
}

// coreOf: the calls or allocations a value comes from through copies only.
func (c *Ctx) coreOf(v ssa.Value) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			visit(x.X)
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.Convert:
			visit(x.X)
		case *ssa.TypeAssert:
			visit(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.FreeVar:
			if b := c.rootBinding(x); b != nil {
				visit(b)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				visit(x.X)
			}
		case *ssa.FieldAddr:
			r[x] = true
			visit(x.X)
		case *ssa.Field:
			visit(x.X)
		case *ssa.Slice:
			visit(x.X)
		case *ssa.Alloc:
			r[x] = true
			st, _ := c.storesTo(x)
			for _, s := range st {
				visit(s.Val)
			}
		case *ssa.Extract:
			visit(x.Tuple)
		case *ssa.Call:
			r[x] = true
			// copies
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					visit(a)
				}
			} else if f := x.Call.StaticCallee(); f != nil {
				for _, a := range x.Call.Args {
					if types.Identical(a.Type(), x.Type()) {
						visit(a)
					}
				}
			}
		case *ssa.MakeMap, *ssa.MakeSlice:
			r[x] = true
		}
	}
	visit(v)
	return r
}

// p05deps: the key contains every parameter the value is computed from.
func p05deps(c *Ctx, r *Report, u *ssa.Function, o *cacheOp) {
	if o.val == nil || !o.known {
		return
	}
	have := map[ssa.Value]bool{}
	for _, p := range o.key {
		if p.v != nil {
			p.v.leaves(func(l *Expr) {
				if l.Val != nil {
					have[l.Val] = true
				}
			})
		}
	}
	sl := c.dataSlice(o.val)
	for _, p := range u.Params {
		if !sl[p] {
			continue
		}
		if have[p] {
			r.OK(fmt.Sprintf("the key in %s contains %s", c.FnName(u), p.Name()))
			continue
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			continue
		}
		// a parameter that is itself looked up by what the key contains
		if c.determined(p, have) {
			r.OK(fmt.Sprintf("%s of %s is determined by the key", p.Name(), c.FnName(u)))
			continue
		}
		r.Bad("separating-key", "parameter "+p.Name()+" of "+c.FnName(u), c.PosOf(o.op), "the answer of %s depends on %s, which is not part of its cache key %s", c.FnName(u), p.Name(), keyShow(o.key))
	}
}

// determined: at every call, the argument is computed from the arguments the key already contains.
func (c *Ctx) determined(p *ssa.Parameter, have map[ssa.Value]bool) bool {
	fn := p.Parent()
	i := paramIndex(p)
	callers := c.Callers(fn)
	if len(callers) == 0 {
		return false
	}
	for _, s := range callers {
		args := s.Common().Args
		if i >= len(args) {
			return false
		}
		sl := c.dataSlice(args[i])
		ok := map[ssa.Value]bool{}
		for j, q := range fn.Params {
			if have[q] && j < len(args) {
				ok[args[j]] = true
			}
		}
		n := 0
		for v := range sl {
			switch v.(type) {
			case *ssa.Parameter:
				if !ok[v] {
					return false
				}
				n++
			case *ssa.FreeVar:
			}
		}
		if n == 0 {
			return false
		}
	}
	return true
}

// p05clear: different parameters give different keys.
func p05clear(c *Ctx, r *Report, u *ssa.Function, o *cacheOp) {
	raw := 0
	for i, p := range o.key {
		if p.v == nil {
			continue
		}
		if p.lost != "" {
			r.Bad("separating-key", "key in "+c.FnName(u), c.PosOf(o.op), "a part of the cache key %s of %s does not separate all values: %s", keyShow(o.key), c.FnName(u), p.lost)
			return
		}
		if !p.safe {
			raw++
		} else if i+1 < len(o.key) && o.key[i+1].v != nil && isInt(p.v.Type) {
			raw++
		}
	}
	if raw > 1 {
		r.Bad("separating-key", "key in "+c.FnName(u), c.PosOf(o.op), "the cache key %s of %s runs %d values together unquoted, so different parameters can give the same key", keyShow(o.key), c.FnName(u), raw)
		return
	}
	r.OK(fmt.Sprintf("key %s of %s separates its parameters", keyShow(o.key), c.FnName(u)))
}

// p05kinds: computations of the same type do not share keys.
func p05kinds(c *Ctx, r *Report, order []*ssa.Function, units map[*ssa.Function][]*cacheOp) {
	type entry struct {
		u *ssa.Function
		o *cacheOp
	}
	var es []entry
	for _, u := range order {
		seen := map[string]bool{}
		for _, o := range units[u] {
			if o.known && len(o.types) > 0 && !seen[keyString(o.key)] {
				seen[keyString(o.key)] = true
				es = append(es, entry{u, o})
			}
		}
	}
	prefix := func(k []keyPart) (string, bool) {
		if len(k) == 0 {
			return "", true
		}
		if k[0].v != nil {
			return "", false
		}
		return k[0].lit, len(k) == 1
	}
	for i, a := range es {
		for _, b := range es[i+1:] {
			if a.u == b.u || a.o.place != b.o.place {
				continue
			}
			shared := false
			for _, x := range a.o.types {
				for _, y := range b.o.types {
					if types.Identical(x, y) {
						shared = true
					}
				}
			}
			if !shared {
				continue
			}
			pa, fa := prefix(a.o.key)
			pb, fb := prefix(b.o.key)
			clash := false
			switch {
			case fa && fb:
				clash = pa == pb
			case fa:
				clash = strings.HasPrefix(pa, pb)
			case fb:
				clash = strings.HasPrefix(pb, pa)
			default:
				clash = strings.HasPrefix(pa, pb) || strings.HasPrefix(pb, pa)
			}
			if clash {
				r.Bad("separate-kinds", c.FnName(a.u)+" and "+c.FnName(b.u), c.PosOf(b.o.op), "%s and %s store the same type under keys that can coincide: %s and %s", c.FnName(a.u), c.FnName(b.u), keyShow(a.o.key), keyShow(b.o.key))
			} else {
				r.OK(fmt.Sprintf("%s and %s use different keys", c.FnName(a.u), c.FnName(b.u)))
			}
		}
	}
}
