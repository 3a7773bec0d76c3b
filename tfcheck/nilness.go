package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// why explains how a value can be nil; empty when there is no evidence that it can.
type why string

type nilCond struct {
	idx  int
	want string // nil nn true false
}

type resKey struct {
	fn  *ssa.Function
	j   int
	idx int
	w   string
}

var resMemo = map[resKey]why{}
var resBusy = map[resKey]bool{}

// resultNonNil: result j of the call is not nil given the outcome of result idx.
func (c *Ctx) resultNonNil(call *ssa.Call, j, idx int, want string) bool {
	return c.resultMayNil(call, j, &nilCond{idx, want}) == ""
}

// nilReturning lists functions outside of the module that report "none" by nil.
var nilReturning = map[string]bool{
	"github.com/antchfx/xmlquery.FindOne": true, "github.com/antchfx/xmlquery.QuerySelector": true,
	"(*github.com/antchfx/xmlquery.Node).SelectElement": true,
	"(*net/url.URL).User":                               true,
	"(*go/types.Package).Scope":                         false,
	"(*html/template.Template).Lookup":                  true,
	"github.com/gorilla/mux.CurrentRoute":               true,
}

func (c *Ctx) resultMayNil(call *ssa.Call, j int, cond *nilCond) why {
	cc := call.Common()
	mods := c.ModCallees(call)
	if len(mods) == 0 {
		res := cc.Signature().Results()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return ""
		}
		name := ""
		if cc.IsInvoke() {
			name = stdName(cc.Method)
		} else if f := cc.StaticCallee(); f != nil {
			name = stdFuncName(f)
		}
		if nilReturning[name] {
			return why(name + " returns nil when there is none")
		}
		if res.Len() > 1 && j < res.Len() && cond == nil {
			last := res.At(res.Len() - 1).Type()
			if isErrorType(last) && j != res.Len()-1 {
				if _, ok := res.At(j).Type().Underlying().(*types.Pointer); ok {
					return why(name + " returns nil together with an error")
				}
			}
			if b, ok := last.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && j != res.Len()-1 {
				if _, ok := res.At(j).Type().Underlying().(*types.Pointer); ok {
					return why(name + " returns nil together with false")
				}
			}
		}
		return ""
	}
	for _, g := range mods {
		if w := c.fnMayNil(g, j, cond); w != "" {
			return w
		}
	}
	return ""
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (c *Ctx) fnMayNil(g *ssa.Function, j int, cond *nilCond) why {
	k := resKey{fn: g, j: j, idx: -1}
	if cond != nil {
		k.idx, k.w = cond.idx, cond.want
	}
	if w, ok := resMemo[k]; ok {
		return w
	}
	if resBusy[k] {
		return ""
	}
	resBusy[k] = true
	defer func() { delete(resBusy, k) }()
	f := c.Facts(g)
	var res why
	for _, b := range g.Blocks {
		if len(b.Instrs) == 0 || f.in[b] == nil || b == g.Recover {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || j >= len(ret.Results) {
			continue
		}
		st := f.At(ret)
		v := results(ret)[j]
		if cond != nil && cond.idx < len(ret.Results) {
			cv := results(ret)[cond.idx]
			if f.contradicts(cv, cond.want, st) {
				continue
			}
			// what the outcome of the condition implies inside
			st = st.clone()
			switch cond.want {
			case "nil", "nn":
				f.learn(st, Atom{K: cond.want, A: f.t.X(cv, nil)})
			default:
				for _, a := range f.assume(cv, cond.want == "true", nil, 0) {
					f.learn(st, a)
				}
			}
		}
		// merged returns: look at the edges one by one so that results stay correlated
		if w := f.retMayNil(ret, j, cond, st); w != "" {
			res = why(fmt.Sprintf("%s returns nil at %s", c.FnName(g), c.PosOf(ret)))
			if _, isConst := v.(*ssa.Const); !isConst {
				res += " (" + w + ")"
			}
			break
		}
	}
	resMemo[k] = res
	return res
}

// retMayNil evaluates result j at a return, splitting phis of the return
// block by edge.
func (f *Facts) retMayNil(ret *ssa.Return, j int, cond *nilCond, st *State) why {
	v := results(ret)[j]
	ph, ok := v.(*ssa.Phi)
	if ok && ph.Block() == ret.Block() && cond != nil {
		var cp *ssa.Phi
		if cond.idx < len(ret.Results) {
			cp, _ = results(ret)[cond.idx].(*ssa.Phi)
		}
		for i, e := range ph.Edges {
			es := f.EdgeState(ph.Block().Preds[i], ph.Block())
			if cp != nil && cp.Block() == ph.Block() {
				if f.contradicts(cp.Edges[i], cond.want, es) {
					continue
				}
				es = es.clone()
				if cond.want == "nil" || cond.want == "nn" {
					f.learn(es, Atom{K: cond.want, A: f.t.X(cp.Edges[i], nil)})
				} else {
					for _, a := range f.assume(cp.Edges[i], cond.want == "true", nil, 0) {
						f.learn(es, a)
					}
				}
			}
			if w := f.mayNil(e, es, 0); w != "" {
				return w
			}
		}
		return ""
	}
	return f.mayNil(v, st, 0)
}

// contradicts: value v cannot have the wanted outcome in this state.
func (f *Facts) contradicts(v ssa.Value, want string, s *State) bool {
	e := f.t.X(v, nil)
	switch want {
	case "nil":
		return f.nonNil(v, s)
	case "nn":
		if k, ok := v.(*ssa.Const); ok && k.Value == nil {
			return true
		}
		return s.has("nil", e)
	case "true", "false":
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			return k.Value.ExactString() != want
		}
		if want == "true" {
			return s.has("false", e)
		}
		return s.has("true", e)
	}
	return false
}

type mayKey struct{ v ssa.Value }

var paramBusy = map[ssa.Value]bool{}
var paramMemo = map[ssa.Value]why{}
var phiBusy = map[ssa.Value]bool{}

// mayNil looks for evidence that v can be nil in the given state.
func (f *Facts) mayNil(v ssa.Value, s *State, depth int) why {
	if depth > 12 {
		return ""
	}
	e := f.t.X(v, nil)
	if definitelyNonNil(v) || s.has("nn", e) {
		return ""
	}
	for _, a := range s.m {
		if a.K == "same" && a.A == e && a.B != nil && s.has("nn", a.B) {
			return ""
		}
		if a.K == "eq" && (a.A == e && a.B != nil && s.has("nn", a.B)) {
			return ""
		}
		// a non-empty slice, map or string is not nil
		if a.K == "le" && a.A == nil && a.B != nil && a.B.Op == "len" && a.B.Args[0] == e && a.N < 0 {
			return ""
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil && isNillable(x.Type()) {
			return "nil constant"
		}
		return ""
	case *ssa.ChangeType:
		return f.mayNil(x.X, s, depth+1)
	case *ssa.ChangeInterface:
		return f.mayNil(x.X, s, depth+1)
	case *ssa.Phi:
		if phiBusy[x] {
			return ""
		}
		phiBusy[x] = true
		defer delete(phiBusy, x)
		for i, ev := range x.Edges {
			p := x.Block().Preds[i]
			if f.out[p] == nil {
				continue
			}
			es := f.EdgeState(p, x.Block())
			if es.has("nn", e) {
				continue
			}
			if w := f.mayNil(ev, es, depth+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Extract:
		switch tp := x.Tuple.(type) {
		case *ssa.Call:
			return f.callResult(tp, x.Index, s)
		case *ssa.Lookup:
			if x.Index == 0 {
				return f.lookupNil(tp, s)
			}
		case *ssa.TypeAssert:
			if x.Index == 0 && isNillable(tp.AssertedType) {
				return why("the conversion at " + f.c.PosOf(tp) + " may not have succeeded")
			}
		}
		return ""
	case *ssa.Call:
		return f.callResult(x, 0, s)
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			return ""
		}
		return f.lookupNil(x, s)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return f.loadNil(x, e, s, depth)
		}
	case *ssa.Field:
		return f.fieldNil(x.X.Type(), x.Field, e, s)
	case *ssa.Parameter:
		return f.c.paramMayNil(x)
	}
	return ""
}

func (f *Facts) callResult(call *ssa.Call, j int, s *State) why {
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		_ = b
		return ""
	}
	// the other results of the call tell which returns are possible
	var cond *nilCond
	res := call.Call.Signature().Results()
	if call.Referrers() != nil {
		for _, r := range *call.Referrers() {
			ex, ok := r.(*ssa.Extract)
			if !ok || ex.Index == j {
				continue
			}
			e := f.t.X(ex, nil)
			switch {
			case s.has("nil", e):
				cond = &nilCond{ex.Index, "nil"}
			case s.has("true", e):
				cond = &nilCond{ex.Index, "true"}
			}
			if cond != nil && f.c.resultMayNil(call, j, cond) == "" {
				return ""
			}
		}
	}
	_ = res
	w := f.c.resultMayNil(call, j, cond)
	if w == "" {
		return ""
	}
	// results that depend on what was passed in: judge this call by its own arguments
	return w
}

func (f *Facts) lookupNil(l *ssa.Lookup, s *State) why {
	m, ok := l.X.Type().Underlying().(*types.Map)
	if !ok {
		return ""
	}
	if _, ok := m.Elem().Underlying().(*types.Pointer); !ok {
		if _, ok := m.Elem().Underlying().(*types.Map); !ok {
			if _, ok := m.Elem().Underlying().(*types.Interface); !ok {
				return ""
			}
		}
	}
	has := f.t.mk(&Expr{Op: "has", Args: []*Expr{f.t.X(l.X, nil), f.t.X(l.Index, nil)}, Type: types.Typ[types.Bool], Mem: true})
	if s.has("true", has) {
		return ""
	}
	if f.c.keyOfMap(l.Index, l.X, 0) {
		return ""
	}
	lk := f.t.mk(&Expr{Op: "lookup", Args: has.Args, Type: l.Type()})
	if f.c.heldByCallers(f.fn, Atom{K: "true", A: has}, 0) || f.c.heldByCallers(f.fn, Atom{K: "nn", A: lk}, 0) {
		return ""
	}
	return why("the map may have no entry for that key")
}

// keyOfMap: the key was obtained from the map itself (iteration or a list of its keys).
func (c *Ctx) keyOfMap(k, m ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	t := c.Exprs()
	switch x := k.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok && (r.X == m || t.X(r.X, nil) == t.X(m, nil)) {
				return true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				return c.listOfKeys(ia.X, m, depth+1)
			}
		}
	}
	return false
}

// listOfKeys: a slice that was built from the keys of a map.
func (c *Ctx) listOfKeys(s, m ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	t := c.Exprs()
	switch x := s.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			if e == s {
				continue
			}
			if c.listOfKeys(e, m, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, u := range *ia.Referrers() {
								st, ok := u.(*ssa.Store)
								if !ok {
									continue
								}
								if c.keyOfMap(st.Val, m, depth+1) {
									return true
								}
								// the key is entered into the map at the same place
								pf := c.Facts(x.Parent())
								has := t.mk(&Expr{Op: "has", Args: []*Expr{t.X(m, nil), t.X(st.Val, nil)}, Type: types.Typ[types.Bool], Mem: true})
								if pf.At(x).has("true", has) || pf.out[x.Block()] != nil && pf.out[x.Block()].has("true", has) {
									return true
								}
							}
						}
					}
				}
			}
			return false
		}
		for i, a := range x.Call.Args {
			if t.X(a, nil) == t.X(m, nil) {
				// a function that lists the keys of its argument
				g := x.Call.StaticCallee()
				if g == nil {
					continue
				}
				if i < len(g.Params) && len(g.Blocks) > 0 {
					for _, b := range g.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
							if c.listOfKeys(results(ret)[0], g.Params[i], depth+1) {
								return true
							}
						}
					}
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			var addr ssa.Value = x.X
			if fv, ok := addr.(*ssa.FreeVar); ok {
				addr = c.rootBinding(fv)
			}
			if al, ok := addr.(*ssa.Alloc); ok {
				st, _ := c.storesTo(al)
				for _, q := range st {
					if c.listOfKeys(q.Val, m, depth+1) {
						return true
					}
				}
			}
		}
	case *ssa.Slice:
		return c.listOfKeys(x.X, m, depth+1)
	}
	return false
}

// heldByCallers: a fact about parameters holds at every call of the function.
func (c *Ctx) heldByCallers(fn *ssa.Function, a Atom, depth int) bool {
	t := c.Exprs()
	if depth > 3 || a.A != nil && !t.overParams(a.A, fn) || a.B != nil && !t.overParams(a.B, fn) {
		return false
	}
	var sites []ssa.CallInstruction
	for _, s := range c.Callers(fn) {
		sites = append(sites, s)
	}
	if len(sites) == 0 {
		return false
	}
	for _, site := range sites {
		cc := site.Common()
		pf := c.Facts(site.Parent())
		sub := map[string]*Expr{}
		args := cc.Args
		off := 0
		if cc.IsInvoke() {
			off = 1
		}
		for i, p := range fn.Params {
			if i-off >= 0 && i-off < len(args) {
				sub[t.X(p, nil).Key] = t.X(args[i-off], nil)
			}
		}
		n := a
		if a.A != nil {
			n.A = t.subst(a.A, sub)
		}
		if a.B != nil {
			n.B = t.subst(a.B, sub)
		}
		s := pf.At(site)
		ok := false
		for _, m := range pf.renorm(n) {
			if m.K == "le" {
				ok = pf.proves(s, m.A, m.B, m.N)
			} else {
				_, ok = s.m[m.key()]
			}
			if !ok {
				ok = c.heldByCallers(site.Parent(), m, depth+1)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// loadNil judges a value read from memory.
func (f *Facts) loadNil(x *ssa.UnOp, e *Expr, s *State, depth int) why {
	if e.Op != "var" && e.Op != "fld" && e.Op != "idx" && e.Op != "global" && e.Op != "deref" {
		// the variable has one known value
		if e.Val != nil && e.Val != x {
			if in, ok := e.Val.(ssa.Instruction); ok && in.Parent() == f.fn {
				return f.mayNil(e.Val, s, depth+1)
			}
			if p, ok := e.Val.(*ssa.Parameter); ok {
				if p.Parent() == f.fn {
					return f.c.paramMayNil(p)
				}
			}
			// a value of the enclosing function: judge it where the closure is made
			if mc := f.c.closureSite(f.fn); mc != nil && e.Val.Parent() == mc.Parent() {
				pf := f.c.Facts(mc.Parent())
				return pf.mayNil(e.Val, pf.At(mc), depth+1)
			}
		}
		if e.Op == "nil" {
			return "nil constant"
		}
		return ""
	}
	switch e.Op {
	case "var":
		al, ok := e.Val.(*ssa.Alloc)
		if !ok {
			return ""
		}
		return f.varNil(al, x, s, depth)
	case "fld":
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return f.fieldNil(deref(fa.X.Type()), fa.Field, e, s)
		}
	}
	return ""
}

// varNil judges a variable shared with closures by the values assigned to it.
func (f *Facts) varNil(al *ssa.Alloc, at *ssa.UnOp, s *State, depth int) why {
	if phiBusy[al] {
		return ""
	}
	phiBusy[al] = true
	defer delete(phiBusy, al)
	stores, escapes := f.c.storesTo(al)
	if escapes {
		return ""
	}
	if len(stores) == 0 {
		return "the variable is never assigned"
	}
	loc := f.t.mk(&Expr{Op: "var", N: int64(f.c.ID(al)), Val: al, Type: deref(al.Type())})
	if s.has("nn", loc) {
		return ""
	}
	for _, st := range stores {
		// overwritten on every way to the use
		if st.Parent() == at.Parent() && shadowed(st, at, stores) {
			continue
		}
		if st.Parent() == at.Parent() && !reachesInstr(st, at) {
			continue
		}
		pf := f.c.Facts(st.Parent())
		ps := pf.At(st)
		// a later test of the error that was returned along with the value
		if ex, ok := st.Val.(*ssa.Extract); ok {
			if call, ok := ex.Tuple.(*ssa.Call); ok && call.Referrers() != nil {
				guarded := false
				for _, r := range *call.Referrers() {
					o, ok := r.(*ssa.Extract)
					if !ok || o.Index == ex.Index || o.Referrers() == nil {
						continue
					}
					for _, u := range *o.Referrers() {
						os, ok := u.(*ssa.Store)
						if !ok {
							continue
						}
						ol := f.t.X(os.Addr, nil)
						if ol.Op == "addr" && s.has("nil", ol.Args[0]) && f.c.resultMayNil(call, ex.Index, &nilCond{o.Index, "nil"}) == "" {
							guarded = true
						}
						if ol.Op == "addr" && s.has("true", ol.Args[0]) && f.c.resultMayNil(call, ex.Index, &nilCond{o.Index, "true"}) == "" {
							guarded = true
						}
					}
				}
				if guarded {
					continue
				}
			}
		}
		if w := pf.mayNil(st.Val, ps, depth+1); w != "" {
			return w
		}
	}
	return ""
}

// shadowed: another store lies between st and the use on every path.
func shadowed(st *ssa.Store, at ssa.Instruction, stores []*ssa.Store) bool {
	for _, o := range stores {
		if o == st || o.Parent() != at.Parent() {
			continue
		}
		if precedes(st, o) && precedes(o, at) && !reachesInstrWithout(st, at, o) {
			return true
		}
	}
	return false
}

func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && precedes(a, b) {
		return true
	}
	for _, s := range a.Block().Succs {
		if reaches(s, b.Block()) {
			return true
		}
	}
	return false
}

func reachesInstrWithout(a, b, not ssa.Instruction) bool {
	if a.Block() == b.Block() && precedes(a, b) {
		return !(not.Block() == a.Block() && precedes(a, not) && precedes(not, b))
	}
	if not.Block() == a.Block() && precedes(a, not) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			if not.Block() == x && precedes(not, b) {
				continue
			}
			return true
		}
		if x == not.Block() {
			continue
		}
		stack = append(stack, x.Succs...)
	}
	return false
}

type fieldKey struct {
	t string
	f string
}

var nilFields map[fieldKey]why

// setUnder lists the string constants one of which a creator tests for before setting a field.
var setUnder = map[fieldKey][]string{}

// eqConst: the branch condition, with this outcome, says that a string equals a constant.
func eqConst(cond ssa.Value, truth bool) (ssa.Value, string, bool) {
	switch v := cond.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return eqConst(v.X, !truth)
		}
	case *ssa.BinOp:
		if v.Op == token.EQL && truth || v.Op == token.NEQ && !truth {
			if s, ok := constStr(v.Y); ok {
				return v.X, s, true
			}
			if s, ok := constStr(v.X); ok {
				return v.Y, s, true
			}
		}
	}
	return nil, "", false
}

func constStr(v ssa.Value) (string, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	return "", false
}

// caseConsts: the constants whose match leads to the branch an instruction lies in.
func caseConsts(fn *ssa.Function, at ssa.Instruction) []string {
	var r []string
	for _, b := range fn.Blocks {
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			for i, s := range b.Succs {
				if _, k, ok := eqConst(br.Cond, i == 0); ok && s.Dominates(at.Block()) {
					r = append(r, k)
				}
			}
		}
	}
	return r
}

// onlyUnder: the block is entered only after a string was found equal to one of the constants.
func (c *Ctx) onlyUnder(blk *ssa.BasicBlock, consts []string, depth int) bool {
	in := map[string]bool{}
	for _, k := range consts {
		in[k] = true
	}
	fn := blk.Parent()
	seen := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if b == blk {
			return false
		}
		br, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			if isIf && c.impliesOneOf(br.Cond, i == 0, in, consts, depth) {
				continue
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return true
}

func (c *Ctx) impliesOneOf(v ssa.Value, truth bool, in map[string]bool, consts []string, depth int) bool {
	if depth > 4 {
		return false
	}
	if _, k, ok := eqConst(v, truth); ok {
		return in[k]
	}
	want := "false"
	if truth {
		want = "true"
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return c.impliesOneOf(x.X, !truth, in, consts, depth+1)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() != want {
				continue
			}
			if c.impliesOneOf(e, truth, in, consts, depth+1) {
				continue
			}
			p := x.Block().Preds[i]
			if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] && c.impliesOneOf(br.Cond, p.Succs[0] == x.Block(), in, consts, depth+1) {
				continue
			}
			if c.onlyUnder(p, consts, depth+1) {
				continue
			}
			return false
		}
		return true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !c.InModule(g) || len(g.Blocks) == 0 {
			return false
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			rv := results(ret)[0]
			if k, ok := rv.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() != want {
				continue
			}
			if c.impliesOneOf(rv, truth, in, consts, depth+1) || c.onlyUnder(b, consts, depth+1) {
				continue
			}
			return false
		}
		return true
	}
	return false
}

// fieldNil: pointer fields that are left unset, or set to nil, for some values of the struct.
func (f *Facts) fieldNil(st types.Type, i int, e *Expr, s *State) why {
	n, ok := st.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !f.c.inModulePath(n.Obj().Pkg().Path()) {
		return ""
	}
	str := n.Underlying().(*types.Struct)
	if nilFields == nil {
		f.c.findNilFields()
	}
	w := nilFields[fieldKey{n.Obj().Id() + "@" + n.Obj().Pkg().Path() + "." + n.Obj().Name(), str.Field(i).Name()}]
	if w == "" {
		return ""
	}
	return w
}

// findNilFields determines which pointer fields of module structs can be nil:
// a value of the struct is created and, in the creating function, the field
// is not assigned a non-nil value on every path.
func (c *Ctx) findNilFields() {
	nilFields = map[fieldKey]why{}
	for _, fn := range c.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n, ok := deref(al.Type()).(*types.Named)
				if !ok || n.Obj().Pkg() == nil || !c.inModulePath(n.Obj().Pkg().Path()) {
					continue
				}
				str, ok := n.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				whole, other := false, false
				fieldStores := map[int][]*ssa.Store{}
				var copies []ssa.Instruction
				for _, r := range *al.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == al {
							whole = true
						}
					case *ssa.FieldAddr:
						for _, u := range *r.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == r {
								fieldStores[r.Field] = append(fieldStores[r.Field], st)
							}
						}
					case *ssa.Call, *ssa.Go, *ssa.Defer:
						other = true // e.g. decoded into
					case *ssa.MakeInterface:
						other = true
					case *ssa.UnOp:
						copies = append(copies, r)
					}
				}
				if whole || other && len(fieldStores) == 0 {
					continue
				}
				for i := 0; i < str.NumFields(); i++ {
					if _, ok := str.Field(i).Type().Underlying().(*types.Pointer); !ok {
						continue
					}
					k := fieldKey{n.Obj().Id() + "@" + n.Obj().Pkg().Path() + "." + n.Obj().Name(), str.Field(i).Name()}
					sts := fieldStores[i]
					if len(sts) == 0 {
						if len(fieldStores) > 0 && !other {
							nilFields[k] = why(fmt.Sprintf("%s.%s is left unset at %s", n.Obj().Name(), str.Field(i).Name(), c.Pos(al.Pos())))
						}
						continue
					}
					sure := false
					for _, st := range sts {
						pf := c.Facts(st.Parent())
						if pf.mayNil(st.Val, pf.At(st), 0) == "" {
							// assigned on every way out
							if st.Parent() == fn && onEveryExit(al, st, fn) {
								sure = true
							}
						}
					}
					if !sure {
						for _, st := range sts {
							if st.Parent() == fn {
								setUnder[k] = append(setUnder[k], caseConsts(fn, st)...)
							}
						}
						nilFields[k] = why(fmt.Sprintf("%s.%s is not set on every path at %s", n.Obj().Name(), str.Field(i).Name(), c.Pos(al.Pos())))
					}
				}
			}
		}
	}
}

// onEveryExit: the instruction lies on every path to a return that can be
// reached from the start with the value (approximated by dominance).
func onEveryExit(al, st ssa.Instruction, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == fn.Recover {
			continue
		}
		if !precedes(st, ret) {
			// failing returns do not hand out the value
			n := len(ret.Results)
			if n > 0 && isErrorType(results(ret)[n-1].Type()) {
				if k, ok := results(ret)[n-1].(*ssa.Const); !ok || k.Value != nil {
					continue
				}
			}
			if reachesInstr(al, ret) {
				return false
			}
		}
	}
	return true
}

// paramMayNil: some call of the module passes a value that can be nil.
func debugNilFields() {
	for k, w := range nilFields {
		fmt.Println("nilfield", k, w)
	}
}

func (c *Ctx) paramMayNil(p *ssa.Parameter) why {
	if w, ok := paramMemo[p]; ok {
		return w
	}
	if paramBusy[p] {
		return ""
	}
	paramBusy[p] = true
	defer delete(paramBusy, p)
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	var res why
	for _, site := range c.Callers(fn) {
		cc := site.Common()
		args := cc.Args
		i := idx
		if cc.IsInvoke() {
			if idx == 0 {
				continue
			}
			i = idx - 1
		}
		if i >= len(args) || fn.Signature.Variadic() && idx == len(fn.Params)-1 {
			continue
		}
		pf := c.Facts(site.Parent())
		if w := pf.mayNil(args[i], pf.At(site), 1); w != "" {
			res = why(fmt.Sprintf("%s passes a value that may be nil at %s: %s", c.FnName(site.Parent()), c.PosOf(site), w))
			break
		}
	}
	paramMemo[p] = res
	return res
}
