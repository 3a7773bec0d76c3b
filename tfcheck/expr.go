package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Expr is a canonical description of a value: two occurrences with the same
// key denote the same value as long as the memory it mentions is unchanged.
type Expr struct {
	Op   string // const nil param val var global deref fld idx lookup len add call
	Args []*Expr
	Aux  string
	N    int64
	Val  ssa.Value // leaf value, or the value an inner node was built from
	Type types.Type
	Mem  bool // depends on memory
	Key  string
}

// Env substitutes parameters when the body of a callee is looked at from a call site.
type Env struct {
	fn    *ssa.Function
	args  []*Expr
	depth int
}

type exprTab struct {
	c    *Ctx
	tab  map[string]*Expr
	memo map[ssa.Value]*Expr
	axs  map[string][]leFact
	once map[*ssa.Alloc]*ssa.Store
}

func (c *Ctx) Exprs() *exprTab {
	if theTab == nil || theTab.c != c {
		theTab = &exprTab{c: c, tab: map[string]*Expr{}, memo: map[ssa.Value]*Expr{}, axs: map[string][]leFact{}, once: map[*ssa.Alloc]*ssa.Store{}}
	}
	return theTab
}

var theTab *exprTab

func (t *exprTab) mk(e *Expr) *Expr {
	var sb strings.Builder
	sb.WriteString(e.Op)
	if e.Aux != "" {
		sb.WriteString(":" + e.Aux)
	}
	if e.N != 0 || e.Op == "add" {
		fmt.Fprintf(&sb, ":%d", e.N)
	}
	if len(e.Args) > 0 {
		sb.WriteString("(")
		for i, a := range e.Args {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(a.Key)
		}
		sb.WriteString(")")
	}
	e.Key = sb.String()
	if o := t.tab[e.Key]; o != nil {
		return o
	}
	for _, a := range e.Args {
		if a.Mem {
			e.Mem = true
		}
	}
	switch e.Op {
	case "var", "deref", "global", "lookup":
		e.Mem = true
	case "idx":
		if _, ok := e.Args[0].Type.Underlying().(*types.Slice); ok {
			e.Mem = true
		}
	case "len":
		if e.Args[0].Type != nil {
			if _, ok := e.Args[0].Type.Underlying().(*types.Map); ok {
				e.Mem = true
			}
		}
	}
	t.tab[e.Key] = e
	return e
}

func (t *exprTab) leaf(v ssa.Value) *Expr {
	return t.mk(&Expr{Op: "val", N: int64(t.c.ID(v)), Val: v, Type: v.Type()})
}

func (t *exprTab) konst(s string, ty types.Type) *Expr {
	return t.mk(&Expr{Op: "const", Aux: s, Type: ty})
}

func (t *exprTab) nilExpr() *Expr { return t.mk(&Expr{Op: "nil"}) }

func (t *exprTab) Len(e *Expr) *Expr {
	if e.Op == "const" && isString(e.Type) {
		return t.Int(int64(len(e.Aux) - 2))
	}
	x := t.mk(&Expr{Op: "len", Args: []*Expr{e}, Type: types.Typ[types.Int]})
	t.lenAxioms(x)
	return x
}

func (t *exprTab) Int(n int64) *Expr { return t.Add(nil, n) }

// Add is base+n; a nil base is the number zero.
func (t *exprTab) Add(base *Expr, n int64) *Expr {
	if base == nil {
		return t.mk(&Expr{Op: "const", Aux: fmt.Sprint(n), N: n, Type: types.Typ[types.Int]})
	}
	b, k := t.Lin(base)
	if b == nil {
		return t.Int(k + n)
	}
	if k+n == 0 {
		return b
	}
	return t.mk(&Expr{Op: "add", N: k + n, Args: []*Expr{b}, Type: b.Type})
}

// Lin splits an integer expression into a base and an offset.
func (t *exprTab) Lin(e *Expr) (*Expr, int64) {
	if e.Op == "const" && isInt(e.Type) {
		return nil, e.N
	}
	if e.Op == "add" {
		return e.Args[0], e.N
	}
	return e, 0
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// onlyStore is the single store that gives a local variable its value, if
// there is exactly one and the variable does not otherwise escape.
func (t *exprTab) onlyStore(a *ssa.Alloc) *ssa.Store {
	if s, ok := t.once[a]; ok {
		return s
	}
	t.once[a] = nil
	stores, escapes := t.c.storesTo(a)
	if escapes || len(stores) != 1 || stores[0].Parent() != a.Parent() {
		return nil
	}
	for _, in := range *a.Referrers() {
		if in != stores[0] && !precedes(stores[0], in) {
			return nil
		}
	}
	t.once[a] = stores[0]
	return stores[0]
}

// precedes tells whether every path to b passes a first.
func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return a != b
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block() != nil && b.Block() != nil && a.Block().Dominates(b.Block())
}

// fwd follows a load of a local variable to the value stored there just
// before, within the same block.
func fwd(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || u.Block() == nil {
		return v
	}
	var last ssa.Value
	for _, in := range u.Block().Instrs {
		if in == u {
			break
		}
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == al {
				last = in.Val
			} else if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fa.X == al {
				last = nil
			} else if ia, ok := in.Addr.(*ssa.IndexAddr); ok && ia.X == al {
				last = nil
			}
		case *ssa.RunDefers, ssa.CallInstruction:
			if last != nil && capturedForWriting(al) {
				last = nil
			}
		}
	}
	if last == nil {
		return v
	}
	return fwd(last)
}

// capturedForWriting: a closure assigns to the variable, or its address is passed on.
func capturedForWriting(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == al {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == al && freeVarWritten(f.FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func freeVarWritten(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == fv && freeVarWritten(f.FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// results are the values a return hands out.
func results(ret *ssa.Return) []ssa.Value {
	r := make([]ssa.Value, len(ret.Results))
	for i, v := range ret.Results {
		r[i] = fwd(v)
	}
	return r
}

// storesTo lists whole stores to a variable, in its function or in closures
// that capture it, and tells whether its parts or address go elsewhere.
func (c *Ctx) storesTo(v ssa.Value) (stores []*ssa.Store, escapes bool) {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, part bool)
	visit = func(v ssa.Value, part bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			escapes = true
			return
		}
		for _, in := range *refs {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v && !part {
					stores = append(stores, in)
				} else {
					escapes = true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				visit(in, true)
			case *ssa.IndexAddr:
				visit(in, true)
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				for i, b := range in.Bindings {
					if b == v {
						visit(f.FreeVars[i], part)
					}
				}
			default:
				escapes = true
			}
		}
	}
	visit(v, false)
	return
}

// X builds the canonical expression of a value.
func (t *exprTab) X(v ssa.Value, env *Env) *Expr {
	if env == nil {
		if e, ok := t.memo[v]; ok {
			return e
		}
		e := t.build(v, nil)
		t.memo[v] = e
		return e
	}
	return t.build(v, env)
}

func (t *exprTab) build(v ssa.Value, env *Env) *Expr {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return t.mk(&Expr{Op: "zero", Aux: v.Type().String(), Type: v.Type()})
			}
			return t.nilExpr()
		}
		if isInt(v.Type()) {
			if n, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
				return t.Int(n)
			}
		}
		if v.Value.Kind() == constant.String {
			return t.konst(`"`+constant.StringVal(v.Value)+`"`, v.Type())
		}
		return t.konst(v.Value.ExactString(), v.Type())
	case *ssa.Parameter:
		if env != nil && env.fn == v.Parent() {
			for i, p := range v.Parent().Params {
				if p == v && i < len(env.args) && env.args[i] != nil {
					return env.args[i]
				}
			}
		}
		return t.mk(&Expr{Op: "param", N: int64(t.c.ID(v)), Val: v, Type: v.Type()})
	case *ssa.FreeVar:
		if b := t.c.binding(v); b != nil {
			return t.X(b, nil)
		}
		return t.leaf(v)
	case *ssa.Global:
		return t.mk(&Expr{Op: "addr", Args: []*Expr{t.mk(&Expr{Op: "global", Aux: v.String(), Type: deref(v.Type())})}, Type: v.Type()})
	case *ssa.Alloc:
		return t.mk(&Expr{Op: "addr", Args: []*Expr{t.mk(&Expr{Op: "var", N: int64(t.c.ID(v)), Val: v, Type: deref(v.Type())})}, Type: v.Type(), Val: v})
	case *ssa.FieldAddr:
		st := deref(v.X.Type())
		return t.mk(&Expr{Op: "addr", Args: []*Expr{t.fld(t.derefOf(t.X(v.X, env), v.X, env), st, v.Field)}, Type: v.Type()})
	case *ssa.Field:
		return t.fld(t.X(v.X, env), v.X.Type(), v.Field)
	case *ssa.IndexAddr:
		x := t.X(v.X, env)
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			x = t.derefOf(x, v.X, env)
		}
		return t.mk(&Expr{Op: "addr", Args: []*Expr{t.mk(&Expr{Op: "idx", Args: []*Expr{x, t.X(v.Index, env)}, Type: deref(v.Type())})}, Type: v.Type()})
	case *ssa.Index:
		return t.mk(&Expr{Op: "idx", Args: []*Expr{t.X(v.X, env), t.X(v.Index, env)}, Type: v.Type()})
	case *ssa.Lookup:
		if v.CommaOk {
			return t.leaf(v)
		}
		return t.mk(&Expr{Op: "lookup", Args: []*Expr{t.X(v.X, env), t.X(v.Index, env)}, Type: v.Type(), Val: v})
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 {
			return t.mk(&Expr{Op: "lookup", Args: []*Expr{t.X(l.X, env), t.X(l.Index, env)}, Type: v.Type(), Val: v})
		}
		if l, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 1 {
			return t.mk(&Expr{Op: "has", Args: []*Expr{t.X(l.X, env), t.X(l.Index, env)}, Type: v.Type(), Val: v, Mem: true})
		}
		if a, ok := v.Tuple.(*ssa.TypeAssert); ok {
			return t.mk(&Expr{Op: []string{"as", "is"}[v.Index&1], Aux: a.AssertedType.String(), Args: []*Expr{t.X(a.X, env)}, Type: v.Type(), Val: v})
		}
		return t.leaf(v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if w := fwd(v); w != v {
				return t.X(w, env)
			}
			return t.derefOf(t.X(v.X, env), v.X, env)
		}
		return t.leaf(v)
	case *ssa.ChangeType:
		return t.X(v.X, env)
	case *ssa.ChangeInterface:
		return t.X(v.X, env)
	case *ssa.Convert:
		if isInt(v.Type()) && isInt(v.X.Type()) {
			return t.X(v.X, env)
		}
		if isString(v.X.Type()) {
			if s, ok := v.Type().Underlying().(*types.Slice); ok {
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					return t.mk(&Expr{Op: "bytes", Args: []*Expr{t.X(v.X, env)}, Type: v.Type(), Val: v})
				}
			}
		}
		return t.leaf(v)
	case *ssa.MakeInterface:
		return t.mk(&Expr{Op: "iface", Args: []*Expr{t.X(v.X, env)}, Type: v.Type(), Val: v})
	case *ssa.BinOp:
		if isInt(v.Type()) && (v.Op == token.ADD || v.Op == token.SUB) {
			x, y := t.X(v.X, env), t.X(v.Y, env)
			if b, n := t.Lin(y); b == nil {
				if v.Op == token.SUB {
					n = -n
				}
				return t.Add(x, n)
			}
			if b, n := t.Lin(x); b == nil && v.Op == token.ADD {
				return t.Add(y, n)
			}
			return t.mk(&Expr{Op: v.Op.String(), Args: []*Expr{x, y}, Type: v.Type(), Val: v})
		}
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.ADD:
			return t.mk(&Expr{Op: v.Op.String(), Args: []*Expr{t.X(v.X, env), t.X(v.Y, env)}, Type: v.Type(), Val: v})
		}
		return t.leaf(v)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if (b.Name() == "len" || b.Name() == "cap") && len(v.Call.Args) == 1 {
				if b.Name() == "len" {
					return t.Len(t.X(v.Call.Args[0], env))
				}
			}
			return t.leaf(v)
		}
		depth := 0
		if env != nil {
			depth = env.depth
		}
		if f := v.Call.StaticCallee(); f != nil && depth < 4 {
			if t.c.InModule(f) {
				if ret := getter(f); ret != nil {
					e2 := &Env{fn: f, depth: depth + 1}
					for _, a := range v.Call.Args {
						e2.args = append(e2.args, t.X(a, env))
					}
					return t.X(ret, e2)
				}
			} else if pureStd[stdFuncName(f)] {
				var as []*Expr
				for _, a := range v.Call.Args {
					as = append(as, t.X(a, env))
				}
				e := t.mk(&Expr{Op: "call", Aux: stdFuncName(f), Args: as, Type: v.Type(), Val: v})
				t.callAxioms(e)
				return e
			}
		}
		return t.leaf(v)
	}
	return t.leaf(v)
}

var pureStd = map[string]bool{
	"strings.Index": true, "strings.IndexRune": true, "strings.IndexByte": true, "strings.IndexAny": true, "strings.LastIndex": true, "strings.LastIndexByte": true, "strings.LastIndexAny": true,
	"strings.IndexFunc": true, "strings.LastIndexFunc": true, "slices.Index": true, "slices.IndexFunc": true, "sort.Search": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.ContainsRune": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true,
	"strings.EqualFold": true, "strings.Fields": true, "strings.Split": true, "strings.SplitN": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.Count": true,
	"path/filepath.Ext": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.IsLocal": true, "path/filepath.IsAbs": true, "path/filepath.Clean": true, "path.Ext": true, "path.Base": true, "path.Dir": true,
	"unicode/utf8.RuneCountInString": true, "sort.SearchStrings": true,
}

func stdFuncName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok {
		return stdName(o)
	}
	return f.String()
}

// getter recognises functions that only compute and return one value
// without branching or effects.
func getter(f *ssa.Function) ssa.Value {
	if len(f.Blocks) != 1 || f.Signature.Results().Len() != 1 || len(f.FreeVars) > 0 {
		return nil
	}
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.UnOp, *ssa.BinOp, *ssa.ChangeType, *ssa.Convert, *ssa.DebugRef, *ssa.Lookup, *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeInterface:
		case *ssa.Alloc:
		case *ssa.Store:
			if _, ok := in.Addr.(*ssa.Alloc); !ok {
				return nil
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if g := in.Call.StaticCallee(); g != nil && (pureStd[stdFuncName(g)] || len(g.Blocks) == 1 && g != f && getter(g) != nil) {
				continue
			}
			return nil
		case *ssa.Return:
			if len(in.Results) == 1 {
				return in.Results[0]
			}
		default:
			return nil
		}
	}
	return nil
}

func (t *exprTab) fld(base *Expr, st types.Type, i int) *Expr {
	s := st.Underlying().(*types.Struct)
	name := s.Field(i).Name()
	// x.Embedded.F and x.F are the same place
	return t.mk(&Expr{Op: "fld", Aux: name, Args: []*Expr{base}, Type: s.Field(i).Type()})
}

// derefOf is what an address expression points at.
func (t *exprTab) derefOf(a *Expr, v ssa.Value, env *Env) *Expr {
	if a.Op == "addr" {
		loc := a.Args[0]
		if loc.Op == "var" {
			if al, ok := loc.Val.(*ssa.Alloc); ok {
				if s := t.onlyStore(al); s != nil {
					if env != nil && s.Parent() == env.fn {
						return t.X(s.Val, env)
					}
					if env == nil || s.Parent() != v.Parent() {
						return t.X(s.Val, nil)
					}
				}
			}
		}
		return loc
	}
	var ty types.Type
	if a.Type != nil {
		ty = deref(a.Type)
	} else if v != nil {
		ty = deref(v.Type())
	}
	return t.mk(&Expr{Op: "deref", Args: []*Expr{a}, Type: ty})
}

// binding resolves a captured variable to what the enclosing function binds it to.
func (c *Ctx) binding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	p := f.Parent()
	if p == nil || idx < 0 {
		return nil
	}
	var found ssa.Value
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				if found != nil && found != mc.Bindings[idx] {
					return nil
				}
				found = mc.Bindings[idx]
			}
		}
	}
	return found
}

// closureSite is the instruction that creates a closure.
func (c *Ctx) closureSite(f *ssa.Function) *ssa.MakeClosure {
	p := f.Parent()
	if p == nil {
		return nil
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc
			}
		}
	}
	return nil
}

// subst replaces leaf expressions.
func (t *exprTab) subst(e *Expr, m map[string]*Expr) *Expr {
	if r, ok := m[e.Key]; ok {
		return r
	}
	if len(e.Args) == 0 {
		return e
	}
	args := make([]*Expr, len(e.Args))
	changed := false
	for i, a := range e.Args {
		args[i] = t.subst(a, m)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return e
	}
	switch e.Op {
	case "len":
		return t.Len(args[0])
	case "add":
		return t.Add(args[0], e.N)
	case "deref":
		if args[0].Op == "addr" {
			return t.derefOf(args[0], nil, nil)
		}
	}
	n := t.mk(&Expr{Op: e.Op, Aux: e.Aux, N: e.N, Args: args, Type: e.Type, Val: e.Val, Mem: e.Mem && e.Op == "has"})
	if n.Op == "call" {
		t.callAxioms(n)
	}
	return n
}

// leaves visits the leaves of an expression.
func (e *Expr) leaves(f func(*Expr)) {
	if len(e.Args) == 0 {
		f(e)
		return
	}
	for _, a := range e.Args {
		a.leaves(f)
	}
}

// overParams tells whether an expression is stated in terms of parameters
// of the given function (and constants, globals and captured values) only.
func (t *exprTab) overParams(e *Expr, fn *ssa.Function) bool {
	ok := true
	e.leaves(func(l *Expr) {
		switch l.Op {
		case "const", "nil", "global", "zero":
		case "param":
			if l.Val.Parent() != fn {
				// parameter of an enclosing function
				in := false
				for p := fn.Parent(); p != nil; p = p.Parent() {
					if l.Val.Parent() == p {
						in = true
					}
				}
				if !in {
					ok = false
				}
			}
		default:
			if l.Val == nil || l.Val.Parent() == fn {
				ok = false
			}
		}
	})
	return ok
}
