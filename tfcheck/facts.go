package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Atom is an elementary fact about values.
type Atom struct {
	K    string // nn nil true false eq ne le
	A, B *Expr  // le: A - B <= N, a nil expression is zero
	N    int64
}

type leFact struct {
	A, B *Expr
	N    int64
}

func keyOf(e *Expr) string {
	if e == nil {
		return ""
	}
	return e.Key
}

func (a Atom) key() string { return a.K + "|" + keyOf(a.A) + "|" + keyOf(a.B) }

// State is what must hold at a program point.
type State struct {
	m     map[string]Atom
	count map[string]int
}

func newState() *State { return &State{m: map[string]Atom{}} }

func (s *State) clone() *State {
	n := &State{m: make(map[string]Atom, len(s.m))}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

func (s *State) add(a Atom) {
	k := a.key()
	if a.K == "le" {
		if o, ok := s.m[k]; ok && o.N <= a.N {
			return
		}
	}
	s.m[k] = a
}

func (s *State) has(k string, e *Expr) bool {
	_, ok := s.m[Atom{K: k, A: e}.key()]
	return ok
}

// Facts holds the must-facts of one function at every block entry.
type Facts struct {
	c   *Ctx
	t   *exprTab
	fn  *ssa.Function
	in  map[*ssa.BasicBlock]*State
	out map[*ssa.BasicBlock]*State
}

var factsMemo = map[*ssa.Function]*Facts{}

func (c *Ctx) Facts(fn *ssa.Function) *Facts {
	if f, ok := factsMemo[fn]; ok {
		return f
	}
	f := &Facts{c: c, t: c.Exprs(), fn: fn, in: map[*ssa.BasicBlock]*State{}, out: map[*ssa.BasicBlock]*State{}}
	factsMemo[fn] = f
	if len(fn.Blocks) == 0 {
		return f
	}
	f.solve()
	return f
}

func (f *Facts) solve() {
	visits := map[*ssa.BasicBlock]int{}
	work := []*ssa.BasicBlock{f.fn.Blocks[0]}
	if f.fn.Recover != nil {
		work = append(work, f.fn.Recover)
	}
	queued := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		queued[b] = false
		in := f.join(b, visits[b])
		visits[b]++
		if visits[b] > 60 {
			continue
		}
		if old := f.in[b]; old != nil && same(old, in) && visits[b] > 1 {
			continue
		}
		f.in[b] = in
		out := in.clone()
		for _, ins := range b.Instrs {
			f.step(out, ins)
		}
		f.out[b] = out
		for _, s := range b.Succs {
			if !queued[s] {
				queued[s] = true
				work = append(work, s)
			}
		}
	}
}

func same(a, b *State) bool {
	if len(a.m) != len(b.m) {
		return false
	}
	for k, v := range a.m {
		if w, ok := b.m[k]; !ok || w.N != v.N {
			return false
		}
	}
	return true
}

func (f *Facts) join(b *ssa.BasicBlock, visit int) *State {
	var res *State
	for i, p := range b.Preds {
		o := f.edge(p, b, i)
		if o == nil {
			continue
		}
		if res == nil {
			res = o
			continue
		}
		for k, v := range res.m {
			w, ok := o.m[k]
			if !ok {
				if v.K == "le" {
					// the bound may follow from others on that edge
					if n, ok := f.bound(o, v.A, v.B); ok {
						if n > v.N {
							v.N = n
						}
						res.m[k] = v
						continue
					}
				}
				if f.vacuous(v, p) {
					continue
				}
				delete(res.m, k)
				continue
			}
			if v.K == "le" && w.N > v.N {
				v.N = w.N
				res.m[k] = v
			}
		}
		for k, w := range o.m {
			if _, ok := res.m[k]; ok {
				continue
			}
			if w.K == "le" {
				// keep what the earlier edges imply
				all := true
				for j := 0; j < i; j++ {
					oj := f.edge(b.Preds[j], b, j)
					if oj == nil {
						continue
					}
					n, ok := f.bound(oj, w.A, w.B)
					if !ok {
						all = false
						break
					}
					if n > w.N {
						w.N = n
					}
				}
				if all {
					res.m[k] = w
				}
			} else {
				all := true
				for j := 0; j < i; j++ {
					if f.out[b.Preds[j]] != nil && !f.vacuous(w, b.Preds[j]) {
						all = false
					}
				}
				if all {
					res.m[k] = w
				}
			}
		}
	}
	if res == nil {
		res = newState()
	}
	// widening: bounds that keep growing are given up
	if old := f.in[b]; old != nil && visit > 3 {
		for k, v := range res.m {
			if v.K == "le" {
				if o, ok := old.m[k]; !ok || o.N < v.N {
					delete(res.m, k)
				}
			} else if _, ok := old.m[k]; !ok {
				delete(res.m, k)
			}
		}
	}
	return res
}

// vacuous: a fact about a value that has not been computed when control
// leaves block p does not restrict anything there.
func (f *Facts) vacuous(a Atom, p *ssa.BasicBlock) bool {
	vac := false
	for _, e := range []*Expr{a.A, a.B} {
		if e == nil {
			continue
		}
		e.leaves(func(l *Expr) {
			if l.Op == "val" && l.Val != nil && l.Val.Parent() == f.fn {
				if in, ok := l.Val.(ssa.Instruction); ok && in.Block() != nil && !reaches(in.Block(), p) {
					vac = true
				}
			}
		})
	}
	return vac
}

var reachMemo = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// reaches tells whether control can get from a to b (a itself included).
func reaches(a, b *ssa.BasicBlock) bool {
	m := reachMemo[a]
	if m == nil {
		m = map[*ssa.BasicBlock]bool{}
		stack := []*ssa.BasicBlock{a}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if m[x] {
				continue
			}
			m[x] = true
			stack = append(stack, x.Succs...)
		}
		reachMemo[a] = m
	}
	return m[b]
}

// edge is the state on the edge p -> b (the i-th predecessor edge).
func (f *Facts) edge(p, b *ssa.BasicBlock, i int) *State {
	o := f.out[p]
	if o == nil {
		return nil
	}
	s := o.clone()
	if len(p.Instrs) > 0 {
		if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			truth := p.Succs[0] == b
			for _, a := range f.assume(br.Cond, truth, nil, 0) {
				f.learn(s, a)
			}
		}
	}
	// values chosen by this edge
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if len(phis) == 0 {
		return s
	}
	// stale facts about the phi itself (from the previous iteration) go first,
	// but the incoming values may be stated in terms of it
	pre := s.clone()
	for _, ph := range phis {
		dropMention(s, f.t.X(ph, nil))
	}
	for _, ph := range phis {
		if i >= len(ph.Edges) {
			continue
		}
		v := ph.Edges[i]
		pe, ve := f.t.X(ph, nil), f.t.X(v, nil)
		if isInt(ph.Type()) {
			b, k := f.t.Lin(ve)
			if b == nil {
				s.add(Atom{K: "le", A: pe, N: k})
				s.add(Atom{K: "le", B: pe, N: -k})
			} else {
				for _, a := range pre.m {
					if a.K != "le" {
						continue
					}
					if a.A == b && (a.B == nil || !mentions(a.B, phis, f.t)) {
						s.add(Atom{K: "le", A: pe, B: a.B, N: a.N + k})
					}
					if a.B == b && (a.A == nil || !mentions(a.A, phis, f.t)) {
						s.add(Atom{K: "le", A: a.A, B: pe, N: a.N - k})
					}
				}
				for _, ax := range f.t.axs[b.Key] {
					if ax.A == b && (ax.B == nil || !mentions(ax.B, phis, f.t)) {
						s.add(Atom{K: "le", A: pe, B: ax.B, N: ax.N + k})
					}
					if ax.B == b && (ax.A == nil || !mentions(ax.A, phis, f.t)) {
						s.add(Atom{K: "le", A: ax.A, B: pe, N: ax.N - k})
					}
				}
				if !mentions(b, phis, f.t) {
					s.add(Atom{K: "le", A: pe, B: b, N: k})
					s.add(Atom{K: "le", A: b, B: pe, N: -k})
				}
			}
			continue
		}
		if _, isPhi := v.(*ssa.Phi); !isPhi || !mentions(ve, phis, f.t) {
			for _, a := range pre.m {
				if a.A == ve && (a.K == "nn" || a.K == "nil" || a.K == "true" || a.K == "false" || a.K == "eq" || a.K == "ne") {
					s.add(Atom{K: a.K, A: pe, B: a.B})
				}
			}
		} else {
			for _, a := range pre.m {
				if a.A == ve && (a.K == "nn" || a.K == "nil") {
					s.add(Atom{K: a.K, A: pe, B: a.B})
				}
			}
		}
		if definitelyNonNil(v) {
			s.add(Atom{K: "nn", A: pe})
		}
		if k, ok := v.(*ssa.Const); ok {
			if k.Value == nil && isNillable(k.Type()) {
				s.add(Atom{K: "nil", A: pe})
			} else if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				if k.Value.ExactString() == "true" {
					s.add(Atom{K: "true", A: pe})
				} else {
					s.add(Atom{K: "false", A: pe})
				}
			} else if ok && b.Info()&types.IsString != 0 {
				s.add(Atom{K: "eq", A: pe, B: ve})
			}
		}
		if hasLen(ph.Type()) {
			lp, lv := f.t.Len(pe), f.t.Len(ve)
			if k, ok := v.(*ssa.Const); ok && k.Value == nil {
				lv = f.t.Int(0)
			}
			b, k := f.t.Lin(lv)
			if b == nil {
				s.add(Atom{K: "le", A: lp, N: k})
				s.add(Atom{K: "le", B: lp, N: -k})
			} else {
				for _, a := range pre.m {
					if a.K == "le" && a.A == b && (a.B == nil || !mentions(a.B, phis, f.t)) {
						s.add(Atom{K: "le", A: lp, B: a.B, N: a.N + k})
					}
					if a.K == "le" && a.B == b && (a.A == nil || !mentions(a.A, phis, f.t)) {
						s.add(Atom{K: "le", A: a.A, B: lp, N: a.N - k})
					}
				}
				for _, ax := range f.t.axs[b.Key] {
					if ax.B == b && (ax.A == nil || !mentions(ax.A, phis, f.t)) {
						s.add(Atom{K: "le", A: ax.A, B: lp, N: ax.N - k})
					}
					if ax.B == b && ax.A != nil && mentions(ax.A, phis, f.t) {
						// append to the value of the previous round: chain through its bounds
						for _, a := range pre.m {
							if a.K == "le" && a.B == ax.A && a.A == nil {
								s.add(Atom{K: "le", B: lp, N: a.N + ax.N - k})
							}
						}
					}
					if ax.A == b && (ax.B == nil || !mentions(ax.B, phis, f.t)) {
						s.add(Atom{K: "le", A: lp, B: ax.B, N: ax.N + k})
					}
				}
				if !mentions(b, phis, f.t) {
					s.add(Atom{K: "le", A: lp, B: b, N: k})
					s.add(Atom{K: "le", A: b, B: lp, N: -k})
				}
			}
		}
	}
	return s
}

func hasLen(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice:
		return true
	}
	return isString(t)
}

func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func mentions(e *Expr, phis []*ssa.Phi, t *exprTab) bool {
	hit := false
	e.leaves(func(l *Expr) {
		for _, p := range phis {
			if l.Val == p {
				hit = true
			}
		}
	})
	return hit
}

func dropMention(s *State, leaf *Expr) {
	for k, a := range s.m {
		hit := false
		for _, e := range []*Expr{a.A, a.B} {
			if e != nil {
				e.leaves(func(l *Expr) {
					if l == leaf {
						hit = true
					}
				})
			}
		}
		if hit {
			delete(s.m, k)
		}
	}
}

func definitelyNonNil(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.MakeInterface:
		if isNillable(v.X.Type()) {
			if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
				return true // a non-nil interface, whatever it holds
			}
		}
		return true
	case *ssa.ChangeType:
		return definitelyNonNil(v.X)
	case *ssa.ChangeInterface:
		return definitelyNonNil(v.X)
	case *ssa.Slice:
		if _, ok := v.X.(*ssa.Alloc); ok {
			return true
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			switch stdFuncName(f) {
			case "fmt.Errorf", "errors.New":
				return true
			}
		}
	}
	return false
}

// step applies the effect of an instruction on memory.
func (f *Facts) step(s *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		loc := f.t.X(in.Addr, nil)
		if loc.Op == "addr" {
			loc = loc.Args[0]
		} else {
			loc = f.t.mk(&Expr{Op: "deref", Args: []*Expr{loc}, Type: deref(in.Addr.Type())})
		}
		f.kill(s, loc, in)
		f.copyFacts(s, loc, in.Val)
	case *ssa.MapUpdate:
		m := f.t.X(in.Map, nil)
		for k, a := range s.m {
			for _, e := range []*Expr{a.A, a.B} {
				if e != nil && mentionsMap(e, m) {
					delete(s.m, k)
				}
			}
		}
		lk := f.t.mk(&Expr{Op: "lookup", Args: []*Expr{m, f.t.X(in.Key, nil)}, Type: in.Value.Type()})
		f.copyFacts(s, lk, in.Value)
		s.add(Atom{K: "true", A: f.t.mk(&Expr{Op: "has", Args: []*Expr{m, f.t.X(in.Key, nil)}, Type: types.Typ[types.Bool], Mem: true})})
	case ssa.CallInstruction:
		// closures called here may assign to variables they capture
		if _, isGo := in.(*ssa.Go); isGo {
			return
		}
		for _, al := range f.c.closureWrites(in) {
			v := f.t.mk(&Expr{Op: "var", N: int64(f.c.ID(al)), Val: al, Type: deref(al.Type())})
			f.kill(s, v, in)
		}
		if cc := in.Common(); !cc.IsInvoke() {
			if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
				m := f.t.X(cc.Args[0], nil)
				for k, a := range s.m {
					for _, e := range []*Expr{a.A, a.B} {
						if e != nil && mentionsMap(e, m) {
							delete(s.m, k)
						}
					}
				}
			}
		}
	}
}

// copyFacts gives a place the facts known about the value stored there.
func (f *Facts) copyFacts(s *State, loc *Expr, v ssa.Value) {
	ve := f.t.X(v, nil)
	var add []Atom
	for _, a := range s.m {
		switch a.K {
		case "nn", "nil", "true", "false", "eq", "ne":
			if a.A == ve {
				add = append(add, Atom{K: a.K, A: loc, B: a.B})
			}
		}
	}
	if definitelyNonNil(v) {
		add = append(add, Atom{K: "nn", A: loc})
	}
	if isInt(v.Type()) {
		b, k := f.t.Lin(ve)
		add = append(add, Atom{K: "le", A: loc, B: b, N: k}, Atom{K: "le", A: b, B: loc, N: -k})
	}
	if hasLen(v.Type()) {
		lv := f.t.Len(ve)
		if k, ok := v.(*ssa.Const); ok && k.Value == nil {
			lv = f.t.Int(0)
		}
		b, k := f.t.Lin(lv)
		ll := f.t.Len(loc)
		add = append(add, Atom{K: "le", A: ll, B: b, N: k}, Atom{K: "le", A: b, B: ll, N: -k})
	}
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil && isNillable(v.Type()) {
			add = append(add, Atom{K: "nil", A: loc})
		}
	} else if !loc.selfRef(ve) {
		add = append(add, Atom{K: "same", A: loc, B: ve})
	}
	for _, a := range add {
		if a.B != nil && loc.selfRef(a.B) || a.A != nil && a.A != loc && a.A.Op != "len" && loc.selfRef(a.A) {
			continue
		}
		s.add(a)
	}
}

// selfRef: does e mention the place loc?
func (loc *Expr) selfRef(e *Expr) bool {
	if e == loc {
		return true
	}
	for _, a := range e.Args {
		if loc.selfRef(a) {
			return true
		}
	}
	return false
}

func mentionsMap(e, m *Expr) bool {
	if (e.Op == "lookup" || e.Op == "has" || e.Op == "len") && len(e.Args) > 0 {
		x := e.Args[0]
		if x == m || x.Type != nil && m.Type != nil && (e.Op != "len") && types.Identical(x.Type, m.Type) && x.Mem {
			return true
		}
	}
	for _, a := range e.Args {
		if mentionsMap(a, m) {
			return true
		}
	}
	return false
}

// kill removes facts about places a store may change.
func (f *Facts) kill(s *State, loc *Expr, at ssa.Instruction) {
	for k, a := range s.m {
		hit := false
		for _, e := range []*Expr{a.A, a.B} {
			if e != nil && e.Mem && f.mayTouch(e, loc) {
				hit = true
			}
		}
		if hit {
			delete(s.m, k)
		}
	}
}

func (f *Facts) mayTouch(e, loc *Expr) bool {
	if e == loc || f.alias(e, loc) {
		return true
	}
	for _, a := range e.Args {
		if a.Mem && f.mayTouch(a, loc) {
			return true
		}
	}
	return false
}

// rootVar is the local variable a place lies in, if it is not behind a pointer.
func rootVar(e *Expr) *Expr {
	for {
		switch e.Op {
		case "var", "global":
			return e
		case "fld":
			e = e.Args[0]
		case "idx":
			if e.Args[0].Type != nil {
				if _, ok := e.Args[0].Type.Underlying().(*types.Array); ok {
					e = e.Args[0]
					continue
				}
			}
			return nil
		default:
			return nil
		}
	}
}

func (f *Facts) alias(a, b *Expr) bool {
	if a.Op != b.Op {
		return false
	}
	ra, rb := rootVar(a), rootVar(b)
	if ra != nil && rb != nil {
		return false // distinct keys in named variables are distinct places
	}
	switch a.Op {
	case "fld":
		if a.Aux != b.Aux || a.Args[0].Type == nil || b.Args[0].Type == nil || !types.Identical(a.Args[0].Type, b.Args[0].Type) {
			return false
		}
		if ra != nil && !f.escapes(ra) || rb != nil && !f.escapes(rb) {
			return false
		}
		return true
	case "idx":
		if a.Type == nil || b.Type == nil || !types.Identical(a.Type, b.Type) {
			return false
		}
		if x, y := a.Args[0], b.Args[0]; x != y && fresh(x) != fresh(y) || x != y && fresh(x) {
			return false
		}
		return true
	case "deref":
		return a.Type != nil && b.Type != nil && types.Identical(a.Type, b.Type)
	}
	return false
}

// fresh: the expression is a slice made in this function.
func fresh(e *Expr) bool {
	switch e.Val.(type) {
	case *ssa.MakeSlice:
		return e.Op == "val"
	}
	return false
}

func (f *Facts) escapes(v *Expr) bool {
	a, ok := v.Val.(*ssa.Alloc)
	if !ok {
		return true
	}
	for _, in := range *a.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Val == a {
				return true
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// closureWrites lists captured variables that a called closure assigns to.
func (c *Ctx) closureWrites(call ssa.CallInstruction) []*ssa.Alloc {
	var r []*ssa.Alloc
	fns := map[*ssa.Function]bool{}
	for _, g := range c.Callees(call) {
		if g.Parent() != nil {
			fns[g] = true
		}
	}
	for _, a := range call.Common().Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			fns[mc.Fn.(*ssa.Function)] = true
		}
	}
	for g := range fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fv, ok := st.Addr.(*ssa.FreeVar); ok {
						if al, ok := c.rootBinding(fv).(*ssa.Alloc); ok {
							r = append(r, al)
						}
					}
				}
			}
		}
	}
	return r
}

func (c *Ctx) rootBinding(fv *ssa.FreeVar) ssa.Value {
	var v ssa.Value = fv
	for {
		f, ok := v.(*ssa.FreeVar)
		if !ok {
			return v
		}
		b := c.binding(f)
		if b == nil {
			return v
		}
		v = b
	}
}

// learn adds an atom with its consequences.
func (f *Facts) learn(s *State, a Atom) {
	s.add(a)
	if a.K == "le" && a.A == nil && a.B != nil && a.N <= 0 && a.B.Op == "call" && len(a.B.Args) == 2 {
		// found: what was searched for fits behind the position
		switch a.B.Aux {
		case "strings.Index", "strings.LastIndex":
			if sub := a.B.Args[1]; sub.Op == "const" {
				b, n := f.t.Lin(f.t.Len(a.B.Args[0]))
				s.add(Atom{K: "le", A: a.B, B: b, N: n - int64(len(sub.Aux)-2)})
			}
		}
	}
	if a.A != nil && a.K != "le" {
		// the place holds a value stored earlier: what is learnt about one holds of the other
		for _, o := range s.m {
			if o.K == "same" && o.A == a.A && o.B != nil {
				b := a
				b.A = o.B
				if _, ok := s.m[b.key()]; !ok {
					f.learn(s, b)
				}
			}
		}
	}
	switch a.K {
	case "nil":
		if a.A != nil {
			f.consequences(s, a.A, "nil")
		}
	case "nn":
		f.consequences(s, a.A, "nn")
	case "true":
		f.consequences(s, a.A, "true")
		if a.A.Op == "is" {
			s.add(Atom{K: "nn", A: f.t.mk(&Expr{Op: "as", Aux: a.A.Aux, Args: a.A.Args, Type: nil})})
		}
		if a.A.Op == "has" {
			s.add(Atom{K: "nn", A: f.t.mk(&Expr{Op: "lookup", Args: a.A.Args})})
		}
	case "false":
		f.consequences(s, a.A, "false")
	case "ne":
		// x != k together with x >= k
		if a.B != nil && isInt(a.B.Type) {
			kb, k := f.t.Lin(a.B)
			if kb == nil {
				b, off := f.t.Lin(a.A)
				if b != nil {
					if n, ok := f.bound(s, nil, b); ok && n == -(k-off) {
						s.add(Atom{K: "le", B: b, N: -(k - off) - 1})
					}
					if n, ok := f.bound(s, b, nil); ok && n == k-off {
						s.add(Atom{K: "le", A: b, N: k - off - 1})
					}
				}
			}
		}
	case "eq":
		if a.B != nil && a.B.Op == "const" && isString(a.B.Type) {
			l := f.t.Len(a.A)
			n := int64(len(a.B.Aux) - 2)
			s.add(Atom{K: "le", A: l, N: n})
			s.add(Atom{K: "le", B: l, N: -n})
		}
	}
}

// assume lists what a condition having the given outcome means.
func (f *Facts) assume(cond ssa.Value, truth bool, env *Env, depth int) []Atom {
	if depth > 6 {
		return nil
	}
	t := f.t
	tf := "false"
	if truth {
		tf = "true"
	}
	switch v := cond.(type) {
	case *ssa.Const:
		return nil
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return f.assume(v.X, !truth, env, depth+1)
		}
		if v.Op == token.MUL {
			// a boolean variable: what it was last set from
			e := t.X(v, env)
			if e.Val != nil && e.Op != "var" && e.Val != cond && e.Type != nil {
				if in, ok := e.Val.(ssa.Instruction); ok && in.Parent() == f.fn && e.Op != "addr" {
					if b, ok := e.Val.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
						return append(f.assume(e.Val, truth, env, depth+1), Atom{K: tf, A: e})
					}
				}
			}
			return []Atom{{K: tf, A: e}}
		}
	case *ssa.BinOp:
		op := v.Op
		if !truth {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			default:
				return nil
			}
		}
		x, y := t.X(v.X, env), t.X(v.Y, env)
		if x.Op == "nil" {
			x, y = y, x
		}
		if y.Op == "nil" {
			if op == token.EQL {
				return []Atom{{K: "nil", A: x}}
			}
			if op == token.NEQ {
				return []Atom{{K: "nn", A: x}}
			}
			return nil
		}
		if isInt(v.X.Type()) {
			xb, xk := t.Lin(x)
			yb, yk := t.Lin(y)
			le := func(ab *Expr, ak int64, bb *Expr, bk int64, n int64) Atom { // a+ak - (b+bk) <= n
				return Atom{K: "le", A: ab, B: bb, N: n - ak + bk}
			}
			switch op {
			case token.EQL:
				return []Atom{le(xb, xk, yb, yk, 0), le(yb, yk, xb, xk, 0)}
			case token.NEQ:
				if yb == nil && xb != nil {
					return []Atom{{K: "ne", A: x, B: y}}
				}
				if xb == nil && yb != nil {
					return []Atom{{K: "ne", A: y, B: x}}
				}
				return nil
			case token.LSS:
				return []Atom{le(xb, xk, yb, yk, -1)}
			case token.LEQ:
				return []Atom{le(xb, xk, yb, yk, 0)}
			case token.GTR:
				return []Atom{le(yb, yk, xb, xk, -1)}
			case token.GEQ:
				return []Atom{le(yb, yk, xb, xk, 0)}
			}
			return nil
		}
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			if k, ok := v.Y.(*ssa.Const); ok && k.Value != nil {
				want := k.Value.ExactString() == "true"
				if op == token.EQL {
					return f.assume(v.X, want, env, depth+1)
				}
				if op == token.NEQ {
					return f.assume(v.X, !want, env, depth+1)
				}
			}
		}
		if x.Op == "const" {
			x, y = y, x
		}
		if op == token.EQL {
			r := []Atom{{K: "eq", A: x, B: y}}
			if y.Op != "const" {
				r = append(r, Atom{K: "eq", A: y, B: x})
			}
			return r
		}
		if op == token.NEQ {
			r := []Atom{{K: "ne", A: x, B: y}}
			if y.Op == "const" && y.Aux == `""` {
				r = append(r, Atom{K: "le", B: t.Len(x), N: -1})
			}
			return r
		}
		return nil
	case *ssa.Phi:
		// a && b, a || b kept in a variable
		var res []Atom
		first := true
		for i, e := range v.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				if (k.Value.ExactString() == "true") != truth {
					continue
				}
			}
			as := f.assume(e, truth, env, depth+1)
			as = append(as, f.chainFacts(v.Block().Preds[i], v.Block(), env, depth+1)...)
			if first {
				res = as
				first = false
				continue
			}
			res = meetAtoms(res, as)
		}
		return append(res, Atom{K: tf, A: t.X(v, env)})
	case *ssa.Call:
		e := t.X(v, env)
		r := []Atom{{K: tf, A: e}}
		r = append(r, f.callImplies(v, 0, tf, env, depth)...)
		// inlined one-expression predicates
		if g := v.Call.StaticCallee(); g != nil && f.c.InModule(g) && depth < 4 {
			if ret := getter(g); ret != nil {
				e2 := &Env{fn: g, depth: depth + 1}
				for _, a := range v.Call.Args {
					e2.args = append(e2.args, t.X(a, env))
				}
				r = append(r, f.assume(ret, truth, e2, depth+1)...)
			}
		}
		if e.Op == "call" && truth && (e.Aux == "strings.HasPrefix" || e.Aux == "strings.HasSuffix") {
			b, k := t.Lin(t.Len(e.Args[1]))
			r = append(r, Atom{K: "le", A: b, B: t.Len(e.Args[0]), N: -k})
		}
		return r
	}
	return []Atom{{K: tf, A: t.X(cond, env)}}
}

// chainFacts collects the branch outcomes on the way to the edge p -> b.
func (f *Facts) chainFacts(p, b *ssa.BasicBlock, env *Env, depth int) []Atom {
	var r []Atom
	for n := 0; n < 6; n++ {
		if len(p.Instrs) > 0 {
			if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				r = append(r, f.assume(br.Cond, p.Succs[0] == b, env, depth+1)...)
			}
		}
		if len(p.Preds) != 1 {
			break
		}
		p, b = p.Preds[0], p
	}
	return r
}

func meetAtoms(a, b []Atom) []Atom {
	m := map[string]Atom{}
	for _, x := range b {
		m[x.key()] = x
	}
	var r []Atom
	for _, x := range a {
		if y, ok := m[x.key()]; ok {
			if y.N > x.N {
				x.N = y.N
			}
			r = append(r, x)
		}
	}
	return r
}

type implKey struct {
	fn   *ssa.Function
	idx  int
	want string
}

var implMemo = map[implKey][]Atom{}
var implBusy = map[implKey]bool{}

// callImplies: what the outcome of a call to a module function says about its arguments.
func (f *Facts) callImplies(call *ssa.Call, idx int, want string, env *Env, depth int) []Atom {
	g := call.Call.StaticCallee()
	if g == nil {
		if cs := f.c.ModCallees(call); len(cs) == 1 && len(f.c.Callees(call)) == 1 {
			g = cs[0]
		}
	}
	if g == nil || !f.c.InModule(g) || len(g.Blocks) == 0 {
		return nil
	}
	sum := f.c.implications(g, idx, want)
	if len(sum) == 0 {
		return nil
	}
	sub := map[string]*Expr{}
	for i, p := range g.Params {
		if i < len(call.Call.Args) {
			sub[f.t.X(p, nil).Key] = f.t.X(call.Call.Args[i], env)
		}
	}
	var r []Atom
	for _, a := range sum {
		n := a
		if a.A != nil {
			n.A = f.t.subst(a.A, sub)
		}
		if a.B != nil {
			n.B = f.t.subst(a.B, sub)
		}
		r = append(r, f.renorm(n)...)
	}
	return r
}

// renorm restores the normal form of an atom after substitution.
func (f *Facts) renorm(a Atom) []Atom {
	if a.K == "le" {
		if a.A != nil {
			b, k := f.t.Lin(a.A)
			a.A, a.N = b, a.N-k
		}
		if a.B != nil {
			b, k := f.t.Lin(a.B)
			a.B, a.N = b, a.N+k
		}
		if a.A == nil && a.B == nil {
			return nil
		}
	}
	return []Atom{a}
}

// implications of result idx of fn being true/false/nil/nn, over its parameters.
func (c *Ctx) implications(fn *ssa.Function, idx int, want string) []Atom {
	k := implKey{fn, idx, want}
	if r, ok := implMemo[k]; ok {
		return r
	}
	if implBusy[k] {
		return nil
	}
	implBusy[k] = true
	defer func() { implBusy[k] = false }()
	f := c.Facts(fn)
	var res []Atom
	first := true
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 || f.in[b] == nil {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		v := results(ret)[idx]
		st := f.At(ret)
		var as []Atom
		switch want {
		case "true", "false":
			if k, ok := v.(*ssa.Const); ok && k.Value != nil {
				if k.Value.ExactString() != want {
					continue
				}
			} else {
				as = f.assume(v, want == "true", nil, 1)
			}
		case "nil":
			if f.nonNil(v, st) {
				continue
			}
			as = append(as, Atom{K: "nil", A: f.t.X(v, nil)})
		case "nn":
			if k, ok := v.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			if st.has("nil", f.t.X(v, nil)) {
				continue
			}
		}
		s2 := st.clone()
		for _, a := range as {
			f.learn(s2, a)
		}
		var list []Atom
		for _, a := range s2.m {
			if (a.A == nil || f.t.overParams(a.A, fn)) && (a.B == nil || f.t.overParams(a.B, fn)) && a.K != "same" {
				list = append(list, a)
			}
		}
		if first {
			res, first = list, false
		} else {
			res = meetAtoms(res, list)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].key() < res[j].key() })
	implMemo[k] = res
	return res
}

// At is the state before an instruction.
func (f *Facts) At(at ssa.Instruction) *State {
	b := at.Block()
	in := f.in[b]
	if in == nil {
		return newState()
	}
	s := in.clone()
	for _, x := range b.Instrs {
		if x == at {
			break
		}
		f.step(s, x)
	}
	return s
}

// EdgeState is the state on a control flow edge.
func (f *Facts) EdgeState(p, b *ssa.BasicBlock) *State {
	for i, q := range b.Preds {
		if q == p {
			if s := f.edge(p, b, i); s != nil {
				return s
			}
		}
	}
	return newState()
}

// nonNil: v is known not to be nil.
func (f *Facts) nonNil(v ssa.Value, s *State) bool {
	if definitelyNonNil(v) || s.has("nn", f.t.X(v, nil)) {
		return true
	}
	if e := f.t.X(v, nil); e.Op == "addr" || e.Op == "iface" {
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for i, e := range ph.Edges {
			if e == ph || definitelyNonNil(e) {
				continue
			}
			if !f.edgeHas(ph, i, "nn", e) {
				return false
			}
		}
		return true
	}
	if call, ok := v.(*ssa.Call); ok {
		if g := call.Call.StaticCallee(); g != nil && f.c.InModule(g) && g != f.fn && g.Signature.Results().Len() == 1 {
			return f.c.alwaysNonNil(g)
		}
	}
	return false
}

var annMemo = map[*ssa.Function]int{}

// alwaysNonNil: the function returns a non-nil value on every path.
func (c *Ctx) alwaysNonNil(g *ssa.Function) bool {
	switch annMemo[g] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	annMemo[g] = 1
	if len(g.Blocks) == 0 {
		return false
	}
	f := c.Facts(g)
	for _, b := range g.Blocks {
		if len(b.Instrs) == 0 || f.in[b] == nil {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			if !f.nonNil(results(ret)[0], f.At(ret)) {
				annMemo[g] = 3
				return false
			}
		}
	}
	annMemo[g] = 2
	return true
}

func (f *Facts) edgeHas(ph *ssa.Phi, i int, k string, v ssa.Value) bool {
	p := ph.Block().Preds[i]
	o := f.out[p]
	if o == nil {
		return true
	}
	s := f.EdgeState(p, ph.Block())
	return s.has(k, f.t.X(v, nil)) || o.has(k, f.t.X(v, nil))
}

// consequences of a result of a call being nil, non-nil, true or false.
func (f *Facts) consequences(s *State, e *Expr, want string) {
	if e == nil || e.Val == nil {
		return
	}
	var call *ssa.Call
	idx := 0
	switch v := e.Val.(type) {
	case *ssa.Extract:
		if e.Op != "val" {
			return
		}
		c, ok := v.Tuple.(*ssa.Call)
		if !ok {
			return
		}
		call, idx = c, v.Index
	case *ssa.Call:
		if e.Op != "val" {
			return
		}
		call = v
	case *ssa.Phi:
		return
	default:
		if e.Op == "var" {
			f.varConsequences(s, e, want)
		}
		return
	}
	if call.Parent() == f.fn {
		for _, a := range f.callImplies(call, idx, want, nil, 0) {
			s.add(a)
		}
	}
	// other results of the same call
	if call.Referrers() == nil {
		return
	}
	for _, r := range *call.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index == idx || !isNillable(ex.Type()) {
			continue
		}
		if f.c.resultNonNil(call, ex.Index, idx, want) {
			s.add(Atom{K: "nn", A: f.t.X(ex, nil)})
		}
	}
}

// varConsequences: a variable that was assigned result idx of a call together
// with other variables assigned other results of that call.
func (f *Facts) varConsequences(s *State, e *Expr, want string) {
	al, ok := e.Val.(*ssa.Alloc)
	if !ok {
		return
	}
	stores, _ := f.c.storesTo(al)
	var call *ssa.Call
	idx := 0
	for _, st := range stores {
		if k, ok := st.Val.(*ssa.Const); ok && k.Value == nil {
			continue
		}
		ex, ok := st.Val.(*ssa.Extract)
		if !ok {
			return
		}
		cl, ok := ex.Tuple.(*ssa.Call)
		if !ok || call != nil && call != cl {
			return
		}
		call, idx = cl, ex.Index
	}
	if call == nil || call.Referrers() == nil {
		return
	}
	for _, r := range *call.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index == idx || ex.Referrers() == nil || !isNillable(ex.Type()) {
			continue
		}
		if !f.c.resultNonNil(call, ex.Index, idx, want) {
			continue
		}
		for _, u := range *ex.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || st.Val != ex {
				continue
			}
			loc := f.t.X(st.Addr, nil)
			if loc.Op == "addr" {
				s.add(Atom{K: "nn", A: loc.Args[0]})
			}
		}
	}
}
