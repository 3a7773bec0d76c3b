package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edge12 struct {
	from, to *ssa.Function
	at       ssa.Instruction
	call     ssa.CallInstruction // the call, when to is called directly
}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// edges lists what a function calls, starts or hands over to be called.
func (t *term12) edges(fn *ssa.Function) []edge12 {
	var r []edge12
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				if g := cc.StaticCallee(); g != nil {
					if t.c.InModule(g) && len(g.Blocks) > 0 {
						r = append(r, edge12{fn, g, x, x})
					}
				} else if !cc.IsInvoke() {
					for _, g := range t.c.Sync().callees(x) {
						if outermost(g) == outermost(fn) && g.Parent() != nil {
							r = append(r, edge12{fn, g, x, x})
						}
					}
				} else {
					for _, g := range t.c.ModCallees(x) {
						r = append(r, edge12{fn, g, x, x})
					}
				}
				for _, a := range cc.Args {
					if mk, ok := a.(*ssa.MakeClosure); ok {
						r = append(r, edge12{fn, mk.Fn.(*ssa.Function), x, nil})
					}
				}
			case *ssa.MakeClosure:
				other := false
				for _, u := range *x.Referrers() {
					switch y := u.(type) {
					case ssa.CallInstruction:
					case *ssa.Store:
						if y.Addr == x {
							other = true
						}
					case *ssa.DebugRef:
					default:
						other = true
					}
				}
				if other {
					r = append(r, edge12{fn, x.Fn.(*ssa.Function), x, nil})
				}
			}
		}
	}
	return r
}

func sccs(nodes []*ssa.Function, out map[*ssa.Function][]edge12) [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	var r [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		self := false
		for _, e := range out[f] {
			if e.to == f {
				self = true
			}
			if idx[e.to] == 0 {
				visit(e.to)
				low[f] = min(low[f], low[e.to])
			} else if on[e.to] {
				low[f] = min(low[f], idx[e.to])
			}
		}
		if low[f] == idx[f] {
			var comp []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 || self {
				r = append(r, comp)
			}
		}
	}
	for _, f := range nodes {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return r
}

func (t *term12) recursion() {
	c, r := t.c, t.r
	var nodes []*ssa.Function
	out := map[*ssa.Function][]edge12{}
	for _, fn := range c.Fns {
		if c.InModule(fn) && len(fn.Blocks) > 0 {
			nodes = append(nodes, fn)
			out[fn] = t.edges(fn)
		}
	}
	groups := sccs(nodes, out)
	r.Count("recursive groups", len(groups))
	for _, g := range groups {
		in := map[*ssa.Function]bool{}
		for _, f := range g {
			in[f] = true
		}
		rest := map[*ssa.Function][]edge12{}
		n := 0
		for _, f := range g {
			for _, e := range out[f] {
				if !in[e.to] {
					continue
				}
				n++
				if why := t.progress(e, in); why != "" {
					r.OK("call of " + c.FnName(e.to) + " in " + c.FnName(e.from) + " " + why)
				} else {
					rest[f] = append(rest[f], e)
				}
			}
		}
		r.Count("recursive calls", n)
		sort.Slice(g, func(i, j int) bool { return c.FnName(g[i]) < c.FnName(g[j]) })
		for _, left := range sccs(g, rest) {
			lin := map[*ssa.Function]bool{}
			for _, f := range left {
				lin[f] = true
			}
			sort.Slice(left, func(i, j int) bool { return c.FnName(left[i]) < c.FnName(left[j]) })
			bad := false
			for _, f := range left {
				for _, e := range rest[f] {
					if !lin[e.to] {
						continue
					}
					if why := t.endless(e, lin); why != "" && !bad {
						bad = true
						r.Bad("unbounded-recursion", c.FnName(e.to), c.PosOf(e.at), "%s is called again for %s, and no record of what was already visited, entered before the call, stops it", c.FnName(e.to), why)
					}
				}
			}
			if !bad {
				r.Open("recursion through " + c.FnName(left[0]))
			}
		}
	}
}

// progress: the call can be made only finitely often in a row.
func (t *term12) progress(e edge12, in map[*ssa.Function]bool) string {
	if e.call != nil {
		params := e.to.Params
		args := e.call.Common().Args
		if e.call.Common().IsInvoke() {
			args = append([]ssa.Value{e.call.Common().Value}, args...)
		}
		for i, a := range args {
			if i >= len(params) {
				break
			}
			if t.smaller(a, in) { // of the same kind as what was gone down from
				return "goes down a tree"
			}
			if t.counts(a, e.from, in) {
				return "counts"
			}
		}
	}
	if t.visited(e.from, e.at, in) {
		return "is made only for what was not visited before"
	}
	return ""
}

type root12 struct {
	p    ssa.Value
	down bool
}

// smaller: the value is a strict part of what a function of the group was called with.
func (t *term12) smaller(a ssa.Value, in map[*ssa.Function]bool) bool {
	switch a.Type().Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Struct, *types.Interface, *types.Map:
	default:
		return false
	}
	roots := map[root12]bool{}
	unknown := false
	type key struct {
		v ssa.Value
		d bool
	}
	seen := map[key]bool{}
	var visit func(v ssa.Value, down bool)
	visit = func(v ssa.Value, down bool) {
		if seen[key{v, down}] || unknown {
			return
		}
		seen[key{v, down}] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Parameter:
			if in[x.Parent()] {
				roots[root12{x, down}] = true
			} else {
				unknown = true
			}
		case *ssa.FreeVar:
			if y := t.c.rootBinding(x); y != ssa.Value(x) {
				visit(y, down)
			} else {
				unknown = true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				visit(x.X, down)
			} else {
				unknown = true
			}
		case *ssa.FieldAddr:
			nm, _ := fieldName(deref(x.X.Type()), x.Field)
			visit(x.X, down || t.downField(deref(x.X.Type()), x.Field, nm))
		case *ssa.Field:
			nm, _ := fieldName(x.X.Type(), x.Field)
			visit(x.X, down || t.downField(x.X.Type(), x.Field, nm))
		case *ssa.IndexAddr:
			visit(x.X, down)
		case *ssa.Index:
			visit(x.X, down)
		case *ssa.Slice:
			visit(x.X, down)
		case *ssa.Lookup:
			// an entry of a table held by the value itself
			if x.CommaOk {
				unknown = true
				return
			}
			unknown = true
		case *ssa.Extract:
			switch tu := x.Tuple.(type) {
			case *ssa.Next:
				if rg, ok := tu.Iter.(*ssa.Range); ok {
					visit(rg.X, down)
					return
				}
				unknown = true
			case *ssa.TypeAssert:
				visit(tu.X, down)
			default:
				unknown = true
			}
		case *ssa.TypeAssert:
			visit(x.X, down)
		case *ssa.ChangeType:
			visit(x.X, down)
		case *ssa.MakeInterface:
			visit(x.X, down)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e, down)
			}
		case *ssa.Alloc:
			n := 0
			if x.Referrers() == nil {
				unknown = true
				return
			}
			st, _ := t.c.storesTo(x)
			for _, s := range st {
				n++
				visit(s.Val, down)
			}
			for _, u := range *x.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
					for _, w := range *ia.Referrers() {
						if s, ok := w.(*ssa.Store); ok && s.Addr == ia {
							n++
							visit(s.Val, down)
						}
					}
				}
			}
			if _, arr := deref(x.Type()).Underlying().(*types.Array); n == 0 && !arr {
				unknown = true
			}
		case *ssa.MakeSlice:
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.Call:
					if bt, ok := y.Call.Value.(*ssa.Builtin); ok && bt.Name() == "copy" && y.Call.Args[0] == ssa.Value(x) {
						visit(y.Call.Args[1], down)
					}
				case *ssa.IndexAddr:
					for _, w := range *y.Referrers() {
						if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
							visit(s.Val, down)
						}
					}
				}
			}
		case *ssa.Call:
			if bt, ok := x.Call.Value.(*ssa.Builtin); ok && bt.Name() == "append" {
				for _, a := range x.Call.Args {
					visit(a, down)
				}
				return
			}
			nm := calleeName(&x.Call)
			if strings.HasPrefix(nm, "slices.") || strings.HasPrefix(nm, "sort.") {
				visit(x.Call.Args[0], down)
				return
			}
			// a function of the module that only selects among parts of what it is given
			gs := t.c.ModCallees(x)
			if len(gs) == 1 && len(gs[0].Blocks) < 20 && !t.looksUp(gs[0], 0) {
				k := 0
				for _, a := range x.Call.Args {
					switch a.Type().Underlying().(type) {
					case *types.Pointer, *types.Slice, *types.Struct:
						k++
						visit(a, down || t.returnsPart(gs[0]))
					}
				}
				if k == 0 {
					unknown = true
				}
				return
			}
			unknown = true
		default:
			unknown = true
		}
	}
	visit(a, false)
	if unknown || len(roots) == 0 {
		return false
	}
	for k := range roots {
		if !k.down || !types.Identical(core12(k.p.Type()), core12(a.Type())) {
			return false
		}
	}
	return true
}

// core12 is the type of the nodes a value holds.
func core12(t types.Type) types.Type {
	for {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			return u
		}
	}
}

// returnsPart: the function returns a part of its first parameter.
func (t *term12) returnsPart(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if fa, ok := ins.(*ssa.FieldAddr); ok {
				nm, _ := fieldName(deref(fa.X.Type()), fa.Field)
				if t.downField(deref(fa.X.Type()), fa.Field, nm) {
					return true
				}
			}
		}
	}
	return false
}

// downField: the field leads from a node of a tree to what lies below or behind it.
func (t *term12) downField(st types.Type, i int, name string) bool {
	switch name {
	case "Parent", "PrevSibling":
		return false
	}
	s, ok := st.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return false
	}
	switch u := s.Field(i).Type().Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		return true
	case *types.Struct:
		_ = u
		return false
	}
	return false
}

// counts: an integer that goes down (or up) by a constant, compared in the function.
func (t *term12) counts(a ssa.Value, fn *ssa.Function, in map[*ssa.Function]bool) bool {
	b, ok := stripConv(a).(*ssa.BinOp)
	if !ok {
		return false
	}
	bt, ok := a.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	p, ok := stripConv(b.X).(*ssa.Parameter)
	if !ok || !in[p.Parent()] {
		return false
	}
	switch b.Op {
	case token.SUB, token.QUO, token.SHR, token.ADD:
		if k, ok := b.Y.(*ssa.Const); ok {
			n := k.Int64()
			if n <= 0 || b.Op == token.QUO && n < 2 {
				return false
			}
		} else if call, ok := b.Y.(*ssa.Call); !ok || calleeName(&call.Call) != "len" {
			return false
		}
	default:
		return false
	}
	// compared somewhere so that the call is not made for every value
	for _, blk := range fn.Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || stripConv(cmp.X) != ssa.Value(p) && stripConv(cmp.Y) != ssa.Value(p) {
			continue
		}
		if blk.Dominates(b.Block()) && blk != b.Block() || blk.Dominates(b.Block()) {
			// the comparison must cut off on the side the counter moves to
			op := cmp.Op
			if stripConv(cmp.Y) == ssa.Value(p) {
				op = swapOp(op)
			}
			for i, s := range blk.Succs {
				if s == b.Block() || s.Dominates(b.Block()) && len(s.Preds) == 1 {
					o := op
					if i == 1 {
						o = negOp(op)
					}
					up := o == token.LSS || o == token.LEQ
					down := o == token.GTR || o == token.GEQ
					if b.Op == token.ADD && (up || o == token.NEQ) || b.Op != token.ADD && (down || o == token.NEQ) {
						return true
					}
				}
			}
		}
	}
	return false
}

// tests of whether something was seen before
type test12 struct {
	ins   ssa.Instruction
	set   func(w *walk12, s *state12, present bool) []*state12 // what the test answers
	place string
	m, k  ssa.Value // table and key, as seen in the function
}

func (t *term12) mapPlace(m ssa.Value) (string, bool) {
	switch x := m.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if p := placeOf(x.X); p != "" {
				return p, true
			}
			switch a := x.X.(type) {
			case *ssa.Global:
				return a.String(), true
			case *ssa.FreeVar:
				if y := t.c.rootBinding(a); y != ssa.Value(a) {
					if al, ok := y.(*ssa.Alloc); ok {
						return "var " + al.Comment + "@" + al.Parent().String(), true
					}
				}
			case *ssa.Alloc:
				return "var " + a.Comment + "@" + a.Parent().String(), true
			}
		}
	case *ssa.Parameter:
		return "param", true
	case *ssa.FreeVar:
		y := t.c.rootBinding(x)
		if al, ok := y.(*ssa.Alloc); ok {
			return "var " + al.Comment + "@" + al.Parent().String(), true
		}
		if mm, ok := y.(*ssa.MakeMap); ok {
			return "map " + mm.Name() + "@" + mm.Parent().String(), true
		}
		if p, ok := y.(*ssa.Parameter); ok {
			return "param " + p.Name(), true
		}
	case *ssa.MakeMap:
		return "map " + x.Name() + "@" + x.Parent().String(), true
	}
	return "", false
}

// fresh: the table is made in a function of the group, so every call has its own.
func (t *term12) freshMap(m ssa.Value, in map[*ssa.Function]bool) bool {
	switch x := m.(type) {
	case *ssa.MakeMap:
		return in[x.Parent()]
	case *ssa.FreeVar:
		y := t.c.rootBinding(x)
		if y == ssa.Value(x) {
			return false
		}
		return t.freshMap(y, in)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return in[a.Parent()] && a.Parent().Parent() == nil || in[a.Parent()]
		case *ssa.FreeVar:
			if al, ok := t.c.rootBinding(a).(*ssa.Alloc); ok {
				return in[al.Parent()]
			}
		}
	}
	return false
}

func (t *term12) sameText(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	return t.c.Exprs().X(a, nil).Key == t.c.Exprs().X(b, nil).Key
}

// visited: the instruction is reached only when a test of a lasting record finds nothing, and after the record was entered.
func (t *term12) visited(fn *ssa.Function, at ssa.Instruction, in map[*ssa.Function]bool) bool {
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			if ins == at || !b.Dominates(at.Block()) {
				break
			}
			ts := t.testOf(ins, in)
			if ts == nil {
				continue
			}
			ok := true
			for _, present := range []bool{true, false} {
				w := &walk12{t: t, mode: "eof"}
				base := &state12{map[ssa.Value]av12{}, map[ssa.Value]av12{}}
				for _, s := range ts.set(w, base, present) {
					w.run(b, i+1, s, map[string]bool{}, nil, func(_ *ssa.BasicBlock, j ssa.Instruction, s *state12) bool {
						if j == ins {
							return false
						}
						if j == at {
							if present || s.v[markIns] != "true" {
								ok = false
							}
							return false
						}
						if t.enters(j, ts) {
							s.v[markIns] = "true"
							s.mem[markIns] = "true"
						}
						return ok
					})
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// markIns stands for "the record was entered" in a state.
var markIns ssa.Value = &ssa.Parameter{}

// testOf recognises a test of a record.
func (t *term12) testOf(ins ssa.Instruction, in map[*ssa.Function]bool) *test12 {
	switch x := ins.(type) {
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok || t.freshMap(x.X, in) {
			return nil
		}
		p, _ := t.mapPlace(x.X)
		return &test12{ins: ins, place: p, m: x.X, k: x.Index, set: func(w *walk12, s *state12, present bool) []*state12 {
			n := s.clone()
			bindLookup(n, x, present)
			return []*state12{n}
		}}
	case *ssa.Call:
		nm := calleeName(&x.Call)
		switch nm {
		case "(*sync.Map).LoadOrStore", "(*sync.Map).Load", "(*sync.Map).Swap":
			return &test12{ins: ins, place: "sync", m: x.Call.Args[0], k: x.Call.Args[1], set: func(w *walk12, s *state12, present bool) []*state12 {
				n := s.clone()
				bindExtract(n, x, 1, tv(present))
				if nm != "(*sync.Map).Load" {
					n.v[markIns] = "true"
					n.mem[markIns] = "true"
				}
				return []*state12{n}
			}}
		case "slices.Contains":
			p, _ := t.mapPlace(x.Call.Args[0])
			return &test12{ins: ins, place: p, m: x.Call.Args[0], k: x.Call.Args[1], set: func(w *walk12, s *state12, present bool) []*state12 {
				n := s.clone()
				n.v[x] = tv(present)
				return []*state12{n}
			}}
		}
		gs := t.c.Sync().callees(x)
		if len(gs) != 1 || len(gs[0].Blocks) == 0 {
			return nil
		}
		g := gs[0]
		res := g.Signature.Results()
		if res.Len() == 0 {
			return nil
		}
		// contains(key, list)
		if res.Len() == 1 && isBool(res.At(0).Type()) && len(x.Call.Args) == 2 {
			for i, a := range x.Call.Args {
				if _, ok := a.Type().Underlying().(*types.Slice); ok {
					p, _ := t.mapPlace(a)
					return &test12{ins: ins, place: p, m: a, k: x.Call.Args[1-i], set: func(w *walk12, s *state12, present bool) []*state12 {
						n := s.clone()
						n.v[x] = tv(present)
						return []*state12{n}
					}}
				}
			}
		}
		for _, b := range g.Blocks {
			for i, gi := range b.Instrs {
				lk, ok := gi.(ssa.Instruction)
				if !ok {
					continue
				}
				inner := t.testOfInner(lk, in)
				if inner == nil {
					continue
				}
				// the key as seen by the caller
				var key ssa.Value
				if p, ok := stripConv(inner.k).(*ssa.Parameter); ok {
					key = argOf(x, g, p)
				}
				place := inner.place
				m := inner.m
				if p, ok := inner.m.(*ssa.Parameter); ok {
					m = argOf(x, g, p)
					if m == nil || t.freshMap(m, in) {
						continue
					}
					place, _ = t.mapPlace(m)
				}
				bb, ii := b, i
				return &test12{ins: ins, place: place, m: m, k: key, set: func(w *walk12, s *state12, present bool) []*state12 {
					var outs []*state12
					for _, st := range inner.set(w, s, present) {
						w.run(bb, ii+1, st, map[string]bool{}, nil, func(_ *ssa.BasicBlock, j ssa.Instruction, q *state12) bool {
							if t.enters(j, inner) {
								q.v[markIns] = "true"
								q.mem[markIns] = "true"
							}
							if rt, ok := j.(*ssa.Return); ok {
								n := s.clone()
								rs := results(rt)
								for k, v := range rs {
									a := w.val(q, v)
									if a == "" {
										continue
									}
									if len(rs) == 1 {
										n.v[x] = a
									} else {
										bindExtract(n, x, k, a)
									}
								}
								if q.v[markIns] == "true" {
									n.v[markIns] = "true"
									n.mem[markIns] = "true"
								}
								outs = append(outs, n)
							}
							return true
						})
					}
					return outs
				}}
			}
		}
	}
	return nil
}

func (t *term12) testOfInner(ins ssa.Instruction, in map[*ssa.Function]bool) *test12 {
	switch x := ins.(type) {
	case *ssa.Lookup:
		return t.testOf(x, in)
	case *ssa.Call:
		if strings.HasPrefix(calleeName(&x.Call), "(*sync.Map).") || calleeName(&x.Call) == "slices.Contains" {
			return t.testOf(x, in)
		}
	}
	return nil
}

func tv(b bool) av12 {
	if b {
		return "true"
	}
	return "false"
}

func bindExtract(s *state12, v ssa.Value, i int, a av12) {
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == i {
			s.v[e] = a
		}
	}
}

func bindLookup(s *state12, x *ssa.Lookup, present bool) {
	var a av12
	switch u := x.X.Type().Underlying().(*types.Map).Elem().Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			a = tv(present)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		a = "nil"
		if present {
			a = "nonnil"
		}
	}
	if x.CommaOk {
		bindExtract(s, x, 1, tv(present))
		if a != "" {
			bindExtract(s, x, 0, a)
		}
		return
	}
	if a != "" {
		s.v[x] = a
	}
}

// enters: the instruction enters the key of the test in its table.
func (t *term12) enters(ins ssa.Instruction, ts *test12) bool {
	sameMap := func(m ssa.Value) bool {
		if m == ts.m || t.sameText(m, ts.m) {
			return true
		}
		p, ok := t.mapPlace(m)
		return ok && p != "param" && p == ts.place
	}
	switch x := ins.(type) {
	case *ssa.MapUpdate:
		if !sameMap(x.Map) || ts.k == nil || !t.sameText(x.Key, ts.k) {
			return false
		}
		if k, ok := x.Value.(*ssa.Const); ok {
			if k.IsNil() || k.Value != nil && k.Value.String() == "false" {
				return false
			}
		}
		return true
	case *ssa.Store:
		// list = append(list, key)
		call, ok := x.Val.(*ssa.Call)
		if !ok {
			return false
		}
		bt, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bt.Name() != "append" || len(call.Call.Args) != 2 || !sameMap(call.Call.Args[0]) || ts.k == nil {
			return false
		}
		for _, a := range variadicArgs(call.Call.Args[1]) {
			if t.sameText(a, ts.k) {
				return true
			}
		}
	case *ssa.Call:
		if calleeName(&x.Call) == "(*sync.Map).Store" && ts.place == "sync" {
			return ts.k != nil && t.sameText(stripIface(x.Call.Args[1]), stripIface(ts.k))
		}
		if ins == ts.ins {
			return false
		}
		gs := t.c.Sync().callees(x)
		if len(gs) != 1 || ts.k == nil {
			return false
		}
		for _, b := range gs[0].Blocks {
			for _, gi := range b.Instrs {
				mu, ok := gi.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				m := mu.Map
				if p, ok := m.(*ssa.Parameter); ok {
					m = argOf(x, gs[0], p)
				}
				if m == nil || !sameMap(m) {
					continue
				}
				if p, ok := stripConv(mu.Key).(*ssa.Parameter); ok {
					if a := argOf(x, gs[0], p); a != nil && t.sameText(a, ts.k) && onEveryWay(gs[0], mu) {
						return true
					}
				}
			}
		}
	}
	return false
}

func stripIface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

// onEveryWay: every return of the function comes after the instruction.
func onEveryWay(fn *ssa.Function, ins ssa.Instruction) bool {
	for _, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != fn.Recover && !ins.Block().Dominates(b) {
			return false
		}
	}
	return true
}

// endless: what the call is made for gives no reason to end.
func (t *term12) endless(e edge12, in map[*ssa.Function]bool) string {
	if e.call == nil {
		return ""
	}
	args := e.call.Common().Args
	if e.from == e.to && len(args) > 0 && len(args) == len(e.to.Params) {
		same := true
		for i, a := range args {
			if a != ssa.Value(e.to.Params[i]) {
				same = false
			}
		}
		if same {
			return "the very same arguments"
		}
	}
	if e.from == e.to && len(args) == len(e.to.Params) && t.unmoved(e) {
		return "arguments on which what decides about the call does not change"
	}
	for _, a := range args {
		if at := t.fetched(a, in, map[ssa.Value]bool{}, 0); at != nil {
			return "what a reference in the filing leads to (" + t.c.PosOf(at) + ")"
		}
	}
	return ""
}

// unmoved: the conditions of the call depend on parameters only, and those are handed on unchanged or moved away from
// what would end it.
func (t *term12) unmoved(e edge12) bool {
	fn := e.from
	params := map[*ssa.Parameter]bool{}
	ok := true
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const, *ssa.Builtin, *ssa.Function:
			return
		case *ssa.Parameter:
			params[x] = true
			return
		case *ssa.Global, *ssa.FreeVar:
			ok = false
			return
		case *ssa.UnOp:
			if g, isG := x.X.(*ssa.Global); isG && x.Op == token.MUL {
				if _, arr := deref(g.Type()).Underlying().(*types.Array); arr {
					return
				}
			}
		case *ssa.Call:
			if !t.pureCall(&x.Call, 0) {
				ok = false
				return
			}
		case *ssa.Alloc:
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.Store:
					visit(y.Val)
				case *ssa.IndexAddr, *ssa.FieldAddr:
					for _, w := range *u.(ssa.Value).Referrers() {
						if s, isS := w.(*ssa.Store); isS {
							visit(s.Val)
						}
					}
				}
			}
			return
		}
		ins, isIns := v.(ssa.Instruction)
		if !isIns {
			ok = false
			return
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				visit(*op)
			}
		}
	}
	n := 0
	for d := e.at.Block().Idom(); d != nil; d = d.Idom() {
		if iff, isIf := d.Instrs[len(d.Instrs)-1].(*ssa.If); isIf {
			n++
			visit(iff.Cond)
		}
	}
	if !ok || n == 0 || len(params) == 0 {
		return false
	}
	args := e.call.Common().Args
	for i, p := range e.to.Params {
		if !params[p] || args[i] == ssa.Value(p) {
			continue
		}
		b, isB := stripConv(args[i]).(*ssa.BinOp)
		if !isB || stripConv(b.X) != ssa.Value(p) || !isConst(b.Y) || t.counts(args[i], fn, map[*ssa.Function]bool{fn: true}) {
			return false
		}
		if b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
	}
	return true
}

// fetched: the value was read from a file or looked up in a table.
func (t *term12) fetched(v ssa.Value, in map[*ssa.Function]bool, seen map[ssa.Value]bool, depth int) ssa.Instruction {
	if seen[v] || depth > 10 {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		return t.fetched(x.X, in, seen, depth+1)
	case *ssa.FieldAddr:
		return t.fetched(x.X, in, seen, depth+1)
	case *ssa.IndexAddr:
		return t.fetched(x.X, in, seen, depth+1)
	case *ssa.Field:
		return t.fetched(x.X, in, seen, depth+1)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return t.fetched(call, in, seen, depth+1)
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			return t.fetched(l, in, seen, depth+1)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return x
		}
	case *ssa.Call:
		if strings.HasSuffix(calleeName(&x.Call), "RArc).HashQuery") {
			return x
		}
		for _, g := range t.c.ModCallees(x) {
			if !in[g] && t.looksUp(g, 0) {
				return x
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if at := t.fetched(e, in, seen, depth+1); at != nil {
				return at
			}
		}
	case *ssa.Alloc:
		st, _ := t.c.storesTo(x)
		for _, s := range st {
			if at := t.fetched(s.Val, in, seen, depth+1); at != nil {
				return at
			}
		}
	case *ssa.FreeVar:
		if y := t.c.rootBinding(x); y != ssa.Value(x) {
			return t.fetched(y, in, seen, depth+1)
		}
	}
	return nil
}
