package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cutElsewhere: a text is cut at a position that was found in that text.
func cutElsewhere(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				sl, ok := ins.(*ssa.Slice)
				if !ok || !isString(sl.X.Type()) {
					continue
				}
				for _, at := range []ssa.Value{sl.Low, sl.High} {
					call := foundAt(at)
					if call == nil {
						continue
					}
					in := call.Call.Args[0]
					x := c.Exprs()
					if n := fieldOf23(in); n != "" && n == fieldOf23(sl.X) || in == sl.X || x.X(in, nil).Key == x.X(sl.X, nil).Key || dependsOn(in, sl.X, map[ssa.Value]bool{}) || dependsOn(sl.X, in, map[ssa.Value]bool{}) {
						r.OK(c.FnName(f) + " cuts a text where it found the separator")
						continue
					}
					r.Bad("cut", c.FnName(f), c.PosOf(ins), "%s cuts a text at a position found in another text", c.FnName(f))
				}
			}
		}
	}
}

// foundAt is the search that gave a position, plus or minus a constant.
func foundAt(v ssa.Value) *ssa.Call {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); !ok || x.Op != token.ADD && x.Op != token.SUB {
				return nil
			}
			v = x.X
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "strings" && strings.Contains(f.Name(), "Index") && len(x.Call.Args) > 0 {
				return x
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// firstOnly: a loop over a list does not end with its first element whatever it is.
func firstOnly(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, fn := range fns {
		info := c.infoOf(fn)
		if fn.Syntax() == nil || info == nil {
			continue
		}
		ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
			rs, ok := n.(*ast.RangeStmt)
			if !ok || len(rs.Body.List) == 0 || info.TypeOf(rs.X) == nil {
				return true
			}
			if _, ok := info.TypeOf(rs.X).Underlying().(*types.Slice); !ok {
				return true
			}
			ret, ok := rs.Body.List[len(rs.Body.List)-1].(*ast.ReturnStmt)
			if !ok || len(ret.Results) == 0 {
				return true
			}
			again := false
			ast.Inspect(rs.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncLit:
					return false
				case *ast.BranchStmt:
					again = again || x.Tok != token.BREAK
				}
				return true
			})
			if !again {
				k := c.FnName(fn)
				r.Bad("first", k, c.Pos(rs.Pos()), "%s answers from the first element of a list whatever the others are", k)
			}
			return true
		})
	}
}

// blanks: a list that is made with elements is not only added to.
func blanks(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				m, ok := ins.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				if k, ok := m.Len.(*ssa.Const); ok && k.Int64() == 0 {
					continue
				}
				added, other := false, false
				seen := map[ssa.Value]bool{}
				var follow func(v ssa.Value)
				follow = func(v ssa.Value) {
					if seen[v] {
						return
					}
					seen[v] = true
					for _, u := range *v.Referrers() {
						switch x := u.(type) {
						case *ssa.Phi:
							follow(x)
						case *ssa.DebugRef, *ssa.Return:
						case *ssa.Call:
							bi, ok := x.Call.Value.(*ssa.Builtin)
							switch {
							case ok && bi.Name() == "append" && x.Call.Args[0] == v:
								added = true
								follow(x)
							case ok && (bi.Name() == "len" || bi.Name() == "cap"):
							default:
								if v == ssa.Value(m) {
									other = true
								}
							}
						default:
							// a use of the list before anything was added can fill it
							if v == ssa.Value(m) || !added {
								other = true
							}
							if ia, ok := u.(*ssa.IndexAddr); ok && stored(ia) {
								other = true
							}
						}
					}
				}
				follow(m)
				if added && !other {
					r.Bad("blank", c.FnName(f), c.PosOf(m), "%s adds to a list that was made with blank elements", c.FnName(f))
				}
			}
		}
	}
}

func stored(a *ssa.IndexAddr) bool {
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			return true
		}
		if _, ok := u.(*ssa.FieldAddr); ok {
			return true
		}
	}
	return false
}

// scopedMarks: names that are only unique within a file are not remembered from one file to the next.
func scopedMarks(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		loops := naturalLoops(f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				lk, ok := ins.(*ssa.Lookup)
				if !ok {
					continue
				}
				m, ok := lk.X.(*ssa.MakeMap)
				if !ok || emptied(m) || !lk.CommaOk && !isBool(lk.Type()) {
					continue
				}
				switch fieldOf23(lk.Index) {
				case "ContextRef", "UnitRef":
				default:
					continue
				}
				for _, l := range loops {
					if !l.body[b] || !overFiles(l) {
						continue
					}
					if l.body[m.Block()] {
						r.OK(c.FnName(f) + " remembers references for one file at a time")
					} else {
						r.Bad("scope", c.FnName(f), c.PosOf(m), "%s remembers references of one instance when it goes on to the next", c.FnName(f))
					}
				}
			}
		}
	}
}

// emptied tells whether entries are taken out of a map again.
func emptied(m *ssa.MakeMap) bool {
	for _, u := range *m.Referrers() {
		if call, ok := u.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "clear" || bi.Name() == "delete") {
				return true
			}
		}
	}
	return false
}

// overFiles: the loop goes through the instances of a filing.
func overFiles(l *natLoop) bool {
	for b := range l.body {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.IndexAddr); ok && typeName(deref(x.Type())) == "Instance" && variesIn(l, x.Index) {
				return true
			}
		}
	}
	return false
}

// wholeEntities: entities are told apart by scheme and identifier.
func wholeEntities(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				if nested(u) {
					continue
				}
				v, ok := u.Key.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := v.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok {
					continue
				}
				names := map[string]bool{}
				for i := 0; i < st.NumFields(); i++ {
					names[st.Field(i).Name()] = true
				}
				if n := st.Field(fa.Field).Name(); names["Scheme"] && names["CharData"] && (n == "Scheme" || n == "CharData") {
					r.Bad("entity", c.FnName(f), c.PosOf(ins), "%s tells entities apart by their %s alone", c.FnName(f), n)
				}
			}
		}
	}
}

// percentPair: the percent type is a name of the numeric types' namespace.
func percentPair(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		var local ssa.Instruction
		space := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok || x.Op != token.EQL && x.Op != token.NEQ {
					continue
				}
				for _, s := range []ssa.Value{x.X, x.Y} {
					k, ok := s.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					switch v := constant.StringVal(k.Value); {
					case v == "percentItemType":
						local = ins
					case numericSpace(v):
						space = true
					}
				}
			}
		}
		if local == nil {
			continue
		}
		if space || numericNear(c, f) {
			r.OK(c.FnName(f) + " recognises percentages by both halves of the type's name")
		} else {
			r.Bad("percent", c.FnName(f), c.PosOf(local), "%s recognises percentages by the local half of the type's name alone", c.FnName(f))
		}
	}
}

// separators: two texts that are put together from the same parts and compared use the same separator.
func separators(c *Ctx, r *Report, vf *VF, seen map[string]bool) {
	seps := func(cl *vcell) (string, bool) {
		got := map[string]bool{}
		entity := false
		if cl == nil {
			return "", false
		}
		for _, t := range cl.tgl {
			if isBy(t) {
				continue
			}
			if k, ok := strings.CutPrefix(t, "const:"); ok {
				for _, verb := range []string{"%s", "%v", "%q"} {
					k = strings.ReplaceAll(k, verb, "")
				}
				if k != "" {
					got[k] = true
				}
				continue
			}
			if t = normTag(t); strings.HasSuffix(t, "Identifier.Scheme") || strings.HasSuffix(t, "Identifier.CharData") {
				entity = true
			}
		}
		var l []string
		for k := range got {
			l = append(l, k)
		}
		sort.Strings(l)
		return strings.Join(l, " "), entity && len(l) > 0
	}
	for _, in := range vf.list {
		if c.RelPkg(in.fn) != "pkg/renderables" {
			continue
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok || x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
					continue
				}
				p, okp := seps(in.regs[x.X])
				q, okq := seps(in.regs[x.Y])
				k := "sep " + c.PosOf(ins) + p + "|" + q
				if !okp || !okq || seen[k] {
					continue
				}
				seen[k] = true
				if p != q {
					r.Bad("separator", c.FnName(in.fn), c.PosOf(ins), "%s compares entities put together with %q and with %q", c.FnName(in.fn), p, q)
				} else {
					r.OK(c.FnName(in.fn) + " compares entities put together in the same way")
				}
			}
		}
	}
}

// numbering: a number that is kept for an element counts the elements before it, not those that matched.
func numbering(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, l := range naturalLoops(f) {
			for _, ins := range l.head.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok || !isInt(phi.Type()) || !keptNumber(phi) {
					continue
				}
				var back []ssa.Value
				for i, p := range l.head.Preds {
					if l.body[p] {
						back = append(back, phi.Edges[i])
					}
				}
				if mixes(back, phi) {
					r.Bad("number", c.FnName(f), c.PosOf(phi), "%s numbers elements by how many matched before", c.FnName(f))
				} else {
					r.OK(c.FnName(f) + " numbers elements by their position")
				}
			}
		}
	}
}

// keptNumber: the counter itself is put into a list.
func keptNumber(phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Val == v {
					if _, ok := x.Addr.(*ssa.IndexAddr); ok {
						return true
					}
				}
			case *ssa.Phi:
				if walk(x) {
					return true
				}
			}
		}
		return false
	}
	return walk(phi)
}

// mixes: the counter stays on one way round and is advanced on another.
func mixes(back []ssa.Value, phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	same, next := false, false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == ssa.Value(phi) {
			same = true
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.BinOp:
			if x.Op == token.ADD && counts(x.X, phi, map[ssa.Value]bool{}) {
				next = true
			}
		}
	}
	for _, v := range back {
		walk(v)
	}
	return same && next
}

// counts tells whether v is the counter as it was at the start of the pass or as this pass left it.
func counts(v ssa.Value, phi *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(phi) {
		return true
	}
	p, ok := v.(*ssa.Phi)
	if !ok || seen[v] {
		return false
	}
	seen[v] = true
	for _, e := range p.Edges {
		if counts(e, phi, seen) {
			return true
		}
	}
	return false
}

// givesUp: a lookup does not end with nothing at an element that has nothing.
func givesUp(c *Ctx, r *Report, k *keep23, fns []*ssa.Function) {
	for _, f := range fns {
		res := f.Signature.Results()
		if res.Len() != 1 {
			continue
		}
		if _, ok := res.At(0).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		for _, l := range naturalLoops(f) {
			if !overSlice(l) {
				continue
			}
			var none []*ssa.Return
			some := false
			for _, b := range f.Blocks {
				if l.body[b] || b == l.head || !l.head.Dominates(b) || !leaves(l, b) || len(b.Instrs) == 0 {
					continue
				}
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(b.Preds) == 0 || onlyFrom(b, l.head) {
					continue
				}
				if noElements(ret.Results[0]) {
					none = append(none, ret)
				} else {
					some = true
				}
			}
			for _, ret := range none {
				if !some && !laterReturn(f, l) {
					continue
				}
				t := k.see(f, l)
				if t == nil || k.decided(t, ret.Block().Preds[0]) {
					continue
				}
				r.Bad("givesup", c.FnName(f), c.PosOf(ret), "%s ends with nothing at an element without a match: those after it are not looked at", c.FnName(f))
			}
		}
	}
}

func onlyFrom(b, h *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if p != h {
			return false
		}
	}
	return true
}

func laterReturn(f *ssa.Function, l *natLoop) bool {
	for _, b := range f.Blocks {
		if n := len(b.Instrs); n > 0 && l.head.Dominates(b) {
			if ret, ok := b.Instrs[n-1].(*ssa.Return); ok && len(ret.Results) == 1 && !noElements(ret.Results[0]) {
				return true
			}
		}
	}
	return false
}

func noElements(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		return zeroConst(x.Len)
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		t, ok := deref(a.Type()).Underlying().(*types.Array)
		return ok && t.Len() == 0
	}
	return false
}

// heeded: what a filing says about a part by a flag is asked for where the part is rendered.
func heeded(c *Ctx, r *Report) {
	for _, want := range [][2]string{{"Fact", "IsNil"}, {"Concept", "Abstract"}, {"DefinitionArc", "Usable"}, {"DefinitionArc", "Closed"}} {
		declared, read := false, false
		for _, fn := range c.Fns {
			pkg := c.RelPkg(fn)
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					var t types.Type
					var i int
					var v ssa.Value
					switch x := ins.(type) {
					case *ssa.FieldAddr:
						t, i, v = deref(x.X.Type()), x.Field, x
					case *ssa.Field:
						t, i, v = x.X.Type(), x.Field, x
					default:
						continue
					}
					if typeName(t) != want[0] {
						continue
					}
					if n, _ := fieldName(t, i); n != want[1] {
						continue
					}
					declared = true
					for _, u := range *v.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == v {
							continue
						}
						read = read || pkg == "pkg/renderables" || pkg == "pkg/hydratables"
					}
				}
			}
		}
		switch {
		case !declared:
			r.Open(want[0] + "." + want[1] + " not found")
		case read:
			r.OK(want[0] + "." + want[1] + " is asked for")
		default:
			r.Bad("flag", want[0]+"."+want[1], "pkg/renderables", "nothing asks for %s.%s", want[0], want[1])
		}
	}
}

func numericSpace(s string) bool {
	return strings.Contains(s, "/dtr/type/numeric") || strings.Contains(s, "/num")
}

// numericNear tells whether a function that f calls, or one that calls f, knows the namespace of numeric types.
func numericNear(c *Ctx, f *ssa.Function) bool {
	knows := func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && numericSpace(constant.StringVal(k.Value)) {
						return true
					}
				}
			}
		}
		return false
	}
	calls := func(g, h *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == h {
					return true
				}
			}
		}
		return false
	}
	for _, g := range c.Fns {
		if g != f && (calls(f, g) || calls(g, f) || g.Parent() == f || f.Parent() == g) && knows(g) {
			return true
		}
	}
	return false
}

// nested tells whether a map takes part in a key of several halves, one map for each.
func nested(u *ssa.MapUpdate) bool {
	if m, ok := u.Map.Type().Underlying().(*types.Map); ok {
		if _, ok := m.Elem().Underlying().(*types.Map); ok {
			return true
		}
	}
	switch x := u.Map.(type) {
	case *ssa.MakeMap, *ssa.Parameter, *ssa.FreeVar:
		return false
	case *ssa.UnOp:
		_, lk := x.X.(*ssa.Lookup)
		return lk
	}
	return true
}

// startsOver looks for a collection kept under a key that every pass of a loop replaces by an empty one, although
// the same pass adds to it: only the last pass would be left.
func startsOver(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, l := range naturalLoops(f) {
			for _, b := range blocksOf23(f, l) {
				for _, ins := range b.Instrs {
					u, ok := ins.(*ssa.MapUpdate)
					if !ok || within(l, u.Map) || within(l, u.Key) {
						continue
					}
					if _, ok := u.Value.(*ssa.MakeMap); !ok || !l.body[u.Value.(*ssa.MakeMap).Block()] || !everyPass(l, b) {
						continue
					}
					adds := func(m ssa.Value) bool {
						for _, ref := range *m.Referrers() {
							if a, ok := ref.(*ssa.MapUpdate); ok && a.Map == m && l.body[a.Block()] {
								if _, fixed := a.Key.(*ssa.Const); !fixed {
									return true
								}
							}
						}
						return false
					}
					lost := adds(u.Value)
					for _, d := range blocksOf23(f, l) {
						for _, in := range d.Instrs {
							if lk, ok := in.(*ssa.Lookup); ok && !lk.CommaOk && lk.X == u.Map && lk.Index == u.Key && adds(lk) {
								lost = true
							}
						}
					}
					if lost && !innerLoop(f, l, b) {
						r.Bad("afresh", c.FnName(f), c.PosOf(u), "%s empties the collection it adds to on every pass, so only what the last pass adds is left", c.FnName(f))
					}
				}
			}
		}
	}
}

// within tells whether v is computed in the loop.
func within(l *natLoop, v ssa.Value) bool {
	ins, ok := v.(ssa.Instruction)
	return ok && l.body[ins.Block()]
}

// innerLoop tells whether b lies in a loop inside l.
func innerLoop(f *ssa.Function, l *natLoop, b *ssa.BasicBlock) bool {
	for _, m := range naturalLoops(f) {
		if m != l && m.body[b] && l.body[m.head] && m.head != l.head {
			return true
		}
	}
	return false
}

func everyPass(l *natLoop, b *ssa.BasicBlock) bool {
	for _, p := range l.head.Preds {
		if l.body[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// onlyFailed looks for a result that is used nowhere but where the call that gave it has failed.
func onlyFailed(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Referrers() == nil {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil || c.RelPkg(g) == "" {
					continue
				}
				res := g.Signature.Results()
				if res.Len() != 2 || !isErrorType(res.At(1).Type()) {
					continue
				}
				var val, err ssa.Value
				for _, ref := range *call.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok {
						if e.Index == 0 {
							val = e
						} else {
							err = e
						}
					}
				}
				if val == nil || err == nil {
					continue
				}
				uses, failed := 0, 0
				for _, ref := range *val.Referrers() {
					if _, ok := ref.(*ssa.DebugRef); ok {
						continue
					}
					uses++
					if phi, ok := ref.(*ssa.Phi); ok {
						all := true
						for i, e := range phi.Edges {
							if e == val && !whereFailed(err, phi.Block().Preds[i], phi.Block()) {
								all = false
							}
						}
						if all {
							failed++
						}
						continue
					}
					if _, ok := ref.(*ssa.Return); ok {
						continue
					}
					if whereFailed(err, ref.Block(), nil) {
						failed++
					}
				}
				if uses > 0 && uses == failed {
					r.Bad("failed", c.FnName(f), c.PosOf(call), "the result of %s is used only where the call has failed", c.FnName(g))
				}
			}
		}
	}
}

// whereFailed tells whether b (or the edge from b to next) is reached only with err set.
func whereFailed(err ssa.Value, b, next *ssa.BasicBlock) bool {
	for _, ref := range *err.Referrers() {
		x, ok := ref.(*ssa.BinOp)
		if !ok || x.Op != token.NEQ && x.Op != token.EQL {
			continue
		}
		if k, ok := x.Y.(*ssa.Const); !ok || !k.IsNil() {
			continue
		}
		for _, u := range *x.Referrers() {
			iff, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			s := iff.Block().Succs[0]
			if x.Op == token.EQL {
				s = iff.Block().Succs[1]
			}
			if len(s.Preds) == 1 && s.Dominates(b) || b == iff.Block() && s == next && iff.Block().Succs[0] != iff.Block().Succs[1] {
				return true
			}
		}
	}
	return false
}

// exactIds looks for identifiers of the filing that are told apart by a part of them, or regardless of case.
func exactIds(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || len(call.Call.Args) != 2 {
					continue
				}
				switch calleeName(&call.Call) {
				case "strings.EqualFold", "strings.HasSuffix", "strings.HasPrefix", "strings.Contains":
				default:
					continue
				}
				for i, a := range call.Call.Args {
					switch n := fieldOf23(a); n {
					case "ID", "ContextRef", "UnitRef", "Href", "RoleURI", "From", "To":
						if _, fixed := call.Call.Args[1-i].(*ssa.Const); !fixed && exactFirst(b, call) && !measured(f, n) {
							r.Bad("ids", c.FnName(f), c.PosOf(call), "%s is matched by %s, which takes different identifiers for the same", n, calleeName(&call.Call))
						}
					}
				}
			}
		}
	}
}

// measured tells whether the length of such an identifier is looked at as well.
func measured(f *ssa.Function, field string) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && fieldOf23(call.Call.Args[0]) == field {
					return true
				}
			}
		}
	}
	return false
}

// exactFirst tells whether the outcome of the call alone decides a branch.
func exactFirst(b *ssa.BasicBlock, call *ssa.Call) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || iff.Cond != call {
		return false
	}
	// a further test of the same texts may follow where this one holds
	for _, ins := range b.Succs[0].Instrs {
		if _, ok := ins.(*ssa.If); ok {
			return false
		}
	}
	return true
}

// scopes checks what Folder.Namespaces is filled with: a namespace leads to a location.
func scopes(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.MapUpdate)
				if !ok || fieldOf23(u.Map) != "Namespaces" {
					continue
				}
				for n, v := range []ssa.Value{u.Key, u.Value} {
					for _, a := range attrsOf(c, v, 0) {
						space := a.name == "namespace" || a.name == "targetNamespace"
						if !space && a.name != "schemaLocation" && a.name != "href" {
							continue
						}
						if space == (n == 0) {
							r.OK(c.FnName(f) + " keeps namespaces with their locations")
						} else {
							r.Bad("scope", c.FnName(a.at.Parent()), c.PosOf(a.at), "the attribute %s takes the wrong place among the namespaces kept with their locations", a.name)
						}
					}
				}
			}
		}
	}
}

type attrUse struct {
	name string
	at   *ssa.Call
}

// attrsOf gives the attributes whose values v takes, at the callers if v is a parameter.
func attrsOf(c *Ctx, v ssa.Value, depth int) []attrUse {
	if depth > 3 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		n := -1
		for i, p := range x.Parent().Params {
			if p == x {
				n = i
			}
		}
		var r []attrUse
		for _, g := range c.Fns {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == x.Parent() && n >= 0 && n < len(call.Common().Args) {
						r = append(r, attrsOf(c, call.Common().Args[n], depth+1)...)
					}
				}
			}
		}
		return r
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		call, ok := fa.X.(*ssa.Call)
		if !ok || fieldOf23(x) != "Value" || !strings.HasSuffix(calleeName(&call.Call), "attr.FindAttr") || len(call.Call.Args) != 2 {
			return nil
		}
		if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return []attrUse{{constant.StringVal(k.Value), call}}
		}
	}
	return nil
}

// declarations looks for a prefix that is compared with the local names of attributes without looking at what
// namespace these are in: any attribute of that name would be taken for a declaration.
func declarations(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		var at ssa.Instruction
		space := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if n, _ := fieldName(deref(x.X.Type()), x.Field); n == "Space" {
						space = true
					}
				case *ssa.Field:
					if n, _ := fieldName(x.X.Type(), x.Field); n == "Space" {
						space = true
					}
				case *ssa.Call:
					if _, ok := x.Call.Value.(*ssa.Builtin); ok {
						break
					}
					// whatever gets the whole name may look at its namespace
					for _, a := range x.Call.Args {
						if t := a.Type().String(); strings.HasSuffix(t, "xml.Name") || strings.HasSuffix(t, "xml.Attr") {
							space = true
						}
					}
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ {
						break
					}
					for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if isLocalName(p[0]) && isPrefix(c, p[1], 0) {
							at = ins
						}
						// names may be compared as a whole as well
						if strings.HasSuffix(p[0].Type().String(), "xml.Name") {
							space = true
						}
					}
				}
			}
		}
		if at == nil {
			continue
		}
		if space {
			r.OK(c.FnName(f) + " looks a prefix up among namespace declarations")
		} else {
			r.Bad("prefix", c.FnName(f), c.PosOf(at), "%s takes any attribute whose local name is the prefix for the declaration of its namespace", c.FnName(f))
		}
	}
}

// isPrefix tells whether v is what stands before a colon, at some caller if v is a parameter.
func isPrefix(c *Ctx, v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		call := foundAt(x.High)
		if x.Low != nil || call == nil || len(call.Call.Args) != 2 {
			return false
		}
		k, ok := call.Call.Args[1].(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		switch k.Value.Kind() {
		case constant.String:
			return constant.StringVal(k.Value) == ":"
		case constant.Int:
			n, _ := constant.Int64Val(k.Value)
			return n == ':'
		}
	case *ssa.Parameter:
		if depth > 2 {
			return false
		}
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, g := range c.Fns {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == x.Parent() && i < len(call.Common().Args) && isPrefix(c, call.Common().Args[i], depth+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
