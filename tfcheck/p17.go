package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17: the two halves of a qualified name stay together.

func init() { register("P17", p17) }

// Names recorded in the loaded filing.
const namesFrom = `
	Document.NamespaceMap[].Local <- @name
	Document.NamespaceMap[].Space <- Html.Attr[].Value||Html@* ; by @name
	Schemas[].Element[].Type.Local <- Element[]@type
	Schemas[].Element[].Type.Space <- Schemas[].XMLAttrs[].Value||Schemas[]@*||SchemaFile.XMLAttrs[].Value||SchemaFile@* ; by Element[]@type
	Schemas[].Element[].SubstitutionGroup.Local <- Element[]@substitutionGroup
	Schemas[].Element[].SubstitutionGroup.Space <- Schemas[].XMLAttrs[].Value||Schemas[]@*||SchemaFile.XMLAttrs[].Value||SchemaFile@* ; by Element[]@substitutionGroup
`

func p17(c *Ctx, r *Report) {
	r.Rule("a value is a namespace or a local part if it is read from or stored into that half of an xml.Name; no value of one kind is stored, passed or compared as the other")
	r.Rule("a name put together from two halves takes both from the same name")
	r.Rule("arguments used as the two halves of a name come from one name: their provenance (value-flow analysis of hydration and rendering) has the same owner, or the namespace was selected by the text the local part was cut from")
	r.Rule("a prefix is looked up among namespace declarations only: the namespace of the attribute is looked at as well as its local name")
	r.Rule("entities are told apart by scheme and identifier together, percentages are recognised by both halves of their type's name, and namespaces are kept with the location of their schema, not the other way round")
	r.Rule("two names are equal only if both halves are: the second half is compared only where the first half agreed")
	r.Assume("XML attributes are identified by their local name")
	roles := nameRoles(c)
	r.Count("parameters that are halves of names", len(roles))
	p17ssa(c, r, roles)
	wholeEntities(c, r, c.Fns)
	percentPair(c, r, c.Fns)
	scopes(c, r, c.Fns)
	declarations(c, r, c.Fns)
	// provenance
	fn := c.Func("pkg/hydratables", "Hydrate")
	r.Need(fn != nil && len(fn.Blocks) > 0, "hydratables.Hydrate not found")
	n := 0
	done := map[ssa.CallInstruction]bool{}
	vf := newVF(c, 3)
	in := vf.root(fn, false)
	vf.solve()
	n += len(vf.list)
	rt := fn.Signature.Results().At(0).Type()
	if ret := in.ret.sub["#0"]; ret != nil {
		have := vf.shapes(ret, rt)
		var rows []provRow
		for _, row := range parseRows(hydratedFrom + namesFrom) {
			if strings.HasSuffix(row.path, ".Space") || strings.HasSuffix(row.path, ".Local") {
				rows = append(rows, row)
			}
		}
		judge(vf, r, "Hydratable", fn, rows, have, rt)
	}
	p17calls(c, r, vf, roles, done)
	p17keys(c, r, vf)
	for _, name := range []string{"MarshalRenderable", "MarshalExpressable"} {
		fn := c.Func("pkg/renderables", name)
		if fn == nil || len(fn.Blocks) == 0 {
			r.Open("renderables." + name + " not found")
			continue
		}
		vf := newVF(c, 3)
		vf.root(fn, true)
		vf.solve()
		n += len(vf.list)
		p17calls(c, r, vf, roles, done)
	}
	r.Count("function instances", n)
}

// half says which half of which name a value is: the field of an xml.Name and
// the name it belongs to.
func half(v ssa.Value) (kind string, base ssa.Value, attr bool) {
	v = stripConv(v)
	var st types.Type
	var x ssa.Value
	var f int
	switch y := v.(type) {
	case *ssa.UnOp:
		fa, ok := y.X.(*ssa.FieldAddr)
		if !ok || y.Op != token.MUL {
			return
		}
		st, x, f = deref(fa.X.Type()), fa.X, fa.Field
	case *ssa.Field:
		st, x, f = y.X.Type(), y.X, y.Field
	default:
		return
	}
	if !isXMLName(st) {
		return
	}
	kind, _ = fieldName(st, f)
	// the name of an attribute
	switch y := x.(type) {
	case *ssa.FieldAddr:
		attr = typeName(y.X.Type()) == "Attr"
	case *ssa.Field:
		attr = typeName(y.X.Type()) == "Attr"
	}
	return kind, x, attr
}

func isXMLName(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Name" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/xml"
}

func p17ssa(c *Ctx, r *Report, roles map[*ssa.Parameter]string) {
	tab := c.Exprs()
	for _, fn := range c.Fns {
		type cmp struct {
			op    *ssa.BinOp
			kind  string
			base  string
			other string // the other name, or ""
			at    ssa.Value
		}
		var cmps []cmp
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Lookup:
					// the schemas in scope are recorded by namespace
					if f := loadedField(x.X); f == nil || f.Name() != "Namespaces" {
						continue
					}
					k, _, _ := half(x.Index)
					if p, ok := stripConv(x.Index).(*ssa.Parameter); ok {
						k = roles[p]
					}
					if k == "Local" {
						r.Bad("kinds", c.FnName(fn)+" Namespaces", c.PosOf(x), "%s looks up a local part among the namespaces", c.FnName(fn))
					} else {
						r.OK(c.FnName(fn) + " looks up a namespace")
					}
				case ssa.CallInstruction:
					// both halves given directly
					args := x.Common().Args
					for i := 0; i+1 < len(args); i++ {
						k1, b1, _ := half(args[i])
						k2, b2, _ := half(args[i+1])
						if k1 == "" || k2 == "" || k1 == k2 {
							continue
						}
						if tab.X(b1, nil).Key != tab.X(b2, nil).Key {
							r.Bad("mixed", c.FnName(fn)+" call", c.PosOf(x), "%s passes halves of two names as one", c.FnName(fn))
						} else {
							r.OK(c.FnName(fn) + " passes the halves of one name")
						}
					}
				case *ssa.BinOp:
					if x.Op == token.ADD {
						// space + ":" + local
						in, ok := x.X.(*ssa.BinOp)
						if !ok || in.Op != token.ADD {
							continue
						}
						k1, b1, _ := half(in.X)
						k2, b2, _ := half(x.Y)
						if k1 != "" && k2 != "" {
							if k1 != "Space" || k2 != "Local" || tab.X(b1, nil).Key != tab.X(b2, nil).Key {
								r.Bad("mixed", c.FnName(fn)+" text", c.PosOf(x), "%s writes halves of two names as one name", c.FnName(fn))
							} else {
								r.OK(c.FnName(fn) + " writes the halves of one name")
							}
						}
					}
					if x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					k1, b1, a1 := half(x.X)
					k2, b2, a2 := half(x.Y)
					if k1 == "" {
						k1, b1, a1, k2, b2, a2 = k2, b2, a2, k1, b1, a1
					}
					if k1 == "" {
						continue
					}
					if p, ok := stripConv(other(x, b1)).(*ssa.Parameter); ok && k2 == "" && !a1 && roles[p] != k1 {
						r.Bad("kinds", c.FnName(fn)+" "+p.Name(), c.PosOf(x), "%s compares the %s half of a name with %s, which is the other half", c.FnName(fn), k1, p.Name())
						continue
					}
					if k2 != "" && k1 != k2 {
						r.Bad("kinds", c.FnName(fn)+" "+k1+" "+k2, c.PosOf(x), "%s compares the %s half of a name with the %s half of another", c.FnName(fn), k1, k2)
						continue
					}
					r.OK(c.FnName(fn) + " compares halves of one kind")
					if a1 || a2 {
						continue
					}
					m := cmp{op: x, at: b1, kind: k1, base: tab.X(b1, nil).Key}
					if k2 != "" {
						m.other = tab.X(b2, nil).Key
						if m.other < m.base {
							m.base, m.other = m.other, m.base
						}
					} else if k, ok := other(x, b1).(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `""` {
						continue // whether there is one
					}
					cmps = append(cmps, m)
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isXMLName(deref(fa.X.Type())) {
						continue
					}
					f, _ := fieldName(deref(fa.X.Type()), fa.Field)
					if why := cutBadly(x.Val, f); why != "" {
						r.Bad("cut", c.FnName(fn)+" "+f, c.PosOf(x), "%s takes %s of a prefixed name for its %s half", c.FnName(fn), why, f)
						continue
					}
					if k, b, _ := half(x.Val); k != "" {
						if k != f {
							r.Bad("kinds", c.FnName(fn)+" "+k+" "+f, c.PosOf(x), "%s stores the %s half of a name as the %s half of another", c.FnName(fn), k, f)
							continue
						}
						// the other half of the same new name
						for _, ref := range *fa.X.Referrers() {
							fb, ok := ref.(*ssa.FieldAddr)
							if !ok || fb.Field == fa.Field {
								continue
							}
							for _, ref := range *fb.Referrers() {
								st, ok := ref.(*ssa.Store)
								if !ok || st.Addr != ssa.Value(fb) {
									continue
								}
								if k2, b2, _ := half(st.Val); k2 != "" && tab.X(b, nil).Key != tab.X(b2, nil).Key {
									r.Bad("mixed", c.FnName(fn), c.PosOf(x), "%s puts a name together from halves of two names", c.FnName(fn))
								}
							}
						}
					}
					r.OK(c.FnName(fn) + " fills the " + f + " half of a name")
				}
			}
		}
		for i := range cmps {
			pair := false
			for j := range cmps {
				a, b := cmps[i], cmps[j]
				if i == j || a.kind == b.kind || a.base != b.base || a.other != b.other || (a.op.X == b.op.X) {
					continue
				}
				pair = true
				if neLeads(a.op, b.op) {
					r.Bad("either", c.FnName(fn), c.PosOf(b.op), "%s takes two names for equal if only one half is", c.FnName(fn))
				} else {
					r.OK(c.FnName(fn) + " compares names as pairs")
				}
			}
			a := cmps[i]
			k, isConst := other(a.op, a.at).(*ssa.Const)
			if isConst && a.other == "" && k.Value != nil && k.Value.Kind() == constant.String {
				if s := constant.StringVal(k.Value); s != "" && s != "xmlns" && s != "xml" && strings.Contains(s, ":") != (a.kind == "Space") {
					r.Bad("kinds", c.FnName(fn)+" "+a.kind+" "+s, c.PosOf(a.op), "%s compares the %s half of a name with %q", c.FnName(fn), a.kind, s)
				} else {
					r.OK(c.FnName(fn) + " compares the " + a.kind + " half of a name with a constant")
				}
			}
			if isConst && !pair && a.kind == "Local" {
				for _, b := range cmps {
					if _, ok := other(b.op, b.at).(*ssa.Const); ok && b.kind == "Space" && b.base != a.base && !pairedSpace(cmps, func(x cmp) bool { return x.kind == "Local" && x.base == b.base }) {
						r.Bad("mixed", c.FnName(fn)+" test", c.PosOf(a.op), "%s tests the namespace of one name and the local part of another", c.FnName(fn))
					}
				}
			}
			if !pair && (a.other != "" || !isConst && a.kind == "Local") {
				r.Bad("single", c.FnName(fn)+" "+a.kind, c.PosOf(a.op), "%s compares only the %s half of two names", c.FnName(fn), a.kind)
			}
		}
	}
}

// other is the operand that is not the half of a name.
func other(x *ssa.BinOp, base ssa.Value) ssa.Value {
	if k, b, _ := half(x.X); k != "" && b == base {
		return x.Y
	}
	return x.X
}

// neLeads: b is only evaluated if a found its operands different.
func neLeads(a, b *ssa.BinOp) bool {
	blk := a.Block()
	iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok || iff.Cond != ssa.Value(a) {
		return false
	}
	ne, eq := blk.Succs[0], blk.Succs[1]
	if a.Op == token.EQL {
		ne, eq = eq, ne
	}
	return len(ne.Preds) == 1 && ne.Dominates(b.Block()) && !reachesWithin(eq, b.Block(), blk)
}

// reachesWithin: a path from a to b that does not pass through stop.
func reachesWithin(a, b, stop *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{stop: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// nameRoles finds parameters that are used as halves of names.
func nameRoles(c *Ctx) map[*ssa.Parameter]string {
	roles := map[*ssa.Parameter]string{}
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value, kind string) {
			p, ok := stripConv(v).(*ssa.Parameter)
			if ok && roles[p] == "" && isString(p.Type()) {
				roles[p] = kind
				changed = true
			}
		}
		for _, fn := range c.Fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.BinOp:
						if x.Op != token.EQL && x.Op != token.NEQ {
							continue
						}
						if k, _, a := half(x.X); k != "" && !a {
							set(x.Y, k)
						}
						if k, _, a := half(x.Y); k != "" && !a {
							set(x.X, k)
						}
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isXMLName(deref(fa.X.Type())) {
							f, _ := fieldName(deref(fa.X.Type()), fa.Field)
							set(x.Val, f)
						}
					case *ssa.Lookup:
						// m[a][b]
						if in, ok := mapOf(x.X).(*ssa.Lookup); ok {
							if p, ok := stripConv(in.Index).(*ssa.Parameter); ok {
								if q, ok := stripConv(x.Index).(*ssa.Parameter); ok && roles[p] == "" && roles[q] == "" {
									roles[p], roles[q] = "?Space", "?Local"
									changed = true
								}
							}
						}
					case ssa.CallInstruction:
						for _, f := range c.ModCallees(x) {
							args := x.Common().Args
							if x.Common().IsInvoke() {
								args = append([]ssa.Value{x.Common().Value}, args...)
							}
							for i, p := range f.Params {
								if i < len(args) && roles[p] != "" {
									set(args[i], roles[p])
								}
							}
						}
					}
				}
			}
		}
	}
	return roles
}

func mapOf(v ssa.Value) ssa.Value {
	if e, ok := v.(*ssa.Extract); ok {
		return e.Tuple
	}
	return v
}

// p17calls: both halves that are passed come from one name.
func p17calls(c *Ctx, r *Report, vf *VF, roles map[*ssa.Parameter]string, done map[ssa.CallInstruction]bool) {
	for _, in := range vf.list {
		r.Fn(c, in.fn)
		var calls []ssa.CallInstruction
		for call := range in.calls {
			calls = append(calls, call)
		}
		sort.Slice(calls, func(i, j int) bool { return calls[i].Pos() < calls[j].Pos() })
		for _, call := range calls {
			args := call.Common().Args
			if call.Common().IsInvoke() {
				args = append([]ssa.Value{call.Common().Value}, args...)
			}
			for _, ci := range in.calls[call] {
				s, l := -1, -1
				strict := false
				for i, p := range ci.fn.Params {
					switch strings.TrimPrefix(roles[p], "?") {
					case "Space":
						s = i
					case "Local":
						l = i
					}
					strict = strict || roles[p] == "Local"
				}
				if s >= len(args) || l >= len(args) {
					continue
				}
				tags := func(i int) (data, by map[string]bool) {
					data, by = map[string]bool{}, map[string]bool{}
					if i < 0 || in.regs[args[i]] == nil {
						return
					}
					for _, t := range in.regs[args[i]].tgl {
						switch {
						case isBy(t):
							by[normTag(strings.TrimPrefix(t, "by:"))] = true
						case !strings.HasPrefix(t, "const:"):
							data[normTag(t)] = true
						}
					}
					return
				}
				sd, sb := tags(s)
				ld, _ := tags(l)
				bad := ""
				for _, t := range keysOf(sd) {
					if strings.HasSuffix(t, "Name.Local") || strings.HasSuffix(t, "Type.Local") {
						bad = t + " is passed as a namespace"
					}
				}
				for _, t := range keysOf(ld) {
					switch {
					case strings.HasSuffix(t, "Name.Space") || strings.HasSuffix(t, "Type.Space"):
						bad = t + " is passed as a local part"
					case s < 0 || len(sd) == 0:
					case strings.HasSuffix(t, ".Local"):
						if own := strings.TrimSuffix(t, ".Local") + ".Space"; !sd[own] && !sb[t] {
							bad = t + " is passed with the namespace " + strings.Join(keysOf(sd), ", ")
						}
					case strict && !sb[t] && pairOf(t, sd) == false:
						bad = t + " is passed with a namespace that does not depend on it"
					}
				}
				if bad != "" {
					if !done[call] {
						done[call] = true
						r.Bad("pair", c.FnName(in.fn)+" "+c.FnName(ci.fn), c.PosOf(call), "in a call of %s by %s, %s", c.FnName(ci.fn), c.FnName(in.fn), bad)
					}
				} else if s >= 0 && l >= 0 {
					r.OK(c.FnName(in.fn) + " passes both halves of one name to " + c.FnName(ci.fn))
				}
			}
		}
	}
}

// pairOf: the local part and the namespace are stated side by side.
func pairOf(local string, spaces map[string]bool) bool {
	// a concept's own name: its name attribute and the target namespace of its schema
	if strings.HasSuffix(local, "Element[]@name") {
		for s := range spaces {
			if strings.HasSuffix(s, "@targetNamespace") {
				return true
			}
		}
	}
	return false
}

// loadedField is the field a value was loaded from.
func loadedField(v ssa.Value) *types.Var {
	switch x := stripConv(v).(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if st, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
				return st.Field(fa.Field)
			}
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return st.Field(x.Field)
		}
	}
	return nil
}

func pairedSpace[T any](list []T, is func(T) bool) bool {
	for _, x := range list {
		if is(x) {
			return true
		}
	}
	return false
}

// cutKind says which part of a prefixed name a value is: what stands before
// the colon, after it, or after it with the colon.
func cutKind(v ssa.Value) string {
	switch x := stripConv(v).(type) {
	case *ssa.Slice:
		if !isString(x.X.Type()) {
			return ""
		}
		if colonIn(x.High, x.X) && (x.Low == nil || isZeroInt(x.Low)) {
			return "the prefix"
		}
		if x.High != nil {
			return ""
		}
		if colonIn(x.Low, x.X) {
			return "the part from the colon"
		}
		if add, ok := x.Low.(*ssa.BinOp); ok && add.Op == token.ADD && colonIn(add.X, x.X) {
			if k, ok := add.Y.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "1" {
				return "the local part"
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && calleeName(&call.Call) == "strings.Cut" && isColon(call.Call.Args[1]) {
			return []string{"the prefix", "the local part", ""}[x.Index]
		}
	}
	return ""
}

// colonIn: v is the position of a colon in s.
func colonIn(v, s ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || len(call.Call.Args) != 2 || !sameLoad(call.Call.Args[0], s) {
		return false
	}
	switch calleeName(&call.Call) {
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		return isColon(call.Call.Args[1])
	}
	return false
}

func isColon(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	return k.Value.ExactString() == "58" || k.Value.ExactString() == `":"`
}

// cutBadly: the value filled into one half of a name was cut from, or looked
// up by, the wrong part of a prefixed name.
func cutBadly(v ssa.Value, f string) string {
	if f == "Local" {
		if k := cutKind(v); k != "" && k != "the local part" {
			return k
		}
		return ""
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		v = stripConv(v)
		if v == nil || seen[v] {
			return ""
		}
		seen[v] = true
		key := func(k ssa.Value) string {
			if kind := cutKind(k); kind != "" && kind != "the prefix" {
				return "what is found by " + kind
			}
			return ""
		}
		switch x := v.(type) {
		case *ssa.Slice:
			return cutKind(x)
		case *ssa.Extract:
			if k := cutKind(x); k != "" {
				return k
			}
			return walk(x.Tuple)
		case *ssa.Lookup:
			return key(x.Index)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if k := walk(e); k != "" {
					return k
				}
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if k := key(a); k != "" {
					return k
				}
			}
		}
		return ""
	}
	return walk(v)
}

// p17keys: names are recorded under the text they were read from.
func p17keys(c *Ctx, r *Report, vf *VF) {
	done := map[ssa.Instruction]bool{}
	for _, in := range vf.list {
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok || done[ins] {
					continue
				}
				if !isXMLName(mu.Value.Type()) {
					continue
				}
				key, val := in.regs[mu.Key], in.regs[mu.Value]
				if key == nil || val == nil || val.sub["Local"] == nil {
					continue
				}
				data := map[string]bool{}
				for _, t := range key.tgl {
					if !isBy(t) {
						data[normTag(t)] = true
					}
				}
				for _, t := range val.sub["Local"].tgl {
					if isBy(t) || strings.HasPrefix(t, "const:") {
						continue
					}
					if !data[normTag(t)] && len(data) > 0 {
						done[ins] = true
						r.Bad("key", c.FnName(in.fn), c.PosOf(mu), "%s records a name read from %s under %s", c.FnName(in.fn), normTag(t), strings.Join(keysOf(data), ", "))
						break
					}
				}
				if !done[ins] {
					r.OK(c.FnName(in.fn) + " records a name under its own text")
				}
			}
		}
	}
}
