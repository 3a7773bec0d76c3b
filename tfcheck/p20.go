package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P20: every answer can be encoded as JSON whatever it holds, and encodes every documented member.

// member20 is a member of the JSON text of an answer.
type member20 struct {
	kind string // string, number, bool, array, object, map, any, custom
	omit bool   // left out when empty
	pos  token.Pos
}

// field20 is a field that encoding/json considers.
type field20 struct {
	name   string
	v      *types.Var
	tagged bool
	omit   bool
	text   bool // ,string
	depth  int
}

type enc20 struct {
	c     *Ctx
	r     *Report
	root  string
	out   map[string]member20
	done  map[string]bool
	typs  map[*types.Named]bool
	stack []types.Type
}

func p20(c *Ctx, r *Report) {
	r.Rule("the type of every value handed to the JSON encoder for an answer holds only what can always be encoded: no functions, channels or complex numbers, no map keys that are no text, no values that refer back to themselves")
	r.Rule("a member of an answer that is a floating-point number is only set to what cannot be infinite or not a number")
	r.Rule("no two fields of an answer have the same JSON name at the level where they are encoded, and no embedded type replaces the encoding of the answer")
	r.Rule("every documented member of the answers is encoded, with its documented kind, and is left out only where documented")
	r.Rule("every member of an answer that holds a list, a map or an object is filled where the answer is put together")
	r.Assume("encoding/json behaves as documented")
	r.Need(c.Func("pkg/renderables", "MarshalRenderable") != nil, "MarshalRenderable not found")
	all := map[*types.Named]bool{}
	for _, root := range []string{"Renderable", "Catalog", "Expressable"} {
		fn := c.Func("pkg/renderables", "Marshal"+root)
		if fn == nil {
			r.Need(false, "Marshal%s not found", root)
			continue
		}
		ts := answers20(c, fn)
		r.Need(len(ts) > 0, "no value handed to the JSON encoder by Marshal%s", root)
		for _, a := range ts {
			e := &enc20{c: c, r: r, root: root, out: map[string]member20{}, done: map[string]bool{}, typs: all}
			e.value(a.t, root, false, a.pos)
			e.compare(a.pos)
			if dump20 {
				var ks []string
				for k, m := range e.out {
					s := k + " " + m.kind
					if m.omit {
						s += " ?"
					}
					ks = append(ks, s)
				}
				sort.Strings(ks)
				fmt.Println(strings.Join(ks, "\n"))
			}
		}
	}
	r.Count("types", len(all))
	filled20(c, r, all)
}

var dump20 = os.Getenv("DUMP20") != ""

type answer20 struct {
	t   types.Type
	pos token.Pos
}

// answers20 lists the types of what a function hands to the JSON encoder, itself or through others.
func answers20(c *Ctx, root *ssa.Function) []answer20 {
	var out []answer20
	have := map[string]bool{}
	via, _ := reach(c, []*ssa.Function{root}, nil)
	var trace func(v ssa.Value, seen map[ssa.Value]bool)
	trace = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			if !have[x.X.Type().String()] {
				have[x.X.Type().String()] = true
				out = append(out, answer20{x.X.Type(), x.Pos()})
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				trace(e, seen)
			}
		case *ssa.ChangeInterface:
			trace(x.X, seen)
		case *ssa.Call:
			for _, g := range c.ModCallees(x) {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, v := range results(ret) {
							if _, ok := v.Type().Underlying().(*types.Interface); ok && !isErrorType(v.Type()) {
								trace(v, seen)
							}
						}
					}
				}
			}
		case *ssa.Extract:
			trace(x.Tuple, seen)
		case *ssa.Parameter:
			if isTypeParam(x.Type()) {
				return
			}
			for _, ci := range c.Callers(x.Parent()) {
				if _, ok := via[ci.Parent()]; !ok && ci.Parent() != root {
					continue
				}
				for i, p := range x.Parent().Params {
					if p == x {
						if as := argsOf(ci); i < len(as) {
							trace(as[i], seen)
						}
					}
				}
			}
		case *ssa.FreeVar:
			if b := c.binding(x); b != nil {
				trace(b, seen)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					ss, _ := c.storesTo(al)
					for _, s := range ss {
						trace(s.Val, seen)
					}
				}
			}
		}
	}
	for fn := range via {
		if !c.InModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				switch calleeName(ci.Common()) {
				case "encoding/json.Marshal", "encoding/json.MarshalIndent":
					trace(ci.Common().Args[0], map[ssa.Value]bool{})
				case "(*encoding/json.Encoder).Encode":
					trace(ci.Common().Args[1], map[ssa.Value]bool{})
				}
			}
		}
	}
	return out
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

// argsOf are the arguments of a call in the order of the parameters of the function called.
func argsOf(ci ssa.CallInstruction) []ssa.Value {
	cc := ci.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (e *enc20) bad(rule string, pos token.Pos, construct, format string, a ...any) {
	e.r.Bad(rule, construct, e.c.Pos(pos), format, a...)
}

// marshals: the type says itself how it is encoded; embedded says that it does so through a field embedded in it.
func marshals(t types.Type) (method string, embedded bool) {
	for _, n := range []string{"MarshalJSON", "MarshalText"} {
		for _, u := range []types.Type{t, types.NewPointer(t)} {
			if types.IsInterface(u) {
				continue
			}
			sel := types.NewMethodSet(u).Lookup(nil, n)
			if sel == nil {
				continue
			}
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 2 {
				continue
			}
			return n, len(sel.Index()) > 1
		}
	}
	return "", false
}

// value records what a value of a type becomes in the JSON text.
func (e *enc20) value(t types.Type, path string, omit bool, pos token.Pos) {
	put := func(kind string) { e.out[path] = member20{kind, omit, pos} }
	at := t
	for {
		p, ok := types.Unalias(at).(*types.Pointer)
		if !ok {
			break
		}
		at = p.Elem()
	}
	at = types.Unalias(at)
	named, _ := at.(*types.Named)
	if m, emb := marshals(at); m != "" {
		if emb {
			e.bad("replaced-encoding", pos, at.String(), "%s of an embedded type is used for all of %s, none of its fields is encoded", m, path)
			return
		}
		if named != nil && named.Obj().Pkg() != nil && e.c.inModulePath(named.Obj().Pkg().Path()) {
			e.r.Open(fmt.Sprintf("%s is encoded by %s of its own", path, m))
			put("custom")
			return
		}
		put("custom")
		return
	}
	key := path + " " + at.String()
	if e.done[key] {
		return
	}
	for _, s := range e.stack {
		if types.Identical(s, at) && named != nil {
			e.r.OK(path + " repeats " + at.String())
			return
		}
	}
	e.stack = append(e.stack, at)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	e.done[key] = true
	switch u := at.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			put("string")
		case u.Info()&types.IsBoolean != 0:
			put("bool")
		case u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer:
			e.bad("not-encodable", pos, path+" "+at.String(), "%s is a %s, which cannot be encoded", path, at)
			return
		default:
			put("number")
		}
	case *types.Signature, *types.Chan:
		e.bad("not-encodable", pos, path+" "+at.String(), "%s is a %s, which cannot be encoded", path, at)
		return
	case *types.Interface:
		put("any")
		e.r.Open(path + " is an interface")
		return
	case *types.Slice:
		if isByte(u.Elem()) {
			put("string")
			break
		}
		put("array")
		e.value(u.Elem(), path+"[]", false, pos)
	case *types.Array:
		put("array")
		e.value(u.Elem(), path+"[]", false, pos)
	case *types.Map:
		put("map")
		kt := u.Key()
		kb, ok := kt.Underlying().(*types.Basic)
		switch m, _ := marshals(kt); {
		case m == "MarshalText", ok && kb.Info()&(types.IsString|types.IsInteger) != 0:
		case types.IsInterface(kt):
			e.r.Open(path + " has keys of an interface type")
		default:
			e.bad("not-encodable", pos, path+" "+kt.String(), "the keys of %s are %s, which cannot be encoded", path, kt)
			return
		}
		e.value(u.Elem(), path+"{}", false, pos)
	case *types.Struct:
		put("object")
		if named != nil {
			e.typs[named] = true
			e.cyclic(named, u)
		}
		for _, f := range e.fields(u, path) {
			e.value(f.v.Type(), path+"."+f.name, f.omit, f.v.Pos())
			if f.text {
				m := e.out[path+"."+f.name]
				m.kind = "string"
				e.out[path+"."+f.name] = m
			}
			e.float(u, f, path+"."+f.name)
		}
	}
	e.r.OK(path)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// fields lists the fields of a struct that are encoded, as encoding/json chooses them.
func (e *enc20) fields(st *types.Struct, path string) []field20 {
	byName := map[string][]field20{}
	var names []string
	var walk func(s *types.Struct, depth int, seen map[*types.Struct]bool)
	walk = func(s *types.Struct, depth int, seen map[*types.Struct]bool) {
		if seen[s] {
			return
		}
		seen[s] = true
		for i := 0; i < s.NumFields(); i++ {
			v := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			f := field20{name: parts[0], v: v, tagged: parts[0] != "", depth: depth}
			for _, o := range parts[1:] {
				f.omit = f.omit || o == "omitempty" || o == "omitzero"
				f.text = f.text || o == "string"
			}
			ft := v.Type()
			if p, ok := types.Unalias(ft).(*types.Pointer); ok {
				ft = p.Elem()
			}
			inner, isStruct := ft.Underlying().(*types.Struct)
			if v.Embedded() {
				if !v.Exported() && !isStruct {
					continue
				}
				if isStruct && !f.tagged {
					if m, _ := marshals(ft); m == "" {
						walk(inner, depth+1, seen)
						continue
					}
				}
			} else if !v.Exported() {
				continue
			}
			if f.name == "" {
				f.name = v.Name()
			}
			if _, ok := byName[f.name]; !ok {
				names = append(names, f.name)
			}
			byName[f.name] = append(byName[f.name], f)
		}
	}
	walk(st, 0, map[*types.Struct]bool{})
	var out []field20
	for _, n := range names {
		fs := byName[n]
		sort.SliceStable(fs, func(i, j int) bool {
			if fs[i].depth != fs[j].depth {
				return fs[i].depth < fs[j].depth
			}
			return fs[i].tagged && !fs[j].tagged
		})
		if len(fs) == 1 {
			out = append(out, fs[0])
			continue
		}
		same := fs[0].depth == fs[1].depth && fs[0].tagged == fs[1].tagged
		if same {
			e.bad("duplicate-name", fs[1].v.Pos(), path+"."+n, "two fields are encoded as %s.%s, so none of them is", path, n)
			continue
		}
		e.bad("duplicate-name", fs[1].v.Pos(), path+"."+n, "%s.%s is encoded from another field, this one is dropped", path, n)
		out = append(out, fs[0])
	}
	return out
}

// cyclic reports a struct that refers both to what is below and to what is above it.
func (e *enc20) cyclic(n *types.Named, st *types.Struct) {
	var back []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() || reflect.StructTag(st.Tag(i)).Get("json") == "-" {
			continue
		}
		if holds20(st.Field(i).Type(), n, map[types.Type]bool{}) {
			back = append(back, st.Field(i))
		}
	}
	if len(back) == 0 {
		return
	}
	for _, f := range back {
		// a value stored into a field of what it holds itself
		for _, fn := range e.c.Fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || !types.Identical(deref(fa.X.Type()), n) || st.Field(fa.Field) != f {
						continue
					}
					if stripConv(s.Val) == stripConv(fa.X) {
						e.bad("refers-to-itself", s.Pos(), n.Obj().Name()+"."+f.Name(), "%s.%s is set to the value itself", n.Obj().Name(), f.Name())
						return
					}
				}
			}
		}
	}
	if len(back) > 1 {
		e.bad("refers-to-itself", back[1].Pos(), n.Obj().Name(), "%s refers to others of its kind through %s and %s, so that values can refer back to themselves and cannot be encoded", n.Obj().Name(), back[0].Name(), back[1].Name())
		return
	}
	e.r.OK(n.Obj().Name() + " holds others of its kind in one field")
}

func holds20(t types.Type, n *types.Named, seen map[types.Type]bool) bool {
	t = types.Unalias(t)
	if seen[t] {
		return false
	}
	seen[t] = true
	if types.Identical(t, n) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return holds20(u.Elem(), n, seen)
	case *types.Slice:
		return holds20(u.Elem(), n, seen)
	case *types.Array:
		return holds20(u.Elem(), n, seen)
	case *types.Map:
		return holds20(u.Elem(), n, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && holds20(u.Field(i).Type(), n, seen) {
				return true
			}
		}
	}
	return false
}

// float looks at everything a floating-point member is set to.
func (e *enc20) float(st *types.Struct, f field20, path string) {
	t := f.v.Type()
	for {
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Map:
			t = u.Elem()
			continue
		}
		break
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsFloat == 0 {
		return
	}
	n, open := 0, false
	for _, fn := range e.c.Fns {
		for _, blk := range fn.Blocks {
			for _, ins := range blk.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fs, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok || fs.Field(fa.Field) != f.v && !(fs.Field(fa.Field).Name() == f.v.Name() && types.Identical(fs, st)) {
					continue
				}
				n++
				switch e.finite(s.Val, s, map[ssa.Value]bool{}) {
				case "no":
					e.bad("not-finite", s.Pos(), path, "%s is set to a number read from the filing, which may be infinite or not a number and then cannot be encoded", path)
					return
				case "?":
					open = true
				}
			}
		}
	}
	if open {
		e.r.Open(path + " is a floating-point number")
	}
}

// finite: "yes", "no" when the number comes from text of a filing as it is, "?" otherwise.
func (e *enc20) finite(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) string {
	if seen[v] {
		return "yes"
	}
	seen[v] = true
	join := func(a, b string) string {
		if a == "no" || b == "no" {
			return "no"
		}
		if a == "?" || b == "?" {
			return "?"
		}
		return "yes"
	}
	if checked20(v, at) {
		return "yes"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "yes"
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return "yes"
		}
		return e.finite(x.X, at, seen)
	case *ssa.ChangeType:
		return e.finite(x.X, at, seen)
	case *ssa.Phi:
		out := "yes"
		for _, y := range x.Edges {
			out = join(out, e.finite(y, at, seen))
		}
		return out
	case *ssa.BinOp:
		out := join(e.finite(x.X, at, seen), e.finite(x.Y, at, seen))
		if out == "yes" {
			return "?"
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return e.finite(x.X, at, seen)
		}
		if x.Op != token.MUL {
			return "?"
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			out := "yes"
			ss, _ := e.c.storesTo(a)
			for _, s := range ss {
				out = join(out, e.finite(s.Val, s, seen))
			}
			return out
		case *ssa.FieldAddr:
			return e.finiteField(deref(a.X.Type()), a.Field, seen)
		}
	case *ssa.Field:
		return e.finiteField(x.X.Type(), x.Field, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			switch calleeName(&c.Call) {
			case "strconv.ParseFloat", "fmt.Sscanf", "fmt.Sscan":
				return "no"
			}
			for _, g := range e.c.ModCallees(c) {
				out := "yes"
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						out = join(out, e.finite(results(ret)[x.Index], ret, seen))
					}
				}
				return out
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "math.Abs":
			return e.finite(x.Call.Args[0], at, seen)
		case "math.Inf", "math.NaN":
			return "no"
		}
		for _, g := range e.c.ModCallees(x) {
			out := "yes"
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, v := range results(ret) {
						out = join(out, e.finite(v, ret, seen))
					}
				}
			}
			return out
		}
	}
	return "?"
}

// finiteField looks at everything a field is set to anywhere.
func (e *enc20) finiteField(t types.Type, field int, seen map[ssa.Value]bool) string {
	out, n := "yes", 0
	for _, fn := range e.c.Fns {
		for _, blk := range fn.Blocks {
			for _, ins := range blk.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field || !types.Identical(deref(fa.X.Type()), t) {
					continue
				}
				n++
				switch e.finite(s.Val, s, seen) {
				case "no":
					return "no"
				case "?":
					out = "?"
				}
			}
		}
	}
	if n == 0 {
		return "?"
	}
	return out
}

// checked20: somewhere before, the number was tested for being infinite or not a number.
func checked20(v ssa.Value, at ssa.Instruction) bool {
	if v.Referrers() == nil {
		return false
	}
	inf, nan := false, false
	for _, u := range *v.Referrers() {
		if c, ok := u.(*ssa.Call); ok && (c.Parent() != at.Parent() || c.Block().Dominates(at.Block())) {
			switch calleeName(&c.Call) {
			case "math.IsInf":
				inf = true
			case "math.IsNaN":
				nan = true
			}
		}
	}
	return inf && nan
}

// compare looks for the documented members.
func (e *enc20) compare(pos token.Pos) {
	for _, l := range strings.Split(strings.TrimSpace(answers), "\n") {
		w := strings.Fields(l)
		if w[0] != e.root && !strings.HasPrefix(w[0], e.root+".") {
			continue
		}
		above, gone := w[0], false
		for {
			i := strings.LastIndexAny(above, ".[{")
			if i < 0 {
				break
			}
			above = above[:i]
			m, ok := e.out[above]
			if !ok || m.kind == "custom" || m.kind == "any" {
				gone = true // reported there, or said by the type itself
			}
		}
		if gone {
			continue
		}
		m, ok := e.out[w[0]]
		switch {
		case !ok:
			e.bad("missing-member", e.near(w[0], pos), w[0], "the answer has no member %s", w[0])
		case m.kind == "custom" || m.kind == "any":
		case m.kind != w[1]:
			e.bad("changed-kind", m.pos, w[0], "%s is encoded as %s, not as %s", w[0], m.kind, w[1])
		case m.omit && len(w) < 3:
			e.bad("left-out", m.pos, w[0], "%s is left out when it is empty", w[0])
		default:
			e.r.OK(w[0])
		}
	}
}

// near is the position of the closest member above.
func (e *enc20) near(path string, pos token.Pos) token.Pos {
	for {
		i := strings.LastIndexAny(path, ".[{")
		if i < 0 {
			return pos
		}
		path = path[:i]
		if m, ok := e.out[path]; ok && m.pos.IsValid() {
			return m.pos
		}
	}
}

// filled20: a member holding a list, map or object that is set nowhere, or is left out of one of the places where the
// object is put together.
func filled20(c *Ctx, r *Report, all map[*types.Named]bool) {
	set := map[*types.Var]bool{}
	later := map[*types.Var]bool{} // set on a value that was put together before
	type made struct {
		al  *ssa.Alloc
		n   *types.Named
		has map[int]bool
	}
	var mades []made
	whole := map[*types.Named]bool{} // made by converting another type
	for _, fn := range c.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					st, ok := deref(x.X.Type()).Underlying().(*types.Struct)
					if !ok {
						continue
					}
					if written20(x, map[ssa.Value]bool{}) {
						set[st.Field(x.Field)] = true
						if al, ok := x.X.(*ssa.Alloc); !ok || copied20(al) {
							later[st.Field(x.Field)] = true
						}
					}
				case *ssa.ChangeType:
					if n, ok := types.Unalias(x.Type()).(*types.Named); ok {
						whole[n] = true
						if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
							st2 := n.Underlying().(*types.Struct)
							for i := 0; i < st.NumFields(); i++ {
								set[st2.Field(i)] = true
							}
						}
					}
				case *ssa.Alloc:
					n, ok := types.Unalias(deref(x.Type())).(*types.Named)
					if !ok || !all[n] {
						continue
					}
					m := made{x, n, map[int]bool{}}
					escapes := false
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.FieldAddr:
							if written20(y, map[ssa.Value]bool{}) {
								m.has[y.Field] = true
							}
						case *ssa.Store:
							escapes = escapes || y.Addr == ssa.Value(x)
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.MakeClosure, ssa.CallInstruction, *ssa.Phi:
							escapes = true
						}
					}
					if !escapes && len(m.has) > 0 {
						mades = append(mades, m)
					}
				}
			}
		}
	}
	holder := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Struct, *types.Pointer:
			return true
		}
		return false
	}
	var ns []*types.Named
	for n := range all {
		if n.Obj().Pkg() != nil && c.inModulePath(n.Obj().Pkg().Path()) {
			ns = append(ns, n)
		}
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].Obj().Name() < ns[j].Obj().Name() })
	for _, n := range ns {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if !f.Exported() || tag == "-" {
				continue
			}
			if !set[f] && !whole[n] && !strings.Contains(tag, "omit") {
				r.Bad("never-filled", n.Obj().Name()+"."+f.Name(), c.Pos(f.Pos()), "%s.%s is never set", n.Obj().Name(), f.Name())
				continue
			}
			r.OK(n.Obj().Name() + "." + f.Name() + " is set")
			if strings.Contains(tag, "omit") || !holder(f.Type()) {
				continue
			}
			for _, m := range mades {
				if m.n == n && !m.has[i] && !later[f] {
					r.Bad("not-filled", n.Obj().Name()+"."+f.Name(), c.Pos(m.al.Pos()), "%s is put together here without %s", n.Obj().Name(), f.Name())
				}
			}
		}
	}
}

// copied20: the variable receives a value that was put together elsewhere.
func copied20(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			return true
		}
	}
	return false
}

// written20: something is stored at the address or in a part of it, or it is handed on.
func written20(a ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[a] || a.Referrers() == nil {
		return false
	}
	seen[a] = true
	for _, u := range *a.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == a {
				if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil {
					continue // nil
				}
			}
			return true
		case *ssa.FieldAddr:
			if written20(x, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if written20(x, seen) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func init() { register("P20", p20) }

// answers lists the documented members of the answers and their kinds; ? marks those left out when there is nothing to tell.
const answers = `
Renderable object
Renderable.CGrid object
Renderable.CGrid.SummationItems array
Renderable.CGrid.SummationItems[] object
Renderable.CGrid.SummationItems[].BalanceType string
Renderable.CGrid.SummationItems[].ContextualMemberGrid array
Renderable.CGrid.SummationItems[].ContextualMemberGrid[] array
Renderable.CGrid.SummationItems[].ContextualMemberGrid[][] object
Renderable.CGrid.SummationItems[].ContextualMemberGrid[][].ExplicitMember object ?
Renderable.CGrid.SummationItems[].ContextualMemberGrid[][].ExplicitMember.Href string
Renderable.CGrid.SummationItems[].ContextualMemberGrid[][].ExplicitMember.Label map
Renderable.CGrid.SummationItems[].ContextualMemberGrid[][].ExplicitMember.Label{} map
Renderable.CGrid.SummationItems[].ContextualMemberGrid[][].ExplicitMember.Label{}{} string
Renderable.CGrid.SummationItems[].ContextualMemberGrid[][].TypedMember string ?
Renderable.CGrid.SummationItems[].ContributingConcepts array
Renderable.CGrid.SummationItems[].ContributingConcepts[] object
Renderable.CGrid.SummationItems[].ContributingConcepts[].BalanceType string
Renderable.CGrid.SummationItems[].ContributingConcepts[].Href string
Renderable.CGrid.SummationItems[].ContributingConcepts[].IsSummationItem bool
Renderable.CGrid.SummationItems[].ContributingConcepts[].Label map
Renderable.CGrid.SummationItems[].ContributingConcepts[].Label{} map
Renderable.CGrid.SummationItems[].ContributingConcepts[].Label{}{} string
Renderable.CGrid.SummationItems[].ContributingConcepts[].Scale string
Renderable.CGrid.SummationItems[].ContributingConcepts[].Sign string
Renderable.CGrid.SummationItems[].FactualQuadrant array
Renderable.CGrid.SummationItems[].FactualQuadrant[] array
Renderable.CGrid.SummationItems[].FactualQuadrant[][] map
Renderable.CGrid.SummationItems[].FactualQuadrant[][]{} object
Renderable.CGrid.SummationItems[].FactualQuadrant[][]{}.Core string
Renderable.CGrid.SummationItems[].FactualQuadrant[][]{}.Head string
Renderable.CGrid.SummationItems[].FactualQuadrant[][]{}.InnerHtml string
Renderable.CGrid.SummationItems[].FactualQuadrant[][]{}.Tail string
Renderable.CGrid.SummationItems[].FootnoteGrid array
Renderable.CGrid.SummationItems[].FootnoteGrid[] array
Renderable.CGrid.SummationItems[].FootnoteGrid[][] array
Renderable.CGrid.SummationItems[].FootnoteGrid[][][] number
Renderable.CGrid.SummationItems[].Footnotes array
Renderable.CGrid.SummationItems[].Footnotes[] string
Renderable.CGrid.SummationItems[].Href string
Renderable.CGrid.SummationItems[].Label map
Renderable.CGrid.SummationItems[].Label{} map
Renderable.CGrid.SummationItems[].Label{}{} string
Renderable.CGrid.SummationItems[].PeriodHeaders array
Renderable.CGrid.SummationItems[].PeriodHeaders[] map
Renderable.CGrid.SummationItems[].PeriodHeaders[]{} string
Renderable.CGrid.SummationItems[].VoidQuadrant array
Renderable.CGrid.SummationItems[].VoidQuadrant[] object
Renderable.CGrid.SummationItems[].VoidQuadrant[].Dimension object
Renderable.CGrid.SummationItems[].VoidQuadrant[].Dimension.Href string
Renderable.CGrid.SummationItems[].VoidQuadrant[].Dimension.Label map
Renderable.CGrid.SummationItems[].VoidQuadrant[].Dimension.Label{} map
Renderable.CGrid.SummationItems[].VoidQuadrant[].Dimension.Label{}{} string
Renderable.CGrid.SummationItems[].VoidQuadrant[].Indentation number
Renderable.CGrid.SummationItems[].VoidQuadrant[].IsParenthesized bool
Renderable.CGrid.SummationItems[].VoidQuadrant[].TypedDomain object ?
Renderable.CGrid.SummationItems[].VoidQuadrant[].TypedDomain.Href string
Renderable.CGrid.SummationItems[].VoidQuadrant[].TypedDomain.Label map
Renderable.CGrid.SummationItems[].VoidQuadrant[].TypedDomain.Label{} map
Renderable.CGrid.SummationItems[].VoidQuadrant[].TypedDomain.Label{}{} string
Renderable.DGrid object
Renderable.DGrid.DRS object
Renderable.DGrid.DRS.Links array
Renderable.DGrid.DRS.Links[] object
Renderable.DGrid.DRS.Links[].DimensionDomainConnection object ?
Renderable.DGrid.DRS.Links[].DimensionDomainConnection.Default bool
Renderable.DGrid.DRS.Links[].DimensionDomainConnection.External string
Renderable.DGrid.DRS.Links[].DimensionDomainConnection.Order string
Renderable.DGrid.DRS.Links[].DimensionDomainConnection.Usable bool
Renderable.DGrid.DRS.Links[].DomainMemberConnection object ?
Renderable.DGrid.DRS.Links[].DomainMemberConnection.External string
Renderable.DGrid.DRS.Links[].DomainMemberConnection.Order string
Renderable.DGrid.DRS.Links[].DomainMemberConnection.Usable bool
Renderable.DGrid.DRS.Links[].HypercubeConnection object ?
Renderable.DGrid.DRS.Links[].HypercubeConnection.ContextElement string
Renderable.DGrid.DRS.Links[].HypercubeConnection.External string
Renderable.DGrid.DRS.Links[].HypercubeConnection.IsClosed bool
Renderable.DGrid.DRS.Links[].HypercubeConnection.IsInclusive bool
Renderable.DGrid.DRS.Links[].HypercubeDimensionConnection object ?
Renderable.DGrid.DRS.Links[].HypercubeDimensionConnection.External string
Renderable.DGrid.DRS.Links[].HypercubeDimensionConnection.Order string
Renderable.DGrid.DRS.Links[].SourceHref string
Renderable.DGrid.DRS.Links[].TargetHref string
Renderable.DGrid.DRS.Nodes array
Renderable.DGrid.DRS.Nodes[] object
Renderable.DGrid.DRS.Nodes[].Href string
Renderable.DGrid.DRS.Nodes[].Label map
Renderable.DGrid.DRS.Nodes[].Label{} map
Renderable.DGrid.DRS.Nodes[].Label{}{} string
Renderable.DGrid.RootDomains array
Renderable.DGrid.RootDomains[] object
Renderable.DGrid.RootDomains[].ContextualMemberGrid array
Renderable.DGrid.RootDomains[].ContextualMemberGrid[] array
Renderable.DGrid.RootDomains[].ContextualMemberGrid[][] object
Renderable.DGrid.RootDomains[].ContextualMemberGrid[][].ExplicitMember object ?
Renderable.DGrid.RootDomains[].ContextualMemberGrid[][].ExplicitMember.Href string
Renderable.DGrid.RootDomains[].ContextualMemberGrid[][].ExplicitMember.Label map
Renderable.DGrid.RootDomains[].ContextualMemberGrid[][].ExplicitMember.Label{} map
Renderable.DGrid.RootDomains[].ContextualMemberGrid[][].ExplicitMember.Label{}{} string
Renderable.DGrid.RootDomains[].ContextualMemberGrid[][].TypedMember string ?
Renderable.DGrid.RootDomains[].DRSNodes array ?
Renderable.DGrid.RootDomains[].DRSNodes[] object
Renderable.DGrid.RootDomains[].DRSNodes[].Href string
Renderable.DGrid.RootDomains[].DRSNodes[].Label map
Renderable.DGrid.RootDomains[].DRSNodes[].Label{} map
Renderable.DGrid.RootDomains[].DRSNodes[].Label{}{} string
Renderable.DGrid.RootDomains[].EffectiveDimensions array
Renderable.DGrid.RootDomains[].EffectiveDimensions[] object
Renderable.DGrid.RootDomains[].EffectiveDimensions[].Href string
Renderable.DGrid.RootDomains[].EffectiveDimensions[].Label map
Renderable.DGrid.RootDomains[].EffectiveDimensions[].Label{} map
Renderable.DGrid.RootDomains[].EffectiveDimensions[].Label{}{} string
Renderable.DGrid.RootDomains[].EffectiveDomainGrid array
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[] array
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[][] array
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[][][] object
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[][][].Href string
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[][][].IsDefault bool
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[][][].IsStrikethrough bool
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[][][].Label map
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[][][].Label{} map
Renderable.DGrid.RootDomains[].EffectiveDomainGrid[][][].Label{}{} string
Renderable.DGrid.RootDomains[].FactualQuadrant array
Renderable.DGrid.RootDomains[].FactualQuadrant[] array
Renderable.DGrid.RootDomains[].FactualQuadrant[][] map
Renderable.DGrid.RootDomains[].FactualQuadrant[][]{} object
Renderable.DGrid.RootDomains[].FactualQuadrant[][]{}.Core string
Renderable.DGrid.RootDomains[].FactualQuadrant[][]{}.Head string
Renderable.DGrid.RootDomains[].FactualQuadrant[][]{}.InnerHtml string
Renderable.DGrid.RootDomains[].FactualQuadrant[][]{}.Tail string
Renderable.DGrid.RootDomains[].FootnoteGrid array
Renderable.DGrid.RootDomains[].FootnoteGrid[] array
Renderable.DGrid.RootDomains[].FootnoteGrid[][] array
Renderable.DGrid.RootDomains[].FootnoteGrid[][][] number
Renderable.DGrid.RootDomains[].Footnotes array
Renderable.DGrid.RootDomains[].Footnotes[] string
Renderable.DGrid.RootDomains[].Href string
Renderable.DGrid.RootDomains[].Label map
Renderable.DGrid.RootDomains[].Label{} map
Renderable.DGrid.RootDomains[].Label{}{} string
Renderable.DGrid.RootDomains[].PeriodHeaders array
Renderable.DGrid.RootDomains[].PeriodHeaders[] map
Renderable.DGrid.RootDomains[].PeriodHeaders[]{} string
Renderable.DGrid.RootDomains[].PrimaryItems array
Renderable.DGrid.RootDomains[].PrimaryItems[] object
Renderable.DGrid.RootDomains[].PrimaryItems[].Href string
Renderable.DGrid.RootDomains[].PrimaryItems[].Label map
Renderable.DGrid.RootDomains[].PrimaryItems[].Label{} map
Renderable.DGrid.RootDomains[].PrimaryItems[].Label{}{} string
Renderable.DGrid.RootDomains[].PrimaryItems[].Level number
Renderable.DGrid.RootDomains[].VoidQuadrant array
Renderable.DGrid.RootDomains[].VoidQuadrant[] object
Renderable.DGrid.RootDomains[].VoidQuadrant[].Dimension object
Renderable.DGrid.RootDomains[].VoidQuadrant[].Dimension.Href string
Renderable.DGrid.RootDomains[].VoidQuadrant[].Dimension.Label map
Renderable.DGrid.RootDomains[].VoidQuadrant[].Dimension.Label{} map
Renderable.DGrid.RootDomains[].VoidQuadrant[].Dimension.Label{}{} string
Renderable.DGrid.RootDomains[].VoidQuadrant[].Indentation number
Renderable.DGrid.RootDomains[].VoidQuadrant[].IsParenthesized bool
Renderable.DGrid.RootDomains[].VoidQuadrant[].TypedDomain object ?
Renderable.DGrid.RootDomains[].VoidQuadrant[].TypedDomain.Href string
Renderable.DGrid.RootDomains[].VoidQuadrant[].TypedDomain.Label map
Renderable.DGrid.RootDomains[].VoidQuadrant[].TypedDomain.Label{} map
Renderable.DGrid.RootDomains[].VoidQuadrant[].TypedDomain.Label{}{} string
Renderable.LabelRoles array
Renderable.LabelRoles[] string
Renderable.Lang array
Renderable.Lang[] string
Renderable.PGrid object
Renderable.PGrid.ContextualMemberGrid array
Renderable.PGrid.ContextualMemberGrid[] array
Renderable.PGrid.ContextualMemberGrid[][] object
Renderable.PGrid.ContextualMemberGrid[][].ExplicitMember object ?
Renderable.PGrid.ContextualMemberGrid[][].ExplicitMember.Href string
Renderable.PGrid.ContextualMemberGrid[][].ExplicitMember.Label map
Renderable.PGrid.ContextualMemberGrid[][].ExplicitMember.Label{} map
Renderable.PGrid.ContextualMemberGrid[][].ExplicitMember.Label{}{} string
Renderable.PGrid.ContextualMemberGrid[][].TypedMember string ?
Renderable.PGrid.FactualQuadrant array
Renderable.PGrid.FactualQuadrant[] array
Renderable.PGrid.FactualQuadrant[][] map
Renderable.PGrid.FactualQuadrant[][]{} object
Renderable.PGrid.FactualQuadrant[][]{}.Core string
Renderable.PGrid.FactualQuadrant[][]{}.Head string
Renderable.PGrid.FactualQuadrant[][]{}.InnerHtml string
Renderable.PGrid.FactualQuadrant[][]{}.Tail string
Renderable.PGrid.FootnoteGrid array
Renderable.PGrid.FootnoteGrid[] array
Renderable.PGrid.FootnoteGrid[][] array
Renderable.PGrid.FootnoteGrid[][][] number
Renderable.PGrid.Footnotes array
Renderable.PGrid.Footnotes[] string
Renderable.PGrid.IndentedLabels array
Renderable.PGrid.IndentedLabels[] object
Renderable.PGrid.IndentedLabels[].Href string
Renderable.PGrid.IndentedLabels[].Indentation number
Renderable.PGrid.IndentedLabels[].Label map
Renderable.PGrid.IndentedLabels[].Label{} map
Renderable.PGrid.IndentedLabels[].Label{}{} string
Renderable.PGrid.PeriodHeaders array
Renderable.PGrid.PeriodHeaders[] map
Renderable.PGrid.PeriodHeaders[]{} string
Renderable.PGrid.VoidQuadrant array
Renderable.PGrid.VoidQuadrant[] object
Renderable.PGrid.VoidQuadrant[].Dimension object
Renderable.PGrid.VoidQuadrant[].Dimension.Href string
Renderable.PGrid.VoidQuadrant[].Dimension.Label map
Renderable.PGrid.VoidQuadrant[].Dimension.Label{} map
Renderable.PGrid.VoidQuadrant[].Dimension.Label{}{} string
Renderable.PGrid.VoidQuadrant[].Indentation number
Renderable.PGrid.VoidQuadrant[].IsParenthesized bool
Renderable.PGrid.VoidQuadrant[].TypedDomain object ?
Renderable.PGrid.VoidQuadrant[].TypedDomain.Href string
Renderable.PGrid.VoidQuadrant[].TypedDomain.Label map
Renderable.PGrid.VoidQuadrant[].TypedDomain.Label{} map
Renderable.PGrid.VoidQuadrant[].TypedDomain.Label{}{} string
Renderable.RelationshipSet object
Renderable.RelationshipSet.RoleURI string
Renderable.RelationshipSet.Title string
Renderable.Subject object
Renderable.Subject.Entity object
Renderable.Subject.Entity.CharData string
Renderable.Subject.Entity.Scheme string
Renderable.Subject.Name string
Catalog object
Catalog.DocumentName string
Catalog.Networks map
Catalog.Networks{} map
Catalog.Networks{}{} string
Catalog.RelationshipSets array
Catalog.RelationshipSets[] object
Catalog.RelationshipSets[].RoleURI string
Catalog.RelationshipSets[].Title string
Catalog.Subjects array
Catalog.Subjects[] object
Catalog.Subjects[].Entity object
Catalog.Subjects[].Entity.CharData string
Catalog.Subjects[].Entity.Scheme string
Catalog.Subjects[].Name string
Expressable object
Expressable.Context object
Expressable.Context.ContextualMemberGrid array
Expressable.Context.ContextualMemberGrid[] array
Expressable.Context.ContextualMemberGrid[][] object
Expressable.Context.ContextualMemberGrid[][].ExplicitMember object ?
Expressable.Context.ContextualMemberGrid[][].ExplicitMember.Href string
Expressable.Context.ContextualMemberGrid[][].ExplicitMember.Label map
Expressable.Context.ContextualMemberGrid[][].ExplicitMember.Label{} map
Expressable.Context.ContextualMemberGrid[][].ExplicitMember.Label{}{} string
Expressable.Context.ContextualMemberGrid[][].TypedMember string ?
Expressable.Context.Period map
Expressable.Context.Period{} string
Expressable.Context.VoidQuadrant array
Expressable.Context.VoidQuadrant[] object
Expressable.Context.VoidQuadrant[].Dimension object
Expressable.Context.VoidQuadrant[].Dimension.Href string
Expressable.Context.VoidQuadrant[].Dimension.Label map
Expressable.Context.VoidQuadrant[].Dimension.Label{} map
Expressable.Context.VoidQuadrant[].Dimension.Label{}{} string
Expressable.Context.VoidQuadrant[].Indentation number
Expressable.Context.VoidQuadrant[].IsParenthesized bool
Expressable.Context.VoidQuadrant[].TypedDomain object ?
Expressable.Context.VoidQuadrant[].TypedDomain.Href string
Expressable.Context.VoidQuadrant[].TypedDomain.Label map
Expressable.Context.VoidQuadrant[].TypedDomain.Label{} map
Expressable.Context.VoidQuadrant[].TypedDomain.Label{}{} string
Expressable.Expression map
Expressable.Expression{} object
Expressable.Expression{}.Core string
Expressable.Expression{}.Head string
Expressable.Expression{}.InnerHtml string
Expressable.Expression{}.Tail string
Expressable.Footnotes array
Expressable.Footnotes[] string
Expressable.Href string
Expressable.Labels map
Expressable.Labels{} map
Expressable.Labels{}{} string
`
