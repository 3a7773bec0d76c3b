package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// operands23 are the values a gathering instruction keeps.
func operands23(g ssa.Instruction) []ssa.Value {
	switch x := g.(type) {
	case *ssa.Call:
		if a, ok := append23(x); ok {
			return a.Call.Args[1:]
		}
		return x.Call.Args
	case *ssa.Store:
		if a, ok := append23(x.Val); ok {
			return a.Call.Args[1:]
		}
		return []ssa.Value{x.Val}
	case *ssa.MapUpdate:
		return []ssa.Value{x.Key, x.Value}
	}
	return nil
}

// leaks: what is kept of an element holds nothing that an earlier one left behind.
func (k *keep23) leaks(t *list23) {
	c, r := k.c, k.r
	for _, g := range t.gather {
		if _, ok := g.(*ssa.Go); ok {
			continue
		}
		for _, op := range operands23(g) {
			d := &dep23{}
			k.dep(t, op, d, map[ssa.Value]bool{})
			if a, ok := op.(*ssa.Slice); ok {
				// the arguments of append
				if al, ok := a.X.(*ssa.Alloc); ok {
					for _, s := range partStores(al) {
						k.dep(t, s.Val, d, map[ssa.Value]bool{})
					}
				}
			}
			for _, in := range d.carried {
				switch x := in.(type) {
				case *ssa.Phi:
					if list23type(x.Type()) || x == t.phi || !usesElem23(k, t, x) {
						continue
					}
					r.Bad("leaks", c.FnName(t.fn)+" "+x.Comment, c.Pos(x.Pos()), "%s of one element of %s is kept for the next one when that has none", x.Comment, k.listName(t))
				case *ssa.UnOp:
					k.leaksFrom(t, x)
				}
			}
		}
	}
}

func list23type(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// usesElem23: a pass puts something of its element into the variable, in some passes only.
func usesElem23(k *keep23, t *list23, phi *ssa.Phi) bool {
	for i, e := range phi.Edges {
		if !t.l.body[phi.Block().Preds[i]] || e == ssa.Value(phi) {
			continue
		}
		d := k.depends(t, e)
		counts := false
		if b, ok := e.(*ssa.BinOp); ok && (b.X == ssa.Value(phi) || b.Y == ssa.Value(phi)) {
			counts = true // a running number
		}
		if d.elem && !counts {
			return true
		}
	}
	return false
}

// leaksFrom: a variable declared before the loop is read without having been set in this pass.
func (k *keep23) leaksFrom(t *list23, ld *ssa.UnOp) {
	c, r := k.c, k.r
	al, ok := root23(ld.X).(*ssa.Alloc)
	if !ok || indexed23(ld.X) != nil || wholeStores23(al) == nil && len(*al.Referrers()) == 0 {
		return
	}
	for _, ref := range *al.Referrers() {
		switch ref.(type) {
		case *ssa.Store, *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
		default:
			return
		}
	}
	type fld struct {
		stores []*ssa.Store
		set    bool
	}
	fields := map[string]*fld{}
	want := path23(ld.X)
	for _, b := range blocksOf23(t.fn, t.l) {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || root23(st.Addr) != ssa.Value(al) {
				continue
			}
			p := path23(st.Addr)
			if !strings.HasPrefix(p, want) && !strings.HasPrefix(want, p) {
				continue
			}
			before := before23(st, ld)
			_, grows := append23(st.Val)
			if strings.HasPrefix(want, p) && before && !grows {
				return // set as a whole
			}
			f := fields[p]
			if f == nil {
				f = &fld{}
				fields[p] = f
			}
			f.stores = append(f.stores, st)
			if before && !grows {
				f.set = true
			}
		}
	}
	for p, f := range fields {
		// set through a part that holds it
		for q, g := range fields {
			if g.set && strings.HasPrefix(p, q) {
				f.set = true
			}
		}
	}
	for p, f := range fields {
		if f.set {
			continue
		}
		for _, st := range f.stores {
			if k.depends(t, st.Val).elem {
				r.Bad("leaks", c.FnName(t.fn)+" "+al.Comment+p, c.PosOf(st), "%s%s of one element of %s is kept for the next one when that has none", al.Comment, p, k.listName(t))
				break
			}
		}
	}
}

// before23: whenever the load is reached in a pass, the store was.
func before23(st *ssa.Store, ld ssa.Instruction) bool {
	if st.Block() == ld.Block() {
		for _, in := range st.Block().Instrs {
			if in == ssa.Instruction(st) {
				return true
			}
			if in == ld {
				return false
			}
		}
	}
	return st.Block().Dominates(ld.Block())
}

// buffers: lists that are kept do not share the memory of one that is begun again in every pass.
func (k *keep23) buffers(fn *ssa.Function) {
	for _, l := range naturalLoops(fn) {
		t := &list23{fn: fn, l: l}
		for _, b := range blocksOf23(fn, l) {
			for _, in := range b.Instrs {
				sl, ok := in.(*ssa.Slice)
				if !ok || sl.High == nil || !isZero(sl.High) || sl.Max != nil {
					continue
				}
				if _, ok := sl.X.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				carried := false
				switch x := sl.X.(type) {
				case *ssa.Phi:
					carried = x.Block() == l.head
				case *ssa.UnOp:
					carried = t.outside(root23(x.X))
				default:
					carried = t.outside(x)
				}
				if !carried {
					continue
				}
				if at := k.keptList(t, sl, map[ssa.Value]bool{}); at != nil {
					k.r.Bad("buffers", k.c.FnName(fn), k.c.PosOf(at), "the list that is kept here is overwritten by the next pass, which begins at its start again")
				}
			}
		}
	}
}

// keptList: where a list is put away as it is.
func (k *keep23) keptList(t *list23, v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] {
		return nil
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Phi:
			if t.l.body[x.Block()] {
				if f := k.keptList(t, x, seen); f != nil {
					return f
				}
			}
		case *ssa.Call:
			if a, ok := append23(x); ok && a.Call.Args[0] == v && t.l.body[x.Block()] {
				if f := k.keptList(t, x, seen); f != nil {
					return f
				}
			}
		case *ssa.MapUpdate:
			if x.Value == v {
				return x
			}
		case *ssa.Store:
			if x.Val != v || !t.l.body[x.Block()] {
				continue
			}
			// into a part of what this pass builds
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !t.outside(root23(fa)) {
				return x
			}
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !t.outside(root23(ia)) {
				return x
			}
		}
	}
	return nil
}

// parts of an element that it must have, or that are alternatives of each other
var needed23 = map[string]bool{
	"Entity": true, "Identifier": true, "Measure": true, "Divide": true, "UnitNumerator": true, "UnitDenominator": true,
	"Instant": true, "StartDate": true, "EndDate": true, "XMLAttrs": true, "Period": true,
	"UnitID": true, "UnitName": true, "NSUnit": true,
}

// place23 names what a value is read from: a root and the fields and elements on the way.
func (k *keep23) place23(v ssa.Value, depth int) (ssa.Value, string) {
	if depth > 20 {
		return v, ""
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return k.place23(x.X, depth+1)
		}
	case *ssa.FieldAddr:
		r, p := k.place23(x.X, depth+1)
		return r, p + "." + deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Field:
		r, p := k.place23(x.X, depth+1)
		return r, p + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		r, p := k.place23(x.X, depth+1)
		return r, p + "[]"
	case *ssa.Alloc:
		var st []*ssa.Store
		for _, ref := range *x.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
				st = append(st, s)
			}
		}
		if len(st) == 1 {
			return k.place23(st[0].Val, depth+1)
		}
	}
	return v, ""
}

// emptyTest: the condition asks whether a list or map of a source is empty; the index of the successor taken when it is.
func (k *keep23) emptyTest(cond ssa.Value) (root ssa.Value, path string, empty int) {
	empty = -1
	switch x := cond.(type) {
	case *ssa.BinOp:
		a, b, op := x.X, x.Y, x.Op
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		kc, ok := b.(*ssa.Const)
		if !ok {
			return
		}
		var l ssa.Value
		if call, ok := a.(*ssa.Call); ok && calleeName(call.Common()) == "len" {
			l = call.Call.Args[0]
			n, ok := int23(kc)
			if !ok {
				return
			}
			switch {
			case op == token.EQL && n == 0, op == token.LEQ && n == 0, op == token.LSS && n == 1:
				empty = 0
			case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
				empty = 1
			default:
				return
			}
		} else if kc.Value == nil {
			l = a
			switch op {
			case token.EQL:
				empty = 0
			case token.NEQ:
				empty = 1
			default:
				return
			}
		} else {
			return
		}
		switch l.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
		default:
			return nil, "", -1
		}
		root, path = k.place23(l, 0)
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			root, path = k.place23(lk.X, 0)
			empty = 1
		}
	}
	return
}

func lastName23(p string) string {
	p = strings.TrimRight(p, "[]")
	return p[strings.LastIndex(p, ".")+1:]
}

// holds23: one place lies in the other.
func holds23(a, b string) bool {
	return a == b || strings.HasPrefix(b, a+".") || strings.HasPrefix(b, a+"[") || strings.HasPrefix(a, b+".") || strings.HasPrefix(a, b+"[")
}

// siblings: a part of an element is not left out because another, unrelated part is there or is not.
func (k *keep23) siblings(fn *ssa.Function) {
	type use struct {
		blk  *ssa.BasicBlock
		in   ssa.Instruction
		root ssa.Value
		path string
	}
	var uses []use
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var l ssa.Value
			switch x := in.(type) {
			case *ssa.IndexAddr:
				l = x.X
			case *ssa.Range:
				l = x.X
			case ssa.CallInstruction:
				// handed to a function that goes through some of its lists
				cc := x.Common()
				g := cc.StaticCallee()
				if g == nil || !k.c.InModule(g) {
					continue
				}
				for i, a := range cc.Args {
					if _, ok := a.Type().Underlying().(*types.Pointer); !ok {
						continue
					}
					r, p := k.place23(a, 0)
					if p != "" || !k.source(r) {
						continue
					}
					for n := range k.readsLists(g, i, map[*ssa.Function]bool{}) {
						if !strings.Contains(n, ":") && n != "*" {
							uses = append(uses, use{b, in, r, "." + n})
						}
					}
				}
				continue
			default:
				continue
			}
			if _, ok := l.Type().Underlying().(*types.Pointer); ok {
				continue
			}
			if r, p := k.place23(l, 0); p != "" {
				uses = append(uses, use{b, in, r, p})
			}
		}
	}
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		root, path, _ := k.emptyTest(iff.Cond)
		if path == "" || needed23[lastName23(path)] || !k.source(root) {
			continue
		}
		for i, s := range b.Succs {
			if len(s.Preds) != 1 {
				continue
			}
			other := b.Succs[1-i]
			for _, u := range uses {
				if u.root != root || holds23(path, u.path) || !s.Dominates(u.blk) {
					continue
				}
				also := false
				for _, w := range uses {
					if w.root == root && w.path == u.path && w.in != u.in && (other == w.blk || reachesWithin23(other, w.blk, b)) && !s.Dominates(w.blk) {
						also = true
					}
				}
				if also {
					continue
				}
				k.r.Bad("siblings", k.c.FnName(fn)+" "+u.path, k.c.PosOf(u.in), "%s is only read depending on %s", lastName23(u.path), lastName23(path))
			}
		}
	}
}

// reachesWithin23: a block is reached without passing a test again.
func reachesWithin23(from, to, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{not: true, from: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// source: what is read is part of what was loaded, not of what is built.
func (k *keep23) source(root ssa.Value) bool {
	switch root.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
	default:
		return false
	}
	n, ok := types.Unalias(deref(deref(root.Type()))).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/serializables")
}

// emptied: an element is not left out because a part is empty that it may do without.
func (k *keep23) emptied(t *list23) {
	for _, b := range blocksOf23(t.fn, t.l) {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == t.done || b == t.l.head {
			continue
		}
		root, path, e := k.emptyTest(iff.Cond)
		if path == "" || e < 0 || needed23[lastName23(path)] || !k.source(root) {
			continue
		}
		lr, lp := k.place23(t.list, 0)
		if lr == root && lp != "" && !holds23(path, lp) && t.reach(b.Succs[0]) != t.reach(b.Succs[1]) {
			k.r.Bad("siblings", k.c.FnName(t.fn)+" "+lp, k.condPos(iff), "whether an element of %s is kept depends on %s", k.listName(t), lastName23(path))
			continue
		}
		if t.reach(b.Succs[e]) || !t.reach(b.Succs[1-e]) {
			continue
		}
		if !strings.HasPrefix(path, lp+"[") {
			continue
		}
		// kept only by going through that part
		only := true
		for _, g := range t.gather {
			inside := false
			for _, l := range naturalLoopsAround(t.fn, g.Block()) {
				if l.head == t.l.head {
					continue
				}
				if u := k.see(t.fn, l); u != nil {
					if r2, p2 := k.place23(u.list, 0); r2 == root && (p2 == path || strings.HasPrefix(p2, path+"[")) {
						inside = true
					}
				}
			}
			if !inside && (g.Block() == b.Succs[1-e] || reachesWithin23(b.Succs[1-e], g.Block(), t.l.head)) {
				only = false
			}
		}
		if only {
			continue
		}
		k.r.Bad("emptied", k.c.FnName(t.fn)+" "+path, k.condPos(iff), "an element of %s without %s is left out", k.listName(t), lastName23(path))
	}
}

// lossy23 are functions that give different names the same result.
var lossy23 = map[string]bool{
	"strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true, "path.Base": true, "path/filepath.Base": true,
	"path.Ext": true, "path/filepath.Ext": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.Trim": true,
	"path.Dir": true, "path/filepath.Dir": true, "strings.Title": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true,
	"strings.ReplaceAll": true, "strings.Replace": true,
}

// lossy: the key is made from a name by leaving out a part of it.
func (k *keep23) lossy(v ssa.Value, depth int) string {
	if depth > 4 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Slice:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if _, isC := x.X.(*ssa.Const); !isC {
				return "a part"
			}
		}
	case *ssa.Call:
		if n := calleeName(x.Common()); lossy23[n] {
			return n
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if call, ok := ia.X.(*ssa.Call); ok && strings.HasPrefix(calleeName(call.Common()), "strings.Split") {
				return "a part"
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := k.lossy(e, depth+1); w != "" {
				return w
			}
		}
	case *ssa.Convert:
		return k.lossy(x.X, depth+1)
	}
	return ""
}

// keys: two files, schemas or linkbases are not kept under one key because only a part of their name is used.
func (k *keep23) keys(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var m, key ssa.Value
			switch x := in.(type) {
			case *ssa.MapUpdate:
				m, key = x.Map, x.Key
			case *ssa.Lookup:
				if !updates23(k, fn, x.X) {
					continue
				}
				m, key = x.X, x.Index
			default:
				continue
			}
			mt, ok := m.Type().Underlying().(*types.Map)
			if !ok || !moduleStruct23(k.c, mt.Elem()) {
				continue
			}
			k.r.Count("files kept under a name", 1)
			if w := k.lossy(key, 0); w != "" {
				k.r.Bad("keys", k.c.FnName(fn), k.c.PosOf(in), "%s is kept under %s of its name: another of the same part replaces it", typeName(mt.Elem()), w)
			}
		}
	}
}

// the lists of a schema that refer to other files
var refers23 = []string{"Import", "Include", "Annotation"}

// readsLists are the fields of a parameter that a function, or one it hands the parameter to, goes through.
func (k *keep23) readsLists(f *ssa.Function, at int, seen map[*ssa.Function]bool) map[string]bool {
	r := map[string]bool{}
	if f == nil || f.Blocks == nil || seen[f] || at >= len(f.Params) {
		return r
	}
	seen[f] = true
	k.listsOf(f, f.Params[at], r, seen)
	return r
}

// listsOf: which list fields are read from a value, here, in closures and in the functions it is handed to.
func (k *keep23) listsOf(f *ssa.Function, v ssa.Value, r map[string]bool, seen map[*ssa.Function]bool) {
	if v.Referrers() == nil {
		return
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			if x.X == v {
				st, ok := deref(x.X.Type()).Underlying().(*types.Struct)
				if ok {
					if _, isL := st.Field(x.Field).Type().Underlying().(*types.Slice); isL {
						r[st.Field(x.Field).Name()] = true
					}
				}
			}
		case *ssa.Phi:
			k.listsOfOnce(f, x, r, seen)
		case *ssa.Store:
			if x.Val == v {
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					k.loadsOf(f, al, r, seen)
				}
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					k.listsOf(g, g.FreeVars[i], r, seen)
				}
			}
		case ssa.CallInstruction:
			cc := x.Common()
			g := cc.StaticCallee()
			for i, a := range cc.Args {
				if a != v {
					continue
				}
				if g == nil {
					r["*"] = true
					continue
				}
				if !k.c.InModule(g) {
					continue
				}
				for n := range k.readsLists(g, i, copyFns(seen)) {
					r[n] = true
				}
			}
		case *ssa.Send, *ssa.MakeInterface:
			r["*"] = true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				// the value itself, handed on by value
				for _, u := range *x.Referrers() {
					if ci, ok := u.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g == nil || k.c.InModule(g) {
							r["*"] = true
						}
					}
					if _, ok := u.(*ssa.Send); ok {
						r["*"] = true
					}
				}
			}
		}
	}
}

func (k *keep23) listsOfOnce(f *ssa.Function, v *ssa.Phi, r map[string]bool, seen map[*ssa.Function]bool) {
	if r["phi:"+v.Name()+f.String()] {
		return
	}
	r["phi:"+v.Name()+f.String()] = true
	k.listsOf(f, v, r, seen)
}

// loadsOf follows a variable that holds the pointer, into closures as well.
func (k *keep23) loadsOf(f *ssa.Function, a ssa.Value, r map[string]bool, seen map[*ssa.Function]bool) {
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
			k.listsOf(f, x, r, seen)
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == a {
					k.loadsOf(g, g.FreeVars[i], r, seen)
				}
			}
		case *ssa.Store, *ssa.DebugRef:
		default:
			r["*"] = true
		}
	}
}

func copyFns(m map[*ssa.Function]bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for f := range m {
		r[f] = true
	}
	return r
}

// follows: whatever a loaded schema refers to is loaded as well.
func (k *keep23) follows(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || g.Name() != "ReadSchemaFile" {
				continue
			}
			var v ssa.Value = call
			for _, ref := range *call.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
					v = ex
				}
			}
			if !k.isKept(v, map[ssa.Value]bool{}) {
				continue
			}
			k.r.Count("places that load a schema", 1)
			r := map[string]bool{}
			k.listsOf(fn, v, r, map[*ssa.Function]bool{})
			if r["*"] {
				continue
			}
			for _, n := range refers23 {
				if !r[n] {
					k.r.Bad("follows", k.c.FnName(fn)+" "+n, k.c.PosOf(call), "what the %s of a schema loaded here refers to is not loaded", n)
				}
			}
		}
	}
}

// isKept: the loaded file ends up in a map.
func (k *keep23) isKept(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.MapUpdate:
			if x.Value == v {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && k.isKept(x, seen) {
				return true
			}
		case *ssa.Store:
			if x.Val == v {
				if al, ok := x.Addr.(*ssa.Alloc); ok && k.isKept(al, seen) {
					return true
				}
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && k.isKept(g.FreeVars[i], seen) {
					return true
				}
			}
		}
	}
	return false
}

// unread: a file that was read is kept or handed on.
func (k *keep23) unread(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !k.c.InModule(g) || g.Signature.Results().Len() != 2 || !strings.HasPrefix(g.Name(), "Read") {
				continue
			}
			res := g.Signature.Results().At(0).Type()
			if _, ok := res.Underlying().(*types.Pointer); !ok || !moduleStruct23(k.c, res) {
				continue
			}
			k.r.Count("files read", 1)
			used := false
			for _, ref := range *call.Referrers() {
				switch x := ref.(type) {
				case *ssa.Extract:
					if x.Index == 0 && realUse23(x) {
						used = true
					}
				case *ssa.DebugRef:
				default:
					used = true
				}
			}
			if !used {
				k.r.Bad("unread", k.c.FnName(fn)+" "+typeName(deref(res)), k.c.PosOf(call), "the %s read here is not kept", typeName(deref(res)))
			}
		}
	}
}

// realUse23: more than a comparison with nil.
func realUse23(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch ref.(type) {
		case *ssa.DebugRef, *ssa.BinOp:
		default:
			return true
		}
	}
	return false
}

// counted: an element is not left out because of how many parts it has.
func (k *keep23) counted(t *list23) {
	for _, b := range blocksOf23(t.fn, t.l) {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == t.done || b == t.l.head || t.reach(b.Succs[0]) == t.reach(b.Succs[1]) {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		a, c := bo.X, bo.Y
		op := bo.Op
		if _, ok := a.(*ssa.Const); ok {
			a, c = c, a
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		n, ok := int23(c)
		call, isC := a.(*ssa.Call)
		if !ok || !isC || calleeName(call.Common()) != "len" {
			continue
		}
		l := call.Call.Args[0]
		sl, ok := l.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if _, ok := sl.Elem().Underlying().(*types.Struct); !ok {
			continue
		}
		if n == 0 && op != token.GEQ || n == 1 && (op == token.LSS || op == token.GEQ) {
			continue // emptiness
		}
		if d := k.depends(t, l); !d.elem || len(d.carried) > 0 {
			continue
		}
		k.r.Bad("counted", k.c.FnName(t.fn), k.condPos(iff), "whether an element of %s is kept depends on how many parts it has", k.listName(t))
	}
}

// testAndSet: the function marks one of its parameters as seen, and says whether it was; the parameter.
func testAndSet23(g *ssa.Function) int {
	if g == nil || g.Signature.Results().Len() != 1 {
		return -1
	}
	if b, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return -1
	}
	looked, set := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				looked[x.Index] = true
			case *ssa.MapUpdate:
				set[x.Key] = true
			}
		}
	}
	for i, p := range g.Params {
		if looked[p] && set[p] {
			return i
		}
	}
	return -1
}

// marks: a file is only passed over when that file was loaded before, not another that shares something with it.
func (k *keep23) marks(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			at := testAndSet23(call.Call.StaticCallee())
			if at < 0 || at >= len(call.Call.Args) {
				continue
			}
			key := call.Call.Args[at]
			for _, x := range fn.Blocks {
				if !b.Dominates(x) {
					continue
				}
				for _, in := range x.Instrs {
					mu, ok := in.(*ssa.MapUpdate)
					if !ok || !moduleStruct23(k.c, mu.Map.Type().Underlying().(*types.Map).Elem()) {
						continue
					}
					k.r.Count("files marked as loaded", 1)
					if k.same(key, mu.Key) || k.shares(key, mu.Key) {
						continue
					}
					k.r.Bad("marks", k.c.FnName(fn), k.c.PosOf(call), "a file is passed over when another with the same %s was loaded, though files are kept under another name", k.c.what(key))
				}
			}
		}
	}
}

// shares: one name is made from the other, or both from the same value.
func (k *keep23) shares(a, b ssa.Value) bool {
	leaves := func(v ssa.Value) map[string]bool {
		r := map[string]bool{}
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Const:
				return
			case *ssa.Call:
				if strings.HasSuffix(calleeName(x.Common()), "attr.FindAttr") {
					r[k.x.X(x, nil).Key] = true
					return
				}
			case *ssa.Alloc:
				for _, s := range partStores(x) {
					walk(s.Val)
				}
				return
			case *ssa.Parameter, *ssa.FreeVar:
				r[v.Name()] = true
				return
			}
			in, ok := v.(ssa.Instruction)
			if !ok {
				return
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					walk(*op)
				}
			}
		}
		walk(v)
		return r
	}
	la, lb := leaves(a), leaves(b)
	if len(lb) == 0 || len(la) == 0 {
		return true
	}
	for n := range lb {
		if la[n] {
			return true
		}
	}
	return false
}

func updates23(k *keep23, fn *ssa.Function, m ssa.Value) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && k.same(mu.Map, m) {
				return true
			}
		}
	}
	return false
}
