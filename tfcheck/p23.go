package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P23", p23) }

// list23 is a loop that goes through a list, a map or a stream, together with what it keeps.
type list23 struct {
	fn     *ssa.Function
	l      *natLoop
	list   ssa.Value                // what is gone through
	field  string                   // the field the list is read from
	phi    *ssa.Phi                 // the counter of a loop over a list
	idx    map[ssa.Value]bool       // positions of the current element
	next   *ssa.Next                // of a loop over a map
	done   *ssa.BasicBlock          // the test for the end
	gather []ssa.Instruction        // where something of this pass is kept
	at     map[*ssa.BasicBlock]int  // blocks with a gathering instruction
	last   map[*ssa.BasicBlock]bool // blocks of the pass that leave the loop
}

type keep23 struct {
	c *Ctx
	r *Report
	x *exprTab
}

// attributes that a well-formed element may leave out, by the field its list is read from
var optional23 = map[string]map[string]bool{
	"Facts":           {"id": true, "unitRef": true, "decimals": true, "precision": true, "nil": true, "lang": true},
	"Element":         {"substitutionGroup": true, "abstract": true, "balance": true, "nillable": true, "periodType": true, "typedDomainRef": true},
	"DefinitionArc":   {"closed": true, "usable": true, "contextElement": true, "targetRole": true, "priority": true, "use": true},
	"PresentationArc": {"preferredLabel": true, "priority": true, "use": true},
	"CalculationArc":  {"priority": true, "use": true},
	"LabelArc":        {"order": true, "priority": true, "use": true},
	"FootnoteLink":    {"title": true},
	"FootnoteArc":     {"order": true, "priority": true, "use": true, "title": true},
}

func p23(c *Ctx, r *Report) {
	k := &keep23{c: c, r: r, x: c.Exprs()}
	r.Rule("a loop that keeps something of the elements it goes through visits each of them: it starts at one end, goes one by one to the other, and is not handed a part of the list cut at a fixed place")
	r.Rule("such a loop is left early only with an error, by panicking, or when an element equals a value looked for")
	r.Rule("while a filing is loaded, whether an element is kept depends neither on how many or which others were kept before nor on its position, unless both are kept under the same key")
	r.Rule("what was kept is not replaced by a fresh list in a later pass, not cut at a fixed place, and an addition to a copy is put back")
	r.Rule("what is kept of an element holds no variable that only some passes set, and no list whose memory the next pass writes to again")
	r.Rule("whether a part of an element is read does not depend on another part of it being there, apart from parts it must have and alternatives")
	r.Rule("elements kept under one key are merged with all of their lists")
	r.Rule("files are kept under their whole name, and all lists of a loaded schema that refer to others are gone through")
	r.Rule("an element is not left out because an attribute that it may leave out is absent")
	r.Rule("a collection kept under a key is not replaced by an empty one on each pass of the loop that adds to it")
	r.Rule("what is looked for in several files or links is looked for in all of them, and references that are unique within an instance are remembered for that instance only")
	r.Assume("a list element is read through the loop's counter or the range clause; other loops are not judged")
	n := 0
	for _, fn := range c.Fns {
		if fn.Blocks == nil {
			continue
		}
		pkg := c.RelPkg(fn)
		loading := pkg == "pkg/serializables" || pkg == "pkg/hydratables"
		if !loading && pkg != renderPkg {
			continue
		}
		bad := len(r.Violations)
		any := false
		for _, l := range naturalLoops(fn) {
			t := k.see(fn, l)
			if t == nil {
				continue
			}
			k.leaving(t)
			k.gathering(t, loading)
			if len(t.gather) == 0 {
				continue
			}
			any = true
			n++
			r.Count("gathering loops", 1)
			r.Count("gathering instructions", len(t.gather))
			k.covers(t)
			k.exits(t, loading)
			if loading {
				k.skips(t)
				k.optional(t)
				k.kept(t)
				k.leaks(t)
				k.emptied(t)
				k.counted(t)
			}
		}
		k.cut(fn)
		if loading {
			k.once(fn)
			k.merges(fn)
			k.buffers(fn)
			k.siblings(fn)
			k.keys(fn)
			k.follows(fn)
			k.unread(fn)
			k.marks(fn)
			k.lostCopy(fn)
		}
		if any {
			r.Fn(c, fn)
			if len(r.Violations) == bad {
				r.OK(c.FnName(fn) + " keeps what its loops go through")
			}
		}
	}
	var parts, lookups []*ssa.Function
	for _, fn := range c.Fns {
		switch c.RelPkg(fn) {
		case "pkg/hydratables":
			lookups = append(lookups, fn)
			parts = append(parts, fn)
		case renderPkg:
			parts = append(parts, fn)
		}
	}
	firstOnly(c, r, parts)
	scopedMarks(c, r, parts)
	startsOver(c, r, parts)
	givesUp(c, r, k, lookups)
	if n < 10 {
		r.Need(false, "only %d loops over parts of a filing found", n)
	}
}

// see: the loop goes through a list by a counter, or through a map.
func (k *keep23) see(fn *ssa.Function, l *natLoop) *list23 {
	t := &list23{fn: fn, l: l, idx: map[ssa.Value]bool{}, at: map[*ssa.BasicBlock]int{}}
	last := func(b *ssa.BasicBlock) *ssa.If {
		i, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		return i
	}
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if rg, ok := nx.Iter.(*ssa.Range); ok && !l.body[rg.Block()] && last(l.head) != nil {
				t.next, t.list, t.done = nx, rg.X, l.head
				t.field = fieldOf23(rg.X)
				return t
			}
		}
	}
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		b, ok := phi.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		if _, ok := step23(phi, l); !ok {
			continue
		}
		idx := map[ssa.Value]bool{phi: true}
		for _, ref := range *phi.Referrers() {
			if bo, ok := ref.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) && bo.X == phi && bo.Block() == l.head {
				idx[bo] = true
			}
		}
		// the list: indexed by the counter, unchanged by the loop
		for _, blk := range blocksOf23(fn, l) {
			for _, in := range blk.Instrs {
				var x, i ssa.Value
				switch y := in.(type) {
				case *ssa.IndexAddr:
					x, i = y.X, y.Index
				case *ssa.Index:
					x, i = y.X, y.Index
				}
				if x == nil || !idx[i] || !k.steady(t, l, x) {
					continue
				}
				if _, ok := deref(x.Type()).Underlying().(*types.Array); ok {
					continue
				}
				if t.list == nil {
					t.list = x
				}
			}
		}
		if t.list == nil {
			continue
		}
		t.phi, t.idx = phi, idx
		t.field = fieldOf23(t.list)
		for _, blk := range blocksOf23(fn, l) {
			iff := last(blk)
			if iff == nil {
				continue
			}
			out := !l.body[blk.Succs[0]] || !l.body[blk.Succs[1]]
			if bo, ok := iff.Cond.(*ssa.BinOp); out && ok && (idx[bo.X] || idx[bo.Y]) {
				// the test at the head, or else any
				if t.done == nil || blk == l.head {
					t.done = blk
				}
			}
		}
		return t
	}
	return nil
}

// steady: the list is the same in every pass.
func (k *keep23) steady(t *list23, l *natLoop, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.body[in.Block()] {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		a := x.X
		for {
			switch y := a.(type) {
			case *ssa.FieldAddr:
				a = y.X
				continue
			case *ssa.UnOp:
				a = y.X
				continue
			}
			break
		}
		if ai, ok := a.(ssa.Instruction); ok && l.body[ai.Block()] {
			return false
		}
		return true
	case *ssa.Field:
		return k.steady(t, l, x.X)
	}
	return false
}

// fieldOf23 is the name of the field a list is read from.
func fieldOf23(v ssa.Value) string {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			return deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
		case *ssa.Field:
			return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		default:
			return ""
		}
	}
	return ""
}

// blocksOf23 are the blocks of a loop in source order.
func blocksOf23(fn *ssa.Function, l *natLoop) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if l.body[b] {
			r = append(r, b)
		}
	}
	return r
}

// step23 is how far a counter moves in a pass.
func step23(phi *ssa.Phi, l *natLoop) (int64, bool) {
	var step int64
	for i, e := range phi.Edges {
		if !l.body[phi.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(phi) || bo.Op != token.ADD && bo.Op != token.SUB {
			return 0, false
		}
		n, ok := int23(bo.Y)
		if !ok || n == 0 {
			return 0, false
		}
		if bo.Op == token.SUB {
			n = -n
		}
		if step != 0 && n != step {
			return 0, false
		}
		step = n
	}
	return step, step != 0
}

func int23(v ssa.Value) (int64, bool) {
	cn, ok := v.(*ssa.Const)
	if !ok || cn.Value == nil || cn.Value.Kind() != constant.Int {
		return 0, false
	}
	n, exact := constant.Int64Val(cn.Value)
	return n, exact
}

// lenOf23: the value is the length of a list plus a constant.
func lenOf23(v ssa.Value) (ssa.Value, int64, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		if calleeName(x.Common()) == "len" {
			return x.Call.Args[0], 0, true
		}
	case *ssa.BinOp:
		n, ok := int23(x.Y)
		if !ok || x.Op != token.ADD && x.Op != token.SUB {
			return nil, 0, false
		}
		l, m, ok := lenOf23(x.X)
		if !ok {
			return nil, 0, false
		}
		if x.Op == token.SUB {
			n = -n
		}
		return l, m + n, true
	}
	return nil, 0, false
}

func (k *keep23) same(a, b ssa.Value) bool {
	if a == b || k.x.X(a, nil).Key == k.x.X(b, nil).Key {
		return true
	}
	pa := path23(a)
	return pa != "" && pa == path23(b) && root23(a) == root23(b)
}

// root23 is the variable an address lies in.
func root23(v ssa.Value) ssa.Value {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.Field:
			v = x.X
		default:
			return v
		}
	}
	return v
}

func (t *list23) outside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || !t.l.body[in.Block()]
}

func append23(v ssa.Value) (*ssa.Call, bool) {
	x, ok := v.(*ssa.Call)
	if !ok || calleeName(x.Common()) != "append" {
		return nil, false
	}
	return x, true
}

// leaving finds the blocks of a pass after which the loop is not entered again.
func (k *keep23) leaving(t *list23) {
	t.last = map[*ssa.BasicBlock]bool{}
	if t.done == nil || t.done != t.l.head {
		return
	}
	for _, d := range t.done.Succs {
		if !t.l.body[d] || len(d.Preds) != 1 {
			continue
		}
		for _, b := range t.fn.Blocks {
			if !t.l.body[b] && d.Dominates(b) {
				t.last[b] = true
			}
		}
	}
}

// gathering finds where something of a pass outlives it.
func (k *keep23) gathering(t *list23, loading bool) {
	add := func(in ssa.Instruction) {
		t.gather = append(t.gather, in)
		t.at[in.Block()]++
	}
	// what reaches the next pass through the head
	carried := map[ssa.Value]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		if carried[v] || t.outside(v) {
			return
		}
		carried[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				mark(e)
			}
		case *ssa.Call:
			if a, ok := append23(x); ok {
				mark(a.Call.Args[0])
			}
		}
	}
	for _, in := range t.l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		for i, e := range phi.Edges {
			if t.l.body[phi.Block().Preds[i]] {
				mark(e)
			}
		}
	}
	for _, blk := range blocksOf23(t.fn, t.l) {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if _, ok := append23(x); ok && carried[x] {
					add(x)
				} else if f := x.Call.StaticCallee(); f != nil && k.c.InModule(f) && k.storesThrough(t, x, f) {
					add(x)
				}
			case *ssa.Store:
				if a, ok := append23(x.Val); ok && t.outside(root23(x.Addr)) && (t.l.body[a.Block()]) && k.fixed(t, x.Addr) {
					add(x)
				} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok && t.idx[ia.Index] && t.outside(root23(ia.X)) && ia.X != t.list {
					// slots[i] = of this element
					add(x)
				} else if _, ok := x.Val.Type().Underlying().(*types.Slice); ok && t.outside(root23(x.Addr)) && k.fixed(t, x.Addr) && k.freshLeaf(t, x.Val, nil, map[ssa.Value]bool{}) != nil {
					add(x)
				}
			case *ssa.MapUpdate:
				if t.outside(root23(x.Map)) {
					add(x)
				}
			case *ssa.Go:
				add(x)
			}
		}
	}
	if !loading {
		return
	}
	for _, blk := range t.fn.Blocks {
		if !t.last[blk] {
			continue
		}
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if a, ok := append23(x); ok && k.ofPass(t, a.Call.Args[1]) {
					if phi, ok := a.Call.Args[0].(*ssa.Phi); ok && t.l.body[phi.Block()] || t.outside(a.Call.Args[0]) && !t.last[blockOf23(a.Call.Args[0])] {
						add(x)
					}
				}
			case *ssa.Store:
				if a, ok := append23(x.Val); ok && t.outside(root23(x.Addr)) && !t.last[blockOf23(root23(x.Addr))] && k.fixed(t, x.Addr) && k.ofPass(t, a.Call.Args[1]) {
					add(x)
				}
			case *ssa.MapUpdate:
				if t.outside(root23(x.Map)) && !t.last[blockOf23(root23(x.Map))] && (k.ofPass(t, x.Key) || k.ofPass(t, x.Value)) {
					add(x)
				}
			}
		}
	}
}

func blockOf23(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

// ofPass: the value is made from the element of the pass.
func (k *keep23) ofPass(t *list23, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		b := blockOf23(v)
		if b == nil || !t.l.body[b] && !t.last[b] {
			return false
		}
		if t.l.body[b] && k.depends(t, v).elem {
			return true
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, s := range partStores(al) {
				if walk(s.Val) {
					return true
				}
			}
			return false
		}
		for _, op := range v.(ssa.Instruction).Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// fixed: the address does not depend on the pass.
func (k *keep23) fixed(t *list23, a ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.UnOp:
			a = x.X
		case *ssa.IndexAddr:
			if !t.outside(x.Index) {
				return false
			}
			a = x.X
		default:
			return t.outside(a)
		}
	}
	return false
}

// storesThrough: the call adds to a list or map of something that outlives the pass.
func (k *keep23) storesThrough(t *list23, x *ssa.Call, f *ssa.Function) bool {
	for i, a := range x.Call.Args {
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Map:
		default:
			continue
		}
		if !t.outside(root23(a)) || i >= len(f.Params) {
			continue
		}
		if addsTo23(f, f.Params[i], 0) {
			return true
		}
	}
	return false
}

func addsTo23(f *ssa.Function, p ssa.Value, depth int) bool {
	if depth > 2 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if root23(x.Map) == p {
					return true
				}
			case *ssa.Store:
				if _, ok := append23(x.Val); ok && root23(x.Addr) == p {
					return true
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g.Pkg == f.Pkg && g != f {
					for i, a := range x.Call.Args {
						if a == p && i < len(g.Params) && addsTo23(g, g.Params[i], depth+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// leftOut says which end of the list a counting loop does not reach, "" when it is not known to leave out any.
func (k *keep23) leftOut(t *list23) (string, ssa.Value) {
	if t.phi == nil {
		return "", nil
	}
	step, ok := step23(t.phi, t.l)
	if !ok {
		return "", nil
	}
	if step > 1 || step < -1 {
		// pairs: the others are read as well
		for _, blk := range blocksOf23(t.fn, t.l) {
			for _, in := range blk.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok && bo.X == ssa.Value(t.phi) && (bo.Op == token.ADD || bo.Op == token.SUB) {
					if n, ok := int23(bo.Y); ok && n != step && n != -step {
						return "", nil
					}
				}
				if sl, ok := in.(*ssa.Slice); ok && sl.Low != nil && t.idx[sl.Low] {
					return "", nil
				}
			}
		}
		return "elements between those it visits", t.phi
	}
	var start ssa.Value
	for i, e := range t.phi.Edges {
		if !t.l.body[t.phi.Block().Preds[i]] {
			if start != nil && start != e {
				return "", nil
			}
			start = e
		}
	}
	if start == nil {
		return "", nil
	}
	// at which offset from the counter the list is read
	off, known := int64(0), false
	for _, blk := range blocksOf23(t.fn, t.l) {
		for _, in := range blk.Instrs {
			var i ssa.Value
			switch y := in.(type) {
			case *ssa.IndexAddr:
				if y.X == t.list || k.same(y.X, t.list) {
					i = y.Index
				}
			case *ssa.Index:
				if y.X == t.list {
					i = y.Index
				}
			}
			if i == nil {
				continue
			}
			o, ok := offset23(i, t.phi)
			if !ok {
				return "", nil
			}
			if known && o != off {
				return "", nil
			}
			off, known = o, true
		}
	}
	if !known {
		return "", nil
	}
	// the value of the position at the last pass
	var cond *ssa.BinOp
	if t.done != nil {
		cond = t.done.Instrs[len(t.done.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp)
	}
	var bound ssa.Value
	var op token.Token
	coff := int64(0)
	if cond != nil {
		x, y := cond.X, cond.Y
		op = cond.Op
		if !t.idx[x] {
			x, y = y, x
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		if !t.l.body[t.done.Succs[0]] {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		o, ok := offset23(x, t.phi)
		if !ok {
			return "", nil
		}
		coff, bound = o, y
	}
	if step == 1 {
		if s, ok := int23(start); ok && s+off > 0 && !k.readsAlone(t, 0, false) {
			return "the first", t.phi
		}
		if bound == nil || t.done != t.l.head {
			return "", nil
		}
		l, m, ok := lenOf23(bound)
		if ok && k.same(l, t.list) {
			// position while going on: pos + coff - off  op  len + m
			lastPos := m - 1 // LSS, NEQ
			if op == token.LEQ {
				lastPos = m
			} else if op != token.LSS && op != token.NEQ {
				return "", nil
			}
			lastPos += off - coff
			if lastPos < -1 && !k.readsAlone(t, lastPos+1, true) {
				return "the last", cond
			}
		}
		return "", nil
	}
	l, m, ok := lenOf23(start)
	if ok && k.same(l, t.list) && m+off < -1 && !k.readsAlone(t, m+off+1, true) {
		return "the last", t.phi
	}
	if bound == nil || t.done != t.l.head {
		return "", nil
	}
	if b, ok := int23(bound); ok {
		lastPos := b
		if op == token.GTR || op == token.NEQ {
			lastPos = b + 1
		} else if op != token.GEQ {
			return "", nil
		}
		lastPos += off - coff
		if lastPos > 0 && !k.readsAlone(t, 0, false) {
			return "the first", cond
		}
	}
	return "", nil
}

func offset23(v ssa.Value, phi *ssa.Phi) (int64, bool) {
	if v == ssa.Value(phi) {
		return 0, true
	}
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.X != ssa.Value(phi) {
		return 0, false
	}
	n, ok := int23(bo.Y)
	if !ok {
		return 0, false
	}
	switch bo.Op {
	case token.ADD:
		return n, true
	case token.SUB:
		return -n, true
	}
	return 0, false
}

// readsAlone: the element the loop leaves out is read by itself, or the whole list is handed on elsewhere in the function.
func (k *keep23) readsAlone(t *list23, pos int64, fromEnd bool) bool {
	for _, b := range t.fn.Blocks {
		if t.l.body[b] || !reachesBlock(b, t.l.head) && !reachesBlock(t.l.head, b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if k.same(x.X, t.list) {
					return true
				}
			case *ssa.Index:
				if k.same(x.X, t.list) {
					return true
				}
			case *ssa.Slice:
				if k.same(x.X, t.list) {
					return true
				}
			}
		}
	}
	return false
}

func (k *keep23) listName(t *list23) string {
	if t.field != "" {
		return t.field
	}
	return k.c.what(t.list)
}

func (k *keep23) covers(t *list23) {
	if w, at := k.leftOut(t); w != "" {
		pos := k.c.Pos(t.phi.Pos())
		if in, ok := at.(ssa.Instruction); ok && in.Pos().IsValid() {
			pos = k.c.PosOf(in)
		}
		k.r.Bad("covers", k.c.FnName(t.fn), pos, "the loop over %s leaves out %s", k.listName(t), w)
		return
	}
	if sl, w := k.part(t.list, 0); sl != nil {
		if !k.restRead(t, sl) {
			k.r.Bad("covers", k.c.FnName(t.fn), k.c.PosOf(sl), "the loop goes through %s of %s only", w, k.c.what(sl.X))
		}
	}
}

// part: the list is cut from another at a fixed place.
func (k *keep23) part(v ssa.Value, depth int) (*ssa.Slice, string) {
	if depth > 4 {
		return nil, ""
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s, w := k.part(e, depth+1); s != nil {
				return s, w
			}
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
			return nil, ""
		}
		if x.Low != nil {
			if n, ok := int23(x.Low); ok && n > 0 {
				return x, "all but the first"
			}
		}
		if x.High != nil {
			if n, ok := int23(x.High); ok && n > 0 {
				return x, "the beginning"
			}
			if l, m, ok := lenOf23(x.High); ok && m < 0 && k.same(l, x.X) {
				return x, "all but the last"
			}
			if bo, ok := x.High.(*ssa.BinOp); ok && (bo.Op == token.QUO || bo.Op == token.SHR) {
				if l, m, ok := lenOf23(bo.X); ok && m <= 1 && k.same(l, x.X) {
					return x, "the first half"
				}
			}
			if call, ok := x.High.(*ssa.Call); ok && calleeName(call.Common()) == "min" {
				for _, a := range call.Call.Args {
					if _, ok := int23(a); ok {
						return x, "the beginning"
					}
				}
			}
		}
	}
	return nil, ""
}

// restRead: what was cut off is read as well.
func (k *keep23) restRead(t *list23, sl *ssa.Slice) bool {
	for _, b := range t.fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if k.same(x.X, sl.X) {
					return true
				}
			case *ssa.Index:
				if k.same(x.X, sl.X) {
					return true
				}
			case *ssa.Slice:
				if x != sl && k.same(x.X, sl.X) {
					return true
				}
			}
		}
	}
	return false
}

// dep23 is what a condition in a loop depends on.
type dep23 struct {
	elem, position, outer bool
	carried               []ssa.Instruction // reads of what earlier passes left
	lookups               []*ssa.Lookup     // in maps that the loop adds to
	wait                  bool              // channels, contexts, clocks
}

func (k *keep23) dep(t *list23, v ssa.Value, d *dep23, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if t.idx[v] {
		d.position = true
		return
	}
	if t.outside(v) {
		switch v.(type) {
		case *ssa.Function, *ssa.Builtin:
		default:
			d.outer = true
		}
		return
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == t.l.head {
			d.carried = append(d.carried, x)
			return
		}
		for _, e := range x.Edges {
			k.dep(t, e, d, seen)
		}
	case *ssa.IndexAddr:
		if x.X == t.list || k.same(x.X, t.list) {
			if t.idx[x.Index] {
				d.elem = true
			} else {
				d.position = true
			}
			return
		}
		k.dep(t, x.X, d, seen)
		k.dep(t, x.Index, d, seen)
	case *ssa.Extract:
		if t.next != nil && x.Tuple == ssa.Value(t.next) {
			d.elem = true
			return
		}
		k.dep(t, x.Tuple, d, seen)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && k.addsTo(t, x.X) {
			d.lookups = append(d.lookups, x)
			k.dep(t, x.Index, d, seen)
			return
		}
		k.dep(t, x.X, d, seen)
		k.dep(t, x.Index, d, seen)
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			d.wait = true
			return
		}
		if x.Op == token.MUL {
			rt := root23(x.X)
			if ia := indexed23(x.X); ia != nil && !t.outside(ia) {
				k.dep(t, ia, d, seen)
				return
			}
			if al, ok := rt.(*ssa.Alloc); ok {
				if t.outside(al) {
					if st := k.storedIn(t, al, x.X); st != nil {
						d.carried = append(d.carried, x)
						return
					}
					d.outer = true
					return
				}
				for _, s := range partStores(al) {
					k.dep(t, s.Val, d, seen)
				}
				// filled by a call
				for _, ref := range *al.Referrers() {
					if call, ok := ref.(*ssa.Call); ok {
						for _, a := range call.Call.Args {
							if a != ssa.Value(al) {
								k.dep(t, a, d, seen)
							}
						}
					}
				}
				return
			}
			if g, ok := rt.(*ssa.Global); ok {
				_ = g
				d.outer = true
				return
			}
			if mp := x.X; t.outside(rt) && k.storedIn(t, rt, mp) != nil {
				d.carried = append(d.carried, x)
				return
			}
		}
		k.dep(t, x.X, d, seen)
	case *ssa.Select:
		d.wait = true
	case *ssa.Call:
		switch n := calleeName(x.Common()); {
		case n == "len" || n == "cap":
			a := x.Call.Args[0]
			if _, ok := a.Type().Underlying().(*types.Map); ok && k.addsTo(t, a) {
				d.carried = append(d.carried, x)
				return
			}
		case strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "context.") || strings.HasPrefix(n, "(context.") || strings.HasPrefix(n, "(time."):
			d.wait = true
		}
		if x.Call.IsInvoke() {
			k.dep(t, x.Call.Value, d, seen)
		}
		for _, a := range x.Call.Args {
			k.dep(t, a, d, seen)
		}
	default:
		in, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				k.dep(t, *op, d, seen)
			}
		}
	}
}

// indexed23 is the outermost list element an address lies in.
func indexed23(v ssa.Value) *ssa.IndexAddr {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// addsTo: the loop adds to the map.
func (k *keep23) addsTo(t *list23, m ssa.Value) bool {
	for _, b := range blocksOf23(t.fn, t.l) {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && k.same(mu.Map, m) {
				return true
			}
		}
	}
	return false
}

// storedIn: the loop stores to what the address denotes.
func (k *keep23) storedIn(t *list23, root, addr ssa.Value) *ssa.Store {
	for _, b := range blocksOf23(t.fn, t.l) {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || root23(st.Addr) != root {
				continue
			}
			if st.Addr == addr || k.same(st.Addr, addr) || samePath23(st.Addr, addr) {
				return st
			}
		}
	}
	return nil
}

// samePath23: two addresses name the same field of the same variable, or one holds the other.
func samePath23(a, b ssa.Value) bool {
	pa, pb := path23(a), path23(b)
	return strings.HasPrefix(pa, pb) || strings.HasPrefix(pb, pa)
}

func path23(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return path23(x.X) + "." + deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return path23(x.X) + "[]"
	case *ssa.UnOp:
		return path23(x.X)
	}
	return ""
}

func (k *keep23) depends(t *list23, v ssa.Value) *dep23 {
	d := &dep23{}
	k.dep(t, v, d, map[ssa.Value]bool{})
	return d
}

// search: the condition compares something of the element with a value that the loop does not change.
func (k *keep23) search(t *list23, cond ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	apart := func(a, b ssa.Value) bool {
		da, db := k.depends(t, a), k.depends(t, b)
		return (da.elem || len(da.lookups) > 0) && db.outer && !db.elem && len(db.carried) == 0
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			_, cx := x.X.(*ssa.Const)
			_, cy := x.Y.(*ssa.Const)
			if cx || cy {
				// strings.Index(x, key) >= 0 and the like
				y := x.X
				if cx {
					y = x.Y
				}
				return k.search(t, y, depth+1)
			}
			return apart(x.X, x.Y) || apart(x.Y, x.X)
		}
		return false
	case *ssa.UnOp:
		return x.Op == token.NOT && k.search(t, x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !t.outside(e) && k.search(t, e, depth+1) {
				return true
			}
		}
		return false
	case *ssa.Call:
		n := calleeName(x.Common())
		if f := x.Call.StaticCallee(); f != nil && k.c.InModule(f) {
			// a predicate over the element and a value looked for
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
				return false
			}
		} else if !strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "bytes.") && !strings.HasPrefix(n, "slices.") && n != "reflect.DeepEqual" && !x.Call.IsInvoke() && f != nil {
			return false
		}
		for i, a := range x.Call.Args {
			for j, b := range x.Call.Args {
				if i != j && apart(a, b) {
					return true
				}
			}
		}
		return false
	case *ssa.Lookup:
		// wanted[element]
		d := k.depends(t, x.Index)
		return d.elem && !k.addsTo(t, x.X) && t.outside(root23(x.X))
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return k.search(t, lk, depth+1)
		}
	}
	return false
}

// exits: the loop goes to its end unless it fails or has found what it looks for.
func (k *keep23) exits(t *list23, loading bool) {
	for _, b := range blocksOf23(t.fn, t.l) {
		for i, s := range b.Succs {
			if t.l.body[s] || b == t.done && i == outIndex(t.l, b) {
				continue
			}
			if b == t.l.head && t.done == nil {
				continue
			}
			if k.fails(t, b, s, !loading) {
				continue
			}
			// the decision that leaves
			if k.decided(t, b) {
				continue
			}
			pos := k.posIn(t.fn, s, b)
			how := "leaves the loop"
			k.r.Bad("exits", k.c.FnName(t.fn), pos, "an element of %s %s: those after it are not kept", k.listName(t), how)
		}
	}
}

func outIndex(l *natLoop, b *ssa.BasicBlock) int {
	for i, s := range b.Succs {
		if !l.body[s] {
			return i
		}
	}
	return -1
}

func (k *keep23) posIn(fn *ssa.Function, bs ...*ssa.BasicBlock) string {
	for _, b := range bs {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return k.c.PosOf(b.Instrs[i])
			}
		}
	}
	for _, b := range bs {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if in, ok := iff.Cond.(ssa.Instruction); ok && in.Pos().IsValid() {
				return k.c.PosOf(in)
			}
		}
	}
	return k.c.Pos(fn.Pos())
}

// decided: one of the tests on the way to the exit looks for a value, waits, or cannot be judged.
func (k *keep23) decided(t *list23, b *ssa.BasicBlock) bool {
	for x := b; x != nil && t.l.body[x]; x = x.Idom() {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok || x == t.done {
			continue
		}
		if k.search(t, iff.Cond, 0) {
			return true
		}
		if d := k.depends(t, iff.Cond); d.wait {
			return true
		}
		// a flag or budget of the caller
		if d := k.depends(t, iff.Cond); x == b && d.outer && !d.elem && !d.position && len(d.carried) == 0 && len(d.lookups) == 0 {
			if _, isBin := iff.Cond.(*ssa.BinOp); !isBin {
				return true
			}
		}
	}
	return false
}

// fails: the way out of the loop only ends in an error or a panic, or gives up with nothing.
func (k *keep23) fails(t *list23, from, s *ssa.BasicBlock, nothing bool) bool {
	errAt := -1
	res := t.fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if res.At(i).Type().String() == "error" {
			errAt = i
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(p, b *ssa.BasicBlock) bool
	walk = func(p, b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if t.l.body[b] {
			// back in an outer loop's pass
			return false
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		case *ssa.Return:
			if nothing && len(results(x)) > 0 {
				all := true
				for _, v := range results(x) {
					all = all && empty23(v)
				}
				if all {
					return true
				}
			}
			if errAt < 0 {
				return false
			}
			v := results(x)[errAt]
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
				for i, pr := range b.Preds {
					if pr == p {
						v = phi.Edges[i]
					}
				}
			}
			cn, isC := v.(*ssa.Const)
			return !(isC && cn.Value == nil)
		}
		for _, n := range b.Succs {
			if !walk(b, n) {
				return false
			}
		}
		return true
	}
	return walk(from, s)
}

// empty23: nil, zero or a literal without elements.
func empty23(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		n, ok := int23(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		a, ok := deref(al.Type()).Underlying().(*types.Array)
		if n, isN := int23(x.High); x.High != nil && isN && n == 0 {
			return true
		}
		return ok && a.Len() == 0
	case *ssa.MakeMap:
		return true
	case *ssa.ChangeType:
		return empty23(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !empty23(e) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		return ok && len(partStores(al)) == 0
	}
	return false
}

// reach: the block leads to a gathering instruction in the same pass.
func (t *list23) reach(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || !t.l.body[b] || b == t.l.head {
			return false
		}
		seen[b] = true
		if t.at[b] > 0 {
			return true
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

// skips: what decides whether an element is kept.
func (k *keep23) skips(t *list23) {
	for _, b := range blocksOf23(t.fn, t.l) {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == t.done || b == t.l.head {
			continue
		}
		y, n := t.reach(b.Succs[0]), t.reach(b.Succs[1])
		if y == n {
			continue
		}
		if k.posTest(t, iff.Cond) {
			k.r.Bad("skips", k.c.FnName(t.fn), k.condPos(iff), "whether an element of %s is kept depends on its position", k.listName(t))
			continue
		}
		d := k.depends(t, iff.Cond)
		if d.position && d.elem && k.neighbour(t, iff.Cond) {
			k.r.Bad("skips", k.c.FnName(t.fn), k.condPos(iff), "whether an element of %s is kept depends on the one beside it", k.listName(t))
			continue
		}
		if len(d.carried) > 0 && k.ofGathered(t, d.carried) {
			k.r.Bad("skips", k.c.FnName(t.fn), k.condPos(iff), "whether an element of %s is kept depends on what was kept before it", k.listName(t))
			continue
		}
		if len(d.lookups) > 0 && !k.sameKey(t, b, d.lookups) {
			k.r.Bad("skips", k.c.FnName(t.fn), k.condPos(iff), "an element of %s is left out when another was kept under %s", k.listName(t), k.c.what(d.lookups[0].Index))
		}
	}
}

func (k *keep23) condPos(iff *ssa.If) string {
	if in, ok := iff.Cond.(ssa.Instruction); ok && in.Pos().IsValid() {
		return k.c.PosOf(in)
	}
	return k.c.PosOf(iff)
}

// posTest: the condition compares the position with a constant.
func (k *keep23) posTest(t *list23, cond ssa.Value) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := bo.X, bo.Y
	if !t.idx[x] {
		x, y = y, x
	}
	if m, ok := x.(*ssa.BinOp); ok && (m.Op == token.REM || m.Op == token.AND) && t.idx[m.X] {
		_, isC := y.(*ssa.Const)
		return isC
	}
	if !t.idx[x] {
		return false
	}
	_, isC := y.(*ssa.Const)
	if l, m, ok := lenOf23(y); ok && m != 0 && k.same(l, t.list) {
		return true
	}
	return isC
}

// neighbour: the condition reads the list at another place.
func (k *keep23) neighbour(t *list23, cond ssa.Value) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	has := func(v ssa.Value) (elem, other bool) {
		d := k.depends(t, v)
		return d.elem, d.position
	}
	e1, o1 := has(bo.X)
	e2, o2 := has(bo.Y)
	return e1 && o2 || e2 && o1
}

// ofGathered: what was carried over is, or counts, what was kept.
func (k *keep23) ofGathered(t *list23, in []ssa.Instruction) bool {
	for _, x := range in {
		v := x.(ssa.Value)
		if call, ok := v.(*ssa.Call); ok {
			_ = call
			return true // len of a map that is added to
		}
		switch v.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0 {
			// set once something was kept
			return true
		}
	}
	return false
}

// sameKey: all that is gathered past the branch is kept under the key that was looked up.
func (k *keep23) sameKey(t *list23, b *ssa.BasicBlock, lk []*ssa.Lookup) bool {
	for _, l := range lk {
		ok := false
		for _, g := range t.gather {
			if mu, isMap := g.(*ssa.MapUpdate); isMap && !k.same(mu.Map, l.X) && k.same(mu.Key, l.Index) {
				ok = true
			}
			if mu, isMap := g.(*ssa.MapUpdate); isMap && k.same(mu.Map, l.X) && k.same(mu.Key, l.Index) {
				// the element itself is kept there, not a mark that it was
				if bt, isB := mu.Value.Type().Underlying().(*types.Basic); isB && bt.Info()&types.IsBoolean != 0 {
					continue
				}
				if st, isS := mu.Value.Type().Underlying().(*types.Struct); isS && st.NumFields() == 0 {
					continue
				}
				ok = !holdsLists(mu.Value.Type()) || k.readInLoop(t, l)
			}
		}
		if !ok && k.identity(l.Index) {
			ok = true
		}
		if !ok {
			return false
		}
	}
	return true
}

// readInLoop: what was kept before is taken up again.
func (k *keep23) readInLoop(t *list23, l *ssa.Lookup) bool {
	used := func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			if _, ok := ref.(*ssa.DebugRef); !ok {
				return true
			}
		}
		return false
	}
	if !l.CommaOk {
		return used(l)
	}
	for _, ref := range *l.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 && used(ex) {
			return true
		}
	}
	return false
}

// holdsLists: a struct that has lists of its own.
func holdsLists(t types.Type) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			return true
		}
	}
	return false
}

// once: a range clause that never comes to a second element, but keeps something.
func (k *keep23) once(fn *ssa.Function) {
	inLoop := map[*ssa.BasicBlock]bool{}
	for _, l := range naturalLoops(fn) {
		inLoop[l.head] = true
	}
	for _, b := range fn.Blocks {
		var at ssa.Instruction
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if !inLoop[b] && !x.IsString {
					at = x
				}
			case *ssa.BinOp:
				n, ok := int23(x.X)
				m, ok2 := int23(x.Y)
				if ok && ok2 && x.Op == token.ADD && n == -1 && m == 1 {
					at = x
				}
			}
		}
		if at == nil {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok || len(b.Succs[0].Preds) != 1 {
			continue
		}
		for _, x := range fn.Blocks {
			if !b.Succs[0].Dominates(x) {
				continue
			}
			for _, in := range x.Instrs {
				var what ssa.Instruction
				switch y := in.(type) {
				case *ssa.MapUpdate:
					if r := root23(y.Map); blockOf23(r) == nil || !b.Succs[0].Dominates(blockOf23(r)) {
						what = y
					}
				case *ssa.Go:
					what = y
				case *ssa.Call:
					if a, ok := append23(y); ok {
						if r := root23(a.Call.Args[0]); blockOf23(r) == nil || !b.Succs[0].Dominates(blockOf23(r)) {
							what = y
						}
					}
				}
				if what != nil {
					k.r.Bad("exits", k.c.FnName(fn), k.c.PosOf(what), "the loop is left after its first element: the others are not kept")
				}
			}
		}
	}
}

// merges: two elements kept under one key give up none of their lists.
func (k *keep23) merges(fn *ssa.Function) {
	c, r := k.c, k.r
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			ld, ok := mu.Value.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			al, ok := ld.X.(*ssa.Alloc)
			if !ok || !holdsLists(al.Type()) {
				continue
			}
			st := wholeStores23(al)
			if len(st) != 1 {
				continue
			}
			v := st[0].Val
			if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
				v = ex.Tuple
			}
			lk, ok := v.(*ssa.Lookup)
			if !ok || !k.same(lk.X, mu.Map) || !k.same(lk.Index, mu.Key) {
				continue
			}
			r.Count("merges under one key", 1)
			s := deref(al.Type()).Underlying().(*types.Struct)
			grown := map[int]bool{}
			for _, ref := range *al.Referrers() {
				fa, ok := ref.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, u := range *fa.Referrers() {
					x, ok := u.(*ssa.Store)
					if !ok || x.Addr != ssa.Value(fa) {
						continue
					}
					if _, ok := x.Val.Type().Underlying().(*types.Slice); !ok {
						continue
					}
					grown[fa.Field] = true
					if !readsField23(x.Val, al, fa.Field, map[ssa.Value]bool{}) {
						r.Bad("merges", c.FnName(fn)+" "+s.Field(fa.Field).Name(), c.PosOf(x), "%s of the one kept before is replaced when another shares its key", s.Field(fa.Field).Name())
					}
				}
			}
			if len(grown) == 0 {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && !grown[i] {
					r.Bad("merges", c.FnName(fn)+" "+s.Field(i).Name(), c.PosOf(mu), "%s of an element that shares its key with another is lost", s.Field(i).Name())
				}
			}
		}
	}
}

// wholeStores23 are the stores to a variable as a whole, none when its address is handed on.
func wholeStores23(al *ssa.Alloc) []*ssa.Store {
	var r []*ssa.Store
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return nil
			}
			r = append(r, x)
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return r
}

func readsField23(v ssa.Value, al *ssa.Alloc, field int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if fa, ok := v.(*ssa.FieldAddr); ok && fa.X == ssa.Value(al) {
		return fa.Field == field
	}
	if a, ok := v.(*ssa.Alloc); ok {
		for _, s := range partStores(a) {
			if readsField23(s.Val, al, field, seen) {
				return true
			}
		}
		for _, ref := range *a.Referrers() {
			if _, ok := ref.(*ssa.Call); ok {
				return true
			}
		}
		return false
	}
	if call, ok := v.(*ssa.Call); ok {
		if _, isA := append23(call); !isA {
			return true // unknown
		}
	}
	if m, ok := v.(*ssa.MakeSlice); ok {
		for _, ref := range *m.Referrers() {
			if call, ok := ref.(*ssa.Call); ok && calleeName(call.Common()) == "copy" {
				return true
			}
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && readsField23(*op, al, field, seen) {
			return true
		}
	}
	return false
}

// identity: the key is what the element is known by.
func (k *keep23) identity(v ssa.Value) bool {
	s := strings.ToLower(k.c.what(v))
	for _, w := range []string{"id", "idattr.value", "href", "roleuri"} {
		if s == w || strings.HasSuffix(s, "."+w) {
			return true
		}
	}
	return false
}

// optional: an attribute that may be absent decides whether the element is kept.
func (k *keep23) optional(t *list23) {
	opt := optional23[t.field]
	if opt == nil {
		return
	}
	for _, b := range blocksOf23(t.fn, t.l) {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !strings.HasSuffix(calleeName(call.Common()), "attr.FindAttr") || len(call.Call.Args) != 2 {
				continue
			}
			cn, ok := call.Call.Args[1].(*ssa.Const)
			if !ok || cn.Value == nil || cn.Value.Kind() != constant.String {
				continue
			}
			name := constant.StringVal(cn.Value)
			if !opt[name] || !k.ownAttrs(t, call.Call.Args[0]) {
				continue
			}
			k.r.Count("optional attributes read", 1)
			for _, ref := range *call.Referrers() {
				bo, ok := ref.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				if z, ok := bo.Y.(*ssa.Const); !ok || z.Value != nil {
					continue
				}
				for _, u := range *bo.Referrers() {
					iff, ok := u.(*ssa.If)
					if !ok {
						continue
					}
					absent, there := iff.Block().Succs[0], iff.Block().Succs[1]
					if bo.Op == token.NEQ {
						absent, there = there, absent
					}
					if !t.reach(absent) && t.reach(there) {
						k.r.Bad("optional", k.c.FnName(t.fn)+" "+name, k.c.PosOf(bo), "an element of %s without %q is left out", k.listName(t), name)
					}
				}
			}
		}
	}
}

// ownAttrs: the attributes are those of the element of this loop.
func (k *keep23) ownAttrs(t *list23, v ssa.Value) bool {
	return fieldOf23(v) == "XMLAttrs" && k.depends(t, v).elem && !k.deeper(t, v)
}

// deeper: the attributes are those of a part of the element.
func (k *keep23) deeper(t *list23, v ssa.Value) bool {
	var in ssa.Value = v
	for i := 0; i < 8; i++ {
		switch x := in.(type) {
		case *ssa.UnOp:
			in = x.X
		case *ssa.FieldAddr:
			in = x.X
		case *ssa.Field:
			in = x.X
		case *ssa.IndexAddr:
			return !(t.idx[x.Index] && k.same(x.X, t.list))
		case *ssa.Alloc:
			return false
		default:
			return false
		}
	}
	return false
}

// kept: a list that outlives the pass is not begun anew in each.
func (k *keep23) kept(t *list23) {
	for _, in := range t.l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		if !usedOut23(phi, t.l) {
			continue
		}
		for i, e := range phi.Edges {
			if !t.l.body[phi.Block().Preds[i]] {
				continue
			}
			if f := k.freshLeaf(t, e, phi, map[ssa.Value]bool{}); f != nil && !k.found(t, f) {
				k.r.Bad("kept", k.c.FnName(t.fn), k.c.PosOf(f), "each element of %s begins the list anew: only the last pass is kept", k.listName(t))
			}
		}
	}
	for _, b := range blocksOf23(t.fn, t.l) {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if _, ok := st.Val.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			rt := root23(st.Addr)
			if !t.outside(rt) || !k.fixed(t, st.Addr) {
				continue
			}
			if _, ok := st.Addr.(*ssa.IndexAddr); ok {
				continue
			}
			f := k.freshLeaf(t, st.Val, nil, map[ssa.Value]bool{})
			if f == nil || k.found(t, f) || k.readFirst(t, st) {
				continue
			}
			if al, ok := rt.(*ssa.Alloc); ok && !k.readOut(t, al) {
				continue
			}
			k.r.Bad("kept", k.c.FnName(t.fn), k.c.PosOf(st), "each element of %s begins the list anew: only the last pass is kept", k.listName(t))
		}
	}
}

// found: the list is begun for an element that was looked for.
func (k *keep23) found(t *list23, in ssa.Instruction) bool {
	for x := in.Block(); x != nil && t.l.body[x]; x = x.Idom() {
		for d := x.Idom(); d != nil && t.l.body[d]; d = d.Idom() {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || d == t.done {
				continue
			}
			// begun under a test: "if list == nil", a match
			if s := d.Succs; (s[0] == x || s[1] == x) && len(x.Preds) == 1 {
				dd := k.depends(t, iff.Cond)
				if k.search(t, iff.Cond, 0) || len(dd.carried) > 0 || len(dd.lookups) > 0 {
					return true
				}
			}
		}
	}
	return false
}

func usedOut23(v *ssa.Phi, l *natLoop) bool {
	for _, ref := range *v.Referrers() {
		if _, dbg := ref.(*ssa.DebugRef); dbg {
			continue
		}
		if !l.body[ref.Block()] {
			return true
		}
	}
	return false
}

// freshLeaf: the list is made in the loop, from nothing.
func (k *keep23) freshLeaf(t *list23, v ssa.Value, phi *ssa.Phi, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] || t.outside(v) {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice:
		if k.copied(x) {
			return nil
		}
		return x
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && !t.outside(al) {
			if k.copied(x) || k.holdsOld(t, al, phi) {
				return nil
			}
			return x
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if f := k.freshLeaf(t, e, phi, seen); f != nil {
				return f
			}
		}
	case *ssa.Call:
		if a, ok := append23(x); ok {
			// append([]T{x}, old...)
			if phi != nil && dependsOn(a.Call.Args[1], phi, map[ssa.Value]bool{}) {
				return nil
			}
			if phi == nil {
				if d := k.depends(t, a.Call.Args[1]); len(d.carried) > 0 {
					return nil
				}
			}
			return k.freshLeaf(t, a.Call.Args[0], phi, seen)
		}
	}
	return nil
}

// copied: the new list is filled by copying.
func (k *keep23) copied(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Call:
			if n := calleeName(x.Common()); n == "copy" {
				return true
			}
			if n := calleeName(x.Common()); n == "append" && len(x.Call.Args) == 2 {
				if _, ok := append23(x); ok && x.Call.Args[0] == v {
					continue
				}
			}
		case *ssa.Slice:
			if k.copied(x) {
				return true
			}
		}
	}
	return false
}

// holdsOld: a literal holds what was there before.
func (k *keep23) holdsOld(t *list23, al *ssa.Alloc, phi *ssa.Phi) bool {
	for _, s := range partStores(al) {
		if phi != nil && dependsOn(s.Val, phi, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// readFirst: what was there is read in the same pass before it is replaced.
func (k *keep23) readFirst(t *list23, st *ssa.Store) bool {
	rt := root23(st.Addr)
	for _, b := range blocksOf23(t.fn, t.l) {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || root23(u.X) != rt || path23(u.X) != path23(st.Addr) {
				continue
			}
			if u.Block() == st.Block() {
				for _, x := range b.Instrs {
					if x == ssa.Instruction(u) {
						return true
					}
					if x == ssa.Instruction(st) {
						break
					}
				}
				continue
			}
			if u.Block().Dominates(st.Block()) {
				return true
			}
		}
	}
	return false
}

// readOut: the variable is read after the loop.
func (k *keep23) readOut(t *list23, al *ssa.Alloc) bool {
	var out func(v ssa.Value) bool
	out = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.FieldAddr:
				if out(x) {
					return true
				}
			case *ssa.IndexAddr:
				if out(x) {
					return true
				}
			case *ssa.UnOp:
				if !t.l.body[x.Block()] && reachesBlock(t.l.head, x.Block()) {
					return true
				}
			case *ssa.Store, *ssa.DebugRef:
			default:
				return true
			}
		}
		return false
	}
	return out(al)
}

// cut: a list of filing parts is not shortened at a fixed place before it is handed on.
func (k *keep23) cut(fn *ssa.Function) {
	c, r := k.c, k.r
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			sl, ok := in.(*ssa.Slice)
			if !ok {
				continue
			}
			st, ok := sl.X.Type().Underlying().(*types.Slice)
			if !ok || !moduleStruct23(c, st.Elem()) {
				continue
			}
			s, w := k.part(sl, 0)
			if s == nil {
				continue
			}
			r.Count("cut lists", 1)
			// the rest is read: a stack, a queue, two halves
			t := &list23{fn: fn, l: &natLoop{body: map[*ssa.BasicBlock]bool{}}}
			if k.restRead(t, sl) {
				continue
			}
			leaves := false
			for _, ref := range *sl.Referrers() {
				switch x := ref.(type) {
				case *ssa.Return, *ssa.Store, *ssa.Phi, *ssa.MapUpdate:
					leaves = true
				case *ssa.Call:
					if n := calleeName(x.Common()); n == "append" {
						leaves = true
					}
				}
			}
			if leaves {
				r.Bad("cut", c.FnName(fn), c.PosOf(sl), "%s of %s is handed on", w, c.what(sl.X))
			}
		}
	}
}

func moduleStruct23(c *Ctx, t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath23)
}

const modPath23 = "ecksbee.com/telefacts/"

// lostCopy: what is added to a list of a copied struct is read again before the copy ends.
func (k *keep23) lostCopy(fn *ssa.Function) {
	c, r := k.c, k.r
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if _, ok := append23(st.Val); !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			al, ok := fa.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			r.Count("additions to a local struct", 1)
			if k.readLater(al, st, i) {
				continue
			}
			r.Bad("copy", c.FnName(fn), c.PosOf(st), "what is added to %s is added to a copy that nothing reads afterwards", c.what(fa))
		}
	}
}

// readLater: the variable is read, or its address known, after the store and before it begins anew.
func (k *keep23) readLater(al *ssa.Alloc, st *ssa.Store, at int) bool {
	reads := map[ssa.Instruction]bool{}
	var collect func(v ssa.Value) bool
	collect = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.FieldAddr:
				if !collect(x) {
					return false
				}
			case *ssa.UnOp:
				reads[x] = true
			case *ssa.Store:
				if x.Val == v {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	if !collect(al) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if reads[in] {
				return true
			}
			if in == ssa.Instruction(al) {
				return false
			}
			// overwritten as a whole
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(st.Block(), at+1)
}
