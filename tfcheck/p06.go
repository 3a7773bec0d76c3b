package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P06: nothing observable depends on map iteration order or on which worker
// finishes first.

func init() { register("P06", p06) }

// dependence of a value on an unordered iteration
const (
	dElem  = 1 // on the element of this iteration
	dState = 2 // on the iterations before it
)

// unord is one iteration in no particular order: a loop over a map or over an
// unordered list, or workers that run side by side.
type unord struct {
	fn     *ssa.Function
	what   string
	at     ssa.Instruction
	head   *ssa.BasicBlock // nil: the whole function is run once per element
	body   map[*ssa.BasicBlock]bool
	tail   map[*ssa.BasicBlock]bool // left the loop from within
	keys   map[ssa.Value]bool       // different in every iteration
	seeds  map[ssa.Value]int
	over   ssa.Value // what is iterated
	once   bool      // a single worker among others
	pairs  func(val, key []string) bool
	effs   []eff
	groups [][]string // parts of an element that all elements share
}

type uframe struct {
	fn   *ssa.Function
	call ssa.CallInstruction // how it was entered, nil at the top
	up   *uframe
	mask map[ssa.Value]int
	u    *unord
}

type eff struct {
	kind string // set, list, put, send
	root ssa.Value
	path string
	fr   *uframe
	ins  ssa.Instruction
	val  ssa.Value
	key  ssa.Value
	tail bool
}

// elems says what the elements of an unordered list are.
type elems struct {
	keys   bool            // keys of a map
	fields map[string]bool // parts that are keys of a map
	known  bool
	from   string
	pairs  func(val, key []string) bool
}

type detCheck struct {
	c      *Ctx
	r      *Report
	fns    map[*ssa.Function]bool
	seenV  map[ssa.Value]bool
	seenR  map[string]bool
	bad    map[string]bool
	nIter  int
	nLists int
	nWork  int
}

func p06(c *Ctx, r *Report) {
	r.Rule("for every loop over a map, everything that outlives an iteration is judged: an accumulated value must not depend on the order (a sum or a flag, the smallest, the one whose key is given), an entry of another map must be determined by its key, and a list must be sorted, by something that tells its elements apart, before anything else is done with it; so must lists received from functions, and what is picked from them")
	r.Rule("leaving such a loop early must give the same result for every element it can be left at, unless it reports a failure")
	r.Rule("what workers write to shared variables must be determined by where they write it, be the same for all, or be merged with what is there by comparing the two; a list they append to is unordered")
	r.Rule("nothing that is returned or stored depends on the time, on random numbers or on a counter that outlives the request")
	r.Assume("the graph library and the standard library are deterministic")
	var roots []*ssa.Function
	for _, f := range c.servingRoots() {
		if isHandler(f) || len(c.Callers(f)) > 0 {
			roots = append(roots, f)
		}
	}
	r.Need(len(roots) >= 10, "only %d entry points found", len(roots))
	_, order := reach(c, roots, func(f *ssa.Function) bool { return !c.InModule(f) })
	d := &detCheck{c: c, r: r, fns: map[*ssa.Function]bool{}, seenV: map[ssa.Value]bool{}, seenR: map[string]bool{}, bad: map[string]bool{}}
	for _, f := range order {
		d.fns[f] = true
	}
	for _, fn := range c.Fns {
		if !d.fns[fn] {
			continue
		}
		r.Fn(c, fn)
		d.function(fn)
	}
	d.clock()
	r.Count("unordered iterations", d.nIter)
	r.Count("workers", d.nWork)
	r.Count("unordered lists followed", d.nLists)
}

func (d *detCheck) report(rule string, ins ssa.Instruction, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	k := d.c.PosOf(ins) + msg
	if d.bad[k] {
		return
	}
	d.bad[k] = true
	d.r.Bad(rule, d.c.FnName(ins.Parent())+": "+msg, d.c.PosOf(ins), "%s", msg)
}

// function finds the unordered iterations of a function.
func (d *detCheck) function(fn *ssa.Function) {
	var sites []*ssa.Go
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					d.mapRange(x)
				}
			case *ssa.Go:
				sites = append(sites, x)
			case *ssa.Call:
				switch n := calleeName(&x.Call); n {
				case "(*sync.Map).Range":
					if mk, ok := x.Call.Args[1].(*ssa.MakeClosure); ok {
						f := mk.Fn.(*ssa.Function)
						u := &unord{fn: f, what: "the entries of a map", at: ins, keys: map[ssa.Value]bool{f.Params[0]: true}, seeds: map[ssa.Value]int{f.Params[0]: dElem, f.Params[1]: dElem}, over: x.Call.Args[0]}
						d.judge(u)
					}
				case "slices.Collect", "slices.AppendSeq":
					for _, a := range x.Call.Args {
						if cl, ok := stripConv(a).(*ssa.Call); ok {
							switch calleeName(&cl.Call) {
							case "maps.Keys":
								d.list(x, elems{keys: true, known: true, from: "the keys of a map"})
							case "maps.Values":
								d.list(x, elems{from: "the values of a map"})
							}
						}
					}
				case "golang.org/x/exp/maps.Keys":
					d.list(x, elems{keys: true, known: true, from: "the keys of a map"})
				case "golang.org/x/exp/maps.Values":
					d.list(x, elems{from: "the values of a map"})
				}
			}
		}
	}
	d.workers(fn, sites)
}

// mapRange judges a loop over a map.
func (d *detCheck) mapRange(rg *ssa.Range) {
	fn := rg.Parent()
	for _, ref := range *rg.Referrers() {
		next, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		u := &unord{fn: fn, what: "a map", at: rg, head: next.Block(), keys: map[ssa.Value]bool{}, seeds: map[ssa.Value]int{}, over: rg.X}
		for _, e := range *next.Referrers() {
			if ex, ok := e.(*ssa.Extract); ok && ex.Index > 0 {
				u.seeds[ex] = dElem
				if ex.Index == 1 {
					u.keys[ex] = true
				}
			}
		}
		u.groups = d.groupParts(rg.X)
		if d.region(u) {
			d.judge(u)
		}
	}
}

// region fills in the blocks of a loop.
func (d *detCheck) region(u *unord) bool {
	for _, l := range naturalLoops(u.fn) {
		if l.head == u.head {
			u.body = l.body
		}
	}
	u.tail = map[*ssa.BasicBlock]bool{}
	var entry *ssa.BasicBlock
	for _, s := range u.head.Succs {
		if u.body != nil && u.body[s] {
			entry = s
		}
	}
	if u.body == nil {
		// never comes back: the first element decides
		u.body = map[*ssa.BasicBlock]bool{u.head: true}
		if len(u.head.Succs) == 2 {
			entry = u.head.Succs[0]
		}
	}
	if entry == nil {
		return u.body[u.head] && len(u.body) > 0
	}
	for _, b := range u.fn.Blocks {
		if !u.body[b] && entry.Dominates(b) {
			u.tail[b] = true
		}
	}
	return true
}

// groupParts: parts of the elements of a map that are the same in all of
// them, because they were put into it under a key taken from that part.
func (d *detCheck) groupParts(m ssa.Value) [][]string {
	if p, ok := m.(*ssa.Parameter); ok {
		var r [][]string
		for i, ci := range d.c.Callers(p.Parent()) {
			a := argOf(ci, p.Parent(), p)
			if a == nil {
				return nil
			}
			g := d.groupParts(a)
			if g == nil || i > 0 && strings.Join(g[0], ".") != strings.Join(r[0], ".") {
				return nil
			}
			r = g
		}
		return r
	}
	if ex, ok := m.(*ssa.Extract); ok {
		m = ex.Tuple
	}
	lk, ok := m.(*ssa.Lookup)
	if !ok {
		return nil
	}
	t := d.c.Exprs()
	outer := t.X(lk.X, nil).Key
	// the same map, or else any map of this type
	r, n := d.groupedBy([]*ssa.Function{lk.Parent()}, func(m ssa.Value) bool { return t.X(m, nil).Key == outer })
	if n == 0 {
		r, n = d.groupedBy(d.c.Fns, func(m ssa.Value) bool { return types.Identical(m.Type(), lk.X.Type()) })
	}
	if n != len(r) || n == 0 {
		return nil
	}
	for _, p := range r {
		if strings.Join(p, ".") != strings.Join(r[0], ".") {
			return nil
		}
	}
	return r[:1]
}

// groupedBy: the parts of elements that choose the group they are put into,
// and how many places there are that put any.
func (d *detCheck) groupedBy(fns []*ssa.Function, is func(ssa.Value) bool) (r [][]string, n int) {
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				up, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				ins := []ssa.Value{up.Map}
				if ph, ok := up.Map.(*ssa.Phi); ok {
					ins = ph.Edges
				}
				for _, in := range ins {
					if ex, ok := in.(*ssa.Extract); ok {
						in = ex.Tuple
					}
					lk, ok := in.(*ssa.Lookup)
					if !ok || !is(lk.X) {
						continue
					}
					n++
					// the group's key is part of the element
					base, path := partOf(lk.Index)
					el, _ := partOf(up.Value)
					if base != nil && base == el && len(path) > 0 {
						r = append(r, path)
					}
				}
			}
		}
	}
	return r, n
}

// partOf: the variable a value is a part of, and which.
func partOf(v ssa.Value) (ssa.Value, []string) {
	var path []string
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, nil
			}
			v = x.X
		case *ssa.FieldAddr:
			f, _ := fieldName(deref(x.X.Type()), x.Field)
			path = append([]string{f}, path...)
			v = x.X
		case *ssa.Field:
			f, _ := fieldName(x.X.Type(), x.Field)
			path = append([]string{f}, path...)
			v = x.X
		case *ssa.Alloc, *ssa.Extract, *ssa.Parameter, *ssa.IndexAddr:
			return v, path
		default:
			return nil, nil
		}
	}
}

func (u *unord) inside(b *ssa.BasicBlock) bool {
	return u.head == nil || u.body[b] || u.tail[b]
}

// depends computes how values depend on the iteration, within a frame.
func (fr *uframe) depends() {
	u, m := fr.u, fr.mask
	top := fr.up == nil
	in := func(b *ssa.BasicBlock) bool { return !top || u.inside(b) }
	state := map[ssa.Value]bool{} // variables outside that the iteration changes
	if top && u.head != nil {
		for _, b := range fr.fn.Blocks {
			if !in(b) {
				continue
			}
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if al := rootAlloc(st.Addr); al != nil && !in(al.Block()) {
						state[al] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value, x int) {
			if m[v]|x != m[v] {
				m[v] |= x
				changed = true
			}
		}
		for _, b := range fr.fn.Blocks {
			if !in(b) {
				continue
			}
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok && top && u.seeds[v] != 0 {
					continue
				}
				switch x := ins.(type) {
				case *ssa.Store:
					if al := rootAlloc(x.Addr); al != nil && (in(al.Block()) && (al.Parent() == fr.fn)) {
						set(al, m[x.Val])
					}
				case *ssa.MapUpdate:
					if mk, ok := x.Map.(*ssa.MakeMap); ok && in(mk.Block()) {
						set(mk, m[x.Key]|m[x.Value])
					}
				case *ssa.Phi:
					if top && x.Block() == u.head {
						if u.seeds[x] == 0 {
							for i, e := range x.Edges {
								if u.body[x.Block().Preds[i]] && e != ssa.Value(x) {
									set(x, dState)
								}
							}
						}
						continue
					}
					differ := false
					for _, e := range x.Edges {
						set(x, m[e])
						if e != x.Edges[0] && !sameConst(e, x.Edges[0]) {
							differ = true
						}
					}
					if differ {
						if d := x.Block().Idom(); d != nil && in(d) {
							if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
								set(x, m[iff.Cond])
							}
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if base, path := partOf(x); base != nil && fr.shared(base, path) {
							continue
						}
						if al := rootAlloc(x.X); al != nil {
							if state[al] {
								set(x, dState)
							}
						}
					}
					set(x, m[x.X])
				case *ssa.Field:
					if base, path := partOf(x); base != nil && fr.shared(base, path) {
						continue
					}
					set(x, m[x.X])
				case *ssa.FieldAddr:
					// judged where it is read
					if base, path := partOf(x); base != nil && fr.shared(base, path) {
						continue
					}
					set(x, m[x.X])
				case *ssa.Alloc:
				case ssa.Value:
					for _, op := range ins.Operands(nil) {
						if *op != nil {
							set(x, m[*op])
						}
					}
				}
			}
		}
	}
}

func sameConst(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok || !ok2 {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == y.Value
	}
	return x.Value.Kind() == y.Value.Kind() && constant.Compare(x.Value, token.EQL, y.Value)
}

// shared: a part of the element that all elements have in common.
func (fr *uframe) shared(base ssa.Value, path []string) bool {
	if fr.up != nil || len(path) == 0 || len(fr.u.groups) == 0 {
		return false
	}
	if al, ok := base.(*ssa.Alloc); ok {
		base = nil
		for _, ref := range *al.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				if base != nil {
					return false
				}
				base = st.Val
			}
		}
	}
	if base == nil || fr.u.seeds[base]&dElem == 0 || fr.u.keys[base] {
		return false
	}
	for _, g := range fr.u.groups {
		if len(path) <= len(g) && strings.Join(g[:len(path)], ".") == strings.Join(path, ".") {
			return true
		}
	}
	return false
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

// keyish: different in every iteration.
func (fr *uframe) keyish(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		v = stripConv(v)
		if fr.up == nil && fr.u.keys[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			switch al := x.X.(type) {
			case *ssa.Alloc:
				st := storesOf(al)
				if len(st) != 1 {
					return false
				}
				v = st[0].Val
			default:
				if fr.u.keys[al] {
					return true
				}
				return false
			}
		case *ssa.BinOp:
			if x.Op != token.ADD || !isString(x.Type()) {
				return false
			}
			if fr.mask[x.X] == 0 {
				v = x.Y
			} else if fr.mask[x.Y] == 0 {
				v = x.X
			} else {
				return false
			}
		case *ssa.Parameter:
			if fr.up == nil || fr.call == nil {
				return false
			}
			a := argOf(fr.call, fr.fn, x)
			if a == nil {
				return false
			}
			return fr.up.keyish(a)
		default:
			return false
		}
	}
	return false
}

func argOf(ci ssa.CallInstruction, fn *ssa.Function, p *ssa.Parameter) ssa.Value {
	cc := ci.Common()
	if cc.IsInvoke() {
		for i, q := range fn.Params {
			if q == p {
				if i == 0 {
					return cc.Value
				}
				if i-1 < len(cc.Args) {
					return cc.Args[i-1]
				}
			}
		}
		return nil
	}
	for i, q := range fn.Params {
		if q == p && i < len(cc.Args) {
			return cc.Args[i]
		}
	}
	return nil
}

// unique: the block is only reached for the element with a given key.
func (fr *uframe) unique(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || fr.up == nil && !fr.u.inside(p) {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || !p.Succs[0].Dominates(b) || len(p.Succs[0].Preds) != 1 {
			continue
		}
		if eq, ok := iff.Cond.(*ssa.BinOp); ok && eq.Op == token.EQL {
			if fr.keyish(eq.X) && fr.mask[eq.Y] == 0 || fr.keyish(eq.Y) && fr.mask[eq.X] == 0 {
				return true
			}
		}
	}
	return false
}

// uniqueEdge is unique for the edge between two blocks.
func (fr *uframe) uniqueEdge(p, b *ssa.BasicBlock) bool {
	if fr.unique(p) {
		return true
	}
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] == b && p.Succs[1] != b {
		if eq, ok := iff.Cond.(*ssa.BinOp); ok && eq.Op == token.EQL {
			return fr.keyish(eq.X) && fr.mask[eq.Y] == 0 || fr.keyish(eq.Y) && fr.mask[eq.X] == 0
		}
	}
	return false
}

// merged: the block is only reached if the value compares favourably with
// what it replaces.
func (fr *uframe) merged(b *ssa.BasicBlock, val ssa.Value, old func(ssa.Value) bool) bool {
	same := func(v ssa.Value) bool {
		return v == val || fr.c().Exprs().X(v, nil).Key == fr.c().Exprs().X(val, nil).Key || fr.keyish(v)
	}
	isOld := func(v ssa.Value) bool {
		if old(v) {
			return true
		}
		if ph, ok := v.(*ssa.Phi); ok && fr.up == nil && ph.Block() == fr.u.head && fr.u.head != nil {
			return true // the best so far
		}
		return false
	}
	test := func(v ssa.Value) bool {
		cmp, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		switch cmp.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return same(cmp.X) && isOld(cmp.Y) || same(cmp.Y) && isOld(cmp.X)
		}
		return false
	}
	// the smaller of the two
	switch x := val.(type) {
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
			for _, a := range x.Call.Args {
				if isOld(a) {
					return true
				}
			}
		}
	case *ssa.Phi:
		if fr.up != nil || x.Block() != fr.u.head {
			for _, e := range x.Edges {
				if isOld(e) {
					for _, o := range x.Edges {
						if o != e && fr.merged(x.Block(), o, old) {
							return true
						}
					}
				} else if cl, ok := e.(*ssa.Call); ok && fr.merged(b, cl, old) {
					return true
				}
			}
		}
	}
	// some test on the way, possibly one of several alternatives
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, depth int) bool
	back = func(b *ssa.BasicBlock, depth int) bool {
		if seen[b] || depth > 6 {
			return false
		}
		seen[b] = true
		for _, p := range b.Preds {
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && test(iff.Cond) {
				return true
			}
			if back(p, depth+1) {
				return true
			}
		}
		return false
	}
	return back(b, 0)
}

func (fr *uframe) c() *Ctx { return theCtx }

var theCtx *Ctx

// target: the variable behind an address or a map, seen from the iteration.
// local: one per iteration.
func (fr *uframe) target(v ssa.Value, depth int) (root ssa.Value, path string, local bool) {
	for depth < 40 {
		depth++
		switch x := v.(type) {
		case *ssa.FieldAddr:
			f, _ := fieldName(deref(x.X.Type()), x.Field)
			path = "." + f + path
			v = x.X
		case *ssa.Field:
			f, _ := fieldName(x.X.Type(), x.Field)
			path = "." + f + path
			v = x.X
		case *ssa.IndexAddr:
			if fr.keyish(x.Index) {
				return x, path, true
			}
			path = "[]" + path
			v = x.X
		case *ssa.Index:
			path = "[]" + path
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return x, path, fr.mask[x] != 0
			}
			path = "*" + path
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType, *ssa.MakeInterface:
			v = stripConv(x)
		case *ssa.Extract:
			if lk, ok := x.Tuple.(*ssa.Lookup); ok {
				v = lk
				continue
			}
			return x, path, fr.mask[x]&dElem != 0
		case *ssa.Lookup:
			if fr.keyish(x.Index) {
				return x, path, true
			}
			path = "{}" + path
			v = x.X
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
			in := v.(ssa.Instruction)
			if fr.up != nil || fr.u.inside(in.Block()) {
				return v, path, true
			}
			return v, path, false
		case *ssa.Global:
			return v, path, false
		case *ssa.Parameter:
			if fr.mask[x]&dElem != 0 {
				return x, path, true
			}
			if fr.up != nil && fr.call != nil {
				if a := argOf(fr.call, fr.fn, x); a != nil {
					r, p, l := fr.up.target(a, depth)
					return r, p + path, l
				}
			}
			return x, path, false
		case *ssa.FreeVar:
			if fr.mask[x]&dElem != 0 {
				return x, path, true
			}
			b := fr.c().rootBinding(x)
			in, ok := b.(ssa.Instruction)
			if !ok {
				if p, ok := b.(*ssa.Parameter); ok {
					for up := fr.up; up != nil; up = up.up {
						if up.fn == p.Parent() {
							r, q, l := up.target(p, depth)
							return r, q + path, l
						}
					}
				}
				return b, path, false
			}
			for up := fr.up; up != nil; up = up.up {
				if up.fn == in.Parent() {
					r, p, l := up.target(b, depth)
					return r, p + path, l
				}
			}
			return b, path, false
		case *ssa.Phi:
			if fr.mask[x]&dElem != 0 && !(fr.up == nil && x.Block() == fr.u.head) {
				return x, path, true
			}
			return x, path, false
		default:
			return v, path, fr.mask[v]&dElem != 0
		}
	}
	return v, path, false
}

func (d *detCheck) collect(u *unord) {
	theCtx = d.c
	m := map[ssa.Value]int{}
	for v, x := range u.seeds {
		m[v] = x
	}
	top := &uframe{fn: u.fn, mask: m, u: u}
	d.frame(u, top, map[string]bool{})
}

// frame collects what an iteration does to variables that outlive it.
func (d *detCheck) frame(u *unord, fr *uframe, seen map[string]bool) {
	fr.depends()
	depth := 0
	for f := fr; f != nil; f = f.up {
		depth++
	}
	for _, b := range fr.fn.Blocks {
		if fr.up == nil && !u.inside(b) {
			continue
		}
		tail := fr.up == nil && u.tail[b]
		for f := fr; f != nil; f = f.up {
			if f.up != nil && f.up.up == nil && f.call != nil && u.tail[f.call.Block()] {
				tail = true
			}
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				root, path, local := fr.target(x.Addr, 0)
				if local {
					continue
				}
				kind := "set"
				if cl, ok := x.Val.(*ssa.Call); ok && isAppend(cl) {
					kind = "list"
				}
				u.effs = append(u.effs, eff{kind, root, path, fr, ins, x.Val, nil, tail})
			case *ssa.MapUpdate:
				root, path, local := fr.target(x.Map, 0)
				if local {
					continue
				}
				u.effs = append(u.effs, eff{"put", root, path, fr, ins, x.Value, x.Key, tail})
			case *ssa.Send:
				root, path, local := fr.target(x.Chan, 0)
				if local {
					continue
				}
				u.effs = append(u.effs, eff{"send", root, path, fr, ins, x.X, nil, tail})
			case ssa.CallInstruction:
				if depth > 8 {
					continue
				}
				var fs []*ssa.Function
				cc := x.Common()
				if f := cc.StaticCallee(); f != nil {
					if d.c.InModule(f) && len(f.Blocks) > 0 {
						fs = append(fs, f)
					}
					// function arguments
					if !d.c.InModule(f) && !sorter(stdFuncName(f)) {
						for _, a := range cc.Args {
							if mk, ok := stripConv(a).(*ssa.MakeClosure); ok {
								fs = append(fs, mk.Fn.(*ssa.Function))
							}
						}
					}
				} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
					fs = d.c.Sync().callees(x)
				}
				for _, f := range fs {
					if !d.c.InModule(f) || len(f.Blocks) == 0 {
						continue
					}
					m := map[ssa.Value]int{}
					k := f.String() + "@"
					for _, p := range f.Params {
						if a := argOf(x, f, p); a != nil {
							m[p] = fr.mask[a]
							if al, ok := a.(*ssa.Alloc); ok && (fr.up != nil || u.inside(al.Block())) {
								m[p] |= dElem
							}
						}
						k += fmt.Sprint(m[p])
					}
					for _, fv := range f.FreeVars {
						if in, ok := d.c.binding(fv).(ssa.Instruction); ok {
							if in.Parent() == fr.fn && (fr.up != nil || u.inside(in.Block())) {
								m[fv] |= dElem
							}
							if v, ok := in.(ssa.Value); ok && in.Parent() == fr.fn {
								m[fv] |= fr.mask[v]
							}
						} else if b, ok := d.c.binding(fv).(*ssa.FreeVar); ok {
							m[fv] |= fr.mask[b]
						}
						k += fmt.Sprint(m[fv])
					}
					if seen[k] {
						continue
					}
					seen[k] = true
					d.frame(u, &uframe{fn: f, call: x, up: fr, mask: m, u: u}, seen)
				}
			}
		}
	}
}

func isAppend(cl *ssa.Call) bool {
	b, ok := cl.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func (d *detCheck) judge(u *unord) {
	d.nIter++
	n := len(d.bad)
	d.collect(u)
	top := &uframe{fn: u.fn, mask: map[ssa.Value]int{}, u: u}
	for v, x := range u.seeds {
		top.mask[v] = x
	}
	top.depends()
	if u.head != nil {
		d.carried(u, top)
		d.exits(u, top)
	}
	for _, e := range u.effs {
		d.effect(u, e)
	}
	if len(d.bad) == n {
		d.r.OK("iteration over " + u.what + " at " + d.c.PosOf(u.at))
	}
}

// leaves are the values a variable of the loop can have at the end of an
// iteration, with the blocks that decide so.
type leaf struct {
	v ssa.Value
	b *ssa.BasicBlock
}

func (u *unord) leaves(ph *ssa.Phi) []leaf {
	var r []leaf
	seen := map[ssa.Value]bool{ph: true}
	var walk func(v ssa.Value, b *ssa.BasicBlock)
	walk = func(v ssa.Value, b *ssa.BasicBlock) {
		if v == ssa.Value(ph) {
			return
		}
		if p, ok := v.(*ssa.Phi); ok && u.body[p.Block()] {
			if seen[p] {
				return
			}
			seen[p] = true
			for i, e := range p.Edges {
				walk(e, p.Block().Preds[i])
			}
			return
		}
		r = append(r, leaf{v, b})
	}
	for i, e := range ph.Edges {
		if p := ph.Block().Preds[i]; u.body[p] {
			walk(e, p)
		}
	}
	return r
}

// comesFrom: v is the variable of the loop, possibly appended to.
func comesFrom(v ssa.Value, ph ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ph {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Call:
			if isAppend(x) {
				return walk(x.Call.Args[0])
			}
		case *ssa.BinOp:
			return walk(x.X) || walk(x.Y)
		case *ssa.ChangeType:
			return walk(x.X)
		}
		return false
	}
	return walk(v)
}

func usedOutside(v ssa.Value, in func(*ssa.BasicBlock) bool) bool {
	for _, ref := range *v.Referrers() {
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		if ph, ok := ref.(*ssa.Phi); ok {
			if !in(ph.Block()) {
				return true
			}
			continue
		}
		if !in(ref.Block()) {
			return true
		}
	}
	return false
}

// carried judges the variables of a loop over something unordered.
func (d *detCheck) carried(u *unord, fr *uframe) {
	for _, ins := range u.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if u.seeds[ph] != 0 {
			continue
		}
		outside := usedOutside(ph, func(b *ssa.BasicBlock) bool { return u.inside(b) })
		if !outside {
			// left through a variable of its own
			for _, l := range u.leaves(ph) {
				if l.v.Referrers() != nil && usedOutside(l.v, func(b *ssa.BasicBlock) bool { return u.inside(b) }) {
					outside = true
				}
			}
		}
		if !outside {
			continue
		}
		var consts []ssa.Value
		var appended []*ssa.Call
		for _, l := range u.leaves(ph) {
			switch k := d.accumulates(fr, ph, l); k {
			case "const":
				consts = append(consts, l.v)
			case "list":
				appended = append(appended, l.v.(*ssa.Call))
			case "":
			default:
				d.report("choice", l.v.(ssa.Instruction), "%s (%s) %s", name(ph), u.what, k)
			}
		}
		for _, k := range consts {
			if k != consts[0] && !sameConst(k, consts[0]) {
				d.report("choice", u.at, "%s is set differently by different elements of %s", name(ph), u.what)
			}
		}
		if len(appended) > 0 {
			d.list(ph, fr.elemsOf(appended))
		}
	}
}

func name(v ssa.Value) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
		return a.Comment
	}
	return v.Name()
}

// accumulates classifies how an iteration changes a variable: "" in a way
// that does not depend on the order, "const", "list", or what is wrong.
func (d *detCheck) accumulates(fr *uframe, old ssa.Value, l leaf) string {
	t := l.v.Type()
	if isErrorType(t) {
		return ""
	}
	if _, ok := l.v.(*ssa.Const); ok || fr.mask[l.v] == 0 {
		return "const"
	}
	switch x := l.v.(type) {
	case *ssa.Call:
		if isAppend(x) && comesFrom(x.Call.Args[0], old) {
			for _, a := range x.Call.Args[1:] {
				if fr.mask[a]&dState != 0 && !comesFrom(a, old) {
					return "collects values that depend on the elements before"
				}
			}
			return "list"
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
			return ""
		}
	case *ssa.BinOp:
		if comesFrom(x.X, old) || comesFrom(x.Y, old) {
			basic, _ := t.Underlying().(*types.Basic)
			switch {
			case basic == nil:
			case basic.Info()&types.IsInteger != 0:
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
					return ""
				}
			case basic.Info()&types.IsString != 0:
				return "is put together in the order of iteration"
			case basic.Info()&types.IsFloat != 0:
				return "is summed up in the order of iteration, and so rounded differently"
			}
		}
	}
	if fr.unique(l.b) {
		return ""
	}
	if ins, ok := l.v.(ssa.Instruction); ok && ins.Block() != nil && fr.unique(ins.Block()) {
		return ""
	}
	// and, or
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		if ins, ok := l.v.(ssa.Instruction); ok {
			for q := ins.Block(); q != nil; q = q.Idom() {
				p := q.Idom()
				if p == nil || !fr.u.inside(p) {
					break
				}
				if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && comesFrom(iff.Cond, old) {
					return ""
				}
			}
		}
	}
	isOld := func(v ssa.Value) bool { return comesFrom(v, old) }
	if fr.merged(l.b, l.v, isOld) {
		return ""
	}
	if _, isSlice := t.Underlying().(*types.Slice); isSlice && fr.mask[l.v]&dElem == 0 {
		return ""
	}
	return "keeps what the last element left there"
}

// elemsOf says what is appended.
func (fr *uframe) elemsOf(calls []*ssa.Call) elems {
	e := elems{keys: true, fields: nil, known: true, from: fr.u.what}
	first := true
	for _, cl := range calls {
		if len(cl.Call.Args) < 2 {
			continue
		}
		sl, ok := cl.Call.Args[1].(*ssa.Slice)
		if !ok {
			return elems{from: fr.u.what}
		}
		arr, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return elems{from: fr.u.what}
		}
		for _, ref := range *arr.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(ia) {
					continue
				}
				v := st.Val
				if !fr.keyish(v) {
					e.keys = false
				}
				f := fr.keyFields(v)
				pr, prev := fr.pairs(v), e.pairs
				e.pairs = func(val, key []string) bool {
					return (prev == nil || prev(val, key)) && pr(val, key)
				}
				if first {
					e.fields = f
				} else {
					for k := range e.fields {
						if !f[k] {
							delete(e.fields, k)
						}
					}
				}
				first = false
			}
		}
	}
	if first {
		return elems{from: fr.u.what}
	}
	if !e.keys && len(e.fields) == 0 {
		e.known = false
	}
	return e
}

func (fr *uframe) keyFields(v ssa.Value) map[string]bool {
	r := map[string]bool{}
	var al *ssa.Alloc
	switch x := v.(type) {
	case *ssa.UnOp:
		al, _ = x.X.(*ssa.Alloc)
	case *ssa.Alloc:
		al = x
	}
	if al == nil {
		return r
	}
	var walk func(a ssa.Value, path string)
	walk = func(a ssa.Value, path string) {
		for _, ref := range *a.Referrers() {
			switch x := ref.(type) {
			case *ssa.FieldAddr:
				f, _ := fieldName(deref(x.X.Type()), x.Field)
				walk(x, path+"."+f)
			case *ssa.Store:
				if x.Addr == a && path != "" && fr.keyish(x.Val) {
					r[path] = true
				}
			}
		}
	}
	walk(al, "")
	return r
}

// exits judges how a loop over something unordered is left early.
func (d *detCheck) exits(u *unord, fr *uframe) {
	var rets [][]ssa.Value
	early := false
	for _, b := range u.fn.Blocks {
		if !u.inside(b) {
			// joins: what they get from inside
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				var consts []ssa.Value
				for i, e := range ph.Edges {
					p := b.Preds[i]
					if !u.inside(p) || p == u.head {
						continue
					}
					if isErrorType(ph.Type()) {
						continue
					}
					if fr.mask[e]&dElem != 0 {
						if fr.uniqueEdge(p, b) || (e.(ssa.Instruction) != nil && fr.unique(e.(ssa.Instruction).Block())) {
							continue
						}
						if d.accumulated(u, fr, e) {
							continue // judged as such
						}
						d.report("choice", u.at, "%s is taken from whichever element of %s comes first", name(ph), u.what)
						continue
					}
					if fr.mask[e] == 0 {
						consts = append(consts, e)
					}
				}
				for _, k := range consts {
					if k != consts[0] && !sameConst(k, consts[0]) {
						d.report("choice", u.at, "%s depends on which element of %s comes first", name(ph), u.what)
					}
				}
			}
			for _, p := range b.Preds {
				if u.inside(p) && p != u.head {
					early = true
				}
			}
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == u.fn.Recover {
			continue
		}
		res := results(ret)
		failed := false
		for _, v := range res {
			if isErrorType(v.Type()) {
				if k, ok := v.(*ssa.Const); !ok || k.Value != nil || !k.IsNil() {
					failed = true
				}
			}
		}
		if failed {
			continue
		}
		for _, v := range res {
			if isErrorType(v.Type()) {
				continue
			}
			if fr.mask[v]&dElem != 0 || fr.mask[v]&dState != 0 {
				if fr.unique(b) {
					continue
				}
				d.report("choice", ret, "the result is taken from whichever element of %s comes first", u.what)
			}
		}
		rets = append(rets, res)
	}
	for _, a := range rets {
		for i, v := range a {
			if fr.mask[v] == 0 && fr.mask[rets[0][i]] == 0 && v != rets[0][i] && !sameConst(v, rets[0][i]) {
				if _, ok := v.(*ssa.Const); !ok {
					continue
				}
				if _, ok := rets[0][i].(*ssa.Const); !ok {
					continue
				}
				if isErrorType(v.Type()) {
					continue
				}
				d.report("choice", u.at, "the result depends on which element of %s comes first", u.what)
			}
		}
	}
	if !early {
		return
	}
	// accumulated until left
	for _, ins := range u.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if u.seeds[ph] != 0 || fr.mask[ph]&dState == 0 || isErrorType(ph.Type()) {
			continue
		}
		for _, b := range u.fn.Blocks {
			if u.inside(b) {
				continue
			}
			for i, p := range b.Preds {
				if !u.inside(p) || p == u.head {
					continue
				}
				// an exit from within: is the variable looked at afterwards?
				for _, ins := range b.Instrs {
					if x, ok := ins.(*ssa.Phi); ok && (x.Edges[i] == ssa.Value(ph) || comesFrom(x.Edges[i], ph)) && !allConst(u.leaves(ph)) {
						d.report("choice", u.at, "%s holds what was collected before the loop over %s was left", name(ph), u.what)
					}
				}
			}
		}
	}
}

func allConst(ls []leaf) bool {
	for _, l := range ls {
		if _, ok := l.v.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

// accumulated: the value belongs to a variable of the loop.
func (d *detCheck) accumulated(u *unord, fr *uframe, v ssa.Value) bool {
	for _, ins := range u.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if comesFrom(v, ph) {
			return true
		}
	}
	return false
}

// effect judges what an iteration does to a variable that outlives it.
func (d *detCheck) effect(u *unord, e eff) {
	fr := e.fr
	dep := fr.mask[e.val]
	if isErrorType(e.val.Type()) {
		return
	}
	if fr.unique(e.ins.Block()) {
		return
	}
	what := d.varName(e)
	switch e.kind {
	case "list":
		cl := e.val.(*ssa.Call)
		arg := 0
		for _, a := range cl.Call.Args[1:] {
			arg |= fr.mask[a]
		}
		if arg&dElem == 0 && arg&dState == 0 {
			return
		}
		if e.tail {
			d.report("choice", e.ins, "%s gets whichever element of %s comes first", what, u.what)
			return
		}
		if arg&dState != 0 && fr.up == nil && u.head != nil {
			for _, a := range cl.Call.Args[1:] {
				if fr.mask[a]&dState != 0 {
					d.report("choice", e.ins, "%s collects values that depend on the elements of %s before", what, u.what)
					return
				}
			}
		}
		if u.once {
			return
		}
		info := fr.elemsOf([]*ssa.Call{cl})
		d.listAt(e, info)
	case "set":
		if dep == 0 {
			return
		}
		if u.once {
			return
		}
		// a numbered place in a list is a place in the order
		if strings.Contains(e.path, "[]") {
			if ia, ok := e.ins.(*ssa.Store).Addr.(*ssa.IndexAddr); ok && fr.mask[ia.Index]&dState != 0 {
				if dep&dState != 0 && dep&dElem == 0 {
					return
				}
				if root, _, _ := fr.target(ia.X, 0); root != nil {
					if u.head != nil && fr.up == nil {
						d.list(root, elems{from: u.what})
						return
					}
				}
			}
			if ia, ok := e.ins.(*ssa.Store).Addr.(*ssa.IndexAddr); ok && fr.mask[ia.Index]&dElem != 0 {
				return // its own place
			}
			if fa, ok := e.ins.(*ssa.Store).Addr.(*ssa.FieldAddr); ok {
				if ia, ok := fa.X.(*ssa.IndexAddr); ok && fr.mask[ia.Index] != 0 {
					return
				}
			}
		}
		old := func(v ssa.Value) bool {
			ld, ok := v.(*ssa.UnOp)
			return ok && ld.Op == token.MUL && d.c.Exprs().X(ld.X, nil).Key == d.c.Exprs().X(e.ins.(*ssa.Store).Addr, nil).Key
		}
		if bo, ok := e.val.(*ssa.BinOp); ok && (old(bo.X) || old(bo.Y)) {
			basic, _ := bo.Type().Underlying().(*types.Basic)
			if basic != nil && basic.Info()&types.IsInteger != 0 {
				if !d.readWithin(u, e) {
					return
				}
				d.report("choice", e.ins, "%s numbers the elements of %s in the order of iteration", what, u.what)
				return
			}
			d.report("choice", e.ins, "%s is put together in the order of iteration over %s", what, u.what)
			return
		}
		if dep&dElem == 0 && u.head != nil && fr.up == nil {
			return
		}
		if fr.merged(e.ins.Block(), e.val, old) {
			return
		}
		if !d.readAfter(u, e) {
			return
		}
		d.report("choice", e.ins, "%s keeps what the last of %s left there", what, u.what)
	case "put":
		if dep == 0 || u.once {
			return
		}
		if fr.keyish(e.key) {
			if dep&dState != 0 {
				d.report("choice", e.ins, "an entry of %s depends on the elements of %s before", what, u.what)
			}
			return
		}
		up := e.ins.(*ssa.MapUpdate)
		t := d.c.Exprs()
		old := func(v ssa.Value) bool {
			v = fwd(v)
			if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
				v = ex.Tuple
			}
			lk, ok := v.(*ssa.Lookup)
			return ok && t.X(lk.X, nil).Key == t.X(up.Map, nil).Key && t.X(lk.Index, nil).Key == t.X(up.Key, nil).Key
		}
		if cl, ok := e.val.(*ssa.Call); ok && isAppend(cl) && old(cl.Call.Args[0]) {
			if d.sortedLater(up) {
				return
			}
			d.report("order", e.ins, "the lists in %s are filled in the order of iteration over %s", what, u.what)
			return
		}
		if bo, ok := e.val.(*ssa.BinOp); ok && (old(bo.X) || old(bo.Y)) {
			if basic, _ := bo.Type().Underlying().(*types.Basic); basic != nil && basic.Info()&types.IsInteger != 0 {
				return
			}
		}
		if fr.determined(e.val, e.key, 0) {
			return
		}
		if u.pairs != nil {
			val, ok := fr.seedPart(e.val)
			key, ok2 := fr.seedPart(e.key)
			if ok && ok2 && u.pairs(val, key) {
				return
			}
		}
		if fr.merged(e.ins.Block(), e.val, old) {
			return
		}
		if !d.readAfter(u, e) {
			return
		}
		d.report("choice", e.ins, "an entry of %s keeps what the last of %s left there", what, u.what)
	case "send":
		if dep == 0 || u.once && !e.tail {
			return
		}
		d.received(e)
	}
}

func (d *detCheck) varName(e eff) string {
	n := ""
	switch r := e.root.(type) {
	case *ssa.Alloc:
		n = r.Comment
	case *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
		n = r.Name()
	case *ssa.Phi:
		n = r.Comment
	default:
		n = "a variable"
	}
	return n + strings.ReplaceAll(strings.ReplaceAll(e.path, "*", ""), "{}", "[]")
}

// determined: the value is a function of the key and of what does not depend
// on the iteration.
func (fr *uframe) determined(v, key ssa.Value, depth int) bool {
	return fr.determinedBy(v, fr.canon(key, 0), depth)
}

// canon names a value, the same in the frames it is handed through.
func (fr *uframe) canon(v ssa.Value, depth int) string {
	v = stripConv(v)
	if depth < 20 {
		if a := fr.lift(v); a != nil {
			return fr.up.canon(a, depth+1)
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					if st := storesOf(al); len(st) == 1 {
						return fr.canon(st[0].Val, depth+1)
					}
				}
				return "*" + fr.canon(x.X, depth+1)
			}
		case *ssa.FieldAddr:
			f, _ := fieldName(deref(x.X.Type()), x.Field)
			return fr.canon(x.X, depth+1) + "." + f
		case *ssa.Field:
			f, _ := fieldName(x.X.Type(), x.Field)
			return fr.canon(x.X, depth+1) + "." + f
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && depth < 6 {
				k := f.String() + "("
				for _, a := range x.Call.Args {
					k += fr.canon(a, depth+3) + ","
				}
				return k + ")"
			}
		case *ssa.Const:
			return x.String()
		case *ssa.Alloc:
			if st := storesOf(x); len(st) == 1 {
				return "&" + fr.canon(st[0].Val, depth+1)
			}
		}
	}
	return fmt.Sprintf("%p", v)
}

func (fr *uframe) determinedBy(v ssa.Value, key string, depth int) bool {
	if fr.mask[v] == 0 || fr.canon(v, 0) == key {
		return true
	}
	if fr.up == nil && fr.u.seeds[v] != 0 || depth > 25 {
		return false
	}
	if a := fr.lift(v); a != nil {
		return fr.up.determinedBy(a, key, depth+1)
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	case *ssa.Parameter, *ssa.FreeVar:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fr.determinedBy(e, key, depth+5) {
				return false
			}
		}
		return true
	case *ssa.Alloc:
		n := 0
		ok := true
		var walk func(a ssa.Value)
		walk = func(a ssa.Value) {
			for _, ref := range *a.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					if y.Addr == a {
						n++
						ok = ok && fr.determinedBy(y.Val, key, depth+1)
					}
				case *ssa.FieldAddr:
					walk(y)
				case *ssa.IndexAddr:
					walk(y)
				}
			}
		}
		walk(x)
		return ok && n > 0
	case *ssa.MakeClosure:
		return false
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && !fr.determinedBy(*op, key, depth+1) {
			return false
		}
	}
	return true
}

// parts gives access to the parts of a value that is put together here.
func (fr *uframe) parts(v ssa.Value) func(path []string) ssa.Value {
	var al *ssa.Alloc
	switch x := v.(type) {
	case *ssa.UnOp:
		al, _ = x.X.(*ssa.Alloc)
	case *ssa.Alloc:
		al = x
	}
	return func(path []string) ssa.Value {
		if len(path) == 0 {
			return v
		}
		if al == nil || len(path) != 1 {
			return nil
		}
		for _, ref := range *al.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if f, _ := fieldName(deref(fa.X.Type()), fa.Field); f != path[0] {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					return st.Val
				}
			}
		}
		return nil
	}
}

// pairs: parts of an element that determine one another where it is made.
func (fr *uframe) pairs(v ssa.Value) func(val, key []string) bool {
	get := fr.parts(v)
	return func(val, key []string) bool {
		x, k := get(val), get(key)
		return x != nil && k != nil && fr.determined(x, k, 0)
	}
}

// seedPart: which part of the element a value is.
func (fr *uframe) seedPart(v ssa.Value) ([]string, bool) {
	if fr.up != nil {
		return nil, false
	}
	base, path := partOf(v)
	if base == nil {
		base = v
	}
	if al, ok := base.(*ssa.Alloc); ok {
		st := storesOf(al)
		if len(st) != 1 {
			return nil, false
		}
		base = st[0].Val
	}
	return path, fr.u.seeds[base]&dElem != 0
}

// lift: the value in the calling frame that an argument or a captured variable
// stands for.
func (fr *uframe) lift(v ssa.Value) ssa.Value {
	if fr.up == nil {
		return nil
	}
	switch x := stripConv(v).(type) {
	case *ssa.Parameter:
		if fr.call != nil {
			return argOf(fr.call, fr.fn, x)
		}
	case *ssa.UnOp:
		fv, ok := x.X.(*ssa.FreeVar)
		if !ok || x.Op != token.MUL {
			return nil
		}
		if al, ok := fr.c().binding(fv).(*ssa.Alloc); ok && al.Parent() == fr.up.fn {
			if st := storesOf(al); len(st) == 1 {
				return st[0].Val
			}
		}
	}
	return nil
}

// readAfter: what was written is looked at by anyone.
func (d *detCheck) readAfter(u *unord, e eff) bool {
	// a field nobody reads
	i := strings.LastIndex(e.path, ".")
	if i >= 0 {
		return true
	}
	al, ok := e.root.(ssa.Value)
	if !ok || al.Referrers() == nil {
		return true
	}
	seen := map[ssa.Value]bool{}
	var read func(v ssa.Value) bool
	read = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef, *ssa.MapUpdate:
				if mu, ok := x.(*ssa.MapUpdate); ok && mu.Map != v {
					return true
				}
			case *ssa.Store:
				if x.Addr == v {
					continue
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if d.fieldRead(fa) {
						return true
					}
					continue
				}
				if a2, ok := x.Addr.(*ssa.Alloc); ok {
					if read(a2) {
						return true
					}
					continue
				}
				return true
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && read(f.FreeVars[i]) {
						return true
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if read(x) {
						return true
					}
				}
			default:
				return true
			}
		}
		return false
	}
	return read(al)
}

// readWithin: the counter is looked at while it counts.
func (d *detCheck) readWithin(u *unord, e eff) bool {
	bo, ok := e.val.(*ssa.BinOp)
	if !ok {
		return true
	}
	for _, v := range []ssa.Value{bo, bo.X, bo.Y} {
		if _, ok := v.(*ssa.Const); ok || v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			if ref == e.ins || ref == ssa.Instruction(bo) {
				continue
			}
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			if v == ssa.Value(bo) || ref.Block() == e.ins.Block() {
				if _, isLoad := v.(*ssa.UnOp); v == ssa.Value(bo) || isLoad {
					return true
				}
			}
		}
	}
	return false
}

// fieldRead: some function reads the field.
func (d *detCheck) fieldRead(fa *ssa.FieldAddr) bool {
	st := deref(fa.X.Type())
	f := st.Underlying().(*types.Struct).Field(fa.Field)
	if f.Exported() {
		return true
	}
	for _, fn := range d.c.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if x.Field == fa.Field && types.Identical(deref(x.X.Type()), st) {
						for _, ref := range *x.Referrers() {
							if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
								continue
							}
							if _, ok := ref.(*ssa.DebugRef); ok {
								continue
							}
							return true
						}
					}
				case *ssa.Field:
					if x.Field == fa.Field && types.Identical(x.X.Type(), st) {
						return true
					}
				}
			}
		}
	}
	return false
}

// sortedLater: the lists in the map are sorted somewhere in the function.
func (d *detCheck) sortedLater(up *ssa.MapUpdate) bool {
	t := d.c.Exprs()
	m := t.X(up.Map, nil).Key
	for _, b := range up.Parent().Blocks {
		for _, ins := range b.Instrs {
			cl, ok := ins.(*ssa.Call)
			if !ok || !sorter(calleeName(&cl.Call)) {
				continue
			}
			v := stripConv(cl.Call.Args[0])
			if ld, ok := v.(*ssa.UnOp); ok {
				if al, ok := ld.X.(*ssa.Alloc); ok {
					if st := storesOf(al); len(st) == 1 {
						v = st[0].Val
					}
				}
			}
			if ex, ok := v.(*ssa.Extract); ok {
				switch tp := ex.Tuple.(type) {
				case *ssa.Lookup:
					v = tp
				case *ssa.Next:
					if rg, ok := tp.Iter.(*ssa.Range); ok && t.X(rg.X, nil).Key == m {
						return true
					}
				}
			}
			if lk, ok := v.(*ssa.Lookup); ok && t.X(lk.X, nil).Key == m {
				return true
			}
		}
	}
	return false
}

func sorter(n string) bool {
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// adequate: a sort puts elements that differ in one order only.
func (d *detCheck) adequate(cl *ssa.Call, e elems) bool {
	n := calleeName(&cl.Call)
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true
	}
	var less *ssa.Function
	if n == "sort.Sort" || n == "sort.Stable" {
		mi, ok := cl.Call.Args[0].(*ssa.MakeInterface)
		if !ok {
			return true
		}
		if strings.HasPrefix(mi.X.Type().String(), "sort.") {
			return true
		}
		less = d.c.Prog.LookupMethod(mi.X.Type(), nil, "Less")
	} else if len(cl.Call.Args) > 1 {
		switch x := stripConv(cl.Call.Args[1]).(type) {
		case *ssa.MakeClosure:
			less = x.Fn.(*ssa.Function)
		case *ssa.Function:
			less = x
		}
	}
	if less == nil || len(less.Blocks) == 0 {
		return true
	}
	paths := map[string]types.Type{}
	compared(less, paths)
	if len(paths) == 0 {
		return true
	}
	if _, ok := paths[""]; ok {
		return true
	}
	if e.known {
		if e.keys {
			_, ok := paths[""]
			_, computed := paths["~"]
			return ok || computed && false
		}
		for f := range e.fields {
			if _, ok := paths[f]; ok {
				return true
			}
		}
		return false
	}
	for _, t := range paths {
		if t != nil && isString(t) {
			return true
		}
	}
	return false
}

// compared collects the parts of elements that a comparison looks at.
func compared(f *ssa.Function, paths map[string]types.Type) {
	part := func(v ssa.Value) {
		path := ""
		w := v
		for {
			switch x := w.(type) {
			case *ssa.UnOp:
				w = x.X
				continue
			case *ssa.FieldAddr:
				n, _ := fieldName(deref(x.X.Type()), x.Field)
				path = "." + n + path
				w = x.X
				continue
			case *ssa.Field:
				n, _ := fieldName(x.X.Type(), x.Field)
				path = "." + n + path
				w = x.X
				continue
			case *ssa.ChangeType:
				w = x.X
				continue
			case *ssa.IndexAddr:
				paths[path] = v.Type()
				return
			case *ssa.Index:
				paths[path] = v.Type()
				return
			case *ssa.Parameter:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return // i < j
				}
				paths[path] = v.Type()
				return
			case *ssa.Alloc:
				if st := storesOf(x); len(st) == 1 {
					w = st[0].Val
					continue
				}
			case *ssa.Const:
				return
			}
			break
		}
		if _, ok := v.(*ssa.Const); !ok {
			paths["~"] = nil
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					part(x.X)
					part(x.Y)
				}
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "strings.Compare", "cmp.Compare", "cmp.Less", "(time.Time).Before", "(time.Time).After", "(time.Time).Compare":
					for _, a := range x.Call.Args {
						part(a)
					}
				}
			}
		}
	}
}

func storesOf(al *ssa.Alloc) []*ssa.Store {
	var r []*ssa.Store
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			r = append(r, st)
		}
	}
	return r
}

// listAt follows an unordered list kept in a variable.
func (d *detCheck) listAt(e eff, info elems) {
	path := strings.ReplaceAll(e.path, "*", "")
	if al, ok := e.root.(*ssa.Alloc); ok && path == "" {
		d.variable(al, info)
		return
	}
	if path != "" && !strings.Contains(path, "{}") {
		// a field: sorted somewhere?
		if st, ok := e.ins.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && d.fieldSorted(fa) {
				return
			}
		}
		d.report("order", e.ins, "%s is filled in the order of iteration over %s", d.varName(e), info.from)
		return
	}
	if g, ok := e.root.(*ssa.Global); ok {
		d.report("order", e.ins, "%s is filled in the order of iteration over %s", g.Name(), info.from)
		return
	}
	d.r.Open("list " + d.varName(e) + " at " + d.c.PosOf(e.ins))
}

func (d *detCheck) fieldSorted(fa *ssa.FieldAddr) bool {
	st := deref(fa.X.Type())
	for _, fn := range d.c.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(*ssa.Call)
				if !ok || !sorter(calleeName(&cl.Call)) {
					continue
				}
				if ld, ok := stripConv(cl.Call.Args[0]).(*ssa.UnOp); ok {
					if x, ok := ld.X.(*ssa.FieldAddr); ok && x.Field == fa.Field && types.Identical(deref(x.X.Type()), st) {
						return true
					}
				}
			}
		}
	}
	return false
}

// variable follows an unordered list kept in a local variable.
func (d *detCheck) variable(al *ssa.Alloc, info elems) {
	if d.seenV[al] {
		return
	}
	d.seenV[al] = true
	d.nLists++
	var loads []*ssa.UnOp
	var sorts []*ssa.Call
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.UnOp:
				loads = append(loads, x)
			case *ssa.MakeClosure:
				// comparison functions of sorts look at it while it is sorted
				cmp := false
				for _, r2 := range *x.Referrers() {
					if cl, ok := r2.(*ssa.Call); ok && sorter(calleeName(&cl.Call)) {
						cmp = true
					}
				}
				if cmp {
					continue
				}
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						visit(f.FreeVars[i])
					}
				}
			}
		}
	}
	visit(al)
	for _, ld := range loads {
		for _, s := range d.sortsOf(ld) {
			sorts = append(sorts, s)
		}
	}
	for _, ld := range loads {
		done := false
		for _, s := range sorts {
			if s.Parent() == ld.Parent() && (precedes(s, ld) || s.Block().Dominates(ld.Block()) && s.Block() != ld.Block()) {
				if d.adequate(s, info) {
					done = true
				} else {
					d.report("ties", s, "a list of %s is sorted by something that several elements can share", info.from)
					done = true
				}
			}
		}
		if done {
			continue
		}
		d.uses(ld, ld, info, sorts)
	}
}

// sortsOf are the sorts a list is given to.
func (d *detCheck) sortsOf(v ssa.Value) []*ssa.Call {
	var r []*ssa.Call
	if v.Referrers() == nil {
		return nil
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.MakeInterface:
			r = append(r, d.sortsOf(x)...)
		case *ssa.ChangeType:
			r = append(r, d.sortsOf(x)...)
		case *ssa.Call:
			if len(x.Call.Args) > 0 && x.Call.Args[0] == v {
				if sorter(calleeName(&x.Call)) {
					r = append(r, x)
				} else if f := x.Call.StaticCallee(); f != nil && d.c.InModule(f) && len(f.Params) > 0 {
					if ss := d.sortsOfParam(f.Params[0]); len(ss) > 0 {
						r = append(r, x)
					}
				}
			}
		}
	}
	return r
}

// sortsOfParam: a helper that sorts its argument.
func (d *detCheck) sortsOfParam(p *ssa.Parameter) []*ssa.Call {
	r := d.sortsOf(p)
	for _, ref := range *p.Referrers() {
		if st, ok := ref.(*ssa.Store); ok {
			if al, ok := st.Addr.(*ssa.Alloc); ok {
				for _, r2 := range *al.Referrers() {
					if ld, ok := r2.(*ssa.UnOp); ok {
						r = append(r, d.sortsOf(ld)...)
					}
				}
			}
		}
	}
	return r
}

// list follows an unordered list.
func (d *detCheck) list(v ssa.Value, info elems) {
	if d.seenV[v] {
		return
	}
	d.seenV[v] = true
	d.nLists++
	d.uses(v, v, info, nil)
}

func (d *detCheck) uses(v, orig ssa.Value, info elems, sorts []*ssa.Call) {
	if v.Referrers() == nil {
		return
	}
	own := append(append([]*ssa.Call{}, sorts...), d.sortsOf(v)...)
	after := func(ins ssa.Instruction) bool {
		for _, s := range own {
			if ins == ssa.Instruction(s) {
				return true
			}
			if s.Parent() == ins.Parent() && (s.Block() == ins.Block() && precedes(s, ins) || s.Block() != ins.Block() && s.Block().Dominates(ins.Block())) {
				return true
			}
		}
		return false
	}
	for _, s := range own {
		if f := s.Call.StaticCallee(); f != nil && d.c.InModule(f) {
			for _, in := range d.sortsOfParam(f.Params[0]) {
				if !d.adequate(in, info) {
					d.report("ties", s, "a list of %s is sorted by something that several elements can share", info.from)
				}
			}
			continue
		}
		if !d.adequate(s, info) {
			d.report("ties", s, "a list of %s is sorted by something that several elements can share", info.from)
		}
	}
	for _, ref := range *v.Referrers() {
		if _, ok := ref.(*ssa.DebugRef); ok || after(ref) {
			continue
		}
		switch x := ref.(type) {
		case *ssa.Phi:
			d.list(x, info)
		case *ssa.ChangeType:
			d.list(x, info)
		case *ssa.MakeInterface:
			if len(d.sortsOf(x)) > 0 {
				continue
			}
			d.list(x, info)
		case *ssa.Slice:
			if k, ok := x.High.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
				continue
			}
			if x.Low != nil || x.High != nil {
				d.report("choice", x, "a part of an unordered list of %s is taken", info.from)
				continue
			}
			d.list(x, info)
		case *ssa.Return:
			d.returned(x, v, info)
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.Alloc:
				if al, ok := orig.(*ssa.UnOp); ok && al.X == ssa.Value(a) {
					continue
				}
				d.variable(a, info)
			case *ssa.FreeVar:
				if al, ok := d.c.rootBinding(a).(*ssa.Alloc); ok {
					if ld, ok := orig.(*ssa.UnOp); ok && ld.X == ssa.Value(a) {
						continue
					}
					d.variable(al, info)
				}
			case *ssa.FieldAddr:
				if d.fieldSorted(a) {
					continue
				}
				f, _ := fieldName(deref(a.X.Type()), a.Field)
				d.report("order", x, "%s is left in the order of iteration over %s", f, info.from)
			case *ssa.Global:
				d.report("order", x, "%s is left in the order of iteration over %s", a.Name(), info.from)
			default:
				if ia, ok := a.(*ssa.IndexAddr); ok {
					if root := rootAlloc(ia); root != nil && root.Comment == "varargs" {
						d.variadic(root, info)
						continue
					} else if root != nil {
						d.nested(root, info)
						continue
					}
				}
				d.r.Open("unordered list stored at " + d.c.PosOf(x))
			}
		case *ssa.MapUpdate:
			if x.Value == v {
				d.r.Open("unordered list stored at " + d.c.PosOf(x))
			}
		case *ssa.IndexAddr:
			d.element(x, x.Index, x.X, info)
		case *ssa.Index:
			d.element(x, x.Index, x.X, info)
		case ssa.CallInstruction:
			d.passed(x, v, info)
		}
	}
}

// nested: the list is an element of another one.
func (d *detCheck) nested(v ssa.Value, info elems) {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Slice:
			d.nested(x, info)
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if ld, ok := r2.(*ssa.UnOp); ok {
					d.list(ld, info)
				}
			}
		case *ssa.UnOp:
			d.nested(x, info)
		case *ssa.Index:
			d.list(x, info)
		}
	}
}

// variadic: the list is an argument of a formatting function.
func (d *detCheck) variadic(arr *ssa.Alloc, info elems) {
	for _, ref := range *arr.Referrers() {
		sl, ok := ref.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, r2 := range *sl.Referrers() {
			if cl, ok := r2.(*ssa.Call); ok {
				n := calleeName(&cl.Call)
				if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") {
					continue
				}
				if strings.HasPrefix(n, "fmt.") {
					d.report("order", cl, "an unordered list of %s becomes text", info.from)
				}
			}
		}
	}
}

func (d *detCheck) returned(ret *ssa.Return, v ssa.Value, info elems) {
	fn := ret.Parent()
	callers := d.c.Callers(fn)
	if len(callers) == 0 {
		d.report("order", ret, "a list in the order of iteration over %s is returned", info.from)
		return
	}
	for j, x := range ret.Results {
		if x != v {
			continue
		}
		for _, ci := range callers {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			if len(ret.Results) == 1 {
				d.list(call, info)
				continue
			}
			for _, ref := range *call.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == j {
					d.list(ex, info)
				}
			}
		}
	}
}

// element: an unordered list is indexed.
func (d *detCheck) element(ins ssa.Instruction, index, list ssa.Value, info elems) {
	fn := ins.Parent()
	if _, ok := index.(*ssa.Const); ok {
		// the only one
		for b := ins.Block(); b != nil; b = b.Idom() {
			p := b.Idom()
			if p == nil {
				break
			}
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if eq, ok := iff.Cond.(*ssa.BinOp); ok && eq.Op == token.EQL && p.Succs[0].Dominates(ins.Block()) {
					for _, s := range []ssa.Value{eq.X, eq.Y} {
						if cl, ok := s.(*ssa.Call); ok {
							if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && cl.Call.Args[0] == list {
								return
							}
						}
					}
				}
			}
		}
		d.report("choice", ins, "one element of an unordered list of %s is picked", info.from)
		return
	}
	// the loop over the list
	var best *natLoop
	for _, l := range naturalLoops(fn) {
		if !l.body[ins.Block()] {
			continue
		}
		if in, ok := index.(ssa.Instruction); ok && l.body[in.Block()] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	if best == nil {
		return
	}
	u := &unord{fn: fn, what: "an unordered list of " + info.from, at: ins, head: best.head, keys: map[ssa.Value]bool{}, seeds: map[ssa.Value]int{}, over: list, pairs: info.pairs}
	if v, ok := ins.(ssa.Value); ok {
		if _, isAddr := ins.(*ssa.IndexAddr); isAddr {
			st := false
			for _, ref := range *v.Referrers() {
				if ld, ok := ref.(*ssa.UnOp); ok && ld.Op == token.MUL {
					u.seeds[ld] = dElem
					if info.keys {
						u.keys[ld] = true
					}
				}
				if s, ok := ref.(*ssa.Store); ok && s.Addr == v {
					st = true
				}
			}
			u.seeds[v] = dElem
			if st && len(u.seeds) == 1 {
				return
			}
		} else {
			u.seeds[v] = dElem
			if info.keys {
				u.keys[v] = true
			}
		}
	}
	// the position in the list
	for _, x := range best.head.Instrs {
		if ph, ok := x.(*ssa.Phi); ok && (ssa.Value(ph) == index || comesFrom(index, ph)) {
			u.seeds[ph] = dState
		}
	}
	k := fmt.Sprintf("%p%p", best.head, ins)
	if d.seenR[k] {
		return
	}
	d.seenR[k] = true
	if d.region(u) {
		d.judge(u)
	}
}

// passed: an unordered list is an argument.
func (d *detCheck) passed(ci ssa.CallInstruction, v ssa.Value, info elems) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if call, ok := ci.(*ssa.Call); ok {
				i := info
				i.keys = false
				i.fields = nil
				i.known = false
				if cc.Args[0] == v || len(cc.Args) > 1 && cc.Args[1] == v {
					if cc.Args[0] == v {
						i = info
					}
					d.list(call, i)
				}
			}
		}
		return
	}
	n := calleeName(cc)
	switch {
	case n == "strings.Join", strings.HasPrefix(n, "encoding/json."), strings.HasPrefix(n, "fmt.Sprint"), strings.HasPrefix(n, "fmt.Fprint"), strings.HasPrefix(n, "fmt.Append"):
		d.report("order", ci, "an unordered list of %s becomes text", info.from)
		return
	}
	for _, f := range d.c.Sync().callees(ci) {
		if !d.c.InModule(f) || len(f.Blocks) == 0 {
			continue
		}
		for _, p := range f.Params {
			if argOf(ci, f, p) == v {
				// kept in a variable of the callee
				d.list(p, info)
			}
		}
	}
}

// workers judges what workers do to variables they share.
func (d *detCheck) workers(fn *ssa.Function, sites []*ssa.Go) {
	type shared struct {
		site *ssa.Go
		e    eff
	}
	by := map[string][]shared{}
	loops := naturalLoops(fn)
	for _, g := range sites {
		inLoop := false
		var loop *natLoop
		for _, l := range loops {
			if l.body[g.Block()] && (loop == nil || len(l.body) > len(loop.body)) {
				inLoop, loop = true, l
			}
		}
		// a loop that waits before it comes around runs one at a time
		if inLoop {
			for b := range loop.body {
				for _, x := range b.Instrs {
					if isWait(x) && g.Block().Dominates(b) && (b != g.Block() || precedes(g, x)) {
						inLoop = false
					}
				}
			}
		}
		for _, f := range d.c.Sync().callees(g) {
			if !d.c.InModule(f) || len(f.Blocks) == 0 {
				continue
			}
			d.nWork++
			u := &unord{fn: f, what: "the workers", at: g, keys: map[ssa.Value]bool{}, seeds: map[ssa.Value]int{}, once: !inLoop}
			for _, p := range f.Params {
				a := argOf(g, f, p)
				if a == nil {
					continue
				}
				if loop != nil {
					if in, ok := a.(ssa.Instruction); ok && loop.body[in.Block()] || a.Parent() != fn && !isConstLike(a) {
						u.seeds[p] = dElem
					}
				}
			}
			for _, fv := range f.FreeVars {
				b := d.c.binding(fv)
				if in, ok := b.(ssa.Instruction); ok && loop != nil && in.Parent() == fn && loop.body[in.Block()] {
					u.seeds[fv] = dElem
				}
			}
			if u.once {
				// everything it computes is its own
				for _, p := range f.Params {
					u.seeds[p] = dElem
				}
				d.collect(u)
				for _, e := range u.effs {
					if isErrorType(e.val.Type()) {
						continue
					}
					k := fmt.Sprintf("%p%s", e.root, e.path)
					by[k] = append(by[k], shared{g, e})
				}
				d.r.OK("worker at " + d.c.PosOf(g))
				continue
			}
			d.judge(u)
		}
	}
	// single workers that write the same variable
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, a := range by[k] {
			for _, b := range by[k] {
				if a.site == b.site || !reachesInstr(a.site, b.site) || d.joined(a.site, b.site) {
					continue
				}
				if a.e.kind == "send" || b.e.kind == "send" || a.e.kind == "put" && b.e.kind == "put" {
					if a.e.kind == "put" && a.e.fr.fn != b.e.fr.fn && sameConst(a.e.key, b.e.key) && !sameConst(a.e.val, b.e.val) {
						d.report("choice", b.e.ins, "%s keeps what the last of several workers left there", d.varName(b.e))
					}
					continue
				}
				if a.e.kind == "list" && b.e.kind == "list" {
					d.listAt(a.e, elems{from: "what workers collect"})
					continue
				}
				if sameConst(a.e.val, b.e.val) || strings.Contains(a.e.path, "[]") {
					continue
				}
				if a.e.ins == b.e.ins {
					continue // the same code: judged where it is called
				}
				d.report("choice", b.e.ins, "%s keeps what the last of several workers left there", d.varName(b.e))
			}
		}
	}
}

func isConstLike(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	}
	return false
}

// joined: a wait lies between the two.
func (d *detCheck) joined(a, b ssa.Instruction) bool {
	for _, blk := range a.Parent().Blocks {
		for _, x := range blk.Instrs {
			if isWait(x) && reachesInstr(a, x) && reachesInstr(x, b) {
				return true
			}
		}
	}
	return false
}

// received judges what is done with values sent by several workers.
func (d *detCheck) received(e eff) {
	mk, ok := e.root.(*ssa.MakeChan)
	if !ok {
		if al, isAl := e.root.(*ssa.Alloc); isAl {
			if st := storesOf(al); len(st) == 1 {
				mk, ok = st[0].Val.(*ssa.MakeChan)
			}
		}
	}
	if !ok {
		return
	}
	fn := mk.Parent()
	t := d.c.Exprs()
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			rv, ok := ins.(*ssa.UnOp)
			if !ok || rv.Op != token.ARROW {
				continue
			}
			ch := rv.X
			if ld, ok := ch.(*ssa.UnOp); ok {
				if al, ok := ld.X.(*ssa.Alloc); ok {
					if st := storesOf(al); len(st) == 1 {
						ch = st[0].Val
					}
				}
			}
			if ch != ssa.Value(mk) && t.X(rv.X, nil).Key != t.X(mk, nil).Key {
				continue
			}
			var best *natLoop
			for _, l := range naturalLoops(fn) {
				if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
					best = l
				}
			}
			if best == nil {
				continue
			}
			u := &unord{fn: fn, what: "results of workers", at: ins, head: best.head, keys: map[ssa.Value]bool{}, seeds: map[ssa.Value]int{rv: dElem}, over: mk, pairs: e.fr.pairs(e.val)}
			if rv.CommaOk {
				for _, ref := range *rv.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok {
						u.seeds[ex] = dElem
					}
				}
			}
			k := fmt.Sprintf("%p%p", best.head, ins)
			if d.seenR[k] {
				continue
			}
			d.seenR[k] = true
			if d.region(u) {
				d.judge(u)
			}
		}
	}
}

// clock: results that depend on when or how often a request is made.
func (d *detCheck) clock() {
	n := 0
	for _, fn := range d.c.Fns {
		if !d.fns[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				nm := calleeName(&cl.Call)
				if nm != "time.Now" && !strings.HasPrefix(nm, "math/rand") && !strings.HasPrefix(nm, "crypto/rand.") && nm != "os.Getpid" && nm != "runtime.NumGoroutine" {
					continue
				}
				if strings.Contains(nm, "Seed") || strings.Contains(d.c.RelPkg(fn), "web") || d.c.isCreator(fn) {
					continue
				}
				n++
				if d.flowsOut(cl, map[ssa.Value]bool{}) {
					d.report("clock", cl, "a result depends on %s", nm)
				}
			}
		}
	}
	// counters
	for _, p := range d.c.Pkgs {
		var names []string
		for m := range p.Members {
			names = append(names, m)
		}
		sort.Strings(names)
		for _, m := range names {
			g, ok := p.Members[m].(*ssa.Global)
			if !ok {
				continue
			}
			basic, ok := deref(g.Type()).Underlying().(*types.Basic)
			if !ok || basic.Info()&(types.IsInteger|types.IsString|types.IsFloat) == 0 {
				continue
			}
			counts := false
			var loads []*ssa.UnOp
			for _, fn := range d.c.Fns {
				if !d.fns[fn] {
					continue
				}
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						switch x := ins.(type) {
						case *ssa.Store:
							if x.Addr == ssa.Value(g) {
								if bo, ok := x.Val.(*ssa.BinOp); ok {
									for _, o := range []ssa.Value{bo.X, bo.Y} {
										if ld, ok := o.(*ssa.UnOp); ok && ld.X == ssa.Value(g) {
											counts = true
										}
									}
								}
							}
						case *ssa.UnOp:
							if x.X == ssa.Value(g) {
								loads = append(loads, x)
							}
						case *ssa.Call:
							if strings.HasPrefix(calleeName(&x.Call), "sync/atomic.Add") && x.Call.Args[0] == ssa.Value(g) {
								n++
								if d.flowsOut(x, map[ssa.Value]bool{}) {
									d.report("clock", x, "a result depends on the counter %s", g.Name())
								}
							}
						}
					}
				}
			}
			if counts {
				for _, ld := range loads {
					n++
					if d.flowsOut(ld, map[ssa.Value]bool{}) {
						d.report("clock", ld, "a result depends on %s, which changes with every request", g.Name())
					}
				}
			}
		}
	}
	d.r.Count("uses of clocks and counters", n)
}

// flowsOut: the value is returned or stored.
func (d *detCheck) flowsOut(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Return, *ssa.MapUpdate, *ssa.Send:
			return true
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if g, ok := x.Addr.(*ssa.Global); ok {
				_ = g
				continue
			}
			if al := rootAlloc(x.Addr); al != nil {
				if _, whole := x.Addr.(*ssa.Alloc); whole || al.Comment == "varargs" {
					for _, r2 := range *al.Referrers() {
						switch y := r2.(type) {
						case *ssa.UnOp:
							if d.flowsOut(y, seen) {
								return true
							}
						case *ssa.Slice:
							if d.flowsOut(y, seen) {
								return true
							}
						}
					}
					continue
				}
			}
			return true
		case ssa.CallInstruction:
			n := calleeName(x.Common())
			if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.Fprint") {
				continue
			}
			if c, ok := x.(*ssa.Call); ok && d.flowsOut(c, seen) {
				return true
			}
		case ssa.Value:
			if d.flowsOut(x, seen) {
				return true
			}
		}
	}
	return false
}
