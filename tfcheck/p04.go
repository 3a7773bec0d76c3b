package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P04", p04) }

// le: a - b <= n holds at the instruction, here or at every caller.
func (f *Facts) shows(s *State, a, b *Expr, n int64) bool {
	if f.proves(s, a, b, n) {
		return true
	}
	// inside of a closure: what the enclosing function knows when it makes it
	if mc := f.c.closureSite(f.fn); mc != nil {
		pf := f.c.Facts(mc.Parent())
		if pf.shows(pf.At(mc), a, b, n) {
			return true
		}
	}
	at := Atom{K: "le", A: a, B: b, N: n}
	for _, m := range f.renorm(at) {
		if f.c.heldByCallers(f.fn, m, 0) {
			return true
		}
	}
	return false
}

func p04(c *Ctx, r *Report) {
	r.Rule("every index is at least 0 and below the length, and every slice bound at least 0, not above the next bound and not above the length, by difference constraints that must hold on every path to it (comparisons, made, sliced and appended lengths, search results, loop counters, facts at every caller)")
	r.Rule("every dynamic type conversion has the two-result form")
	r.Rule("no panic, process exit or integer division by an unproven divisor is reachable from an HTTP handler or an exported operation")
	r.Rule("a reported value is formatted as a number only where it was found to be finite: the formatter's arithmetic panics on infinities")
	numbers(c, r, "finite")
	r.Assume("rows of a table made in a function all have the length stored into them")
	roots := c.servingRoots()
	r.Need(len(roots) >= 10, "only %d entry points found", len(roots))
	var serve []*ssa.Function
	for _, f := range roots {
		if c.RelPkg(f) != "pkg/attr" { // a helper library: what it offers counts where it is used
			serve = append(serve, f)
		}
	}
	via, _ := reach(c, serve, nil)
	for _, fn := range c.Fns {
		r.Fn(c, fn)
		f := c.Facts(fn)
		name := c.FnName(fn)
		for _, b := range fn.Blocks {
			if f.in[b] == nil {
				continue
			}
			s := f.in[b].clone()
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					p04index(c, r, f, s, in, x.X, x.Index)
				case *ssa.Index:
					p04index(c, r, f, s, in, x.X, x.Index)
				case *ssa.Lookup:
					if isString(x.X.Type()) {
						p04index(c, r, f, s, in, x.X, x.Index)
					}
				case *ssa.Slice:
					p04slice(c, r, f, s, x)
				case *ssa.TypeAssert:
					r.Count("conversions", 1)
					if x.CommaOk {
						r.OK("conversion in " + name)
					} else if p04sure(c, x) {
						r.OK("conversion of a value just wrapped in " + name)
					} else {
						r.Bad("conversion", "to "+x.AssertedType.String()+" in "+name, c.PosOf(in), "unchecked conversion to %s panics for any other type", x.AssertedType)
					}
				case *ssa.Panic:
					if _, ok := via[fn]; ok {
						r.Bad("panic", "in "+name, c.PosOf(in), "explicit panic is reachable: %s", chain(c, via, fn))
					} else {
						r.OK("panic outside of serving in " + name)
					}
				case *ssa.BinOp:
					if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
						y := f.t.X(x.Y, nil)
						if f.shows(s, nil, y, -1) || f.shows(s, y, nil, -1) || s.m[Atom{K: "ne", A: y, B: f.t.Int(0)}.key()].A != nil {
							r.OK("division in " + name)
						} else {
							r.Bad("division", "in "+name, c.PosOf(in), "the divisor may be zero")
						}
					}
				case *ssa.MakeSlice:
					n := f.t.X(x.Len, nil)
					if f.shows(s, nil, n, 0) {
						r.OK("size in " + name)
					} else {
						r.Open("size of a made slice in " + name)
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && !c.InModule(g) {
						n := stdFuncName(g)
						if n == "os.Exit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") || n == "runtime.Goexit" || n == "regexp.MustCompile" && len(x.Common().Args) == 1 && !isConst(x.Common().Args[0]) || strings.HasSuffix(n, "template.Must") {
							if _, ok := via[fn]; ok {
								r.Bad("panic", n+" in "+name, c.PosOf(in), "%s is reachable: %s", n, chain(c, via, fn))
							}
						}
					}
				}
				f.step(s, in)
			}
		}
	}
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// p04sure: the converted interface was made from a value of that very type.
func p04sure(c *Ctx, x *ssa.TypeAssert) bool {
	if mi, ok := fwd(x.X).(*ssa.MakeInterface); ok {
		return types.Identical(mi.X.Type(), x.AssertedType)
	}
	return false
}

// lenOf is the length of what is indexed.
func (f *Facts) lenOf(v ssa.Value) *Expr {
	t := v.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return f.t.Int(a.Len())
		}
	}
	if a, ok := t.(*types.Array); ok {
		return f.t.Int(a.Len())
	}
	return f.t.Len(f.t.X(v, nil))
}

func p04index(c *Ctx, r *Report, f *Facts, s *State, in ssa.Instruction, x, idx ssa.Value) {
	name := c.FnName(f.fn)
	if _, ok := x.Type().Underlying().(*types.Map); ok {
		return
	}
	// composite literals and variadic argument lists index their own array
	if al, ok := x.(*ssa.Alloc); ok {
		if k, ok := idx.(*ssa.Const); ok {
			if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				if n, ok := constant.Int64Val(k.Value); ok && n < arr.Len() {
					return
				}
			}
		}
	}
	r.Count("index_operations", 1)
	i := f.t.X(idx, nil)
	if c.lessParam(idx) {
		r.OK("index by a sort comparison in " + name)
		return
	}
	l := f.lenOf(x)
	lo := f.shows(s, nil, i, 0)
	hi := f.shows(s, i, l, -1)
	if !lo {
		lo = f.nonNegative(idx)
	}
	if lo && !hi {
		if el := f.elemLen(x); el != nil {
			hi = f.shows(s, i, el, -1)
		}
	}
	if !hi {
		hi = f.modulo(idx, l)
	}
	if !lo || !hi {
		if n := f.tally(idx, in.Block()); n != nil && f.shows(s, n, l, 0) {
			lo, hi = true, true
		}
	}
	if lo && !hi {
		hi = c.below(in, x, idx)
	}
	if lo && !hi {
		hi = f.byCases(in, func(s *State) bool { return f.proves(s, i, l, -1) })
	}
	if lo && hi {
		r.OK("index in " + name)
		return
	}
	if recorded(idx) {
		r.Open("index kept in a table in " + name)
		return
	}
	what := "may be negative"
	if lo {
		what = "may not be below the length"
	}
	r.Bad("index", describeIndex(c, x, idx)+" in "+name, c.PosOf(in), "index %s of %s", what, describe(c, x))
}

// nonNegative: every value a variable takes is at least zero where it is taken.
func (f *Facts) nonNegative(v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for i, e := range ph.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(ph) {
			if k, ok := b.Y.(*ssa.Const); ok && k.Int64() >= 0 {
				continue
			}
		}
		if e == ssa.Value(ph) {
			continue
		}
		p := ph.Block().Preds[i]
		x := f.t.X(e, nil)
		if !f.shows(f.EdgeState(p, ph.Block()), nil, x, 0) && !f.shows(f.At(p.Instrs[len(p.Instrs)-1]), nil, x, 0) {
			return false
		}
	}
	return true
}

// recorded: the index was put into a map or list earlier on; what it was then
// worth is not followed.
func recorded(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Lookup:
		return true
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Lookup)
		_, next := x.Tuple.(*ssa.Next)
		return ok || next
	case *ssa.UnOp:
		if x.Op == token.MUL {
			_, ok := x.X.(*ssa.IndexAddr)
			return ok
		}
	case *ssa.BinOp:
		if _, ok := x.Y.(*ssa.Const); ok {
			return recorded(x.X)
		}
	}
	return false
}

func describeIndex(c *Ctx, x, idx ssa.Value) string {
	if k, ok := idx.(*ssa.Const); ok {
		return describe(c, x) + "[" + k.Value.ExactString() + "]"
	}
	return describe(c, x) + "[" + describe(c, idx) + "]"
}

// lessParam: an index handed in by a sorting function of the standard library.
func (c *Ctx) lessParam(idx ssa.Value) bool {
	p, ok := idx.(*ssa.Parameter)
	if !ok {
		return false
	}
	fn := p.Parent()
	if fn.Signature.Recv() != nil && (fn.Name() == "Less" || fn.Name() == "Swap") && fn.Signature.Params().Len() == 2 {
		return true // sort.Interface
	}
	use := func(call ssa.CallInstruction) bool {
		g := call.Common().StaticCallee()
		if g == nil {
			return false
		}
		n := stdFuncName(g)
		return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.")
	}
	// the function value goes straight to a sorting function
	var vals []ssa.Value
	if mc := c.closureSite(fn); mc != nil {
		vals = append(vals, mc)
	}
	vals = append(vals, fn)
	for _, v := range vals {
		refs := v.Referrers()
		if refs == nil {
			for _, g := range c.Fns {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(ssa.CallInstruction); ok && use(call) {
							for _, a := range call.Common().Args {
								if a == v {
									return true
								}
							}
						}
					}
				}
			}
			continue
		}
		for _, u := range *refs {
			if call, ok := u.(ssa.CallInstruction); ok && use(call) {
				return true
			}
			if st, ok := u.(*ssa.Store); ok {
				_ = st
			}
		}
	}
	return false
}

// elemLen: the length every element stored into a local table has.
func (f *Facts) elemLen(x ssa.Value) *Expr {
	u, ok := x.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	tab := ia.X
	var want *Expr
	te := f.t.X(tab, nil)
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || f.t.X(a.X, nil) != te {
				continue
			}
			l := f.t.Len(f.t.X(st.Val, nil))
			// follow to what it was made with
			for _, ax := range f.t.axs[l.Key] {
				if ax.A == l && ax.B != nil && ax.N == 0 && ax.B.Op != "len" || ax.A == l && ax.B != nil && ax.N == 0 {
					l = ax.B
					break
				}
			}
			if want != nil && want != l {
				return nil
			}
			want = l
		}
	}
	return want
}

// tally: a counter that starts at zero and grows by at most one every time a
// loop comes around; the result is how often it can. Inside of the loop the
// counter is smaller.
func (f *Facts) tally(idx ssa.Value, at *ssa.BasicBlock) *Expr {
	ph, ok := idx.(*ssa.Phi)
	if !ok {
		return nil
	}
	for _, l := range naturalLoops(f.fn) {
		if l.head != ph.Block() || len(l.head.Succs) != 2 || !l.body[l.head.Succs[0]] || l.body[l.head.Succs[1]] {
			continue
		}
		if l.body[at] && !l.head.Succs[0].Dominates(at) {
			return nil
		}
		seen := map[ssa.Value]bool{}
		var step func(v ssa.Value) bool
		step = func(v ssa.Value) bool {
			if v == ssa.Value(ph) {
				return true
			}
			switch x := v.(type) {
			case *ssa.Phi:
				if !l.body[x.Block()] || x.Block() == l.head {
					return false
				}
				if seen[x] {
					return true
				}
				seen[x] = true
				for _, l2 := range naturalLoops(f.fn) {
					if l2.head == x.Block() {
						return false
					}
				}
				for _, e := range x.Edges {
					if !step(e) {
						return false
					}
				}
				return true
			case *ssa.BinOp:
				k, ok := x.Y.(*ssa.Const)
				return ok && x.Op == token.ADD && x.X == ssa.Value(ph) && k.Int64() == 1
			}
			return false
		}
		for i, e := range ph.Edges {
			if l.body[l.head.Preds[i]] {
				if !step(e) {
					return nil
				}
			} else if k, ok := e.(*ssa.Const); !ok || k.Int64() != 0 {
				return nil
			}
		}
		iff := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
		switch x := iff.Cond.(type) {
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok && !nx.IsString {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					return f.lenOf(rg.X)
				}
			}
		case *ssa.BinOp:
			if x.Op != token.LSS {
				return nil
			}
			// counts up by one itself
			switch j := x.X.(type) {
			case *ssa.BinOp:
				if q, ok := j.X.(*ssa.Phi); ok && q.Block() == l.head && j.Op == token.ADD && len(q.Edges) >= 2 {
					for i, e := range q.Edges {
						if k, ok := e.(*ssa.Const); l.body[l.head.Preds[i]] && e != ssa.Value(j) || !l.body[l.head.Preds[i]] && (!ok || k.Int64() != -1) {
							return nil
						}
					}
					return f.t.X(x.Y, nil)
				}
			case *ssa.Phi:
				if j.Block() != l.head {
					return nil
				}
				for i, e := range j.Edges {
					if l.body[l.head.Preds[i]] {
						b, ok := e.(*ssa.BinOp)
						if !ok || b.Op != token.ADD || b.X != ssa.Value(j) {
							return nil
						}
						if k, ok := b.Y.(*ssa.Const); !ok || k.Int64() < 1 {
							return nil
						}
					} else if k, ok := e.(*ssa.Const); !ok || k.Int64() < 0 {
						return nil
					}
				}
				return f.t.X(x.Y, nil)
			}
		}
	}
	return nil
}

// modulo: x % len(s) as an index.
func (f *Facts) modulo(idx ssa.Value, l *Expr) bool {
	b, ok := idx.(*ssa.BinOp)
	return ok && b.Op == token.REM && f.t.X(b.Y, nil) == l
}

func p04slice(c *Ctx, r *Report, f *Facts, s *State, x *ssa.Slice) {
	name := c.FnName(f.fn)
	if x.Low == nil && x.High == nil {
		return
	}
	r.Count("slice_operations", 1)
	l := f.lenOf(x.X)
	lo := f.t.Int(0)
	if x.Low != nil {
		lo = f.t.X(x.Low, nil)
	}
	hi := l
	if x.High != nil {
		hi = f.t.X(x.High, nil)
	}
	if n := f.tally(x.High, x.Block()); n != nil && x.Low == nil && f.shows(s, n, l, 0) {
		r.OK("slice in " + name)
		return
	}
	var bad []string
	if x.Low != nil && !f.shows(s, nil, lo, 0) {
		bad = append(bad, "the lower bound may be negative")
	}
	if !f.shows(s, lo, hi, 0) {
		bad = append(bad, "the lower bound may exceed the upper")
	}
	if x.High != nil && !f.shows(s, hi, l, 0) {
		// within the capacity: only reslicing a slice to zero length is always fine
		if b, n := f.t.Lin(hi); !(b == nil && n == 0) {
			bad = append(bad, "the upper bound may exceed the length")
		}
	}
	if len(bad) == 0 {
		r.OK("slice in " + name)
		return
	}
	if f.unknownShape(x) {
		r.Open("slice of " + describe(c, x.X) + " in " + name + ": " + strings.Join(bad, ", "))
		return
	}
	r.Bad("slice", describe(c, x.X)+" in "+name, c.PosOf(x), "%s", strings.Join(bad, ", "))
}

// unknownShape: slices of variables that several closures change in turn;
// what one of them leaves behind is not tracked.
func (f *Facts) unknownShape(x *ssa.Slice) bool {
	u, ok := x.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	fv, ok := u.X.(*ssa.FreeVar)
	if !ok {
		return false
	}
	al, ok := f.c.rootBinding(fv).(*ssa.Alloc)
	if !ok {
		return false
	}
	stores, _ := f.c.storesTo(al)
	fns := map[*ssa.Function]bool{}
	for _, st := range stores {
		fns[st.Parent()] = true
	}
	return len(fns) > 1
}
