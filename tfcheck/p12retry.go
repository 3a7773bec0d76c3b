package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fact12 says that a variable is, or is not, a constant.
type fact12 struct {
	v  ssa.Value
	k  string
	eq bool
}

// saying is what a condition says about a variable that nothing in the loop changes.
func (t *term12) saying(cond ssa.Value) (fact12, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return fact12{}, false
	}
	x, y := b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok {
		return fact12{}, false
	}
	op := b.Op
	// len(s) == 0 says s == ""
	if call, ok := x.(*ssa.Call); ok && calleeName(call.Common()) == "len" && k.Value != nil && k.Value.ExactString() == "0" {
		if bt, ok := call.Call.Args[0].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return fact12{t.variable12(call.Call.Args[0]), `""`, op == token.EQL}, true
		}
	}
	ks := "nil"
	if k.Value != nil {
		ks = k.Value.ExactString()
	}
	return fact12{t.variable12(x), ks, op == token.EQL}, true
}

// variable12 is the variable a value is read from, seen from the function that declares it.
func (t *term12) variable12(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.FreeVar:
			b := t.c.binding(x)
			if b == nil {
				return v
			}
			v = b
		case *ssa.Alloc:
			st, esc := t.c.storesTo(x)
			if len(st) != 1 || esc {
				return v
			}
			if _, ok := st[0].Val.(*ssa.Parameter); !ok {
				return v
			}
			v = st[0].Val
		default:
			return v
		}
	}
	return v
}

var sameAgain = map[string]bool{
	"github.com/google/uuid.NewMD5": true, "github.com/google/uuid.NewSHA1": true, "github.com/google/uuid.NewHash": true,
	"github.com/google/uuid.Parse": true, "github.com/google/uuid.MustParse": true,
	"crypto/md5.Sum": true, "crypto/sha1.Sum": true, "crypto/sha256.Sum256": true,
}

// repeats: the value is the same in every round: it is made from constants and from what the loop does not change.
func (t *term12) repeats(l *natLoop, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.Function, *ssa.Builtin:
		return true
	case *ssa.FreeVar:
		b, ok := t.c.binding(x).(*ssa.Alloc)
		if !ok {
			return false
		}
		st, esc := t.c.storesTo(b)
		if len(st) != 1 || esc {
			return false
		}
		_, isPar := st[0].Val.(*ssa.Parameter)
		_, isConst := st[0].Val.(*ssa.Const)
		return isPar || isConst
	case *ssa.Alloc:
		st, esc := t.c.storesTo(x)
		if esc {
			return false
		}
		for _, s := range st {
			if !t.repeats(l, s.Val, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		cc := x.Common()
		if f := cc.StaticCallee(); f != nil && !t.c.InModule(f) {
			n := calleeName(cc)
			if !sameAgain[n] && !strings.HasSuffix(n, "uuid.NewMD5") && !t.pureCall(cc, 0) {
				return false
			}
		} else if !t.pureCall(cc, 0) {
			return false
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return false
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return !t.globalsSet()[g]
		}
	case *ssa.Phi, *ssa.Next, *ssa.Lookup, *ssa.Select:
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && !t.repeats(l, *op, seen) {
			return false
		}
	}
	return true
}

// retry: a loop that tries another name until one is free gets the same name again on some way around it.
func (t *term12) retry(l *natLoop, ex []exit12) (string, ssa.Instruction) {
	var conds []ssa.Value
	for _, e := range ex {
		conds = append(conds, e.iff.Cond)
	}
	rel := t.slice12(l, conds...)
	for again := true; again; {
		again = false
		for v := range rel {
			al, ok := v.(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, s := range partStores(al) {
				if rel[s.Val] || !l.body[s.Block()] {
					continue
				}
				for x := range t.slice12(l, s.Val) {
					rel[x] = true
				}
				rel[s.Val] = true
				again = true
			}
			if again {
				break
			}
		}
	}
	var makers []*ssa.Call
	for v := range rel {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.head {
				continue
			}
			return "", nil
		case *ssa.Call:
			if !l.body[x.Block()] {
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil {
				if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
					g, _ = mc.Fn.(*ssa.Function)
				}
			}
			if g == nil {
				return "", nil
			}
			if t.c.InModule(g) && !t.pureCall(x.Common(), 0) {
				makers = append(makers, x)
			}
		}
	}
	if len(makers) != 1 {
		return "", nil
	}
	x := makers[0]
	g := x.Call.StaticCallee()
	if g == nil {
		g = x.Call.Value.(*ssa.MakeClosure).Fn.(*ssa.Function)
	}
	if len(g.Params) > 0 {
		return "", nil
	}
	// every phi of the head that the exits depend on comes from the one call
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		same := true
		for _, v := range results(ret) {
			if !t.repeats(l, v, map[ssa.Value]bool{}) {
				same = false
			}
		}
		if !same {
			continue
		}
		// under what that return is reached
		var known []fact12
		for d := b; d != nil; d = d.Idom() {
			p := d.Idom()
			if p == nil || len(d.Preds) != 1 || d.Preds[0] != p {
				continue
			}
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if f, ok := t.saying(iff.Cond); ok {
					if p.Succs[1] == d {
						f.eq = !f.eq
					}
					known = append(known, f)
				}
			}
		}
		if t.around(l, known) {
			return "the name that is tried in the next round is made from the same input, so it is not free either", x
		}
	}
	return "", nil
}

// around: with the given facts there is a way around the loop.
func (t *term12) around(l *natLoop, known []fact12) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, first bool) bool
	walk = func(b *ssa.BasicBlock, first bool) bool {
		if !first && b == l.head {
			return true
		}
		if !l.body[b] || seen[b] {
			return false
		}
		seen[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if f, ok := t.saying(iff.Cond); ok {
				for _, k := range known {
					if k.v == f.v && k.k == f.k {
						if k.eq == f.eq {
							return walk(b.Succs[0], false)
						}
						return walk(b.Succs[1], false)
					}
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s, false) {
				return true
			}
		}
		return false
	}
	return walk(l.head, true)
}

// partStores lists the stores to a variable and its parts in its own function.
func partStores(v ssa.Value) []*ssa.Store {
	var ret []*ssa.Store
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == v {
				ret = append(ret, x)
			}
		case *ssa.FieldAddr:
			ret = append(ret, partStores(x)...)
		case *ssa.IndexAddr:
			ret = append(ret, partStores(x)...)
		}
	}
	return ret
}
