package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// numbers checks that a text that is written out as a number was found to be finite (want "finite") and of limited
// magnitude (want "magnitude"): the formatter subtracts, which panics on infinities, and writes every digit.
func numbers(c *Ctx, r *Report, want string) {
	n := 0
	for _, fn := range c.Fns {
		if !c.InModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if calleeName(ci.Common()) != "github.com/joshuanario/digits.New" || len(ci.Common().Args) < 2 {
					continue
				}
				n++
				nc := &figCheck{c: c, want: want, busy: map[ssa.Value]bool{}}
				what := "number formatted in " + c.FnName(fn)
				if nc.safe(ci.Common().Args[1], b, 0) {
					r.OK(what + " is " + map[string]string{"finite": "finite", "magnitude": "of limited magnitude"}[want])
					continue
				}
				if want == "finite" {
					r.Bad("infinite-number", what, c.PosOf(ins), "a reported value that reads as an infinity reaches the formatter, whose arithmetic panics on it (nothing tests it on the way from %s)", nc.from)
				} else {
					r.Bad("unlimited-digits", what, c.PosOf(ins), "a reported value with a large exponent is written out digit by digit (nothing limits its magnitude on the way from %s)", nc.from)
				}
			}
		}
	}
	r.Count("numbers formatted", n)
}

type figCheck struct {
	c    *Ctx
	want string
	from string
	busy map[ssa.Value]bool
}

func (n *figCheck) safe(v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	v = stripConv(v)
	if depth > 12 || n.busy[v] {
		return true
	}
	n.busy[v] = true
	defer delete(n.busy, v)
	if _, ok := v.(*ssa.Const); ok || n.tested(v, b) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		fn := x.Parent()
		cs := n.c.Callers(fn)
		if len(cs) == 0 {
			n.from = n.c.FnName(fn)
			return false
		}
		for _, ci := range cs {
			if a := argOf(ci, fn, x); a != nil && !n.safe(a, ci.Block(), depth+1) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		if y := n.c.rootBinding(x); y != x {
			if mk := n.c.closureSite(x.Parent()); mk != nil {
				return n.safe(y, mk.Block(), depth+1)
			}
		}
		return true
	case *ssa.Alloc:
		st, _ := n.c.storesTo(x)
		for _, s := range st {
			if !n.safe(s.Val, s.Block(), depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if y := fwd(v); y != v {
			return n.safe(y, b, depth+1)
		}
		switch a := x.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			return n.safe(a, b, depth+1)
		case *ssa.FieldAddr:
			n.from = n.c.PosOf(x)
			return false
		}
		return true
	case *ssa.Field:
		n.from = n.c.FnName(x.Parent())
		return false
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !n.safe(e, x.Block().Preds[i], depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return n.call(call, x.Index, b, depth)
		}
	case *ssa.Call:
		return n.call(x, 0, b, depth)
	case *ssa.BinOp:
		return n.safe(x.X, b, depth+1) && n.safe(x.Y, b, depth+1)
	}
	return true
}

func (n *figCheck) call(call *ssa.Call, i int, b *ssa.BasicBlock, depth int) bool {
	nm := calleeName(&call.Call)
	switch {
	case strings.HasPrefix(nm, "(*math/big.Float).") || strings.HasPrefix(nm, "strings.") || strings.HasPrefix(nm, "math/big.ParseFloat"):
		for k, a := range call.Call.Args {
			if nm == "math/big.ParseFloat" && k > 0 {
				break
			}
			if !n.safe(a, b, depth+1) {
				return false
			}
		}
		return true
	}
	for _, g := range n.c.ModCallees(call) {
		for _, gb := range g.Blocks {
			if rt, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
				if rs := results(rt); i < len(rs) && !n.safe(rs[i], gb, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

// tested: a condition that holds at the block speaks about the number the text denotes.
func (n *figCheck) tested(v ssa.Value, b *ssa.BasicBlock) bool {
	above, below := false, false
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range id.Succs {
			if !(s == b || s.Dominates(b)) || len(s.Preds) != 1 {
				continue
			}
			a, lo := n.speaks(iff.Cond, i == 0, v)
			above, below = above || a, below || lo
		}
	}
	if n.want == "finite" {
		return above
	}
	return above && below
}

// speaks: the condition, being so, excludes infinities, or limits the exponent above and below.
func (n *figCheck) speaks(cond ssa.Value, truth bool, v ssa.Value) (above, below bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return n.speaks(x.X, !truth, v)
		}
		if x.Op == token.MUL {
			if y := fwd(cond); y != cond {
				return n.speaks(y, truth, v)
			}
		}
	case *ssa.Call:
		nm := calleeName(&x.Call)
		if n.want == "finite" && (nm == "(*math/big.Float).IsInf" || nm == "math.IsInf") {
			ok := !truth && n.about(x.Call.Args[0], v, 0)
			return ok, ok
		}
		for _, g := range n.c.ModCallees(x) {
			for _, a := range x.Call.Args {
				if n.about(a, v, 0) && n.mentions(g, 0) {
					return true, true
				}
			}
		}
	case *ssa.BinOp:
		op := x.Op
		if !truth {
			op = negOp(op)
		}
		if op == token.EQL || op == token.NEQ {
			// an error of a function of the module that tests the text
			for _, y := range []ssa.Value{x.X, x.Y} {
				if e, ok := fwd(y).(*ssa.Extract); ok {
					if call, ok := e.Tuple.(*ssa.Call); ok {
						a, lo := n.speaks(call, truth, v)
						return a, lo
					}
				}
				if call, ok := fwd(y).(*ssa.Call); ok && n.c.ModCallees(call) != nil {
					return n.speaks(call, truth, v)
				}
			}
			return false, false
		}
		if n.want != "magnitude" {
			return false, false
		}
		l, r := n.exponent(x.X, v, 0), n.exponent(x.Y, v, 0)
		if r != 0 {
			l = r
			op = swapOp(op)
		}
		if l == 0 {
			return false, false
		}
		up := op == token.LSS || op == token.LEQ
		down := op == token.GTR || op == token.GEQ
		if l == 2 { // magnitude
			return up, up
		}
		if l == -1 {
			up, down = down, up
		}
		return up, down
	}
	return false, false
}

// mentions: the function looks at what makes a number unfit.
func (n *figCheck) mentions(fn *ssa.Function, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			switch calleeName(ci.Common()) {
			case "(*math/big.Float).IsInf", "math.IsInf":
				if n.want == "finite" {
					return true
				}
			case "(*math/big.Float).MantExp":
				if n.want == "magnitude" {
					return true
				}
			}
			for _, g := range n.c.ModCallees(ci) {
				if n.mentions(g, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// exponent: 1 the exponent of the number v denotes, -1 its negation, 2 its magnitude, 0 something else.
func (n *figCheck) exponent(x, v ssa.Value, depth int) int {
	if depth > 6 {
		return 0
	}
	x = fwd(stripConv(x))
	switch y := x.(type) {
	case *ssa.Call:
		nm := calleeName(&y.Call)
		if nm == "(*math/big.Float).MantExp" && n.about(y.Call.Args[0], v, 0) {
			return 1
		}
		if nm == "math.Abs" && n.exponent(y.Call.Args[0], v, depth+1) != 0 {
			return 2
		}
		for _, a := range y.Call.Args {
			if len(n.c.ModCallees(y)) > 0 && n.exponent(a, v, depth+1) != 0 {
				return 2
			}
		}
	case *ssa.UnOp:
		if y.Op == token.SUB {
			return -n.exponent(y.X, v, depth+1)
		}
	case *ssa.BinOp:
		if isConst(y.Y) && (y.Op == token.ADD || y.Op == token.SUB || y.Op == token.QUO) {
			return n.exponent(y.X, v, depth+1)
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if n.exponent(e, v, depth+1) != 0 {
				return 2
			}
		}
	}
	return 0
}

// about: x is the text v, or the number parsed from it.
func (n *figCheck) about(x, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	x, v = fwd(stripConv(x)), fwd(stripConv(v))
	if x == v {
		return true
	}
	if isString(x.Type()) && n.c.Exprs().X(x, nil).Key == n.c.Exprs().X(v, nil).Key {
		return true
	}
	switch y := x.(type) {
	case *ssa.Extract:
		if call, ok := y.Tuple.(*ssa.Call); ok && y.Index == 0 {
			switch calleeName(&call.Call) {
			case "math/big.ParseFloat", "strconv.ParseFloat":
				return n.about(call.Call.Args[0], v, depth+1)
			}
			for _, a := range call.Call.Args {
				if n.about(a, v, depth+1) {
					return true
				}
			}
		}
		if call, ok := y.Tuple.(*ssa.Call); ok && calleeName(&call.Call) == "(*math/big.Float).SetString" {
			return n.about(call.Call.Args[1], v, depth+1)
		}
	case *ssa.Call:
		if nm := calleeName(&y.Call); strings.HasPrefix(nm, "strings.Trim") || strings.HasPrefix(nm, "(*math/big.Float).") {
			for _, a := range y.Call.Args {
				if n.about(a, v, depth+1) {
					return true
				}
			}
		}
		for range n.c.ModCallees(y) {
			for _, a := range y.Call.Args {
				if n.about(a, v, depth+1) {
					return true
				}
			}
		}
	}
	if call, ok := v.(*ssa.Call); ok && strings.HasPrefix(calleeName(&call.Call), "strings.Trim") {
		return n.about(x, call.Call.Args[0], depth+1)
	}
	return false
}
