package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P12", p12) }

func p12(c *Ctx, r *Report) {
	r.Rule("Every loop makes progress: on each path around it a value that its exits depend on changes, a token is consumed or an effect happens; a counter moves towards its bound.")
	r.Rule("A loop that reads tokens, records or lines leaves on every failure of the read: with the read assumed to have failed (at the end of the input, and for any other reason) no path leads around the loop to the same read again.")
	r.Rule("A loop that tries another name until one is free does not go around where the name is made from unchanging input.")
	r.Rule("A loop that follows references by looking up what it found last, or that works off a list it extends by what it read, consults a record of what was already seen and enters it there.")
	r.Rule("Every cycle of calls has a call that goes down a tree, counts down or is made only for what a record of visited names did not yet contain, and the name is entered before the call; the key entered is the key looked up.")
	r.Rule("A loop count, an allocated length or a number of digits written out that a filing spells as a number is limited by a constant first.")
	r.Assume("what is reachable from the root of a tree of arcs is a finite tree (arcs.NewRArc detaches cycles), as are parsed HTML documents and decoded XML and JSON values; directory listings are finite")
	t := &term12{c: c, r: r}
	loops, reads := 0, 0
	for _, fn := range c.Fns {
		if !c.InModule(fn) || len(fn.Blocks) == 0 {
			continue
		}
		r.Fn(c, fn)
		ls := naturalLoops(fn)
		for _, l := range ls {
			loops++
			reads += t.loop(fn, l)
		}
		t.sizes(fn)
	}
	r.Count("loops", loops)
	r.Count("reads in loops", reads)
	t.recursion()
	numbers(c, r, "magnitude")
}

type term12 struct {
	setGlobals map[*ssa.Global]bool
	c          *Ctx
	r          *Report
}

// an exit is a branch of the loop with one way out.
type exit12 struct {
	iff  *ssa.If
	stay bool // the value of the condition that stays
}

func exits12(l *natLoop) []exit12 {
	var r []exit12
	for b := range l.body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		in0, in1 := l.body[b.Succs[0]], l.body[b.Succs[1]]
		if in0 != in1 {
			r = append(r, exit12{iff, in0})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].iff.Block().Index < r[j].iff.Block().Index })
	return r
}

// ranged: the loop goes through a finite collection.
func ranged(l *natLoop) bool {
	for _, ins := range l.head.Instrs {
		switch x := ins.(type) {
		case *ssa.Next:
			return true
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return true
			}
		case *ssa.Phi:
			if x.Comment == "rangeindex" {
				return true
			}
		}
	}
	return l.head.Comment == "rangeindex.loop" || l.head.Comment == "rangeiter.loop" || l.head.Comment == "rangechan.loop" || strings.HasPrefix(l.head.Comment, "rangeint")
}

// slice12 is everything within the loop a value is computed from.
func (t *term12) slice12(l *natLoop, vs ...ssa.Value) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || m[v] {
			return
		}
		m[v] = true
		ins, ok := v.(ssa.Instruction)
		if !ok || !l.body[ins.Block()] {
			return
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				visit(*op)
			}
		}
		// a value merged by branches depends on what the branches test
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() != l.head {
			for _, p := range ph.Block().Preds {
				for d := p; d != nil && l.body[d]; d = d.Idom() {
					if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
						visit(iff.Cond)
					}
					if d == ph.Block().Idom() {
						break
					}
				}
			}
		}
	}
	for _, v := range vs {
		visit(v)
	}
	return m
}

func (t *term12) loop(fn *ssa.Function, l *natLoop) int {
	c, r := t.c, t.r
	what := "loop in " + c.FnName(fn)
	pos := t.loopPos(l)
	reads := 0
	if ranged(l) && !t.reassigned(l) {
		r.OK(what + " goes through a collection")
		return 0
	}
	ex := exits12(l)
	if len(ex) == 0 {
		for b := range l.body {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Select, *ssa.Send:
					return 0
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						return 0
					}
				case ssa.CallInstruction:
					switch n := calleeName(x.Common()); {
					case n == "time.Sleep", strings.HasSuffix(n, ".Accept"), strings.HasPrefix(n, "os.Exit"), n == "panic", n == "runtime.Goexit":
						return 0
					}
				}
			}
		}
		r.Bad("endless-loop", what, pos, "the loop has no way out")
		return 0
	}
	counted := t.counted(l, ex)
	for _, rd := range t.reads(l) {
		reads++
		if counted == "up" {
			r.OK(what + " is counted")
			continue
		}
		if why := t.failing(fn, l, rd); why != "" {
			r.Bad("read-error-ignored", what+" reading "+readName(rd), c.PosOf(rd), "when the read fails %s the loop goes around and reads again, for ever", why)
		} else {
			r.OK(what + " ends when reading fails")
		}
	}
	if counted == "away" {
		r.Bad("counts-away", what, pos, "the counter moves away from the bound that ends the loop")
		return reads
	}
	if p := t.stuck(l, ex); p != nil {
		at := pos
		if ps := c.PosOf(p.Instrs[len(p.Instrs)-1]); ps != "" {
			at = ps
		}
		r.Bad("no-progress", what, at, "there is a way around the loop on which nothing changes that its exits depend on")
		return reads
	}
	if counted == "up" {
		t.bound(fn, l, ex, what)
		r.OK(what + " counts to a bound")
		return reads
	}
	if reads > 0 {
		return reads
	}
	if why, at := t.chase(l, ex); why != "" {
		r.Bad("cyclic-reference", what, at, "%s", why)
		return reads
	}
	if why, at := t.retry(l, ex); why != "" {
		r.Bad("no-progress", what, c.PosOf(at), "%s", why)
		return reads
	}
	if why := t.clock(l, ex); why != "" {
		r.Bad("counts-away", what, pos, "%s", why)
		return reads
	}
	if t.advances(l, ex) {
		r.OK(what + " advances")
		return reads
	}
	r.Open(what + " at " + pos)
	return reads
}

func (t *term12) loopPos(l *natLoop) string {
	for _, e := range exits12(l) {
		if p := t.c.PosOf(e.iff); p != "" {
			return p
		}
	}
	for _, ins := range l.head.Instrs {
		if p := t.c.PosOf(ins); p != "" {
			return p
		}
	}
	for b := range l.body {
		for _, ins := range b.Instrs {
			if p := t.c.PosOf(ins); p != "" {
				return p
			}
		}
	}
	return ""
}

// reassigned: the index of a range loop is written in another way than by the loop (cannot happen in Go).
func (t *term12) reassigned(l *natLoop) bool { return false }

// step is how a value of the head changes on the way around: the sign of every change, 0 for none, 9 for unknown.
func stepOf(l *natLoop, ph *ssa.Phi) map[int]bool {
	m := map[int]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, sign int)
	visit = func(v ssa.Value, sign int) {
		if v == ph {
			m[sign] = true
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !l.body[x.Block()] {
				m[9] = true
				return
			}
			for _, e := range x.Edges {
				visit(e, sign)
			}
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			y := x.X
			if !ok && x.Op == token.ADD {
				k, ok = x.X.(*ssa.Const)
				y = x.Y
			}
			if !ok || k.Value == nil || (x.Op != token.ADD && x.Op != token.SUB) || k.Value.Kind() == constant.String {
				m[9] = true
				return
			}
			s := constant.Sign(k.Value)
			if x.Op == token.SUB {
				s = -s
			}
			if sign != 0 && s != sign && s != 0 {
				m[9] = true
				return
			}
			if s == 0 {
				s = sign
			}
			visit(y, s)
		default:
			m[9] = true
		}
	}
	for i, p := range l.head.Preds {
		if l.body[p] {
			visit(ph.Edges[i], 0)
		}
	}
	return m
}

func headPhi(l *natLoop, v ssa.Value) *ssa.Phi {
	v = stripConv(v)
	for {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, k := b.Y.(*ssa.Const); k {
				v = b.X
				continue
			}
		}
		break
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.head {
		return ph
	}
	return nil
}

func (t *term12) invariant(l *natLoop, v ssa.Value) bool {
	for x := range t.slice12(l, v) {
		if ph, ok := x.(*ssa.Phi); ok && l.body[ph.Block()] {
			return false
		}
		if ins, ok := x.(ssa.Instruction); ok && l.body[ins.Block()] {
			switch y := x.(type) {
			case *ssa.Call:
				if n := calleeName(&y.Call); n != "len" && n != "cap" {
					return false
				}
			case *ssa.UnOp:
				if y.Op == token.MUL && t.storedIn(l, y.X) {
					return false
				}
			case *ssa.Next:
				return false
			}
		}
	}
	return true
}

func (t *term12) storedIn(l *natLoop, addr ssa.Value) bool {
	base := func(a ssa.Value) ssa.Value {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			default:
				return a
			}
		}
	}
	p, root := placeOf(addr), base(addr)
	captured := false
	if al, ok := root.(*ssa.Alloc); ok && al.Referrers() != nil {
		for _, u := range *al.Referrers() {
			if _, ok := u.(*ssa.MakeClosure); ok {
				captured = true
			}
		}
	} else {
		captured = true
	}
	for b := range l.body {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if s.Addr == addr || base(s.Addr) == root || p != "" && placeOf(s.Addr) == p {
					return true
				}
			}
			if ci, ok := ins.(ssa.CallInstruction); ok && captured {
				if _, blt := ci.Common().Value.(*ssa.Builtin); !blt && !t.pureCall(ci.Common(), 0) {
					return true
				}
			}
		}
	}
	return false
}

// counted: "up" when an exit compares a counter that moves towards an unchanging bound, "away" when the only exit
// compares one that moves the other way.
func (t *term12) counted(l *natLoop, ex []exit12) string {
	away := 0
	for _, e := range ex {
		b, ok := e.iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := b.Op
		x, y := b.X, b.Y
		ph := headPhi(l, x)
		if ph == nil {
			ph = headPhi(l, y)
			x, y = y, x
			op = swapOp(op)
		}
		if ph == nil || !t.invariant(l, y) {
			continue
		}
		if bt, ok := ph.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsNumeric == 0 {
			continue
		}
		if !e.stay {
			op = negOp(op)
		}
		// the condition must be passed on every way around
		every := true
		for _, p := range l.back {
			if !e.iff.Block().Dominates(p) {
				every = false
			}
		}
		st := stepOf(l, ph)
		switch op {
		case token.LSS, token.LEQ:
			if every && len(st) == 1 && st[1] {
				return "up"
			}
			if len(st) == 1 && st[-1] {
				away++
			}
		case token.GTR, token.GEQ:
			if every && len(st) == 1 && st[-1] {
				return "up"
			}
			if len(st) == 1 && st[1] {
				away++
			}
		}
	}
	if away == len(ex) && away > 0 {
		return "away"
	}
	return ""
}

func swapOp(o token.Token) token.Token {
	switch o {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return o
}

func negOp(o token.Token) token.Token {
	switch o {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return o
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "bytes": true, "math": true, "html": true, "errors": true, "slices": true, "maps": true, "cmp": true}

// pureCall: the call changes nothing and answers the same when repeated.
func (t *term12) pureCall(cc *ssa.CallCommon, depth int) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "min", "max", "real", "imag", "append", "ssa:wrapnilchk":
			return true
		}
		return false
	}
	fn := cc.StaticCallee()
	if fn == nil {
		return false
	}
	for _, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			return false
		}
	}
	if !t.c.InModule(fn) {
		p := PkgOf(fn)
		if p == nil {
			return false
		}
		if p.Path() == "time" {
			return fn.Signature.Recv() != nil && typeName(fn.Signature.Recv().Type()) == "Time"
		}
		return purePkgs[p.Path()] && fn.Signature.Recv() == nil
	}
	if depth > 4 || len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if rootAlloc(x.Addr) == nil {
					return false
				}
			case *ssa.MapUpdate:
				if mk, ok := x.Map.(*ssa.MakeMap); !ok || mk.Parent() != fn {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Panic:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if x.Call.StaticCallee() == fn {
					continue
				}
				if !t.pureCall(&x.Call, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

// stuck finds a way around the loop on which nothing happens that the branches of the loop depend on; what is set to
// the same value in every round does not change after the first.
func (t *term12) stuck(l *natLoop, ex []exit12) *ssa.BasicBlock {
	var conds []ssa.Value
	for b := range l.body {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			conds = append(conds, iff.Cond)
		}
	}
	k := &stuck12{t: t, l: l, rel: t.slice12(l, conds...)}
	k.reads = t.readsOf(l, k.rel)
	k.walk(l.head, nil, map[ssa.Value]ssa.Value{}, map[*ssa.BasicBlock]bool{}, map[ssa.Value]bool{})
	if k.found != nil {
		return k.found
	}
	for _, e := range k.settled {
		k2 := &stuck12{t: t, l: l, rel: k.rel, reads: k.reads, start: e}
		k2.walk(l.head, nil, e, map[*ssa.BasicBlock]bool{}, map[ssa.Value]bool{})
		if k2.found != nil {
			return k2.found
		}
	}
	return nil
}

type stuck12 struct {
	t       *term12
	l       *natLoop
	rel     map[ssa.Value]bool
	reads   map[string]bool // places of memory the branches depend on; nil when unknown
	start   map[ssa.Value]ssa.Value
	settled []map[ssa.Value]ssa.Value
	steps   int
	found   *ssa.BasicBlock
}

// readsOf lists the places of memory that values are loaded from within the loop.
func (t *term12) readsOf(l *natLoop, rel map[ssa.Value]bool) map[string]bool {
	m := map[string]bool{}
	for v := range rel {
		ins, ok := v.(ssa.Instruction)
		if !ok || !l.body[ins.Block()] {
			continue
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				p := memPlace(x.X)
				if p == "" {
					return nil
				}
				m[p] = true
			}
		case *ssa.Lookup:
			m["map "+x.X.Type().String()] = true
		case *ssa.Next:
			if rg, ok := x.Iter.(*ssa.Range); ok {
				m["map "+rg.X.Type().String()] = true
			}
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				for _, a := range x.Call.Args {
					switch a.Type().Underlying().(type) {
					case *types.Basic, *types.Struct:
					default:
						return nil
					}
				}
			}
		}
	}
	return m
}

// memPlace names what an address points at, coarsely.
func memPlace(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return placeOf(x)
	case *ssa.IndexAddr:
		return "elem " + deref(x.Type()).String()
	case *ssa.Global:
		return "global " + x.String()
	}
	return ""
}

// touches: the instruction may change one of the places.
func (k *stuck12) touches(ins ssa.Instruction, depth int) bool {
	switch x := ins.(type) {
	case *ssa.Store:
		if depth > 0 && rootAlloc(x.Addr) != nil {
			return false
		}
		p := memPlace(x.Addr)
		return k.reads == nil || p == "" || k.reads[p]
	case *ssa.MapUpdate:
		return k.reads == nil || k.reads["map "+x.Map.Type().String()]
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers, *ssa.Panic:
		return true
	case *ssa.Return:
		return depth == 0
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Call:
		if k.t.pureCall(&x.Call, 0) {
			return false
		}
		g := x.Call.StaticCallee()
		if g == nil || !k.t.c.InModule(g) || depth > 3 || k.reads == nil {
			return true
		}
		for _, a := range x.Call.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok {
				return true
			}
		}
		for _, b := range g.Blocks {
			for _, j := range b.Instrs {
				if c2, ok := j.(*ssa.Call); ok && c2.Call.StaticCallee() == g {
					continue
				}
				if k.touches(j, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// fixed: the value is the same in every round that changes nothing the branches depend on.
func (k *stuck12) fixed(v ssa.Value, seen map[ssa.Value]bool) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok || !k.l.body[ins.Block()] || seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi, *ssa.Next, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
		return false
	case *ssa.UnOp:
		if x.Op == token.ARROW || x.Op == token.MUL && k.reads == nil {
			return false
		}
	case *ssa.Call:
		if !k.t.pureCall(&x.Call, 0) {
			return false
		}
		if g := x.Call.StaticCallee(); g != nil && !k.t.steady(g, 0) {
			return false
		}
		for _, a := range x.Call.Args {
			switch u := a.Type().Underlying().(type) {
			case *types.Basic:
			case *types.Struct:
				if typeName(a.Type()) != "Time" && u.NumFields() > 0 {
					return false
				}
			default:
				return false
			}
		}
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && !k.fixed(*op, seen) {
			return false
		}
	}
	return true
}

// steady: the function reads no global variable that is ever set.
func (t *term12) steady(fn *ssa.Function, depth int) bool {
	if !t.c.InModule(fn) {
		return true
	}
	if depth > 4 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && t.globalsSet()[g] {
					return false
				}
			}
			if c, ok := ins.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g != fn && !t.steady(g, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

func (t *term12) globalsSet() map[*ssa.Global]bool {
	if t.setGlobals == nil {
		t.setGlobals = map[*ssa.Global]bool{}
		for _, fn := range t.c.Fns {
			if fn.Name() == "init" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						a := st.Addr
						for {
							if x, ok := a.(*ssa.FieldAddr); ok {
								a = x.X
							} else if x, ok := a.(*ssa.IndexAddr); ok {
								a = x.X
							} else {
								break
							}
						}
						if g, ok := a.(*ssa.Global); ok {
							t.setGlobals[g] = true
						}
					}
				}
			}
		}
	}
	return t.setGlobals
}

func res12(e map[ssa.Value]ssa.Value, v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		w, ok := e[v]
		if !ok || w == v {
			return v
		}
		v = w
	}
	return v
}

func truth12(e map[ssa.Value]ssa.Value, v ssa.Value) (bool, bool) {
	v = res12(e, v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := truth12(e, x.X)
			return !b, ok
		}
	case *ssa.BinOp:
		a, ok1 := res12(e, x.X).(*ssa.Const)
		b, ok2 := res12(e, x.Y).(*ssa.Const)
		if ok1 && ok2 && a.Value != nil && b.Value != nil && a.Value.Kind() == b.Value.Kind() {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if a.Value.Kind() == constant.Bool && x.Op != token.EQL && x.Op != token.NEQ {
					return false, false
				}
				return constant.Compare(a.Value, x.Op, b.Value), true
			}
		}
	}
	return false, false
}

func (k *stuck12) walk(b, from *ssa.BasicBlock, e map[ssa.Value]ssa.Value, on map[*ssa.BasicBlock]bool, took map[ssa.Value]bool) {
	l := k.l
	if k.found != nil || k.steps > 4000 {
		return
	}
	k.steps++
	if from != nil && b == l.head {
		same := true
		next := map[ssa.Value]ssa.Value{}
		for i, p := range l.head.Preds {
			if p != from {
				continue
			}
			for _, ins := range l.head.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if !k.rel[ph] {
					continue
				}
				v := res12(e, ph.Edges[i])
				was := ssa.Value(ph)
				if k.start != nil {
					was = res12(k.start, ph)
				}
				if v == was {
					continue
				}
				same = false
				if k.start != nil || !k.fixed(v, map[ssa.Value]bool{}) {
					return
				}
				next[ph] = v
			}
		}
		if same {
			k.found = from
		} else if len(k.settled) < 40 {
			k.settled = append(k.settled, next)
		}
		return
	}
	if on[b] {
		return
	}
	ne := map[ssa.Value]ssa.Value{}
	for x, v := range e {
		ne[x] = v
	}
	if from != nil {
		for i, p := range b.Preds {
			if p != from {
				continue
			}
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				ne[ph] = res12(e, ph.Edges[i])
			}
		}
	}
	for _, ins := range b.Instrs {
		if k.touches(ins, 0) {
			return
		}
	}
	no := map[*ssa.BasicBlock]bool{b: true}
	for x := range on {
		no[x] = true
	}
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		tv, known := truth12(ne, iff.Cond)
		key := res12(ne, iff.Cond)
		if pv, ok := took[key]; ok && !known {
			tv, known = pv, true
		}
		for i, s := range b.Succs {
			if known && tv != (i == 0) || !l.body[s] {
				continue
			}
			nt := map[ssa.Value]bool{key: i == 0}
			for x, v := range took {
				nt[x] = v
			}
			k.walk(s, b, ne, no, nt)
		}
		return
	}
	for _, s := range b.Succs {
		if l.body[s] {
			k.walk(s, b, ne, no, took)
		}
	}
}

// reading operations that keep failing once they failed.
var readers = map[string]string{
	"(*encoding/xml.Decoder).Token": "err", "(*encoding/xml.Decoder).RawToken": "err", "(*encoding/xml.Decoder).Decode": "err",
	"(*encoding/xml.Decoder).DecodeElement": "err", "(*encoding/xml.Decoder).Skip": "err",
	"(*encoding/json.Decoder).Token": "err", "(*encoding/json.Decoder).Decode": "err",
	"(*bufio.Reader).Read": "err", "(*bufio.Reader).ReadByte": "err", "(*bufio.Reader).ReadBytes": "err", "(*bufio.Reader).ReadLine": "err",
	"(*bufio.Reader).ReadRune": "err", "(*bufio.Reader).ReadSlice": "err", "(*bufio.Reader).ReadString": "err", "(*bufio.Reader).Peek": "err",
	"(*bufio.Scanner).Scan": "false", "(*golang.org/x/net/html.Tokenizer).Next": "errtok", "(*encoding/csv.Reader).Read": "err",
	"(*os.File).Read": "err", "(*os.File).ReadDir": "err", "(*os.File).Readdirnames": "err", "(*strings.Reader).Read": "err", "(*strings.Reader).ReadByte": "err",
	"(*strings.Reader).ReadRune": "err", "(*bytes.Reader).Read": "err", "(*bytes.Buffer).ReadString": "err", "(*bytes.Buffer).ReadBytes": "err", "(*bytes.Buffer).ReadByte": "err",
	"(io.Reader).Read": "err", "io.ReadFull": "err", "io.CopyN": "err", "(encoding/xml.TokenReader).Token": "err",
}

func readName(ci ssa.CallInstruction) string {
	n := calleeName(ci.Common())
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// readsIn: the call reads, directly or in a function of the module it calls.
func (t *term12) readOf(ci ssa.CallInstruction, depth int) (leaf ssa.CallInstruction, via []*ssa.Function) {
	if _, ok := ci.(*ssa.Call); !ok {
		return nil, nil
	}
	if _, ok := readers[calleeName(ci.Common())]; ok {
		return ci, nil
	}
	if depth > 2 {
		return nil, nil
	}
	fs := t.c.Sync().callees(ci)
	if len(fs) != 1 || len(fs[0].Blocks) == 0 || len(fs[0].Blocks) > 30 {
		return nil, nil
	}
	for _, b := range fs[0].Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.Call); ok && x.Call.StaticCallee() != fs[0] {
				// the reader must outlive the call
				if lf, v := t.readOf(x, depth+1); lf != nil && t.outlives(fs[0], x) && len(naturalLoopsAround(fs[0], b)) == 0 {
					return lf, append([]*ssa.Function{fs[0]}, v...)
				}
			}
		}
	}
	return nil, nil
}

func naturalLoopsAround(fn *ssa.Function, b *ssa.BasicBlock) []*natLoop {
	var r []*natLoop
	for _, l := range naturalLoops(fn) {
		if l.body[b] {
			r = append(r, l)
		}
	}
	return r
}

// outlives: what the call reads from was not made in this function.
func (t *term12) outlives(fn *ssa.Function, x *ssa.Call) bool {
	if len(x.Call.Args) == 0 {
		return x.Call.IsInvoke()
	}
	v := x.Call.Args[0]
	for i := 0; i < 6; i++ {
		switch y := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			return true
		case *ssa.UnOp:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.MakeInterface:
			v = y.X
		default:
			return false
		}
	}
	return false
}

func (t *term12) reads(l *natLoop) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for b := range l.body {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			lf, _ := t.readOf(ci, 0)
			if lf == nil {
				continue
			}
			// a reader made anew in every round reads something else
			if len(ci.Common().Args) > 0 && lf == ci {
				if d, ok := stripLoad(ci.Common().Args[0]).(ssa.Instruction); ok && l.body[d.Block()] {
					if _, al := d.(*ssa.Alloc); !al {
						continue
					}
				}
			}
			r = append(r, ci)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i].Block(), r[j].Block()
		if a != b {
			return a.Index < b.Index
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

func stripLoad(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if y := fwd(v); y != v {
					v = y
					continue
				}
				return x.X
			}
			return v
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// what a value is known to be after a failed read
type av12 string // nil nonnil eof err true false int:N

type walk12 struct {
	t     *term12
	mode  string // "eof" or "other"
	steps int
	tok   ssa.Value // the tokenizer
}

type state12 struct {
	v   map[ssa.Value]av12
	mem map[ssa.Value]av12
}

func (s *state12) clone() *state12 {
	n := &state12{map[ssa.Value]av12{}, map[ssa.Value]av12{}}
	for k, v := range s.v {
		n.v[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

func (w *walk12) val(s *state12, v ssa.Value) av12 {
	if a, ok := s.v[v]; ok {
		return a
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
		if x.Value != nil {
			switch x.Value.Kind() {
			case constant.Bool:
				if constant.BoolVal(x.Value) {
					return "true"
				}
				return "false"
			case constant.Int:
				return av12("int:" + x.Value.ExactString())
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			switch w.val(s, x.X) {
			case "true":
				return "false"
			case "false":
				return "true"
			}
		case token.MUL:
			if a, ok := s.mem[x.X]; ok {
				return a
			}
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
				return "EOF"
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && w.tok != nil {
				if nm, _ := fieldName(deref(fa.X.Type()), fa.Field); nm == "Type" && typeName(deref(fa.X.Type())) == "Token" {
					return "int:0"
				}
			}
		}
	case *ssa.Field:
		if nm, _ := fieldName(x.X.Type(), x.Field); nm == "Type" && typeName(x.X.Type()) == "Token" && w.tok != nil {
			return "int:0"
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && w.val(s, ta.X) == "nil" {
			return "false"
		}
	case *ssa.MakeInterface:
		return "nonnil"
	case *ssa.ChangeInterface:
		return w.val(s, x.X)
	case *ssa.ChangeType:
		return w.val(s, x.X)
	case *ssa.Convert:
		return w.val(s, x.X)
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return ""
		}
		a, b := w.val(s, x.X), w.val(s, x.Y)
		eq, ok := sameAv(a, b)
		if !ok {
			return ""
		}
		if eq == (x.Op == token.EQL) {
			return "true"
		}
		return "false"
	}
	return ""
}

func sameAv(a, b av12) (eq, ok bool) {
	for i := 0; i < 2; i++ {
		switch {
		case a == "" || b == "":
			return false, false
		case a == "nil" && b == "nil":
			return true, true
		case a == "nil" && (b == "nonnil" || b == "eof" || b == "err" || b == "EOF"):
			return false, true
		case a == "eof" && b == "EOF":
			return true, true
		case a == "err" && b == "EOF":
			return false, true
		case strings.HasPrefix(string(a), "int:") && strings.HasPrefix(string(b), "int:"):
			return a == b, true
		case (a == "true" || a == "false") && (b == "true" || b == "false"):
			return a == b, true
		}
		a, b = b, a
	}
	return false, false
}

func (w *walk12) errVal() av12 {
	if w.mode == "eof" {
		return "eof"
	}
	return "err"
}

// bindFail gives the results of a read that fails.
func (w *walk12) bindFail(s *state12, ci *ssa.Call) {
	set := func(i, n int, a av12) {
		if n == 1 {
			s.v[ci] = a
			return
		}
		if ci.Referrers() != nil {
			for _, u := range *ci.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index == i {
					s.v[e] = a
				}
			}
		}
	}
	name := calleeName(&ci.Call)
	if kind, ok := readers[name]; ok {
		switch kind {
		case "false":
			s.v[ci] = "false"
		case "errtok":
			s.v[ci] = "int:0"
			if len(ci.Call.Args) > 0 {
				w.tok = stripLoad(ci.Call.Args[0])
			}
		default:
			res := ci.Call.Signature().Results()
			for i := 0; i < res.Len(); i++ {
				if isErrorType(res.At(i).Type()) {
					set(i, res.Len(), w.errVal())
				} else if strings.HasSuffix(name, "Token") {
					set(i, res.Len(), "nil")
				}
			}
		}
		return
	}
	// a function of the module: what it returns when its read fails
	fs := w.t.c.Sync().callees(ci)
	if len(fs) != 1 {
		return
	}
	outs := w.summary(fs[0], 0)
	n := fs[0].Signature.Results().Len()
	for i := 0; i < n; i++ {
		var a av12
		for j, o := range outs {
			if j == 0 {
				a = o[i]
			} else if a != o[i] {
				if (a == "eof" || a == "err") && (o[i] == "nonnil" || o[i] == "eof" || o[i] == "err") {
					a = "nonnil"
				} else {
					a = ""
				}
			}
		}
		if a != "" {
			set(i, n, a)
		}
	}
}

// summary lists what a function returns on the ways on which its read fails.
func (w *walk12) summary(fn *ssa.Function, depth int) [][]av12 {
	var outs [][]av12
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			x, ok := ins.(*ssa.Call)
			if !ok || x.Call.StaticCallee() == fn {
				continue
			}
			if lf, _ := w.t.readOf(x, 1); lf == nil {
				continue
			}
			s := &state12{map[ssa.Value]av12{}, map[ssa.Value]av12{}}
			w.bindFail(s, x)
			w.run(b, i+1, s, map[string]bool{}, nil, func(b *ssa.BasicBlock, ins ssa.Instruction, s *state12) bool {
				if rt, ok := ins.(*ssa.Return); ok {
					var o []av12
					for _, v := range rt.Results {
						o = append(o, w.val(s, v))
					}
					outs = append(outs, o)
				}
				return true
			})
		}
	}
	return outs
}

// run walks from an instruction along every way the state allows; stop is asked at every instruction and ends the way
// by returning false; enter is asked at every block.
func (w *walk12) run(b *ssa.BasicBlock, i int, s *state12, seen map[string]bool, enter func(from, to *ssa.BasicBlock) bool, at func(*ssa.BasicBlock, ssa.Instruction, *state12) bool) {
	if w.steps > 20000 {
		return
	}
	w.steps++
	for ; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		if !at(b, ins, s) {
			return
		}
		switch x := ins.(type) {
		case *ssa.Store:
			if a := w.val(s, x.Val); a != "" {
				s.mem[x.Addr] = a
			} else {
				delete(s.mem, x.Addr)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a := w.val(s, x); a != "" {
					s.v[x] = a
				}
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			switch {
			case n == "(*golang.org/x/net/html.Tokenizer).Err" && w.tok != nil && stripLoad(x.Call.Args[0]) == w.tok:
				s.v[x] = w.errVal()
			case n == "errors.Is":
				a, c := w.val(s, x.Call.Args[0]), w.val(s, x.Call.Args[1])
				if eq, ok := sameAv(a, c); ok {
					if eq {
						s.v[x] = "true"
					} else {
						s.v[x] = "false"
					}
				}
			case n == "fmt.Errorf" || n == "errors.New":
				s.v[x] = "nonnil"
			case w.t.pureCall(&x.Call, 0):
			default:
				for k := range s.mem {
					if al, ok := k.(*ssa.Alloc); ok {
						if capturedForWriting(al) {
							delete(s.mem, k)
						}
					}
				}
			}
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	known, tv := false, false
	if iff, ok := last.(*ssa.If); ok {
		switch w.val(s, iff.Cond) {
		case "true":
			known, tv = true, true
		case "false":
			known, tv = true, false
		}
	}
	for k, nx := range b.Succs {
		if known && tv != (k == 0) {
			continue
		}
		if enter != nil && !enter(b, nx) {
			continue
		}
		ns := s.clone()
		pi := -1
		for j, p := range nx.Preds {
			if p == b {
				pi = j
				if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] && k == 1 {
					continue
				}
				break
			}
		}
		type pv struct {
			ph *ssa.Phi
			a  av12
		}
		var set []pv
		for _, ins := range nx.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			set = append(set, pv{ph, w.val(s, ph.Edges[pi])})
		}
		for _, p := range set {
			if p.a != "" {
				ns.v[p.ph] = p.a
			} else {
				delete(ns.v, p.ph)
			}
		}
		key := stateKey(w.t.c, nx, ns)
		if seen[key] {
			continue
		}
		seen[key] = true
		w.run(nx, 0, ns, seen, enter, at)
	}
}

func stateKey(c *Ctx, b *ssa.BasicBlock, s *state12) string {
	var ks []string
	for k, v := range s.v {
		if _, ok := k.(*ssa.Phi); ok {
			ks = append(ks, k.Name()+"="+string(v))
		}
	}
	for k, v := range s.mem {
		ks = append(ks, "*"+k.Name()+"="+string(v))
	}
	sort.Strings(ks)
	return b.String() + ":" + strings.Join(ks, ",")
}

// failing: with the read failed, a way leads around the loop to the read.
func (t *term12) failing(fn *ssa.Function, l *natLoop, rd ssa.CallInstruction) string {
	call := rd.(*ssa.Call)
	leaf, _ := t.readOf(rd, 0)
	modes := []string{"eof", "other"}
	if strings.HasSuffix(calleeName(leaf.Common()), "Tokenizer).Next") && t.inMemory(leaf) {
		modes = modes[:1]
	}
	for _, m := range modes {
		w := &walk12{t: t, mode: m}
		s := &state12{map[ssa.Value]av12{}, map[ssa.Value]av12{}}
		w.bindFail(s, call)
		hit := false
		i := 0
		for k, ins := range call.Block().Instrs {
			if ins == ssa.Instruction(call) {
				i = k + 1
			}
		}
		w.run(call.Block(), i, s, map[string]bool{}, func(from, to *ssa.BasicBlock) bool {
			if !l.body[to] {
				return false
			}
			return true
		}, func(b *ssa.BasicBlock, ins ssa.Instruction, s *state12) bool {
			if ins == ssa.Instruction(call) {
				hit = true
				return false
			}
			return !hit
		})
		if hit {
			if m == "eof" {
				return "at the end of the input"
			}
			return "on malformed input"
		}
	}
	return ""
}

// inMemory: the tokenizer reads from a text in memory, which can only end.
func (t *term12) inMemory(leaf ssa.CallInstruction) bool {
	if len(leaf.Common().Args) == 0 {
		return false
	}
	v := stripLoad(leaf.Common().Args[0])
	if al, ok := v.(*ssa.Alloc); ok {
		if st, _ := t.c.storesTo(al); len(st) == 1 {
			v = st[0].Val
		}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		for _, ci := range t.c.Callers(p.Parent()) {
			if a := argOf(ci, p.Parent(), p); a != nil {
				v = stripLoad(a)
			}
		}
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		v = t.c.rootBinding(fv)
		if al, ok := v.(*ssa.Alloc); ok {
			if st, _ := t.c.storesTo(al); len(st) == 1 {
				v = st[0].Val
			}
		}
	}
	call, ok := v.(*ssa.Call)
	if !ok || len(call.Call.Args) == 0 {
		return false
	}
	src := stripLoad(call.Call.Args[0])
	for i := 0; i < 4; i++ {
		sc, ok := src.(*ssa.Call)
		if !ok {
			break
		}
		switch calleeName(&sc.Call) {
		case "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer":
			return true
		case "bufio.NewReader":
			src = stripLoad(sc.Call.Args[0])
			continue
		}
		break
	}
	return false
}

// clock: a loop that moves a time by steps until it meets another one.
func (t *term12) clock(l *natLoop, ex []exit12) string {
	bad := ""
	for _, e := range ex {
		cond, stay := e.iff.Cond, e.stay
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, stay = u.X, !stay
		}
		call, ok := cond.(*ssa.Call)
		if !ok || len(call.Call.Args) != 2 {
			return ""
		}
		rel := calleeName(&call.Call)
		a, b := call.Call.Args[0], call.Call.Args[1]
		ph, _ := a.(*ssa.Phi)
		if ph == nil || ph.Block() != l.head {
			ph, _ = b.(*ssa.Phi)
			switch rel {
			case "(time.Time).Before":
				rel = "(time.Time).After"
			case "(time.Time).After":
				rel = "(time.Time).Before"
			}
		}
		if ph == nil || ph.Block() != l.head {
			return ""
		}
		dir := 0
		for i, p := range l.head.Preds {
			if !l.body[p] {
				continue
			}
			st, ok := ph.Edges[i].(*ssa.Call)
			if !ok {
				return ""
			}
			d := 0
			switch calleeName(&st.Call) {
			case "(time.Time).Add":
				if k, ok := st.Call.Args[1].(*ssa.Const); ok {
					d = constant.Sign(k.Value)
				}
			case "(time.Time).AddDate":
				for _, y := range st.Call.Args[1:] {
					k, ok := y.(*ssa.Const)
					if !ok {
						return ""
					}
					if s := constant.Sign(k.Value); s != 0 {
						d = s
					}
				}
			}
			if d == 0 || dir != 0 && dir != d {
				return ""
			}
			dir = d
		}
		switch {
		case rel == "(time.Time).Equal" && !stay:
			bad = "the loop ends only when the time, moved in steps, meets the other one exactly; a step over it never ends"
		case rel == "(time.Time).Before" && (dir < 0) == stay, rel == "(time.Time).After" && (dir > 0) == stay:
			bad = "the time moves away from the one that ends the loop"
		default:
			return ""
		}
	}
	return bad
}

// advances: every way around changes a value the exits depend on (given that none is stuck).
func (t *term12) advances(l *natLoop, ex []exit12) bool {
	var conds []ssa.Value
	for _, e := range ex {
		conds = append(conds, e.iff.Cond)
	}
	for v := range t.slice12(l, conds...) {
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != l.head {
			continue
		}
		all := true
		for i, p := range l.head.Preds {
			if l.body[p] && ph.Edges[i] == ph {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// lookups: the value is taken from a table, or by a function of the module, with a key computed from v.
func (t *term12) follows(l *natLoop, back ssa.Value, ph *ssa.Phi) ssa.Instruction {
	var hit ssa.Instruction
	for v := range t.slice12(l, back) {
		ins, ok := v.(ssa.Instruction)
		if !ok || !l.body[ins.Block()] {
			continue
		}
		switch x := v.(type) {
		case *ssa.Lookup:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok && t.slice12(l, x.Index)[ph] {
				hit = x
			}
		case *ssa.Call:
			looks := false
			for _, g := range t.c.ModCallees(x) {
				if t.looksUp(g, 0) {
					looks = true
				}
			}
			if !looks {
				continue
			}
			for _, a := range x.Call.Args {
				if t.slice12(l, a)[ph] {
					hit = x
				}
			}
		}
	}
	return hit
}

// looksUp: the function takes what it returns from a table or a file.
func (t *term12) looksUp(fn *ssa.Function, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					return true
				}
			case *ssa.Call:
				if _, ok := openers[calleeName(&x.Call)]; ok {
					return true
				}
				for _, g := range t.c.ModCallees(x) {
					if t.looksUp(g, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// chase: the loop follows references without a record of what it has seen.
func (t *term12) chase(l *natLoop, ex []exit12) (string, string) {
	var conds []ssa.Value
	for _, e := range ex {
		conds = append(conds, e.iff.Cond)
	}
	rel := t.slice12(l, conds...)
	for b := range l.body {
		for _, ins := range b.Instrs {
			if t.record(ins) {
				return "", ""
			}
		}
	}
	for _, ins := range l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !rel[ph] {
			continue
		}
		if st := stepOf(l, ph); !st[9] {
			continue
		}
		if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			continue
		}
		for i, p := range l.head.Preds {
			if !l.body[p] {
				continue
			}
			if at := t.follows(l, ph.Edges[i], ph); at != nil {
				return "the loop goes on with what it looked up by what it found last, without a record of what it has seen: references in a circle never end", t.c.PosOf(at)
			}
		}
	}
	return "", ""
}

// record: the instruction enters something in a table, or asks a function that does.
func (t *term12) record(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.MapUpdate:
		return true
	case *ssa.Call:
		if strings.HasPrefix(calleeName(&x.Call), "(*sync.Map).") {
			return true
		}
		for _, g := range t.c.ModCallees(x) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if _, ok := i.(*ssa.MapUpdate); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// bound: a number spelled in the input that limits the loop is itself limited.
func (t *term12) bound(fn *ssa.Function, l *natLoop, ex []exit12, what string) {
	for _, e := range ex {
		b, ok := e.iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		y := b.Y
		if headPhi(l, b.X) == nil {
			y = b.X
		}
		if at := t.unlimited(y, e.iff.Block(), 0, map[ssa.Value]bool{}); at != nil {
			t.r.Bad("unlimited-count", what, t.c.PosOf(e.iff), "the loop is repeated as often as a number read at %s says, which nothing limits", t.c.PosOf(at))
		}
	}
}

var parsers = map[string]bool{"strconv.Atoi": true, "strconv.ParseInt": true, "strconv.ParseUint": true, "strconv.ParseFloat": true}

// unlimited: the value is a number parsed from text, without an upper limit at block b; the answer is the parsing.
func (t *term12) unlimited(v ssa.Value, b *ssa.BasicBlock, depth int, seen map[ssa.Value]bool) ssa.Instruction {
	if depth > 12 || seen[v] {
		return nil
	}
	seen[v] = true
	defer delete(seen, v)
	if t.limited(v, b) {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return t.unlimited(x.X, b, depth+1, seen)
	case *ssa.ChangeType:
		return t.unlimited(x.X, b, depth+1, seen)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if parsers[calleeName(&call.Call)] && x.Index == 0 {
				return call
			}
			for _, g := range t.c.ModCallees(call) {
				for _, gb := range g.Blocks {
					if rt, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
						if rs := results(rt); x.Index < len(rs) {
							if at := t.unlimited(rs[x.Index], gb, depth+1, seen); at != nil {
								return at
							}
						}
					}
				}
			}
		}
	case *ssa.Call:
		for _, g := range t.c.ModCallees(x) {
			for _, gb := range g.Blocks {
				if rt, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok {
					if rs := results(rt); len(rs) == 1 {
						if at := t.unlimited(rs[0], gb, depth+1, seen); at != nil {
							return at
						}
					}
				}
			}
		}
		if bt, ok := x.Call.Value.(*ssa.Builtin); ok && bt.Name() == "max" {
			for _, a := range x.Call.Args {
				if at := t.unlimited(a, b, depth+1, seen); at != nil {
					return at
				}
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.SHL:
			if at := t.unlimited(x.X, b, depth+1, seen); at != nil {
				return at
			}
			if x.Op != token.SUB {
				return t.unlimited(x.Y, b, depth+1, seen)
			}
		case token.QUO:
			return t.unlimited(x.X, b, depth+1, seen)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if t.limitedEdge(e, p, x.Block()) {
				continue
			}
			if at := t.unlimited(e, p, depth+1, seen); at != nil {
				return at
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		if y := fwd(v); y != v {
			return t.unlimited(y, b, depth+1, seen)
		}
		if al := t.local(x.X); al != nil {
			st, _ := t.c.storesTo(al)
			for _, s := range st {
				if at := t.unlimited(s.Val, s.Block(), depth+1, seen); at != nil {
					// a later store may have limited the value
					lim := false
					for _, o := range st {
						if o != s && isConst(o.Val) && s.Block().Dominates(o.Block()) {
							lim = true
						}
					}
					if !lim {
						return at
					}
				}
			}
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			for _, ev := range t.elements(ia.X, 0) {
				if at := t.unlimited(ev.v, ev.b, depth+1, seen); at != nil {
					return at
				}
			}
		}
	case *ssa.Parameter:
		fn := x.Parent()
		for _, ci := range t.c.Callers(fn) {
			if a := argOf(ci, fn, x); a != nil {
				if at := t.unlimited(a, ci.Block(), depth+1, seen); at != nil {
					return at
				}
			}
		}
	case *ssa.FreeVar:
		if y := t.c.rootBinding(x); y != x {
			if mk := t.c.closureSite(x.Parent()); mk != nil {
				return t.unlimited(y, mk.Block(), depth+1, seen)
			}
		}
	}
	return nil
}

func (t *term12) local(a ssa.Value) *ssa.Alloc {
	if fv, ok := a.(*ssa.FreeVar); ok {
		a = t.c.rootBinding(fv)
	}
	al, _ := a.(*ssa.Alloc)
	return al
}

type elem12 struct {
	v ssa.Value
	b *ssa.BasicBlock
}

// elements lists what is put into a slice, as far as it can be seen.
func (t *term12) elements(s ssa.Value, depth int) []elem12 {
	if depth > 6 {
		return nil
	}
	var r []elem12
	switch x := s.(type) {
	case *ssa.Parameter:
		for _, ci := range t.c.Callers(x.Parent()) {
			if a := argOf(ci, x.Parent(), x); a != nil {
				r = append(r, t.elements(a, depth+1)...)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al := t.local(x.X); al != nil {
				st, _ := t.c.storesTo(al)
				for _, o := range st {
					r = append(r, t.elements(o.Val, depth+1)...)
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != s {
				r = append(r, t.elements(e, depth+1)...)
			}
		}
	case *ssa.Call:
		if bt, ok := x.Call.Value.(*ssa.Builtin); ok && bt.Name() == "append" && len(x.Call.Args) == 2 {
			for _, a := range variadicArgs(x.Call.Args[1]) {
				r = append(r, elem12{a, x.Block()})
			}
		}
	}
	return r
}

// limited: at the block the value is known to be at most a constant.
func (t *term12) limited(v ssa.Value, b *ssa.BasicBlock) bool {
	if call, ok := v.(*ssa.Call); ok {
		if bt, ok := call.Call.Value.(*ssa.Builtin); ok && bt.Name() == "min" {
			for _, a := range call.Call.Args {
				if isConst(a) {
					return true
				}
			}
		}
		if calleeName(&call.Call) == "math.Min" && (isConst(call.Call.Args[0]) || isConst(call.Call.Args[1])) {
			return true
		}
	}
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range id.Succs {
			if (s == b || s.Dominates(b)) && len(s.Preds) == 1 && t.limits(iff.Cond, i == 0, v) {
				return true
			}
		}
	}
	return false
}

func (t *term12) limitedEdge(v ssa.Value, p, b *ssa.BasicBlock) bool {
	if isConst(v) {
		return true
	}
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return false
	}
	return t.limits(iff.Cond, p.Succs[0] == b, v)
}

// limits: the condition, being so, keeps v below a constant or a length.
func (t *term12) limits(cond ssa.Value, truth bool, v ssa.Value) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return t.limits(x.X, !truth, v)
		}
	case *ssa.BinOp:
		op := x.Op
		if !truth {
			op = negOp(op)
		}
		a, k := stripConv(x.X), stripConv(x.Y)
		same := func(p ssa.Value) bool {
			return p == stripConv(v) || t.c.Exprs().X(p, nil).Key == t.c.Exprs().X(stripConv(v), nil).Key
		}
		fixed := func(p ssa.Value) bool {
			if isConst(p) {
				return true
			}
			if call, ok := p.(*ssa.Call); ok {
				n := calleeName(&call.Call)
				return n == "len" || n == "cap"
			}
			if u, ok := p.(*ssa.UnOp); ok && u.Op == token.MUL {
				if _, ok := u.X.(*ssa.Global); ok {
					return true
				}
			}
			return false
		}
		if same(a) && fixed(k) {
			return op == token.LSS || op == token.LEQ || op == token.EQL
		}
		if same(k) && fixed(a) {
			return op == token.GTR || op == token.GEQ || op == token.EQL
		}
	}
	return false
}

// sizes: lengths and repetitions spelled in the input are limited.
func (t *term12) sizes(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var v ssa.Value
			var what string
			switch x := ins.(type) {
			case *ssa.MakeSlice:
				v, what = x.Len, "a list is made"
				if isConst(x.Len) {
					v = x.Cap
				}
			case *ssa.Call:
				switch calleeName(&x.Call) {
				case "strings.Repeat", "bytes.Repeat":
					v, what = x.Call.Args[1], "a text is repeated"
				}
			}
			if v == nil || isConst(v) {
				continue
			}
			if at := t.unlimited(v, b, 0, map[ssa.Value]bool{}); at != nil {
				t.r.Bad("unlimited-size", c12(t.c, fn, what), t.c.PosOf(ins), "%s as long as a number read at %s says, which nothing limits", what, t.c.PosOf(at))
			} else {
				t.r.OK("length in " + t.c.FnName(fn) + " is limited")
			}
		}
	}
}

func c12(c *Ctx, fn *ssa.Function, what string) string { return what + " in " + c.FnName(fn) }
