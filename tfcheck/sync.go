package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks, wait groups and channels: which one an operation is on, and how the
// operations balance on every path of a function.

// res names a variable relative to a function: a base (a global, a parameter,
// a captured variable, an allocation, or some other value) and the loads and
// field selections that lead from it to the variable.
type res struct {
	base string
	path string // "*" and ".field", each followed by a space
}

func (r res) op(o string) res { return res{r.base, r.path + o + " "} }
func (r res) String() string  { return r.base + strings.ReplaceAll(r.path, " ", "") }
func (r res) local() bool     { return strings.HasPrefix(r.base, "A:") || strings.HasPrefix(r.base, "V:") }

// key is one balance: of a variable and a kind of operation.
type bkey struct {
	res  res
	kind string // w, r: held locks; wg: announced workers not signalled; ch: sent and not received; close
}

// lin is a linear expression over lengths; "" is the constant term.
type lin map[string]int

func (a lin) plus(b lin, n int) lin {
	r := lin{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		if r[k] += v * n; r[k] == 0 {
			delete(r, k)
		}
	}
	return r
}

func (a lin) String() string {
	if len(a) == 0 {
		return "0"
	}
	var s []string
	for k, v := range a {
		switch {
		case k == "":
			s = append(s, fmt.Sprint(v))
		case v == 1:
			s = append(s, k)
		default:
			s = append(s, fmt.Sprintf("%d*%s", v, k))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " + ")
}

// unknown: the expression has terms that were not resolved.
func (a lin) unknown() bool {
	for k := range a {
		if strings.HasPrefix(k, "?") {
			return true
		}
	}
	return false
}

// sign is the sign of the expression if it is the same for all lengths.
func (a lin) sign() int {
	s := 0
	for _, v := range a {
		x := 1
		if v < 0 {
			x = -1
		}
		if s != 0 && s != x {
			return 2
		}
		s = x
	}
	return s
}

type Sync struct {
	c      *Ctx
	stores map[ssa.Value][]*ssa.Store
	names  map[ssa.Value]string
	allocs map[string]ssa.Value
	effs   map[*ssa.Function]map[bkey][]lin
	doing  map[*ssa.Function]bool
	loops  map[*ssa.Function][]*natLoop
	acq    map[*ssa.Function]map[bkey]bool
	open   map[string]bool // variables used in ways that are not followed
}

func (c *Ctx) Sync() *Sync {
	if c.sync == nil {
		c.sync = &Sync{c: c, stores: map[ssa.Value][]*ssa.Store{}, names: map[ssa.Value]string{}, allocs: map[string]ssa.Value{},
			effs: map[*ssa.Function]map[bkey][]lin{}, doing: map[*ssa.Function]bool{}, loops: map[*ssa.Function][]*natLoop{}, open: map[string]bool{}}
		c.sync.escapes()
	}
	return c.sync
}

func (s *Sync) name(v ssa.Value, prefix string) string {
	if n, ok := s.names[v]; ok {
		return n
	}
	n := prefix
	switch x := v.(type) {
	case *ssa.Alloc:
		n += s.c.FnName(x.Parent()) + ":" + x.Comment
	case ssa.Instruction:
		n += s.c.FnName(x.Parent()) + ":" + v.Name()
	default:
		n += v.Name()
	}
	for i := 2; s.allocs[n] != nil; i++ {
		n = fmt.Sprintf("%s#%d", strings.SplitN(n, "#", 2)[0], i)
	}
	s.names[v] = n
	s.allocs[n] = v
	return n
}

// of names the variable a value is, or the address of.
func (s *Sync) of(v ssa.Value) res {
	switch x := v.(type) {
	case *ssa.Global:
		return res{base: "G:" + strings.TrimPrefix(x.Pkg.Pkg.Path(), s.c.ModPath+"/") + "." + x.Name()}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return res{base: fmt.Sprintf("P%d", i)}
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return res{base: fmt.Sprintf("F%d", i)}
			}
		}
	case *ssa.Alloc:
		return res{base: s.name(x, "A:")}
	case *ssa.MakeChan:
		return res{base: s.name(x, "A:")}
	case *ssa.FieldAddr:
		f, _ := fieldName(deref(x.X.Type()), x.Field)
		return s.of(x.X).op("." + f)
	case *ssa.Field:
		f, _ := fieldName(x.X.Type(), x.Field)
		return s.of(x.X).op("." + f)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return s.load(s.of(x.X))
		}
	case *ssa.ChangeType:
		return s.of(x.X)
	case *ssa.MakeInterface:
		return s.of(x.X)
	case *ssa.ChangeInterface:
		return s.of(x.X)
	}
	return res{base: s.name(v, "V:")}
}

// load names what is read from a variable: what was stored into it if that
// happened once.
func (s *Sync) load(r res) res {
	if r.path == "" && strings.HasPrefix(r.base, "A:") {
		if al, ok := s.allocs[r.base].(*ssa.Alloc); ok {
			if st, esc := s.c.storesTo(al); len(st) == 1 && !esc && st[0].Parent() == al.Parent() {
				return s.of(st[0].Val)
			}
		}
	}
	return r.op("*")
}

// from translates a variable named by a callee.
func (s *Sync) from(r res, cc *ssa.CallCommon, f *ssa.Function) (res, bool) {
	var v ssa.Value
	switch r.base[0] {
	case 'G':
		return r, true
	case 'P':
		var i int
		fmt.Sscanf(r.base, "P%d", &i)
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		if i >= len(args) {
			return res{}, false
		}
		v = args[i]
	case 'F':
		mk := s.closure(cc.Value)
		if mk == nil || mk.Fn != ssa.Value(f) {
			return res{}, false
		}
		var i int
		fmt.Sscanf(r.base, "F%d", &i)
		v = mk.Bindings[i]
	default:
		return res{}, false
	}
	out := s.of(v)
	for _, o := range strings.Fields(r.path) {
		if o == "*" {
			out = s.load(out)
		} else {
			out = out.op(o)
		}
	}
	return out, true
}

// closure is the closure a value is known to be.
func (s *Sync) closure(v ssa.Value) *ssa.MakeClosure {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return x
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return nil
			}
			st, esc := s.c.storesTo(al)
			if len(st) != 1 || esc {
				return nil
			}
			v = st[0].Val
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// callees of a call whose bodies are in the module.
func (s *Sync) callees(ci ssa.CallInstruction) []*ssa.Function {
	if mk := s.closure(ci.Common().Value); mk != nil {
		return []*ssa.Function{mk.Fn.(*ssa.Function)}
	}
	return s.c.ModCallees(ci)
}

// syncOp recognises an operation: the balance and its change.
func (s *Sync) syncOp(ins ssa.Instruction) (k bkey, d lin, ok bool) {
	switch x := ins.(type) {
	case *ssa.Send:
		return bkey{s.of(x.Chan), "ch"}, lin{"": 1}, true
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return bkey{s.of(x.X), "ch"}, lin{"": -1}, true
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if len(cc.Args) == 0 {
			return
		}
		switch n := calleeName(cc); n {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			return bkey{s.of(cc.Args[0]), "w"}, lin{"": 1}, true
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			return bkey{s.of(cc.Args[0]), "w"}, lin{"": -1}, true
		case "(*sync.RWMutex).RLock":
			return bkey{s.of(cc.Args[0]), "r"}, lin{"": 1}, true
		case "(*sync.RWMutex).RUnlock":
			return bkey{s.of(cc.Args[0]), "r"}, lin{"": -1}, true
		case "(*sync.WaitGroup).Add":
			return bkey{s.of(cc.Args[0]), "wg"}, s.linOf(cc.Args[1]), true
		case "(*sync.WaitGroup).Done":
			return bkey{s.of(cc.Args[0]), "wg"}, lin{"": -1}, true
		case "close":
			return bkey{s.of(cc.Args[0]), "close"}, lin{"": 1}, true
		}
	}
	return
}

// linOf is the value of an integer as a linear expression.
func (s *Sync) linOf(v ssa.Value) lin {
	switch x := stripConv(v).(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.Value)
			if n == 0 {
				return lin{}
			}
			return lin{"": int(n)}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return s.lenOf(x.Call.Args[0])
		}
	case *ssa.BinOp:
		a, b := s.linOf(x.X), s.linOf(x.Y)
		switch x.Op {
		case token.ADD:
			return a.plus(b, 1)
		case token.SUB:
			return a.plus(b, -1)
		case token.MUL:
			if len(b) == 1 && b[""] != 0 {
				return lin{}.plus(a, b[""])
			}
			if len(a) == 1 && a[""] != 0 {
				return lin{}.plus(b, a[""])
			}
		}
	}
	return lin{"?" + s.of(v).String(): 1}
}

func (s *Sync) lenOf(v ssa.Value) lin {
	if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
		if a, ok := deref(sl.X.Type()).Underlying().(*types.Array); ok {
			return lin{"": int(a.Len())}
		}
	}
	return lin{"len(" + s.of(v).String() + ")": 1}
}

// trip is how often a loop runs if nothing leaves it early: the number of
// iterations started.
func (s *Sync) trip(l *natLoop) (lin, *ssa.BasicBlock) {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil
	}
	exit := l.head.Succs[1]
	if l.body[exit] || !l.body[l.head.Succs[0]] {
		return nil, nil
	}
	switch x := iff.Cond.(type) {
	case *ssa.BinOp:
		idx := x.X
		lim := x.Y
		switch x.Op {
		case token.LSS, token.NEQ:
		case token.GTR:
			idx, lim = lim, idx
		default:
			return nil, nil
		}
		start := 0
		if add, ok := idx.(*ssa.BinOp); ok && add.Op == token.ADD && isOneInt(add.Y) {
			idx, start = add.X, 1
		}
		phi, ok := idx.(*ssa.Phi)
		if !ok || phi.Block() != l.head {
			return nil, nil
		}
		for i, e := range phi.Edges {
			if l.body[l.head.Preds[i]] {
				add, ok := e.(*ssa.BinOp)
				if !ok || add.Op != token.ADD || !isOneInt(add.Y) || add.X != ssa.Value(phi) {
					return nil, nil
				}
				continue
			}
			k, ok := e.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil, nil
			}
			n, _ := constant.Int64Val(k.Value)
			if int(n)+start != 0 {
				return nil, nil
			}
		}
		return s.linOf(lim), exit
	case *ssa.Extract:
		nx, ok := x.Tuple.(*ssa.Next)
		if !ok {
			return nil, nil
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok || nx.IsString {
			return nil, nil
		}
		return s.lenOf(rg.X), exit
	}
	return nil, nil
}

func isOneInt(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == "1"
}

// bstate is a balance on some path, with what deferred calls will change and
// the outcome of conditions tested more than once.
type bstate struct {
	bal   lin
	later lin
	cond  map[string]bool
}

func (b bstate) key() string {
	var cs []string
	for k, v := range b.cond {
		cs = append(cs, fmt.Sprint(k, v))
	}
	sort.Strings(cs)
	return b.bal.String() + "/" + b.later.String() + "/" + strings.Join(cs, ",")
}

type bflow struct {
	s      *Sync
	fn     *ssa.Function
	k      bkey
	loops  []*natLoop
	seen   func(ins ssa.Instruction, st bstate) // called with the state before
	uneven func(l *natLoop, deltas []lin)       // iterations change the balance differently
	early  func(l *natLoop, d lin)              // a loop that changes the balance is left early
	exits  []bstate
	lost   bool
	conds  map[ssa.Value]string
}

// balance follows one balance through a function.
func (s *Sync) balance(fn *ssa.Function, k bkey, entry lin, f *bflow) []lin {
	if s.loops[fn] == nil {
		s.loops[fn] = naturalLoops(fn)
	}
	f.s, f.fn, f.k, f.loops = s, fn, k, s.loops[fn]
	// conditions tested more than once
	f.conds = map[ssa.Value]string{}
	n := map[string]int{}
	keys := map[ssa.Value]string{}
	for _, b := range fn.Blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			key := s.c.Exprs().X(iff.Cond, nil).Key
			keys[iff.Cond] = key
			n[key]++
		}
	}
	for v, key := range keys {
		if n[key] > 1 && !inLoop(f.loops, v) {
			f.conds[v] = key
		}
	}
	f.region(nil, fn.Blocks[0], []bstate{{bal: entry, later: lin{}}}, true)
	var r []lin
	have := map[string]bool{}
	for _, e := range f.exits {
		if !have[e.bal.String()] {
			have[e.bal.String()] = true
			r = append(r, e.bal)
		}
	}
	return r
}

func inLoop(loops []*natLoop, v ssa.Value) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, l := range loops {
		if l.body[ins.Block()] {
			return true
		}
	}
	return false
}

type bedge struct{ from, to *ssa.BasicBlock }

// region runs through the blocks of a loop once (or of the function), with
// inner loops summarised. It returns the states at edges out of the loop and
// at edges back to its head.
func (f *bflow) region(l *natLoop, start *ssa.BasicBlock, in []bstate, report bool) (out map[bedge][]bstate, back []bstate) {
	out = map[bedge][]bstate{}
	states := map[*ssa.BasicBlock][]bstate{start: in}
	inside := func(b *ssa.BasicBlock) bool { return l == nil || l.body[b] }
	inner := func(b *ssa.BasicBlock) *natLoop {
		for _, m := range f.loops {
			if m.head == b && (l == nil || m.head != l.head) {
				return m
			}
		}
		return nil
	}
	// the outermost inner loop that holds a block
	holder := func(b *ssa.BasicBlock) *natLoop {
		var best *natLoop
		for _, m := range f.loops {
			if m.body[b] && (l == nil || (m.head != l.head && l.body[m.head])) && (best == nil || len(m.body) > len(best.body)) {
				best = m
			}
		}
		return best
	}
	push := func(from, to *ssa.BasicBlock, st []bstate) {
		switch {
		case l != nil && to == l.head:
			back = mergeStates(back, st)
		case !inside(to):
			out[bedge{from, to}] = mergeStates(out[bedge{from, to}], st)
		default:
			states[to] = mergeStates(states[to], st)
		}
		if len(states[to]) > 48 {
			f.lost = true
			states[to] = states[to][:48]
		}
	}
	for _, b := range rpo(f.fn) {
		if !inside(b) || len(states[b]) == 0 {
			continue
		}
		if h := holder(b); h != nil && h.head != b {
			continue // part of an inner loop
		}
		if m := inner(b); m != nil && (l == nil || l.body[b]) {
			for e, st := range f.loop(m, states[b], report) {
				push(e.from, e.to, st)
			}
			continue
		}
		st := f.block(b, states[b], report)
		f.succs(b, st, func(to *ssa.BasicBlock, st []bstate) { push(b, to, st) })
	}
	return
}

func (f *bflow) succs(b *ssa.BasicBlock, st []bstate, push func(*ssa.BasicBlock, []bstate)) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		for _, s := range b.Succs {
			push(s, st)
		}
		return
	}
	key, multi := f.conds[iff.Cond]
	for i, s := range b.Succs {
		var r []bstate
		for _, x := range st {
			if k, ok := iff.Cond.(*ssa.Const); ok && k.Value != nil {
				if constant.BoolVal(k.Value) != (i == 0) {
					continue
				}
			}
			if multi {
				if v, known := x.cond[key]; known {
					if v != (i == 0) {
						continue
					}
				} else {
					c := map[string]bool{key: i == 0}
					for k, v := range x.cond {
						c[k] = v
					}
					x.cond = c
				}
			}
			r = append(r, x)
		}
		if len(r) > 0 {
			push(s, r)
		}
	}
}

// loop summarises an inner loop.
func (f *bflow) loop(m *natLoop, in []bstate, report bool) map[bedge][]bstate {
	zero := []bstate{{bal: lin{}, later: lin{}}}
	exits := len(f.exits)
	_, back := f.region(m, m.head, zero, false)
	f.exits = f.exits[:exits]
	var deltas []lin
	have := map[string]bool{}
	for _, x := range back {
		d := x.bal.plus(x.later, 1)
		if !have[d.String()] {
			have[d.String()] = true
			deltas = append(deltas, d)
		}
	}
	sort.Slice(deltas, func(i, j int) bool { return deltas[i].String() < deltas[j].String() })
	out, _ := f.region(m, m.head, in, report)
	if len(deltas) == 0 || len(deltas) == 1 && len(deltas[0]) == 0 {
		return out
	}
	if len(deltas) > 1 {
		if report && f.uneven != nil {
			f.uneven(m, deltas)
		}
		f.lost = true
		return out
	}
	d := deltas[0]
	trip, exit := f.s.trip(m)
	r := map[bedge][]bstate{}
	for e, st := range out {
		if e.from == m.head && e.to == exit && trip != nil && len(d) == 1 && d[""] != 0 {
			for _, x := range st {
				x.bal = x.bal.plus(trip, d[""])
				r[e] = append(r[e], x)
			}
			continue
		}
		if trip != nil && report && f.early != nil {
			f.early(m, d)
		}
		for _, x := range st {
			x.bal = x.bal.plus(lin{"?loop": 1}, 1)
			r[e] = append(r[e], x)
		}
	}
	return r
}

func mergeStates(a, b []bstate) []bstate {
	have := map[string]bool{}
	for _, x := range a {
		have[x.key()] = true
	}
	for _, x := range b {
		if !have[x.key()] {
			have[x.key()] = true
			a = append(a[:len(a):len(a)], x)
		}
	}
	return a
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var r []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			walk(b.Succs[i])
		}
		r = append(r, b)
	}
	walk(fn.Blocks[0])
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (f *bflow) block(b *ssa.BasicBlock, st []bstate, report bool) []bstate {
	for _, ins := range b.Instrs {
		if report && f.seen != nil {
			for _, x := range st {
				f.seen(ins, x)
			}
		}
		switch x := ins.(type) {
		case *ssa.Return:
			f.exits = append(f.exits, st...)
			continue
		case *ssa.RunDefers:
			for i := range st {
				n := st[i]
				n.bal, n.later = n.bal.plus(n.later, 1), lin{}
				st = append(append(append([]bstate{}, st[:i]...), n), st[i+1:]...)
			}
			continue
		case *ssa.Defer:
			st = f.apply(st, f.s.effect(x, f.k), true)
			continue
		}
		st = f.apply(st, f.s.effect(ins, f.k), false)
	}
	return st
}

func (f *bflow) apply(st []bstate, ds []lin, later bool) []bstate {
	if len(ds) == 0 || len(ds) == 1 && len(ds[0]) == 0 {
		return st
	}
	var r []bstate
	for _, x := range st {
		for _, d := range ds {
			n := x
			if later {
				n.later = n.later.plus(d, 1)
			} else {
				n.bal = n.bal.plus(d, 1)
			}
			r = mergeStates(r, []bstate{n})
		}
	}
	return r
}

// effect is how an instruction may change a balance.
func (s *Sync) effect(ins ssa.Instruction, k bkey) []lin {
	if o, d, ok := s.syncOp(ins); ok {
		if o == k {
			return []lin{d}
		}
		return nil
	}
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if _, isGo := ins.(*ssa.Go); isGo && (k.kind == "w" || k.kind == "r") {
		return nil
	}
	var r []lin
	have := map[string]bool{}
	for _, f := range s.callees(ci) {
		any := false
		for e, ds := range s.effects(f) {
			if e.kind != k.kind {
				continue
			}
			to, ok := s.from(e.res, ci.Common(), f)
			if !ok || to != k.res {
				continue
			}
			any = true
			if _, isGo := ins.(*ssa.Go); isGo && len(ds) > 1 {
				ds = []lin{s.nominal(ds)}
			}
			for _, d := range ds {
				if !have[d.String()] {
					have[d.String()] = true
					r = append(r, d)
				}
			}
		}
		if !any && !have["0"] {
			have["0"] = true
			r = append(r, lin{})
		}
	}
	return r
}

// nominal is what a worker with uneven paths is meant to do.
func (s *Sync) nominal(ds []lin) lin {
	for _, d := range ds {
		if len(d) > 0 {
			return d
		}
	}
	return lin{}
}

// effects are the balances a function changes, of variables it does not own.
func (s *Sync) effects(fn *ssa.Function) map[bkey][]lin {
	if r, ok := s.effs[fn]; ok {
		return r
	}
	if s.doing[fn] || len(fn.Blocks) == 0 || !s.c.InModule(fn) {
		return nil
	}
	s.doing[fn] = true
	r := map[bkey][]lin{}
	for _, k := range s.keys(fn) {
		if k.res.local() {
			continue
		}
		ds := s.balance(fn, k, lin{}, &bflow{})
		if len(ds) == 1 && len(ds[0]) == 0 || len(ds) == 0 {
			continue
		}
		r[k] = ds
	}
	s.doing[fn] = false
	s.effs[fn] = r
	return r
}

// keys are the balances a function changes itself or through calls.
func (s *Sync) keys(fn *ssa.Function) []bkey {
	have := map[bkey]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if k, _, ok := s.syncOp(ins); ok {
				have[k] = true
				continue
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			_, isGo := ins.(*ssa.Go)
			for _, f := range s.callees(ci) {
				for e := range s.effects(f) {
					if isGo && (e.kind == "w" || e.kind == "r") {
						continue
					}
					if to, ok := s.from(e.res, ci.Common(), f); ok {
						have[bkey{to, e.kind}] = true
					}
				}
			}
		}
	}
	var r []bkey
	for k := range have {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		return a.kind+a.res.String() < b.kind+b.res.String()
	})
	return r
}

// escapes finds the variables whose operations are not followed: those a
// function value changes that is not called, started or deferred where it is
// made, method values, and channels in select statements or ranges.
func (s *Sync) escapes() {
	mark := func(r res) { s.open[r.String()] = true }
	for _, fn := range s.c.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Select:
					for _, st := range x.States {
						mark(s.of(st.Chan))
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && x.CommaOk {
						mark(s.of(x.X))
					}
				case *ssa.MakeChan:
					if s.handedOut(x, map[ssa.Value]bool{}) {
						mark(s.of(x))
					}
				case *ssa.Alloc:
					if n := typeName(x.Type()); (n == "WaitGroup" || n == "Mutex" || n == "RWMutex") && s.handedOut(x, map[ssa.Value]bool{}) {
						mark(s.of(x))
					}
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					if f.Synthetic != "" && strings.HasSuffix(f.Name(), "$bound") {
						mark(s.of(x.Bindings[0]))
						continue
					}
					free := true
					for _, ref := range *x.Referrers() {
						if ci, ok := ref.(ssa.CallInstruction); ok && ci.Common().Value == ssa.Value(x) {
							used := false
							for _, a := range ci.Common().Args {
								used = used || a == ssa.Value(x)
							}
							if !used {
								continue
							}
						}
						if _, ok := ref.(*ssa.DebugRef); ok {
							continue
						}
						if st, ok := ref.(*ssa.Store); ok {
							if al, ok := st.Addr.(*ssa.Alloc); ok && s.onlyCalled(al) {
								continue
							}
						}
						free = false
					}
					if free {
						continue
					}
					for e := range s.effects(f) {
						cc := &ssa.CallCommon{Value: x}
						if to, ok := s.from(e.res, cc, f); ok {
							mark(to)
						}
					}
				}
			}
		}
	}
	s.effs = map[*ssa.Function]map[bkey][]lin{}
}

// onlyCalled: the function variable is assigned once and then only called.
func (s *Sync) onlyCalled(al *ssa.Alloc) bool {
	st, esc := s.c.storesTo(al)
	if len(st) != 1 || esc {
		return false
	}
	for _, ref := range *al.Referrers() {
		u, ok := ref.(*ssa.UnOp)
		if !ok {
			if _, ok := ref.(*ssa.Store); ok {
				continue
			}
			return false
		}
		for _, r2 := range *u.Referrers() {
			ci, ok := r2.(ssa.CallInstruction)
			if !ok || ci.Common().Value != ssa.Value(u) {
				return false
			}
		}
	}
	return true
}

// acquires are the locks a function may take, itself or through calls that it
// waits for; with workers, also those taken by workers it waits for.
func (s *Sync) acquires() map[*ssa.Function]map[bkey]bool {
	if s.acq != nil {
		return s.acq
	}
	s.acq = map[*ssa.Function]map[bkey]bool{}
	waits := map[*ssa.Function]bool{}
	for _, fn := range s.c.Fns {
		s.acq[fn] = map[bkey]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if isWait(ins) {
					waits[fn] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range s.c.Fns {
			add := func(k bkey) {
				if !s.acq[fn][k] {
					s.acq[fn][k] = true
					changed = true
				}
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if k, d, ok := s.syncOp(ins); ok {
						if (k.kind == "w" || k.kind == "r") && d[""] > 0 {
							add(k)
						}
						continue
					}
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := ins.(*ssa.Go); isGo && !waits[fn] {
						continue
					}
					for k := range s.callAcquires(ci) {
						add(k)
					}
				}
			}
		}
	}
	return s.acq
}

// callAcquires are the locks a call may take, named by the caller.
func (s *Sync) callAcquires(ci ssa.CallInstruction) map[bkey]bool {
	r := map[bkey]bool{}
	take := func(f *ssa.Function, cc *ssa.CallCommon) {
		for k := range s.acq[f] {
			if to, ok := s.from(k.res, cc, f); ok {
				r[bkey{to, k.kind}] = true
			}
		}
	}
	for _, f := range s.callees(ci) {
		take(f, ci.Common())
	}
	// functions handed to the callee
	for _, a := range ci.Common().Args {
		if mk := s.closure(a); mk != nil {
			take(mk.Fn.(*ssa.Function), &ssa.CallCommon{Value: mk})
		}
	}
	return r
}

func isWait(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Call:
		return calleeName(&x.Call) == "(*sync.WaitGroup).Wait"
	}
	return false
}

// handedOut: the variable goes to places that are not followed.
func (s *Sync) handedOut(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef, *ssa.Send:
			if sd, ok := x.(*ssa.Send); ok && sd.X == v {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, ok := x.Type().Underlying().(*types.Chan); ok && s.handedOut(x, seen) {
					return true
				}
			}
		case *ssa.ChangeType:
			if s.handedOut(x, seen) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				f := x.Fn.(*ssa.Function)
				if b == v && i < len(f.FreeVars) && !strings.HasSuffix(f.Name(), "$bound") && s.handedOut(f.FreeVars[i], seen) {
					return true
				}
			}
		case *ssa.Store:
			if x.Addr == v {
				continue
			}
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok || s.handedOut(al, seen) {
				return true
			}
			if st, _ := s.c.storesTo(al); len(st) != 1 {
				return true
			}
		case ssa.CallInstruction:
			n := calleeName(x.Common())
			if strings.HasPrefix(n, "(*sync.") || n == "close" || n == "len" || n == "cap" {
				continue
			}
			fs := s.callees(x)
			if len(fs) == 0 {
				return true
			}
			for _, f := range fs {
				for i, a := range x.Common().Args {
					if a == v && (i >= len(f.Params) || s.handedOut(f.Params[i], seen)) {
						return true
					}
				}
			}
		default:
			return true
		}
	}
	return false
}
