package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P01: memory shared between workers or requests is synchronised.

func init() { register("P01", p01) }

// access is one way in which a function, with everything it calls or starts,
// uses a variable.
type access struct {
	res   res
	write bool
	locks string // locks held on every path, sorted, each followed by ";"
	tail  string // completion signals that may have been given before
	apart bool   // an element of a slice, selected by a value of the worker
	ins   ssa.Instruction
	loose bool // made by a worker that is not waited for
}

func (a access) key() string {
	return fmt.Sprint(a.res.String(), a.write, a.locks, a.tail, a.apart, a.loose)
}

type races struct {
	c    *Ctx
	s    *Sync
	must map[*ssa.Function]map[ssa.Instruction]map[bkey]bool
	acc  map[*ssa.Function]map[string]access
	join map[*ssa.Go][]res
}

func p01(c *Ctx, r *Report) {
	r.Rule("for every worker, what it and everything it calls or starts reads and writes (variables named by the paths that lead to them from captured variables, parameters and globals, with the locks held) is compared with what its starter does before waiting for it, with other workers that may run at the same time and with itself if it is started in a loop: no conflicting pair lacks a common lock")
	r.Rule("package variables and variables captured by handlers that are written while serving are only used under a common lock")
	r.Rule("nothing reachable from a loaded filing or from a cache entry is written without a lock (points-to analysis as for P07)")
	r.Rule("a wait orders only what a worker did before it signalled completion")
	r.Assume("library functions other than those listed as writing to their argument only read it; the cache and the HTTP server synchronise themselves")
	rc := &races{c: c, s: c.Sync(), must: map[*ssa.Function]map[ssa.Instruction]map[bkey]bool{}, acc: map[*ssa.Function]map[string]access{}, join: map[*ssa.Go][]res{}}
	rc.s.acquires()
	rc.summaries()
	nGo, nPairs := 0, 0
	for _, fn := range c.Fns {
		nGo += rc.workers(r, fn, &nPairs)
	}
	r.Count("workers", nGo)
	r.Count("pairs of accesses compared", nPairs)
	rc.serving(r)
	// shared filings
	seen := map[ssa.Instruction]bool{}
	judged := 0
	p07scan(c, r, func(in *vinst, ins ssa.Instruction, target *vcell, how string) {
		judged++
		if target.obj == nil || !target.obj.shared || seen[ins] {
			return
		}
		seen[ins] = true
		for _, held := range rc.held(in.fn)[ins] {
			if held {
				return
			}
		}
		if heldByCallers(rc, in.fn, 0) {
			return
		}
		what := sharedName(target)
		r.Bad("shared", c.FnName(in.fn)+" "+how+" "+what, c.PosOf(ins), "%s %s %s, which other requests use at the same time", c.FnName(in.fn), how, what)
	})
	r.Count("writes traced to their targets", judged)
}

func heldByCallers(rc *races, fn *ssa.Function, depth int) bool {
	calls := rc.c.Callers(fn)
	if len(calls) == 0 || depth > 3 {
		return false
	}
	for _, ci := range calls {
		if _, ok := ci.(*ssa.Go); ok {
			return false
		}
		if len(rc.held(ci.Parent())[ci]) == 0 && !heldByCallers(rc, ci.Parent(), depth+1) {
			return false
		}
	}
	return true
}

// held are the locks held on every path to an instruction.
func (rc *races) held(fn *ssa.Function) map[ssa.Instruction]map[bkey]bool {
	if m, ok := rc.must[fn]; ok {
		return m
	}
	m := map[ssa.Instruction]map[bkey]bool{}
	rc.must[fn] = m
	if len(fn.Blocks) == 0 {
		return m
	}
	for _, k := range rc.s.keys(fn) {
		if k.kind != "w" && k.kind != "r" {
			continue
		}
		seen := map[ssa.Instruction]bool{}
		free := map[ssa.Instruction]bool{}
		rc.s.balance(fn, k, lin{}, &bflow{seen: func(ins ssa.Instruction, st bstate) {
			seen[ins] = true
			if st.bal[""] <= 0 {
				free[ins] = true
			}
		}})
		for ins := range seen {
			if !free[ins] {
				if m[ins] == nil {
					m[ins] = map[bkey]bool{}
				}
				m[ins][k] = true
			}
		}
	}
	// what follows a sync.Once is ordered after its function
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok || calleeName(&call.Call) != "(*sync.Once).Do" {
				continue
			}
			k := bkey{rc.s.of(call.Call.Args[0]), "w"}
			add := func(x ssa.Instruction) {
				if m[x] == nil {
					m[x] = map[bkey]bool{}
				}
				m[x][k] = true
			}
			for _, x := range b.Instrs[i:] {
				add(x)
			}
			for _, d := range fn.Blocks {
				if d != b && b.Dominates(d) {
					for _, x := range d.Instrs {
						add(x)
					}
				}
			}
		}
	}
	return m
}

func lockNames(m map[bkey]bool) string {
	var s []string
	for k := range m {
		s = append(s, k.kind+"\x01"+k.res.base+"\x01"+k.res.path)
	}
	sort.Strings(s)
	return joinLocks(s)
}

func joinLocks(s []string) string {
	out := ""
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			out += x + ";"
		}
	}
	return out
}

func splitLocks(s string) []bkey {
	var r []bkey
	for _, x := range strings.Split(s, ";") {
		if p := strings.Split(x, "\x01"); len(p) == 3 {
			r = append(r, bkey{res{p[1], p[2]}, p[0]})
		}
	}
	return r
}

// protected: both accesses hold a common lock, exclusively where they write.
func protected(a, b access) bool {
	for _, x := range splitLocks(a.locks) {
		for _, y := range splitLocks(b.locks) {
			if x.res != y.res {
				continue
			}
			if (!a.write || x.kind == "w") && (!b.write || y.kind == "w") {
				return true
			}
		}
	}
	return false
}

const maxPath = 9

// own are the accesses an instruction makes itself.
func (rc *races) own(ins ssa.Instruction) []access {
	s := rc.s
	var r []access
	add := func(x res, write, apart bool) {
		r = append(r, access{res: x, write: write, apart: apart, ins: ins})
	}
	elem := func(v ssa.Value) res { return s.of(v).op("[]") }
	switch x := ins.(type) {
	case *ssa.Store:
		v, apart := rc.place(x.Addr)
		add(v, true, apart)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			v, apart := rc.place(x.X)
			add(v, false, apart)
		}
	case *ssa.MapUpdate:
		add(elem(x.Map), true, false)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			add(elem(x.X), false, false)
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			add(elem(x.X), false, false)
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "delete", "clear":
				add(elem(cc.Args[0]), true, false)
			case "len":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					add(elem(cc.Args[0]), false, false)
				}
			}
			return r
		}
		f := cc.StaticCallee()
		if f == nil || rc.c.InModule(f) {
			return r
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		n := stdFuncName(f)
		if i, ok := inPlace[n]; ok && i < len(cc.Args) {
			v := stripConv(cc.Args[i])
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			switch v.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				add(elem(v), true, false)
			case *types.Pointer:
				add(s.of(v), true, false)
			}
			return r
		}
		if strings.HasPrefix(n, "sync/atomic.") && len(cc.Args) > 0 {
			if _, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				add(s.of(cc.Args[0]), !strings.Contains(n, "Load"), false)
				r[len(r)-1].locks = "w\x01atomic\x01;"
			}
			return r
		}
		if rv := f.Signature.Recv(); rv != nil && len(cc.Args) > 0 && stateful(rv.Type()) {
			add(s.of(cc.Args[0]).op(".state"), true, false)
		}
	}
	return r
}

// stateful: types of the standard library whose methods change them.
func stateful(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "strings.Builder", "bufio.Reader", "bufio.Writer", "bufio.Scanner", "encoding/xml.Decoder", "encoding/xml.Encoder",
		"encoding/json.Decoder", "encoding/json.Encoder", "container/list.List", "math/rand.Rand", "strings.Reader", "bytes.Reader", "golang.org/x/net/html.Tokenizer":
		return true
	}
	return false
}

// place names the variable at an address; elements of slices selected by a
// computed index are told apart from those selected by a constant.
func (rc *races) place(addr ssa.Value) (res, bool) {
	switch x := addr.(type) {
	case *ssa.IndexAddr:
		var base res
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			base, _ = rc.place(x.X)
		} else {
			base = rc.s.of(x.X)
		}
		if k, ok := x.Index.(*ssa.Const); ok && k.Value != nil {
			return base.op("[" + k.Value.ExactString() + "]"), false
		}
		return base.op("[]"), true
	case *ssa.FieldAddr:
		base, apart := rc.place(x.X)
		f, _ := fieldName(deref(x.X.Type()), x.Field)
		return base.op("." + f), apart
	}
	return rc.s.of(addr), false
}

// at are the accesses an instruction makes, itself or through calls, named by
// its function.
func (rc *races) at(ins ssa.Instruction) []access {
	fn := ins.Parent()
	locks := lockNames(rc.held(fn)[ins])
	var r []access
	for _, a := range rc.own(ins) {
		a.locks = mergeLocks(locks, a.locks)
		r = append(r, a)
	}
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return r
	}
	if _, isGo := ins.(*ssa.Go); isGo {
		locks = ""
	}
	once := ""
	if calleeName(ci.Common()) == "(*sync.Once).Do" {
		once = lockNames(map[bkey]bool{{rc.s.of(ci.Common().Args[0]), "w"}: true})
	}
	from := func(f *ssa.Function, cc *ssa.CallCommon) {
		for _, a := range rc.acc[f] {
			to, ok := rc.s.from(a.res, cc, f)
			if !ok || strings.Count(to.path, " ") > maxPath {
				continue
			}
			b := access{res: to, write: a.write, apart: a.apart, ins: ins, loose: a.loose}
			var ls []string
			for _, k := range splitLocks(a.locks) {
				if k.res.base == "atomic" {
					ls = append(ls, k.kind+"\x01atomic\x01")
				} else if to, ok := rc.s.from(k.res, cc, f); ok {
					ls = append(ls, k.kind+"\x01"+to.base+"\x01"+to.path)
				}
			}
			sort.Strings(ls)
			b.locks = joinLocks(ls)
			if !a.loose {
				b.locks = mergeLocks(locks, mergeLocks(once, b.locks))
			}
			if g, isGo := ins.(*ssa.Go); isGo {
				b.loose = b.loose || len(rc.joins(g)) == 0
				// signals given before
				for _, k := range splitLocks(a.tail) {
					if to, ok := rc.s.from(k.res, cc, f); ok {
						b.tail = mergeLocks(b.tail, k.kind+"\x01"+to.base+"\x01"+to.path+";")
					}
				}
			}
			r = append(r, b)
		}
	}
	for _, f := range rc.s.callees(ci) {
		from(f, ci.Common())
	}
	for _, a := range ci.Common().Args {
		if mk := rc.s.closure(a); mk != nil && len(rc.s.callees(ci)) == 0 {
			from(mk.Fn.(*ssa.Function), &ssa.CallCommon{Value: mk})
		}
	}
	return r
}

func mergeLocks(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	s := append(strings.Split(strings.TrimSuffix(a, ";"), ";"), strings.Split(strings.TrimSuffix(b, ";"), ";")...)
	sort.Strings(s)
	return joinLocks(s)
}

// summaries computes what each function accesses of what it does not own.
func (rc *races) summaries() {
	for _, fn := range rc.c.Fns {
		rc.acc[fn] = map[string]access{}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range rc.c.Fns {
			tails := rc.tails(fn)
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, a := range rc.at(ins) {
						if a.res.local() {
							continue
						}
						if _, isGo := ins.(*ssa.Go); !isGo {
							a.tail = ""
						}
						if t := tails[ins]; t != "" {
							a.tail = mergeLocks(a.tail, t)
						}
						if _, ok := rc.acc[fn][a.key()]; !ok {
							rc.acc[fn][a.key()] = a
							changed = true
						}
					}
				}
			}
		}
	}
}

// tails: for each instruction of a worker, the completion signals that may
// have been given before it.
func (rc *races) tails(fn *ssa.Function) map[ssa.Instruction]string {
	r := map[ssa.Instruction]string{}
	var deferred []*ssa.Defer
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				deferred = append(deferred, d)
			}
			k, isSignal := rc.signal(ins)
			if !isSignal {
				continue
			}
			name := k.kind + "\x01" + k.res.base + "\x01" + k.res.path + ";"
			if d, ok := ins.(*ssa.Defer); ok {
				// runs before what was deferred earlier
				for _, e := range deferred {
					if e != d && (e.Block().Dominates(d.Block())) {
						r[e] = mergeLocks(r[e], name)
					}
				}
				continue
			}
			// everything that can follow
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, from int)
			walk = func(b *ssa.BasicBlock, from int) {
				for _, x := range b.Instrs[from:] {
					r[x] = mergeLocks(r[x], name)
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						walk(s, 0)
					}
				}
			}
			walk(b, i+1)
		}
	}
	return r
}

// signal recognises a completion signal, given directly or by a call.
func (rc *races) signal(ins ssa.Instruction) (bkey, bool) {
	if k, d, ok := rc.s.syncOp(ins); ok {
		switch k.kind {
		case "wg":
			return k, d[""] < 0
		case "ch", "close":
			return k, d[""] > 0
		}
		return k, false
	}
	if ci, ok := ins.(ssa.CallInstruction); ok {
		if _, isGo := ins.(*ssa.Go); isGo {
			return bkey{}, false
		}
		for _, f := range rc.s.callees(ci) {
			for k, ds := range rc.s.effects(f) {
				if k.kind != "wg" && k.kind != "ch" && k.kind != "close" {
					continue
				}
				for _, d := range ds {
					if k.kind == "wg" && d[""] < 0 || k.kind != "wg" && d[""] > 0 {
						if to, ok := rc.s.from(k.res, ci.Common(), f); ok {
							return bkey{to, k.kind}, true
						}
					}
				}
			}
		}
	}
	return bkey{}, false
}

// joins are the variables through which the end of a worker can be awaited.
func (rc *races) joins(g *ssa.Go) []res {
	if r, ok := rc.join[g]; ok {
		return r
	}
	var r []res
	for _, f := range rc.s.callees(g) {
		for k, ds := range rc.s.effects(f) {
			for _, d := range ds {
				if k.kind == "wg" && d[""] < 0 || (k.kind == "ch" || k.kind == "close") && d[""] > 0 {
					if to, ok := rc.s.from(k.res, g.Common(), f); ok {
						r = append(r, to)
					}
				}
			}
		}
	}
	rc.join[g] = r
	return r
}

// awaits: the instruction waits on one of the variables.
func (rc *races) awaits(ins ssa.Instruction, on []res) bool {
	for _, o := range on {
		if rc.s.open[o.String()] && rc.waits(ins, 0) {
			return true // handed around: any wait may be for it
		}
	}
	var x res
	switch i := ins.(type) {
	case *ssa.UnOp:
		if i.Op != token.ARROW {
			return false
		}
		x = rc.s.of(i.X)
	case *ssa.Call:
		if calleeName(&i.Call) != "(*sync.WaitGroup).Wait" {
			// a helper that waits
			for _, f := range rc.s.callees(i) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if !isWait(in) {
							continue
						}
						var w res
						switch y := in.(type) {
						case *ssa.UnOp:
							w = rc.s.of(y.X)
						case *ssa.Call:
							w = rc.s.of(y.Call.Args[0])
						}
						if to, ok := rc.s.from(w, &i.Call, f); ok {
							for _, o := range on {
								if o == to {
									return true
								}
							}
						}
					}
				}
			}
			return false
		}
		x = rc.s.of(i.Call.Args[0])
	case *ssa.Select:
		for _, st := range i.States {
			for _, o := range on {
				if o == rc.s.of(st.Chan) {
					return true
				}
			}
		}
		return false
	default:
		return false
	}
	for _, o := range on {
		if o == x {
			return true
		}
	}
	return false
}

// waits: the instruction waits for something, itself or through a call.
func (rc *races) waits(ins ssa.Instruction, depth int) bool {
	if isWait(ins) {
		return true
	}
	if _, ok := ins.(*ssa.Select); ok {
		return true
	}
	call, ok := ins.(*ssa.Call)
	if !ok || depth > 3 {
		return false
	}
	for _, f := range rc.s.callees(call) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if rc.waits(in, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// meets: two names may denote overlapping storage.
func meets(a, b res) bool {
	if a.base != b.base {
		return false
	}
	x, y := a.path, b.path
	if len(x) > len(y) {
		x, y = y, x
	}
	pa, pb := strings.Fields(x), strings.Fields(y)
	for i := range pa {
		if pa[i] == pb[i] {
			continue
		}
		if strings.HasPrefix(pa[i], "[") && strings.HasPrefix(pb[i], "[") && (pa[i] == "[]" || pb[i] == "[]") {
			continue
		}
		return false
	}
	for _, o := range pb[len(pa):] {
		if o == "*" {
			return false // elsewhere
		}
	}
	// contents of a map or slice are not part of the variable that holds it
	if len(pb) > len(pa) && strings.HasPrefix(pb[len(pa)], "[") && len(pa) > 0 && pa[len(pa)-1] == "*" {
		return false
	}
	return true
}

type starter struct {
	ins  ssa.Instruction
	acc  []access
	join []res
}

// workers compares each worker started by a function with what may run at the
// same time.
func (rc *races) workers(r *Report, fn *ssa.Function, pairs *int) int {
	c := rc.c
	if rc.s.loops[fn] == nil {
		rc.s.loops[fn] = naturalLoops(fn)
	}
	loops := rc.s.loops[fn]
	var ws []starter
	n := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Go:
				n++
				r.Fn(c, fn)
				ws = append(ws, starter{ins, rc.at(ins), rc.joins(x)})
			case *ssa.Call:
				if calleeName(&x.Call) == "(*sync.WaitGroup).Go" && len(x.Call.Args) > 1 {
					if mk := rc.s.closure(x.Call.Args[1]); mk != nil {
						n++
						ws = append(ws, starter{ins, rc.at(ins), []res{rc.s.of(x.Call.Args[0])}})
						continue
					}
				}
				// workers left behind by a call
				var loose []access
				for _, a := range rc.at(ins) {
					if a.loose {
						loose = append(loose, a)
					}
				}
				if len(loose) > 0 {
					ws = append(ws, starter{ins, loose, nil})
				}
			}
		}
	}
	if len(ws) == 0 {
		return 0
	}
	reported := map[string]bool{}
	report := func(a, b access, why string) {
		if !a.write {
			a, b = b, a
		}
		key := show(a.res)
		if reported[key] {
			return
		}
		reported[key] = true
		r.Bad("race", c.FnName(fn)+" "+key, c.PosOf(a.ins), "%s: %s is written by %s while %s", c.FnName(fn), key, "one worker", why)
	}
	inner := func(b *ssa.BasicBlock, v string) *natLoop {
		// the innermost loop around b that also holds the variable
		al, ok := rc.s.allocs[v].(ssa.Instruction)
		if !ok || al.Parent() != fn {
			return nil
		}
		var best *natLoop
		for _, l := range loops {
			if l.body[b] && l.body[al.Block()] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}
		return best
	}
	for i, w := range ws {
		// what the starter does before waiting
		during := map[*ssa.BasicBlock]map[ssa.Instruction]bool{} // by loop head not to be passed
		reachFrom := func(avoid *ssa.BasicBlock, join []res) map[ssa.Instruction]bool {
			m := map[ssa.Instruction]bool{}
			seen := map[*ssa.BasicBlock]bool{}
			for _, l := range loops {
				if l.body[w.ins.Block()] {
					continue
				}
				for b := range l.body {
					for _, x := range b.Instrs {
						if rc.awaits(x, join) {
							seen[l.head] = true // waits as often as there are workers (P02)
						}
					}
				}
			}
			var walk func(b *ssa.BasicBlock, from int)
			walk = func(b *ssa.BasicBlock, from int) {
				for _, x := range b.Instrs[from:] {
					if rc.awaits(x, join) {
						return
					}
					m[x] = true
				}
				for _, s := range b.Succs {
					if !seen[s] && s != avoid {
						seen[s] = true
						walk(s, 0)
					}
				}
			}
			for j, x := range w.ins.Block().Instrs {
				if x == w.ins {
					walk(w.ins.Block(), j+1)
				}
			}
			return m
		}
		for _, a := range w.acc {
			join := w.join
			if a.loose {
				join = nil
			}
			for _, k := range splitLocks(a.tail) {
				// done after the signal: not covered by the wait
				var rest []res
				for _, j := range join {
					if j != k.res {
						rest = append(rest, j)
					}
				}
				join = rest
			}
			var avoid *ssa.BasicBlock
			if l := inner(w.ins.Block(), a.res.base); l != nil {
				avoid = l.head
			}
			var m map[ssa.Instruction]bool
			if len(join) == len(w.join) {
				if during[avoid] == nil {
					during[avoid] = reachFrom(avoid, join)
				}
				m = during[avoid]
			} else {
				m = reachFrom(avoid, join)
			}
			for x := range m {
				for j, w2 := range ws {
					if w2.ins != x {
						continue
					}
					// two workers
					if j == i && avoid != nil {
						continue
					}
					for _, o := range w2.acc {
						*pairs++
						if (!a.write && !o.write) || !meets(a.res, o.res) || protected(a, o) {
							continue
						}
						if a.apart && o.apart {
							continue // each its own element
						}
						if perIteration(rc, fn, loops, w, a) && j == i {
							continue
						}
						report(a, o, "another may use it")
					}
				}
				if _, isGo := x.(*ssa.Go); isGo {
					continue
				}
				for _, o := range rc.at(x) {
					*pairs++
					if (!a.write && !o.write) || !meets(a.res, o.res) || protected(a, o) {
						continue
					}
					report(a, o, "its starter may use it before waiting for the worker (at "+c.PosOf(x)+")")
				}
			}
		}
		r.OK(fmt.Sprintf("worker %d of %s", i+1, c.FnName(fn)))
	}
	return n
}

// perIteration: the variable is another one in each iteration of the loop that
// starts the worker.
func perIteration(rc *races, fn *ssa.Function, loops []*natLoop, w starter, a access) bool {
	v, ok := rc.s.allocs[a.res.base]
	if !ok {
		return false
	}
	ins, ok := v.(ssa.Instruction)
	if !ok || ins.Parent() != fn {
		return false
	}
	for _, l := range loops {
		if l.body[w.ins.Block()] && l.body[ins.Block()] {
			return true
		}
	}
	return false
}

// serving compares what requests do with package variables and with variables
// captured by handlers.
func (rc *races) serving(r *Report) {
	c := rc.c
	type use struct {
		access
		by *ssa.Function
	}
	uses := map[string][]use{}
	n := 0
	for _, fn := range c.Fns {
		if !isHandler(fn) && !servingEntry(c, fn) {
			continue
		}
		n++
		r.Fn(c, fn)
		for _, a := range rc.acc[fn] {
			switch {
			case a.res.base[0] == 'G':
				uses[a.res.base] = append(uses[a.res.base], use{a, fn})
			case a.res.base[0] == 'F' && isHandler(fn):
				k := c.FnName(fn) + a.res.base
				uses[k] = append(uses[k], use{a, fn})
			}
		}
	}
	// main starts the server and carries on
	for _, fn := range c.Fns {
		if fn.Parent() != nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if !startsServer(rc, ins) {
					continue
				}
				for _, d := range fn.Blocks {
					for _, x := range d.Instrs {
						if x == ins || !reachesInstr(ins, x) {
							continue
						}
						for _, a := range rc.at(x) {
							if a.res.base[0] == 'G' && a.write {
								uses[a.res.base] = append(uses[a.res.base], use{a, fn})
							}
						}
					}
				}
			}
		}
	}
	var names []string
	for k := range uses {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		bad := false
		for i, a := range uses[k] {
			for _, b := range uses[k][i:] {
				if bad || !a.write && !b.write || !meets(a.res, b.res) || protected(a.access, b.access) {
					continue
				}
				bad = true
				w := a
				if !a.write {
					w = b
				}
				r.Bad("serving", c.FnName(w.by)+" "+show(w.res), c.PosOf(rc.deepest(w.by, w.access, 0)), "%s is written while requests are served, without a lock that all its uses hold", show(w.res))
			}
		}
		if !bad {
			r.OK("requests use " + k + " safely")
		}
	}
	r.Count("serving entry points", n)
}

// deepest follows calls to where an access is made.
func (rc *races) deepest(fn *ssa.Function, a access, depth int) ssa.Instruction {
	ci, ok := a.ins.(ssa.CallInstruction)
	if !ok || depth > 12 || a.res.base[0] != 'G' {
		return a.ins
	}
	for _, f := range rc.s.callees(ci) {
		for _, b := range rc.acc[f] {
			if b.res == a.res && b.write == a.write {
				return rc.deepest(f, b, depth+1)
			}
		}
	}
	return a.ins
}

func servingEntry(c *Ctx, fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	switch c.RelPkg(fn) {
	case "pkg/cache", "pkg/renderables":
		return strings.HasPrefix(fn.Name(), "Marshal")
	case "pkg/hydratables":
		return strings.HasPrefix(fn.Name(), "Hydrate")
	case "pkg/serializables":
		return strings.HasPrefix(fn.Name(), "Discover") || strings.HasPrefix(fn.Name(), "Read") || strings.HasPrefix(fn.Name(), "Decode")
	}
	return false
}

// startsServer: the instruction starts a worker that serves requests.
func startsServer(rc *races, ins ssa.Instruction) bool {
	g, ok := ins.(*ssa.Go)
	if !ok {
		return false
	}
	is := func(cc *ssa.CallCommon) bool {
		return strings.Contains(calleeName(cc), "ListenAndServe") || strings.HasSuffix(calleeName(cc), "Server).Serve")
	}
	if is(g.Common()) {
		return true
	}
	for _, f := range rc.s.callees(g) {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if ci, ok := x.(ssa.CallInstruction); ok && is(ci.Common()) {
					return true
				}
			}
		}
	}
	return false
}
