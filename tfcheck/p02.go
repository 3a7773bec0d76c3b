package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P02: locks, waits and completion signals balance.

func init() { register("P02", p02) }

func p02(c *Ctx, r *Report) {
	r.Rule("on every path of every function the number of unlocks equals the number of locks of the same variable (deferred calls and helpers included), unless every caller makes up for the difference")
	r.Rule("no lock is taken, directly or in a call, where it may already be held; none is held across a wait for a worker that takes it; the order of nested locks has no cycle")
	r.Rule("at every Wait the workers started equal the workers announced, as linear expressions over lengths; none is started before it is announced; every worker signals equally often on each of its paths")
	r.Rule("every receive from a local channel has a sender that was started before, and every value sent on an unbuffered one is received")
	r.Rule("no lock or wait group is copied")
	r.Assume("workers end by returning, not by panicking (P03, P04)")
	s := c.Sync()
	s.acquires()
	order := map[[2]string]string{}
	nOps, nGo, nWait := 0, 0, 0
	for _, fn := range c.Fns {
		if len(fn.Blocks) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if _, _, ok := s.syncOp(ins); ok {
					nOps++
				}
				if _, ok := ins.(*ssa.Go); ok {
					nGo++
				}
				if isWait(ins) {
					nWait++
				}
			}
		}
		p02copies(c, r, fn)
		keys := s.keys(fn)
		if len(keys) > 0 {
			r.Fn(c, fn)
		}
		held := map[ssa.Instruction]map[bkey]bool{}
		for _, k := range keys {
			what := c.FnName(fn) + " " + show(k.res)
			if s.open[k.res.String()] {
				r.Open(what + " is used in ways that are not followed")
				continue
			}
			switch k.kind {
			case "w", "r":
				p02lock(c, r, s, fn, k, held)
			case "wg":
				p02wait(c, r, s, fn, k)
			case "ch":
				p02chan(c, r, s, fn, k, keys)
			}
		}
		p02held(c, r, s, fn, held, order)
	}
	// cycles among nested locks
	var edges [][2]string
	for e := range order {
		edges = append(edges, e)
	}
	sort.Slice(edges, func(i, j int) bool { return edges[i][0]+edges[i][1] < edges[j][0]+edges[j][1] })
	reach := map[string]map[string]bool{}
	for _, e := range edges {
		if reach[e[0]] == nil {
			reach[e[0]] = map[string]bool{}
		}
		reach[e[0]][e[1]] = true
	}
	for changed := true; changed; {
		changed = false
		for a := range reach {
			for b := range reach[a] {
				for d := range reach[b] {
					if !reach[a][d] {
						reach[a][d] = true
						changed = true
					}
				}
			}
		}
	}
	for _, e := range edges {
		if reach[e[1]][e[0]] {
			r.Bad("order", e[0]+" "+e[1], order[e], "%s is taken while %s is held, and elsewhere the other way round", e[1], e[0])
		} else {
			r.OK(e[0] + " before " + e[1])
		}
	}
	r.Count("lock, wait-group and channel operations", nOps)
	r.Count("workers started", nGo)
	r.Count("waits", nWait)
	r.Count("nested lock pairs", len(edges))
}

// show is a readable name of a variable.
func show(x res) string {
	n := x.base
	if i := strings.LastIndex(n, ":"); i >= 0 && n[0] != 'G' {
		n = n[i+1:]
	}
	return strings.TrimPrefix(n, "G:") + strings.ReplaceAll(strings.ReplaceAll(x.path, "* ", ""), " ", "")
}

func p02lock(c *Ctx, r *Report, s *Sync, fn *ssa.Function, k bkey, held map[ssa.Instruction]map[bkey]bool) {
	what := c.FnName(fn) + " " + show(k.res)
	verb := map[string]string{"w": "lock", "r": "read lock"}[k.kind]
	sync := callersOnly(c, s, fn)
	bad := false
	below := ssa.Instruction(nil)
	f := &bflow{
		seen: func(ins ssa.Instruction, st bstate) {
			if st.bal[""] > 0 && !st.bal.unknown() {
				if held[ins] == nil {
					held[ins] = map[bkey]bool{}
				}
				held[ins][k] = true
			}
			if o, d, ok := s.syncOp(ins); ok && o == k && d[""] < 0 && st.bal[""] <= 0 {
				if _, def := ins.(*ssa.Defer); !def && !st.bal.unknown() {
					below = ins
				}
			}
		},
		uneven: func(l *natLoop, ds []lin) {
			bad = true
			r.Bad("balance", what, c.PosOf(firstOp(s, fn, k)), "%s: some iterations of a loop leave the %s on %s held or released", c.FnName(fn), verb, show(k.res))
		},
	}
	exits := s.balance(fn, k, lin{}, f)
	if bad {
		return
	}
	if f.lost {
		r.Open(what + ": too many paths")
		return
	}
	switch {
	case len(exits) == 0:
		return
	case len(exits) > 1:
		r.Bad("balance", what, c.PosOf(firstOp(s, fn, k)), "%s leaves the %s on %s held (or releases it once too often) on some paths: balances at return are %s", c.FnName(fn), verb, show(k.res), linList(exits))
	case exits[0].unknown():
		r.Open(what)
	case len(exits[0]) > 0 && !sync:
		r.Bad("balance", what, c.PosOf(firstOp(s, fn, k)), "%s returns with a balance of %s for the %s on %s", c.FnName(fn), exits[0], verb, show(k.res))
	case below != nil && !sync:
		r.Bad("balance", what, c.PosOf(below), "%s releases the %s on %s where it is not held", c.FnName(fn), verb, show(k.res))
	default:
		r.OK(c.FnName(fn) + " releases " + show(k.res) + " on every path")
	}
}

func linList(ls []lin) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.String())
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// firstOp is the first operation on a variable in a function.
func firstOp(s *Sync, fn *ssa.Function, k bkey) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if o, _, ok := s.syncOp(ins); ok && o == k {
				return ins
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, d := range s.effect(ins, k) {
				if len(d) > 0 {
					return ins
				}
			}
		}
	}
	return fn.Blocks[0].Instrs[0]
}

// callersOnly: the function is only ever called, by functions of the module.
func callersOnly(c *Ctx, s *Sync, fn *ssa.Function) bool {
	n := 0
	for _, ci := range c.Callers(fn) {
		if _, ok := ci.(*ssa.Go); ok {
			return false
		}
		if !c.InModule(ci.Parent()) {
			return false
		}
		n++
	}
	return n > 0
}

// p02held: what happens while a lock is held.
func p02held(c *Ctx, r *Report, s *Sync, fn *ssa.Function, held map[ssa.Instruction]map[bkey]bool, order map[[2]string]string) {
	var gos []*ssa.Go
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if g, ok := ins.(*ssa.Go); ok {
				gos = append(gos, g)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			hs := held[ins]
			if len(hs) == 0 {
				continue
			}
			switch ins.(type) {
			case *ssa.Defer, *ssa.Go:
				continue
			}
			if k, d, ok := s.syncOp(ins); ok {
				if k.kind != "w" && k.kind != "r" || d[""] < 0 {
					if k.kind == "ch" {
						p02blocked(c, r, s, fn, ins, hs, gos, k.res)
					}
					continue
				}
				if hs[bkey{k.res, "w"}] || hs[bkey{k.res, "r"}] {
					r.Bad("relock", c.FnName(fn)+" "+show(k.res), c.PosOf(ins), "%s takes the lock on %s where it may already hold it", c.FnName(fn), show(k.res))
				} else {
					r.OK(c.FnName(fn) + " takes " + show(k.res) + " while holding another lock")
				}
				for h := range hs {
					if h.res != k.res {
						order[[2]string{s.class(fn, h.res), s.class(fn, k.res)}] = c.PosOf(ins)
					}
				}
				continue
			}
			if isWait(ins) {
				if call, ok := ins.(*ssa.Call); ok {
					p02blocked(c, r, s, fn, ins, hs, gos, s.of(call.Call.Args[0]))
				}
				continue
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for k := range s.callAcquires(ci) {
				if hs[bkey{k.res, "w"}] || hs[bkey{k.res, "r"}] {
					releases := false
					for _, d := range append(s.effect(ins, bkey{k.res, "w"}), s.effect(ins, bkey{k.res, "r"})...) {
						releases = releases || d[""] < 0
					}
					if !releases {
						r.Bad("relock", c.FnName(fn)+" "+show(k.res)+" call", c.PosOf(ins), "%s makes a call that takes the lock on %s (or waits for a worker that does) where it may already hold it", c.FnName(fn), show(k.res))
					}
					continue
				}
				for h := range hs {
					order[[2]string{s.class(fn, h.res), s.class(fn, k.res)}] = c.PosOf(ins)
				}
			}
			if len(s.callees(ci)) > 0 {
				r.OK(c.FnName(fn) + " calls a function while holding a lock")
			}
		}
	}
}

// p02blocked: a wait for workers that need a lock held here.
func p02blocked(c *Ctx, r *Report, s *Sync, fn *ssa.Function, ins ssa.Instruction, hs map[bkey]bool, gos []*ssa.Go, on res) {
	for _, g := range gos {
		concerned := false
		for _, kind := range []string{"wg", "ch", "close"} {
			for _, d := range s.effect(g, bkey{on, kind}) {
				concerned = concerned || len(d) > 0
			}
		}
		if !concerned {
			continue
		}
		for k := range s.callAcquires(g) {
			if hs[bkey{k.res, "w"}] || hs[bkey{k.res, "r"}] && k.kind == "w" {
				r.Bad("wait", c.FnName(fn)+" "+show(k.res), c.PosOf(ins), "%s waits for a worker that takes the lock on %s while holding it", c.FnName(fn), show(k.res))
				return
			}
		}
	}
	r.OK(c.FnName(fn) + " waits while holding a lock its workers do not need")
}

// class names a lock independently of the function: a global, or a field of a
// type.
func (s *Sync) class(fn *ssa.Function, x res) string {
	if x.base[0] == 'G' && x.path == "" {
		return show(x)
	}
	var t types.Type
	var i int
	switch x.base[0] {
	case 'P':
		fmt.Sscanf(x.base, "P%d", &i)
		t = fn.Params[i].Type()
	case 'F':
		fmt.Sscanf(x.base, "F%d", &i)
		t = fn.FreeVars[i].Type()
	default:
		if v := s.allocs[x.base]; v != nil {
			t = v.Type()
		}
	}
	name := ""
	for _, o := range strings.Fields(x.path) {
		if t == nil {
			break
		}
		if o == "*" {
			t = deref(t)
			continue
		}
		t = deref(t)
		name = typeName(t) + o
		st, ok := t.Underlying().(*types.Struct)
		t = nil
		for i := 0; ok && i < st.NumFields(); i++ {
			if "."+st.Field(i).Name() == o {
				t = st.Field(i).Type()
			}
		}
	}
	if name == "" {
		name = s.c.FnName(fn) + " " + show(x)
	}
	return name
}

func p02wait(c *Ctx, r *Report, s *Sync, fn *ssa.Function, k bkey) {
	what := c.FnName(fn) + " " + show(k.res)
	if !k.res.local() {
		// a worker or helper
		goes := false
		for _, ci := range c.Callers(fn) {
			_, g := ci.(*ssa.Go)
			goes = goes || g
		}
		ds := s.effects(fn)[k]
		if goes && len(ds) == 0 {
			r.Bad("late", what, c.PosOf(firstOp(s, fn, k)), "%s, a worker, is announced on %s only after it was started", c.FnName(fn), show(k.res))
		} else if goes && len(ds) > 1 {
			r.Bad("signal", what, c.PosOf(firstOp(s, fn, k)), "%s, a worker, signals its completion on %s differently on different paths: %s", c.FnName(fn), show(k.res), linList(ds))
		} else if goes {
			r.OK(c.FnName(fn) + " signals " + show(k.res) + " on every path")
		}
		return
	}
	bad := false
	waits := 0
	f := &bflow{
		seen: func(ins ssa.Instruction, st bstate) {
			if call, ok := ins.(*ssa.Call); ok && calleeName(&call.Call) == "(*sync.WaitGroup).Wait" && s.of(call.Call.Args[0]) == k.res {
				waits++
				if bad || st.bal.unknown() {
					return
				}
				if len(st.bal) > 0 {
					bad = true
					r.Bad("count", what, c.PosOf(ins), "%s waits on %s where announced workers minus started workers is %s", c.FnName(fn), show(k.res), st.bal)
				}
			}
			if o, d, ok := s.syncOp(ins); ok && o == k && d.sign() == 1 && st.bal.sign() == -1 && !st.bal.unknown() && !bad {
				bad = true
				r.Bad("late", what, c.PosOf(ins), "%s announces workers on %s after it started them", c.FnName(fn), show(k.res))
			}
		},
		uneven: func(l *natLoop, ds []lin) {
			if !bad {
				bad = true
				r.Bad("count", what, c.PosOf(firstOp(s, fn, k)), "%s announces or starts workers on %s differently in different iterations of a loop: %s", c.FnName(fn), show(k.res), linList(ds))
			}
		},
		early: func(l *natLoop, d lin) {
			if !bad {
				bad = true
				r.Bad("count", what, c.PosOf(firstOp(s, fn, k)), "%s may leave the loop that starts the workers announced on %s early", c.FnName(fn), show(k.res))
			}
		},
	}
	exits := s.balance(fn, k, lin{}, f)
	if bad {
		return
	}
	if f.lost {
		r.Open(what + ": too many paths")
		return
	}
	for _, e := range exits {
		if e.unknown() {
			r.Open(what + ": number of workers not resolved")
			return
		}
		if len(e) > 0 && waits > 0 {
			r.Bad("count", what, c.PosOf(firstOp(s, fn, k)), "%s returns with announced workers minus started workers on %s being %s", c.FnName(fn), show(k.res), e)
			return
		}
	}
	if waits == 0 {
		handed := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && len(s.callees(ci)) > 0 {
					for _, a := range ci.Common().Args {
						handed = handed || s.of(a) == k.res
					}
				}
				if mk, ok := ins.(*ssa.MakeClosure); ok {
					f := mk.Fn.(*ssa.Function)
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							handed = handed || isWait(ins)
						}
					}
				}
			}
		}
		if !handed {
			r.Bad("count", what, c.PosOf(firstOp(s, fn, k)), "%s announces workers on %s and never waits for them", c.FnName(fn), show(k.res))
			return
		}
		r.Open(what + ": waited for elsewhere")
		return
	}
	r.OK(c.FnName(fn) + " starts as many workers as it announced on " + show(k.res))
}

func p02chan(c *Ctx, r *Report, s *Sync, fn *ssa.Function, k bkey, keys []bkey) {
	what := c.FnName(fn) + " " + show(k.res)
	if !k.res.local() {
		goes := false
		for _, ci := range c.Callers(fn) {
			_, g := ci.(*ssa.Go)
			goes = goes || g
		}
		ds := s.effects(fn)[k]
		if goes && len(ds) > 1 && c.closedAbove(fn) {
			r.Open(what + ": received until closed")
		} else if goes && len(ds) > 1 {
			r.Bad("signal", what, c.PosOf(firstOp(s, fn, k)), "%s, a worker, sends on %s differently often on different paths: %s", c.FnName(fn), show(k.res), linList(ds))
		} else if goes {
			r.OK(c.FnName(fn) + " sends on " + show(k.res) + " on every path")
		}
		return
	}
	for _, o := range keys {
		if o.res == k.res && o.kind == "close" {
			r.Open(what + " is closed")
			return
		}
	}
	mk, ok := s.allocs[k.res.base].(*ssa.MakeChan)
	if !ok || k.res.path != "" {
		r.Open(what + " is not a channel made here")
		return
	}
	size := s.linOf(mk.Size)
	bad := false
	f := &bflow{
		seen: func(ins ssa.Instruction, st bstate) {
			o, d, ok := s.syncOp(ins)
			if !ok || o != k || bad || st.bal.unknown() {
				return
			}
			if d[""] < 0 && (len(st.bal) == 0 || st.bal.sign() == -1) {
				bad = true
				r.Bad("blocked", what, c.PosOf(ins), "%s receives from %s, to which nobody sends any more", c.FnName(fn), show(k.res))
			}
		},
		uneven: func(l *natLoop, ds []lin) {
			if !bad {
				bad = true
				r.Bad("count", what, c.PosOf(firstOp(s, fn, k)), "%s starts senders to %s or receives from it differently in different iterations of a loop: %s", c.FnName(fn), show(k.res), linList(ds))
			}
		},
		early: func(l *natLoop, d lin) {
			if !bad && len(size) == 0 {
				bad = true
				r.Bad("count", what, c.PosOf(firstOp(s, fn, k)), "%s may leave a loop of senders to or receives from %s early", c.FnName(fn), show(k.res))
			}
		},
	}
	exits := s.balance(fn, k, lin{}, f)
	if bad {
		return
	}
	if f.lost {
		r.Open(what + ": too many paths")
		return
	}
	for _, e := range exits {
		if e.unknown() {
			r.Open(what + ": number of senders not resolved")
			return
		}
		if len(e) == 0 {
			continue
		}
		if e.sign() == 1 && len(size) > 0 {
			continue // stays in the buffer
		}
		r.Bad("count", what, c.PosOf(firstOp(s, fn, k)), "%s returns with %s more values sent to %s than received", c.FnName(fn), e, show(k.res))
		return
	}
	r.OK(c.FnName(fn) + " receives what is sent to " + show(k.res))
}

// p02copies: locks and wait groups are not copied.
func p02copies(c *Ctx, r *Report, fn *ssa.Function) {
	for _, p := range fn.Params {
		if holdsSync(p.Type(), 0) {
			r.Bad("copy", c.FnName(fn)+" "+p.Name(), c.Pos(fn.Pos()), "%s takes a copy of a lock or wait group as %s", c.FnName(fn), p.Name())
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			u, ok := ins.(*ssa.UnOp)
			if !ok || !holdsSync(u.Type(), 0) {
				continue
			}
			r.Bad("copy", c.FnName(fn)+" "+show(c.Sync().of(u.X)), c.PosOf(u), "%s copies a lock or wait group", c.FnName(fn))
		}
	}
}

func holdsSync(t types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		switch n.Obj().Name() {
		case "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "Map", "Pool":
			return true
		}
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsSync(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return holdsSync(u.Elem(), depth+1)
	}
	return false
}

// closedAbove: a function around the worker, or the one that starts it, closes
// a channel, so that receiving from it ends without counting.
func (c *Ctx) closedAbove(fn *ssa.Function) bool {
	around := map[*ssa.Function]bool{}
	for p := fn.Parent(); p != nil; p = p.Parent() {
		around[p] = true
	}
	for _, ci := range c.Callers(fn) {
		around[ci.Parent()] = true
	}
	closes := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						return true
					}
				}
			}
		}
		return false
	}
	for f := range around {
		if closes(f) {
			return true
		}
		for _, a := range f.AnonFuncs {
			if closes(a) {
				return true
			}
		}
	}
	return false
}
