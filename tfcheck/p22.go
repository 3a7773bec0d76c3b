package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P22: every view the catalog lists can be requested by its key.

func init() { register("P22", p22) }

// keySite is a place where a key is listed or recognised.
type keySite struct {
	ins    ssa.Instruction
	f      *tframe
	term   string
	guards []string
	hit    *ssa.BasicBlock // reached when the key is recognised
	k1, k2 string          // under what it is listed
	chain  []ssa.Instruction
}

func p22(c *Ctx, r *Report) {
	r.Rule("the key that the catalog lists and the key that a request is compared with are the same term over the same parts of the same lists, after expansion of helper functions and of how the text is put together")
	r.Rule("the comparison is reached for every pair that the catalog lists: no condition on the pair that the catalog does not have as well, no loop that is left before all were compared")
	r.Rule("what is rendered for a key are the elements it was recognised for, and the request's key reaches the comparison unchanged")
	t := &terms{c: c}
	catalog, render := p22entries(c)
	r.Need(len(catalog) > 0 && len(render) > 0, "functions that answer with a catalog and with a rendering: %d, %d found", len(catalog), len(render))
	var listed, recognised []keySite
	for _, fn := range catalog {
		r.Fn(c, fn)
		env := map[*ssa.Parameter]string{}
		for _, p := range fn.Params {
			env[p] = typeName(p.Type())
		}
		p22visit(c, t, t.frame(fn, env, nil), nil, nil, map[string]bool{}, func(f *tframe, ins ssa.Instruction, gs []string, chain []ssa.Instruction) {
			r.Fn(c, f.fn)
			up, ok := ins.(*ssa.MapUpdate)
			if !ok || up.Map.Type().Underlying().String() != "map[string]string" {
				return
			}
			k := t.x(f, up.Value, 0)
			if !strings.Contains(k, "<") && !strings.Contains(k, "?") {
				return
			}
			listed = append(listed, keySite{ins: ins, f: f, term: k, guards: append(t.guards(f, ins.Block()), gs...), k1: outerKey(t, f, up.Map), k2: t.x(f, up.Key, 0), chain: chain})
		})
	}
	for _, fn := range render {
		r.Fn(c, fn)
		env := map[*ssa.Parameter]string{}
		for _, p := range fn.Params {
			env[p] = typeName(p.Type())
			if isString(p.Type()) {
				env[p] = "the requested key"
			}
		}
		p22visit(c, t, t.frame(fn, env, nil), nil, nil, map[string]bool{}, func(f *tframe, ins ssa.Instruction, gs []string, chain []ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.BinOp:
				if x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
					return
				}
				a, b := t.x(f, x.X, 0), t.x(f, x.Y, 0)
				if b == "the requested key" {
					a, b = b, a
				}
				if a != "the requested key" || strings.HasPrefix(b, `"`) {
					return
				}
				r.Fn(c, f.fn)
				s := keySite{ins: ins, f: f, term: b, guards: append(t.guards(f, ins.Block()), gs...), chain: chain}
				for _, ref := range *x.Referrers() {
					if iff, ok := ref.(*ssa.If); ok {
						s.hit = iff.Block().Succs[0]
						if x.Op == token.NEQ {
							s.hit = iff.Block().Succs[1]
						}
					}
				}
				recognised = append(recognised, s)
			case *ssa.Lookup:
				if t.x(f, x.Index, 0) != "the requested key" {
					return
				}
				// a table of keys
				for _, ref := range *x.X.Referrers() {
					if up, ok := ref.(*ssa.MapUpdate); ok {
						recognised = append(recognised, keySite{ins: up, f: f, term: t.x(f, up.Key, 0), guards: append(t.guards(f, up.Block()), gs...), chain: chain})
					}
				}
			}
		})
	}
	r.Count("listed keys", len(listed))
	r.Count("recognised keys", len(recognised))
	if len(listed) == 0 || len(recognised) == 0 {
		r.Open("places where keys are listed and recognised")
		return
	}
	for _, l := range listed {
		for _, g := range recognised {
			what := "key listed at " + c.PosOf(l.ins) + ", recognised at " + c.PosOf(g.ins)
			switch {
			case l.term == g.term && !strings.Contains(l.term, "?"):
				r.OK(what)
			case strings.Contains(l.term, "?") || strings.Contains(g.term, "?"):
				r.Open(what + ": " + showTerm(l.term) + ", " + showTerm(g.term))
			default:
				r.Bad("key", "key "+showTerm(g.term), c.PosOf(g.ins), "the catalog lists %s, a request is compared with %s", showTerm(l.term), showTerm(g.term))
			}
			// conditions on the pair
			have := map[string]bool{}
			for _, s := range l.guards {
				have[s] = true
			}
			for _, s := range g.guards {
				if have[s] || !strings.Contains(s, "[]") || strings.Contains(s, "the requested key") {
					continue
				}
				if strings.Contains(s, "?") {
					r.Open(what + ": condition " + showTerm(s))
					continue
				}
				r.Bad("condition", "recognised only if "+showTerm(s), c.PosOf(g.ins), "a listed key is only recognised if %s", showTerm(s))
			}
		}
	}
	for _, l := range listed {
		if strings.Contains(l.term, "?") || strings.Contains(l.k1, "?") || strings.Contains(l.k2, "?") {
			continue
		}
		// listed under parts of the pair it is made of
		for _, k := range []string{l.k1, l.k2} {
			ok := k != ""
			for _, p := range strings.Split(k, catSep) {
				if !strings.HasPrefix(p, `"`) && !strings.Contains(l.term, p) {
					ok = false
				}
			}
			if k == "" {
				continue
			}
			if ok {
				r.OK("listed under " + showTerm(k))
			} else {
				r.Bad("listing", "listed under "+showTerm(k), c.PosOf(l.ins), "the key %s is listed under %s, which it is not made from", showTerm(l.term), showTerm(k))
			}
		}
	}
	for _, g := range recognised {
		p22exits(c, r, t, g)
		p22region(c, r, t, g)
	}
	p22passed(c, r, render)
}

// outerKey: under what the inner map is listed in the outer one.
func outerKey(t *terms, f *tframe, m ssa.Value) string {
	if ex, ok := m.(*ssa.Extract); ok {
		m = ex.Tuple
	}
	if lk, ok := m.(*ssa.Lookup); ok {
		return t.x(f, lk.Index, 0)
	}
	if mk, ok := m.(*ssa.MakeMap); ok {
		for _, ref := range *mk.Referrers() {
			if up, ok := ref.(*ssa.MapUpdate); ok && up.Value == ssa.Value(mk) {
				return t.x(f, up.Key, 0)
			}
		}
	}
	return ""
}

// p22entries: the functions that encode a catalog and a rendering.
func p22entries(c *Ctx) (catalog, render []*ssa.Function) {
	for _, fn := range c.Fns {
		if fn.Parent() != nil || c.RelPkg(fn) != "pkg/renderables" {
			continue
		}
		sig := fn.Signature
		if sig.Results().Len() == 0 || !types.Identical(sig.Results().At(0).Type(), types.NewSlice(types.Typ[types.Byte])) {
			continue
		}
		key := false
		for _, p := range fn.Params {
			key = key || isString(p.Type())
		}
		cat, ren := false, false
		_, order := reach(c, []*ssa.Function{fn}, func(f *ssa.Function) bool { return !c.InModule(f) })
		for _, g := range order {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					mi, ok := ins.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					st, ok := deref(mi.X.Type()).Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						switch st.Field(i).Name() {
						case "Networks":
							cat = true
						case "PGrid":
							ren = true
						}
					}
				}
			}
		}
		if cat && !ren {
			catalog = append(catalog, fn)
		}
		if ren && key {
			render = append(render, fn)
		}
	}
	return
}

// p22visit walks through a function and those it calls.
func p22visit(c *Ctx, t *terms, f *tframe, gs []string, chain []ssa.Instruction, seen map[string]bool, visit func(*tframe, ssa.Instruction, []string, []ssa.Instruction)) {
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			visit(f, ins, gs, chain)
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || len(chain) > 4 {
				continue
			}
			cc := ci.Common()
			callee := cc.StaticCallee()
			var up *tframe
			if mk, ok := cc.Value.(*ssa.MakeClosure); ok {
				callee, up = mk.Fn.(*ssa.Function), f
			}
			if callee == nil || !c.InModule(callee) || len(callee.Blocks) == 0 || f.busy[callee] || c.RelPkg(callee) != "pkg/renderables" {
				continue
			}
			env := map[*ssa.Parameter]string{}
			k := callee.String()
			for i, p := range callee.Params {
				if i < len(cc.Args) {
					env[p] = t.x(f, cc.Args[i], 0)
					k += "," + env[p]
				}
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			g := t.frame(callee, env, up)
			for x := range f.busy {
				g.busy[x] = true
			}
			inner := append(append([]string{}, gs...), t.guards(f, b)...)
			p22visit(c, t, g, inner, append(append([]ssa.Instruction{}, chain...), ins), seen, visit)
		}
	}
}

// p22exits: the loops around the comparison go on until something was
// recognised.
func p22exits(c *Ctx, r *Report, t *terms, g keySite) {
	if g.hit == nil {
		return
	}
	sites := append([]ssa.Instruction{g.ins}, g.chain...)
	for i, site := range sites {
		if i > 0 && i < len(sites) {
			continue // the callers see what was found
		}
		for _, l := range naturalLoops(site.Parent()) {
			if !l.body[site.Block()] {
				continue
			}
			bad := false
			var blocks []*ssa.BasicBlock
			for b := range l.body {
				blocks = append(blocks, b)
			}
			sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
			for _, b := range blocks {
				if b == l.head || g.hit.Dominates(b) {
					continue
				}
				for _, s := range b.Succs {
					if l.body[s] || s == g.hit || g.hit.Dominates(s) {
						continue
					}
					// an inner loop that found it: a variable tested afterwards
					if loopOfFound(l, b, g.hit) {
						continue
					}
					bad = true
					r.Bad("exit", "loop of "+c.FnName(site.Parent())+" left early", c.PosOf(b.Instrs[len(b.Instrs)-1]), "the loop over what can be requested is left before the requested key was found")
				}
			}
			if !bad {
				r.OK("loop at " + c.PosOf(l.head.Instrs[len(l.head.Instrs)-1]) + " visits all")
			}
		}
	}
}

// loopOfFound: the exit is decided by something that was set where the key
// was recognised.
func loopOfFound(l *natLoop, b, hit *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				if hit.Dominates(x.Block().Preds[i]) || from(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return from(x.X) || from(x.Y)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					for _, st := range storesOf(al) {
						if hit.Dominates(st.Block()) {
							return true
						}
					}
				}
				return false
			}
			return from(x.X)
		}
		return false
	}
	return from(iff.Cond)
}

// p22region: where a key was recognised, only the elements of its pair are
// looked at.
func p22region(c *Ctx, r *Report, t *terms, g keySite) {
	if g.hit == nil {
		return
	}
	lists := map[string]bool{}
	for _, p := range strings.FieldsFunc(g.term, func(ch rune) bool { return strings.ContainsRune("<>+,"+catSep, ch) }) {
		if i := strings.Index(p, "[]"); i > 0 {
			lists[p[:i]] = true
		}
	}
	for _, b := range g.ins.Parent().Blocks {
		if !g.hit.Dominates(b) {
			continue
		}
		for _, ins := range b.Instrs {
			ia, ok := ins.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			l := t.x(g.f, ia.X, 0)
			if !lists[l] {
				continue
			}
			if ph, loop := fullLoop(t, g.f, ia.Index, ia.X, 0); ph != nil && loop.body[g.ins.Block()] {
				continue
			}
			if _, ok := ia.Index.(*ssa.Const); ok {
				r.Bad("selection", showTerm(l)+" indexed", c.PosOf(ia), "a fixed element of %s is used instead of the one the key was recognised for", showTerm(l))
			}
		}
	}
}

// p22passed: the requested key reaches the comparison as it was sent.
func p22passed(c *Ctx, r *Report, render []*ssa.Function) {
	seen := map[*ssa.Parameter]bool{}
	var up func(p *ssa.Parameter)
	up = func(p *ssa.Parameter) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, ci := range c.Callers(p.Parent()) {
			a := argOf(ci, p.Parent(), p)
			if a == nil {
				continue
			}
			what := "key passed to " + c.FnName(p.Parent()) + " at " + c.PosOf(ci)
			switch x := fwd(stripConv(a)).(type) {
			case *ssa.Parameter:
				r.OK(what)
				up(x)
			case *ssa.Lookup:
				r.OK(what)
			case *ssa.Call:
				switch n := calleeName(&x.Call); n {
				case "strings.TrimSpace", "strings.ToLower":
					r.Open(what + " after " + n)
				case "(*net/http.Request).PathValue", "(net/url.Values).Get":
					r.OK(what)
				default:
					if strings.HasPrefix(n, "strings.") {
						r.Bad("request", what+" after "+n, c.PosOf(ci), "the requested key is changed by %s before it is compared", n)
					} else {
						r.Open(what)
					}
				}
			case *ssa.Slice:
				r.Bad("request", what, c.PosOf(ci), "only a part of the requested key is compared")
			case *ssa.BinOp:
				r.Bad("request", what, c.PosOf(ci), "the requested key is combined with something else before it is compared")
			default:
				r.Open(what)
			}
		}
	}
	for _, fn := range render {
		for _, p := range fn.Params {
			if isString(p.Type()) {
				up(p)
			}
		}
	}
}
