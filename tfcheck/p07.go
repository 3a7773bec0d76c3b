package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P07: nothing that other requests share is written to.

func init() { register("P07", p07) }

func p07(c *Ctx, r *Report) {
	r.Rule("points-to analysis in which the loaded filing given to the operations that make an answer, and everything that is read from a cache, is marked as shared: no store, map update, append, copy, delete, clear, in-place sort or decoding has a shared object as its target, in any function reached from these operations; and what is put into a cache is not written to afterwards by the function that put it there")
	r.Assume("functions of dependencies and of the standard library other than those listed as writing to their argument leave it alone")
	seen := map[ssa.Instruction]bool{}
	judged := map[ssa.Instruction]bool{}
	vf := p07scan(c, r, func(in *vinst, ins ssa.Instruction, target *vcell, how string) {
		judged[ins] = true
		if target.obj == nil || !target.obj.shared || seen[ins] {
			return
		}
		seen[ins] = true
		what := sharedName(target)
		r.Bad("shared", c.FnName(in.fn)+" "+how+" "+what, c.PosOf(ins), "%s %s %s, which other requests share", c.FnName(in.fn), how, what)
	})
	p07after(c, r, vf)
	for range judged {
		r.OK("write")
	}
}

func sharedName(target *vcell) string {
	if what := normTag(target.path()); what != "" {
		return what
	}
	return "a value other requests share"
}

// p07scan visits every write of the operations that make an answer or look at
// a filing.
func p07scan(c *Ctx, r *Report, visit func(in *vinst, ins ssa.Instruction, target *vcell, how string)) *VF {
	var roots []*ssa.Function
	for _, n := range []string{"MarshalCatalog", "MarshalRenderable", "MarshalExpressable"} {
		fn := c.Func("pkg/renderables", n)
		r.Need(fn != nil && len(fn.Blocks) > 0, "renderables.%s not found", n)
		roots = append(roots, fn)
	}
	n, shared := 0, 0
	run := func(vf *VF) {
		for _, in := range vf.list {
			r.Fn(c, in.fn)
		}
		for _, o := range vf.objs {
			if o.shared {
				shared++
			}
		}
		n += len(vf.list)
		p07writes(c, vf, visit)
	}
	for _, fn := range roots {
		vf := newVF(c, 3)
		vf.root(fn, true)
		vf.solve()
		run(vf)
	}
	// everything exported that looks at a filing
	vf := newVF(c, 2)
	vf.model = func(vf *VF, in *vinst, call ssa.CallInstruction, f *ssa.Function, dst *vcell) bool {
		if f == nil || f.Signature.Recv() == nil || dst == nil {
			return false
		}
		rt := f.Signature.Recv().Type()
		switch {
		case (isGoCache(rt) || isGoCacheInner(rt)) && strings.HasPrefix(f.Name(), "Get"):
		case isSyncMap(rt) && (f.Name() == "Load" || f.Name() == "LoadOrStore" || f.Name() == "Swap"):
		default:
			return false
		}
		t := f.Signature.Results().At(0).Type()
		vf.symValue(vf.dstOf(dst, 0, f.Signature.Results().Len(), t), t, "cached", true)
		return true
	}
	for _, fn := range c.Fns {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || c.isCreator(fn) {
			continue
		}
		switch c.RelPkg(fn) {
		case "pkg/cache":
			vf.root(fn, false)
		case "pkg/hydratables":
			if rv := fn.Signature.Recv(); rv != nil {
				if typeName(rv.Type()) == "Hydratable" {
					vf.root(fn, true) // queries
				}
				continue
			}
			vf.root(fn, false)
		}
	}
	vf.solve()
	run(vf)
	r.Count("function instances", n)
	r.Count("shared objects", shared)
	return vf
}

var inPlace = map[string]int{
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Strings": 0, "sort.Ints": 0, "sort.Float64s": 0, "sort.Sort": 0, "sort.Stable": 0,
	"slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0,
	"slices.Compact": 0, "slices.CompactFunc": 0, "slices.Delete": 0, "slices.DeleteFunc": 0, "slices.Insert": 0, "slices.Replace": 0,
	"maps.DeleteFunc": 0, "maps.Copy": 0, "maps.Insert": 0,
	"encoding/json.Unmarshal": 1, "encoding/xml.Unmarshal": 1, "encoding/json.Decoder.Decode": 1, "encoding/xml.Decoder.Decode": 1, "encoding/xml.Decoder.DecodeElement": 1,
}

// p07writes visits every write with what it may write to.
func p07writes(c *Ctx, vf *VF, visit func(in *vinst, ins ssa.Instruction, target *vcell, how string)) {
	for _, in := range vf.list {
		targets := func(ins ssa.Instruction, v ssa.Value, how string) {
			v = stripConv(v)
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			cl := in.regs[v]
			if cl == nil {
				return
			}
			var ptl []*vcell
			ptl = append(ptl, cl.ptl...)
			if types.IsInterface(v.Type()) {
				for _, p := range cl.ptl {
					if p.obj != nil && p.obj.box {
						ptl = append(ptl, p.ptl...)
					}
				}
			}
			for _, p := range ptl {
				visit(in, ins, p, how)
			}
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					targets(ins, x.Addr, "stores into")
				case *ssa.MapUpdate:
					targets(ins, x.Map, "adds an entry to")
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if len(cc.Args) > 1 && !fullSlice(cc.Args[0]) {
								targets(ins, cc.Args[0], "appends to")
							}
						case "copy":
							targets(ins, cc.Args[0], "copies into")
						case "delete":
							targets(ins, cc.Args[0], "deletes from")
						case "clear":
							targets(ins, cc.Args[0], "clears")
						}
						continue
					}
					f := cc.StaticCallee()
					if f == nil {
						continue
					}
					if o := f.Origin(); o != nil {
						f = o
					}
					if i, ok := inPlace[stdFuncName(f)]; ok && i < len(cc.Args) {
						targets(ins, cc.Args[i], "changes (with "+f.Name()+")")
					}
				}
			}
		}
	}
}

// p07after: what has been put into a cache stays as it is.
func p07after(c *Ctx, r *Report, vf *VF) {
	for _, o := range c.findCacheOps() {
		if !o.set || o.val == nil {
			continue
		}
		for _, in := range vf.list {
			if in.fn != o.fn {
				continue
			}
			// what can be reached from the entry
			reach := map[*vobj]bool{}
			var walk func(cl *vcell)
			walk = func(cl *vcell) {
				for _, p := range cl.ptl {
					if p.obj == nil || reach[p.obj] {
						continue
					}
					reach[p.obj] = true
					for _, q := range p.obj.cells {
						walk(q)
					}
				}
			}
			cl := in.regs[o.val]
			if cl == nil {
				continue
			}
			walk(cl)
			for _, s := range cl.sub {
				walk(s)
			}
			after := map[*vinst]ssa.Instruction{in: o.op}
			// the goroutine that stores it was started before the end of its parent
			if in.made != nil {
				for _, b := range in.made.fn.Blocks {
					for _, ins := range b.Instrs {
						if g, ok := ins.(*ssa.Go); ok {
							if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(in.fn) {
								after[in.made] = g
							}
						}
					}
				}
			}
			bad := false
			p07writes(c, vf, func(wi *vinst, ins ssa.Instruction, target *vcell, how string) {
				at := after[wi]
				if at == nil || bad || target.obj == nil || target.obj.box || !reach[target.obj] || !reachesInstr(at, ins) || ins == at {
					return
				}
				if _, ok := target.obj.site.(*ssa.Alloc); ok && target.obj.typ != nil && !isStructLike(target.obj.typ) && target.parent == nil {
					return // a variable of the function itself
				}
				bad = true
				r.Bad("after", c.FnName(wi.fn), c.PosOf(ins), "%s %s a value that has already been put into the cache", c.FnName(wi.fn), how)
			})
			if !bad {
				r.OK("what " + c.FnName(o.fn) + " caches is not written to afterwards")
			}
			break
		}
	}
}

func isStructLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Slice, *types.Map:
		return true
	}
	return false
}
