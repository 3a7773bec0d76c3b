package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// p14same: a comparison that decides on a selection has two different sides.
func p14same(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok || x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
					continue
				}
				if _, ok := x.X.(*ssa.Const); ok {
					continue
				}
				if x.X == x.Y {
					r.Bad("itself", c.FnName(f), c.PosOf(ins), "%s compares a name with itself", c.FnName(f))
				}
			}
		}
	}
}

// p14empty: a list that a function returns is something else than an empty
// list on at least one of its returns.
func p14empty(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		var rets []*ssa.Return
		for _, b := range f.Blocks {
			if n := len(b.Instrs); n > 0 {
				if x, ok := b.Instrs[n-1].(*ssa.Return); ok {
					rets = append(rets, x)
				}
			}
		}
		res := f.Signature.Results()
		if len(rets) == 0 || res.Len() < 2 {
			continue
		}
		for i := 0; i < res.Len(); i++ {
			if _, ok := res.At(i).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			all := true
			for _, x := range rets {
				all = all && emptyList(x.Results[i])
			}
			if all {
				r.Bad("nothing", c.FnName(f), c.Pos(f.Pos()), "%s returns a list that nothing is ever added to", c.FnName(f))
			} else {
				r.OK(c.FnName(f) + " returns lists that are filled")
			}
		}
	}
}

func zeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == 0
}

// emptyList: nil, or a literal or made list without elements.
func emptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		return zeroConst(x.Len) && untouched(x)
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		t, ok := deref(a.Type()).Underlying().(*types.Array)
		return ok && t.Len() == 0 && untouched(x)
	}
	return false
}

// untouched: the list is only returned.
func untouched(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch u.(type) {
		case *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// p14filled: a local map that is filled is read from.
func p14filled(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				m, ok := ins.(*ssa.MakeMap)
				if !ok {
					continue
				}
				filled, read := false, false
				for _, u := range *m.Referrers() {
					switch x := u.(type) {
					case *ssa.MapUpdate:
						if x.Map == ssa.Value(m) && x.Value != ssa.Value(m) && x.Key != ssa.Value(m) {
							filled = true
						} else {
							read = true
						}
					case *ssa.Lookup:
						if !onlyFills(x) {
							read = true
						}
					case *ssa.DebugRef:
					default:
						read = true
					}
				}
				if !filled {
					continue
				}
				if !read {
					r.Bad("unread", c.FnName(f), c.PosOf(m), "%s collects entries in a map that it never reads", c.FnName(f))
				} else {
					r.OK(c.FnName(f) + " reads the maps it fills")
				}
			}
		}
	}
}

// onlyFills: what was looked up is only compared with nil or added to.
func onlyFills(l *ssa.Lookup) bool {
	if _, ok := l.Type().Underlying().(*types.Map); !ok {
		return false
	}
	for _, u := range *l.Referrers() {
		switch x := u.(type) {
		case *ssa.BinOp, *ssa.DebugRef:
		case *ssa.MapUpdate:
			if x.Map != ssa.Value(l) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// p14sides: a flag that is set outright for members of a context agrees with
// the part of the context they are read from.
func p14sides(c *Ctx, r *Report, vf *VF, seen map[string]bool) {
	for _, in := range vf.list {
		if !c.InModule(in.fn) {
			continue
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				name, _ := fieldName(deref(fa.X.Type()), fa.Field)
				if name != "IsSegment" {
					continue
				}
				v := st.Val
				if p, ok := v.(*ssa.Parameter); ok && len(in.sites) > 0 {
					v = nil
					args := in.sites[len(in.sites)-1].Common().Args
					for i, q := range in.fn.Params {
						if q == p && len(args) == len(in.fn.Params) {
							v = args[i]
						}
					}
				}
				k, ok := v.(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				segment := k.Value.String() == "true"
				base := in.regs[fa.X]
				if base == nil {
					continue
				}
				for _, p := range base.ptl {
					d := p.sub["Dimension"]
					if d == nil || d.sub["Href"] == nil {
						continue
					}
					seg, scen := false, false
					for _, t := range d.sub["Href"].tgl {
						if !isBy(t) {
							t = normTag(t)
							seg = seg || strings.Contains(t, "Segment.")
							scen = scen || strings.Contains(t, "Scenario.")
						}
					}
					if seg == scen {
						continue
					}
					key := c.PosOf(ins) + " " + in.ctx
					if seen["side "+key] {
						continue
					}
					seen["side "+key] = true
					if seg != segment {
						r.Bad("side", c.FnName(in.fn), c.PosOf(ins), "%s marks a member of the %s as one of the %s", c.FnName(in.fn), side(seg), side(!seg))
					} else {
						r.OK(c.FnName(in.fn) + " marks members by the part of the context they are in")
					}
				}
			}
		}
	}
}

func side(seg bool) string {
	if seg {
		return "segment"
	}
	return "scenario"
}

// p14parted: a dimension is not compared with a typed domain or a member.
func p14parted(c *Ctx, r *Report, vf *VF, seen map[string]bool) {
	part := func(cl *vcell) string {
		got := ""
		if cl == nil {
			return ""
		}
		for _, t := range cl.tgl {
			if isBy(t) || strings.HasPrefix(t, "const:") {
				continue
			}
			p := "other"
			t = normTag(t)
			for _, s := range []string{"Members[].Dimension.Href", "Members[].Member.Href", "TypedMembersMap{}"} {
				if strings.HasSuffix(t, s) {
					p = s
				}
			}
			if got != "" && got != p {
				return ""
			}
			got = p
		}
		if got == "other" {
			return ""
		}
		return got
	}
	for _, in := range vf.list {
		if c.RelPkg(in.fn) != "pkg/renderables" {
			continue
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok || x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
					continue
				}
				p, q := part(in.regs[x.X]), part(in.regs[x.Y])
				k := "parted " + c.PosOf(ins)
				if p == "" || q == "" || seen[k] {
					continue
				}
				seen[k] = true
				if p != q {
					r.Bad("parted", c.FnName(in.fn), c.PosOf(ins), "%s compares %s with %s", c.FnName(in.fn), p, q)
				} else {
					r.OK(c.FnName(in.fn) + " compares the same parts of members")
				}
			}
		}
	}
}
