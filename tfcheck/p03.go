package main

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P03", p03) }

func p03(c *Ctx, r *Report) {
	r.Rule("every dereference, field or element access through a pointer, method call on an interface, call of a function value and store into a map, in every module function, is examined: if the operand can be nil (a function of the module returns nil for the outcome established at that point, a map lookup without a presence test, an unchecked conversion, a struct field that some creator leaves unset, an argument some caller passes) and no test on every path establishes the opposite, the access is reported")
	r.Assume("elements of slices and values of maps that are present are not nil")
	r.Assume("arguments of exported operations that no module function calls are not nil")
	c.findNilFields()
	if os.Getenv("TFDEBUG") != "" {
		debugNilFields()
	}
	r.Rule("a field that its creator sets only after a string matched one of some constants may be used where the same constants were matched")
	for _, fn := range c.Fns {
		r.Fn(c, fn)
		f := c.Facts(fn)
		for _, b := range fn.Blocks {
			if f.in[b] == nil {
				continue
			}
			s := f.in[b].clone()
			for _, in := range b.Instrs {
				check := func(v ssa.Value, what string) {
					switch v.(type) {
					case *ssa.Alloc, *ssa.FreeVar, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Builtin:
						return
					}
					r.Count("accesses", 1)
					w := f.mayNil(v, s, 0)
					if w == "" {
						r.OK(what + " in " + c.FnName(fn))
						return
					}
					if u, ok := v.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							if n, ok := deref(fa.X.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
								k := fieldKey{n.Obj().Id() + "@" + n.Obj().Pkg().Path() + "." + n.Obj().Name(), n.Underlying().(*types.Struct).Field(fa.Field).Name()}
								if len(setUnder[k]) > 0 && c.onlyUnder(in.Block(), setUnder[k], 0) {
									r.OK(what + " under the condition that sets it, in " + c.FnName(fn))
									return
								}
							}
						}
					}
					if f.byCases(in, func(s *State) bool { return f.mayNil(v, s, 0) == "" }) {
						r.OK(what + " in " + c.FnName(fn))
						return
					}
					r.Bad("nil", what+" of "+describe(c, v)+" in "+c.FnName(fn), c.PosOf(in), "%s of a value that can be nil: %s", what, w)
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					check(x.X, "field "+deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name())
				case *ssa.UnOp:
					if x.Op == token.MUL {
						check(x.X, "dereference")
					}
				case *ssa.IndexAddr:
					if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
						check(x.X, "element")
					}
				case *ssa.Store:
					check(x.Addr, "store")
				case *ssa.MapUpdate:
					check(x.Map, "map store")
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.IsInvoke() {
						check(cc.Value, "method "+cc.Method.Name())
					} else if cc.StaticCallee() == nil {
						check(cc.Value, "call")
					} else if g := cc.StaticCallee(); g.Signature.Recv() != nil && !c.InModule(g) && len(cc.Args) > 0 {
						if _, ok := g.Signature.Recv().Type().(*types.Pointer); ok {
							check(cc.Args[0], "method "+g.Name())
						}
					}
				}
				f.step(s, in)
			}
		}
	}
}

// describe names a value for people.
func describe(c *Ctx, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return "the result of " + c.FnName(f)
		}
		return "a call result"
	case *ssa.Extract:
		return describe(c, x.Tuple)
	case *ssa.UnOp:
		return describe(c, x.X)
	case *ssa.FieldAddr:
		return "field " + deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Lookup:
		return "a map entry"
	case *ssa.Parameter:
		return "parameter " + x.Name()
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	}
	return v.Type().String()
}
