package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P10", p10) }

// errIndex is the position of the error among the results, or -1.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// errValues are the SSA values holding the error result of a call.
func errValues(call *ssa.Call) []ssa.Value {
	i := errIndex(call.Call.Signature())
	if i < 0 {
		return nil
	}
	if call.Call.Signature().Results().Len() == 1 {
		return []ssa.Value{call}
	}
	var r []ssa.Value
	if call.Referrers() != nil {
		for _, u := range *call.Referrers() {
			if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
				r = append(r, ex)
			}
		}
	}
	return r
}

func used(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return stdName(cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		return stdFuncName(f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// harmless: failures of these calls cannot falsify an answer.
func (c *Ctx) harmlessError(call ssa.CallInstruction) bool {
	cc := call.Common()
	n := calleeName(cc)
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "strconv."), strings.HasPrefix(n, "(*strings.Builder)"), strings.HasPrefix(n, "(*bytes.Buffer)"),
		n == "(net/http.ResponseWriter).Write", strings.HasPrefix(n, "(hash.Hash"), n == "(io.Writer).Write" && cc.IsInvoke() && strings.HasPrefix(cc.Value.Type().String(), "hash."):
		return true
	case strings.HasPrefix(n, "fmt.Fprint"), n == "io.WriteString":
		if len(cc.Args) > 0 {
			w := cc.Args[0]
			for {
				switch x := w.(type) {
				case *ssa.MakeInterface:
					w = x.X
					continue
				case *ssa.ChangeInterface:
					w = x.X
					continue
				}
				break
			}
			t := w.Type().String()
			if t == "net/http.ResponseWriter" || strings.HasPrefix(t, "hash.") || t == "*strings.Builder" || t == "*bytes.Buffer" {
				return true
			}
			if u, ok := w.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" {
					return true
				}
			}
		}
	case n == "(*os.File).Close", n == "(io.Closer).Close", n == "(io.ReadCloser).Close":
		if len(cc.Args) > 0 && c.openedForReading(cc.Args[0], 0) {
			return true
		}
	}
	return false
}

// openedForReading: the file comes from os.Open.
func (c *Ctx) openedForReading(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil {
				n := stdFuncName(f)
				if n == "os.Open" || strings.HasPrefix(n, "(io/fs.FS)") {
					return true
				}
				if c.InModule(f) {
					all := false
					for _, b := range f.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(ret.Results) {
							rv := results(ret)[x.Index]
							if k, ok := rv.(*ssa.Const); ok && k.Value == nil {
								continue
							}
							if !c.openedForReading(rv, depth+1) {
								return false
							}
							all = true
						}
					}
					return all
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.openedForReading(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if w := fwd(x); w != x {
			return c.openedForReading(w, depth+1)
		}
		e := c.Exprs().X(x, nil)
		if e.Val != nil && e.Val != v {
			return c.openedForReading(e.Val, depth+1)
		}
	case *ssa.Parameter:
		ok := false
		for _, s := range c.Callers(x.Parent()) {
			for i, p := range x.Parent().Params {
				if p == x && i < len(s.Common().Args) {
					if !c.openedForReading(s.Common().Args[i], depth+1) {
						return false
					}
					ok = true
				}
			}
		}
		return ok
	}
	return false
}

// tracker follows, along every path, which errors have not been found nil.
type pend struct {
	v      ssa.Value
	call   ssa.Instruction
	failed bool // known to be non-nil
}

type pendSet map[ssa.Value]pend

func (p pendSet) clone() pendSet {
	n := make(pendSet, len(p))
	for k, v := range p {
		n[k] = v
	}
	return n
}

func samePend(a, b pendSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

// pending solves the may-analysis: at each return, which errors may be non-nil.
func (c *Ctx) pending(fn *ssa.Function, sources func(ssa.Instruction) []ssa.Value) map[*ssa.BasicBlock]pendSet {
	f := c.Facts(fn)
	in := map[*ssa.BasicBlock]pendSet{fn.Blocks[0]: {}}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	outs := map[*ssa.BasicBlock]pendSet{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := in[b].clone()
		for _, ins := range b.Instrs {
			for _, v := range sources(ins) {
				cur[v] = pend{v: v, call: ins}
			}
		}
		outs[b] = cur
		for _, s := range b.Succs {
			n := cur.clone()
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				st := f.EdgeState(b, s)
				for v := range n {
					e := f.t.X(v, nil)
					if st.has("nil", e) || ended(br.Cond, s == b.Succs[0], v) {
						delete(n, v)
					}
				}
			}
			old, ok := in[s]
			if !ok {
				in[s] = n
				work = append(work, s)
				continue
			}
			grown := false
			for k, v := range n {
				if _, ok := old[k]; !ok {
					old[k] = v
					grown = true
				}
			}
			if grown {
				work = append(work, s)
			}
		}
	}
	return outs
}

// ended: the condition says that reading piece by piece came to the end of the input, which is no failure.
func ended(cond ssa.Value, truth bool, e ssa.Value) bool {
	isEOF := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
	}
	x, ok := e.(*ssa.Extract)
	if !ok {
		return false
	}
	call, ok := x.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(&call.Call)
	if _, ok := readers[n]; !ok || strings.Contains(n, "Decode") && !strings.HasSuffix(n, "Token") || n == "io.ReadFull" || n == "io.CopyN" {
		return false
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		return c.Op == token.NOT && ended(c.X, !truth, e)
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ || truth != (c.Op == token.EQL) {
			return false
		}
		return fwd(c.X) == e && isEOF(c.Y) || fwd(c.Y) == e && isEOF(c.X)
	case *ssa.Call:
		return truth && calleeName(&c.Call) == "errors.Is" && fwd(c.Call.Args[0]) == e && isEOF(c.Call.Args[1])
	}
	return false
}

// carries: value r is or is built from error e.
func (c *Ctx) carries(r, e ssa.Value, depth int) bool {
	if r == e {
		return true
	}
	if depth > 10 {
		return false
	}
	t := c.Exprs()
	if t.X(r, nil) == t.X(e, nil) {
		return true
	}
	switch x := r.(type) {
	case *ssa.Phi:
		for _, ev := range x.Edges {
			if c.carries(ev, e, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if c.carries(a, e, depth+1) {
				return true
			}
		}
	case *ssa.Extract:
		return c.carries(x.Tuple, e, depth+1)
	case *ssa.MakeInterface:
		return c.carries(x.X, e, depth+1)
	case *ssa.ChangeInterface:
		return c.carries(x.X, e, depth+1)
	case *ssa.UnOp:
		if w := fwd(x); w != x {
			return c.carries(w, e, depth+1)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			st, _ := c.storesTo(al)
			for _, s := range st {
				if c.carries(s.Val, e, depth+1) {
					return true
				}
			}
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, w := range *ia.Referrers() {
						if st, ok := w.(*ssa.Store); ok && c.carries(st.Val, e, depth+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// errVars: error variables of fn that closures assign to.
func (c *Ctx) errVars(fn *ssa.Function) []*ssa.Alloc {
	var r []*ssa.Alloc
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || !isErrorType(deref(al.Type())) {
				continue
			}
			st, _ := c.storesTo(al)
			for _, s := range st {
				if s.Parent() != fn {
					r = append(r, al)
					break
				}
			}
		}
	}
	return r
}

func p10(c *Ctx, r *Report) {
	r.Rule("the error result of every call is used; exceptions are printing, writing to hashes, buffers and the HTTP response, closing files opened for reading, parsing of numbers (P18), warm-up in package main and go statements")
	r.Rule("in a function that returns an error, no return of a nil error can be reached with an error result that was not found nil on the way, unless the failing branch computes a substitute by another fallible call")
	r.Rule("an error variable assigned by closures is tested after they finish; a return of a nil error cannot be reached without finding it nil")
	r.Rule("no function returns nil bytes together with a nil error")
	r.Rule("what a call gives is not used solely where the call has failed")
	onlyFailed(c, r, c.Fns)
	fallible := 0
	for _, fn := range c.Fns {
		if PkgOf(fn).Name() == "main" {
			continue
		}
		r.Fn(c, fn)
		name := c.FnName(fn)
		f := c.Facts(fn)
		ei := errIndex(fn.Signature)
		shared := c.errVars(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || errIndex(call.Common().Signature()) < 0 {
					continue
				}
				fallible++
				if c.harmlessError(call) {
					r.OK("harmless " + calleeName(call.Common()))
					continue
				}
				switch x := in.(type) {
				case *ssa.Go:
					r.OK("background " + calleeName(call.Common()) + " in " + name)
				case *ssa.Defer:
					if c.closedElsewhere(fn, call) {
						r.OK("deferred close besides a checked one in " + name)
						continue
					}
					r.Bad("discarded", "deferred "+calleeName(call.Common())+" in "+name, c.PosOf(in), "the error of the deferred %s is lost", calleeName(call.Common()))
				case *ssa.Call:
					ev := errValues(x)
					any := false
					for _, v := range ev {
						if used(v) {
							any = true
						}
					}
					if !any {
						r.Bad("discarded", calleeName(call.Common())+" in "+name, c.PosOf(in), "the error result of %s is discarded", calleeName(call.Common()))
					} else {
						r.OK("error of " + calleeName(call.Common()) + " in " + name)
					}
				}
			}
		}
		if ei < 0 || len(fn.Blocks) == 0 {
			p10shared(c, r, fn, shared)
			continue
		}
		res := fn.Signature.Results()
		sharedLoads := map[ssa.Instruction][]ssa.Value{}
		_ = sharedLoads
		outs := c.pending(fn, func(in ssa.Instruction) []ssa.Value {
			call, ok := in.(*ssa.Call)
			if !ok || c.harmlessError(call) || isProbe(call) {
				return nil
			}
			return errValues(call)
		})
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || b == fn.Recover || outs[b] == nil {
				continue
			}
			st := f.At(ret)
			rv := results(ret)[ei]
			nilRet := false
			if k, ok := rv.(*ssa.Const); ok && k.Value == nil {
				nilRet = true
			}
			if st.has("nil", f.t.X(rv, nil)) {
				nilRet = true
			}
			if nilRet {
				// nothing to show is not an answer
				for j := 0; j < ei; j++ {
					if sl, ok := res.At(j).Type().Underlying().(*types.Slice); ok {
						if bt, ok := sl.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
							if k, ok := results(ret)[j].(*ssa.Const); ok && k.Value == nil {
								r.Bad("empty", "answer of "+name, c.PosOf(ret), "success is returned with no data")
							} else {
								r.OK("data returned by " + name)
							}
						}
					}
				}
			}
			for _, p := range sortedPend(outs[b]) {
				if c.carries(rv, p.v, 0) || f.nonNil(rv, st) {
					r.OK("passed on in " + name)
					continue
				}
				if !nilRet {
					// another error value is returned: it must not be nil whenever this one is not
					if ph, ok := rv.(*ssa.Phi); !ok || !phiHasNil(ph, 0) {
						r.OK("replaced by another error in " + name)
						continue
					}
				}
				if c.substituted(fn, p.v) {
					r.OK("substitute computed in " + name)
					continue
				}
				r.Bad("swallowed", "error of "+p10callName(p.call)+" in "+name, c.PosOf(p.call), "%s returns a nil error at %s although this call may have failed", name, c.PosOf(ret))
			}
		}
		p10shared(c, r, fn, shared)
	}
	r.Count("fallible_calls", fallible)
	r.Need(fallible > 20, "only %d fallible calls found", fallible)
}

// isProbe: calls made to find out whether something exists.
func isProbe(call ssa.CallInstruction) bool {
	switch calleeName(call.Common()) {
	case "os.Stat", "os.Lstat":
		return true
	}
	return false
}

// closedElsewhere: besides the deferred call, every successful return follows
// a call of the same method on the same value whose error is looked at.
func (c *Ctx) closedElsewhere(fn *ssa.Function, d ssa.CallInstruction) bool {
	cc := d.Common()
	if cc.StaticCallee() == nil || cc.StaticCallee().Name() != "Close" || len(cc.Args) == 0 {
		return false
	}
	t := c.Exprs()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != cc.StaticCallee() || len(call.Call.Args) == 0 {
				continue
			}
			if t.X(call.Call.Args[0], nil) == t.X(cc.Args[0], nil) {
				for _, v := range errValues(call) {
					if used(v) && c.beforeSuccess(fn, call, d) {
						return true
					}
				}
			}
		}
	}
	return false
}

// beforeSuccess: every return after from that may report success passes in.
func (c *Ctx) beforeSuccess(fn *ssa.Function, in, from ssa.Instruction) bool {
	ei := errIndex(fn.Signature)
	f := c.Facts(fn)
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == fn.Recover || ei < 0 || !reachesInstr(from, ret) {
			continue
		}
		if f.nonNil(results(ret)[ei], f.At(ret)) {
			continue
		}
		if !precedes(in, ret) {
			return false
		}
	}
	return true
}

func p10callName(in ssa.Instruction) string {
	if call, ok := in.(ssa.CallInstruction); ok {
		return calleeName(call.Common())
	}
	return "?"
}

func phiHasNil(ph *ssa.Phi, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, e := range ph.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value == nil {
			return true
		}
		if q, ok := e.(*ssa.Phi); ok && q != ph && phiHasNil(q, depth+1) {
			return true
		}
	}
	return false
}

func sortedPend(p pendSet) []pend {
	var r []pend
	for _, x := range p {
		r = append(r, x)
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].call.Pos() < r[j-1].call.Pos(); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// substituted: where the error is not nil, the branch assigns a substitute
// for the failed result before control merges again (a fallback).
func (c *Ctx) substituted(fn *ssa.Function, e ssa.Value) bool {
	ex, ok := e.(*ssa.Extract)
	if !ok {
		return false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok || call.Referrers() == nil {
		return false
	}
	for _, u := range *call.Referrers() {
		o, ok := u.(*ssa.Extract)
		if !ok || o.Index == ex.Index || o.Referrers() == nil {
			continue
		}
		for _, w := range *o.Referrers() {
			ph, ok := w.(*ssa.Phi)
			if !ok {
				continue
			}
			f := c.Facts(fn)
			for i, pv := range ph.Edges {
				if pv == o {
					continue
				}
				if k, ok := pv.(*ssa.Const); ok && k.Value == nil {
					continue
				}
				st := f.EdgeState(ph.Block().Preds[i], ph.Block())
				if st.has("nn", f.t.X(e, nil)) {
					return true
				}
			}
		}
	}
	return false
}

// p10shared checks error variables that workers assign.
func p10shared(c *Ctx, r *Report, fn *ssa.Function, vars []*ssa.Alloc) {
	f := c.Facts(fn)
	name := c.FnName(fn)
	ei := errIndex(fn.Signature)
	for _, al := range vars {
		loc := f.t.mk(&Expr{Op: "var", N: int64(c.ID(al)), Val: al, Type: deref(al.Type())})
		stores, _ := c.storesTo(al)
		var starts []ssa.Instruction // where the assigning closures run
		for _, st := range stores {
			if st.Parent() == fn {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, g := range closuresOf(call) {
						for q := st.Parent(); q != nil; q = q.Parent() {
							if q == g {
								starts = append(starts, in)
							}
						}
					}
				}
			}
		}
		if ei < 0 {
			read := false
			for _, u := range *al.Referrers() {
				if _, ok := u.(*ssa.UnOp); ok {
					read = true
				}
			}
			if read {
				r.OK("error variable of " + name + " is read")
			} else {
				r.Bad("unread", "error variable "+al.Comment+" in "+name, c.Pos(al.Pos()), "errors collected by workers are never looked at")
			}
			continue
		}
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || b == fn.Recover || f.in[b] == nil {
				continue
			}
			after := false
			for _, s := range starts {
				if reachesInstr(s, ret) {
					after = true
				}
			}
			if !after {
				continue
			}
			st := f.At(ret)
			rv := results(ret)[ei]
			k, isConst := rv.(*ssa.Const)
			if isConst && k.Value == nil || st.has("nil", f.t.X(rv, nil)) {
				if st.has("nil", loc) || testedInList(f, al, ret) {
					r.OK("error variable " + al.Comment + " found nil in " + name)
				} else {
					r.Bad("unread", "error variable "+al.Comment+" in "+name, c.PosOf(ret), "success is returned without testing %s, in which workers report failures", al.Comment)
				}
			} else {
				r.OK("failure of " + name)
			}
		}
	}
}

// testedInList: the variable is put in a list whose elements are all compared
// with nil, or are combined into an error that is, on the way to the return.
func testedInList(f *Facts, al *ssa.Alloc, ret *ssa.Return) bool {
	elements := func(arr ssa.Value) bool {
		lists := []ssa.Value{arr}
		for _, u := range *arr.Referrers() {
			switch x := u.(type) {
			case *ssa.Slice:
				lists = append(lists, x)
			case *ssa.UnOp:
				lists = append(lists, x)
			}
		}
		for _, l := range lists {
			if l.Referrers() == nil {
				continue
			}
			for _, u := range *l.Referrers() {
				switch x := u.(type) {
				case *ssa.Call: // combined
					if _, ok := x.Call.Value.(*ssa.Builtin); !ok && isErrorType(x.Type()) && f.At(ret).has("nil", f.t.X(x, nil)) {
						return true
					}
				case *ssa.IndexAddr, *ssa.Index:
					var elems []ssa.Value
					if ia, ok := u.(*ssa.IndexAddr); ok {
						for _, w := range *ia.Referrers() {
							if ld, ok := w.(*ssa.UnOp); ok {
								elems = append(elems, ld)
							}
						}
					} else {
						elems = append(elems, u.(ssa.Value))
					}
					for _, e := range elems {
						for _, w := range *e.Referrers() {
							b, ok := w.(*ssa.BinOp)
							if !ok || b.Op != token.NEQ && b.Op != token.EQL || !reachesInstr(b, ret) {
								continue
							}
							for _, v := range *b.Referrers() {
								if _, ok := v.(*ssa.If); ok {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}
	for _, u := range *al.Referrers() {
		ld, ok := u.(*ssa.UnOp)
		if !ok || ld.Parent() != ret.Parent() {
			continue
		}
		for _, w := range *ld.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				if arr, ok := ia.X.(*ssa.Alloc); ok && elements(arr) {
					return true
				}
			}
		}
	}
	return false
}

// closuresOf: closures started or called by an instruction, directly or as arguments.
func closuresOf(call ssa.CallInstruction) []*ssa.Function {
	var r []*ssa.Function
	add := func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			r = append(r, x.Fn.(*ssa.Function))
		case *ssa.Function:
			r = append(r, x)
		}
	}
	add(call.Common().Value)
	for _, a := range call.Common().Args {
		add(a)
	}
	return r
}
