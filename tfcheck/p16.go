package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P16: the tables of a rendering are rectangular and line up with their labels and headers.
//
// The length of a slice is a sum: of the elements put in one by one, of how often the loops run
// that put elements in, and of lengths nothing is known about but which slice they belong to.

func p16(c *Ctx, r *Report) {
	r.Rule("a table of facts has as many rows as there are row labels, and one more for the head of a definition table (first) or the total of a calculation table (last); the table is empty only where there is no label or no period")
	r.Rule("every row of facts, of footnote markers and of context members has as many cells as there are period headers; the footnote markers have as many rows as the facts, the context members as many as their labels")
	r.Rule("every row of effective domains has as many cells as there are effective dimensions, and there are as many rows as primary items and their head")
	r.Rule("what a loop puts in a table, its headers or its row labels comes from the element the loop has come to")
	r.Rule("a list that rows or columns were taken from keeps its order afterwards")
	r.Rule("a list that is added to was not made with blank elements; a footnote's number is its position")
	root := c.Func(renderPkg, "MarshalRenderable")
	r.Need(root != nil, "MarshalRenderable not found")
	if root == nil {
		return
	}
	run := newConstRun(c)
	run.run(root)
	if run.full {
		r.Open("call chains too deep to follow")
	}
	k := &grid16{c: c, r: r, run: run, ids: map[*cframe]int{}, memo: map[fval][]seg16{}, busy: map[fval]bool{},
		loops: map[*ssa.Function][]*natLoop{}, said: map[string]bool{}}
	k.tables()
	var fns []*ssa.Function
	for _, fn := range c.Fns {
		if c.RelPkg(fn) == renderPkg {
			fns = append(fns, fn)
		}
	}
	blanks(c, r, fns)
	numbering(c, r, fns)
}

func init() { register("P16", p16) }

// fval is a value in one activation of its function.
type fval struct {
	f *cframe
	v ssa.Value
}

// atom16 is a length nothing more is known about.
type atom16 struct {
	key   string
	bound *lin16          // it is at most this
	at    ssa.Instruction // where something is left out
	how   string
	block *ssa.BasicBlock // it is how often this is executed
	loop  *natLoop
	frame int
}

// lin16 is a sum of atoms and a number.
type lin16 struct {
	k int64
	t map[string]int64
	a map[string]*atom16
}

func num16(k int64) lin16 { return lin16{k: k} }

func of16(a *atom16) lin16 {
	return lin16{t: map[string]int64{a.key: 1}, a: map[string]*atom16{a.key: a}}
}

func (x lin16) plus(y lin16, sign int64) lin16 {
	r := lin16{k: x.k + sign*y.k, t: map[string]int64{}, a: map[string]*atom16{}}
	for k, n := range x.t {
		r.t[k] += n
		r.a[k] = x.a[k]
	}
	for k, n := range y.t {
		r.t[k] += sign * n
		r.a[k] = y.a[k]
	}
	for k, n := range r.t {
		if n == 0 {
			delete(r.t, k)
			delete(r.a, k)
		}
	}
	return r
}

func (x lin16) times(n int64) lin16 {
	r := num16(0)
	if n == 0 {
		return r
	}
	r = lin16{k: x.k * n, t: map[string]int64{}, a: x.a}
	for k, m := range x.t {
		r.t[k] = m * n
	}
	return r
}

func (x lin16) constant() bool { return len(x.t) == 0 }
func (x lin16) zero() bool     { return x.constant() && x.k == 0 }
func (x lin16) key() string {
	var ks []string
	for k, n := range x.t {
		ks = append(ks, fmt.Sprintf("%d*%s", n, k))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%s+%d", strings.Join(ks, "+"), x.k)
}

// seg16 is a stretch of a slice.
type seg16 struct {
	n     lin16
	src   *fval // the slice whose length this is
	one   bool  // put in outside any loop
	f     *cframe
	loop  *natLoop
	site  ssa.Instruction
	elems []ssa.Value    // what is put in at the site
	made  *ssa.MakeSlice // made at full length
}

func total16(s []seg16) lin16 {
	r := num16(0)
	for _, x := range s {
		r = r.plus(x.n, 1)
	}
	return r
}

type grid16 struct {
	c     *Ctx
	r     *Report
	run   *constRun
	ids   map[*cframe]int
	memo  map[fval][]seg16
	busy  map[fval]bool
	loops map[*ssa.Function][]*natLoop
	said  map[string]bool
	drawn []drawn16
	empty []empty16

	strict bool // an empty answer counts, and calls are followed without having been run
}

// drawn16: in the activation f, the loop takes elements from base.
type drawn16 struct {
	f    *cframe
	loop *natLoop
	base fval
}

type empty16 struct {
	f   *cframe
	ret *ssa.Return
	n   []lin16
}

func (k *grid16) id(f *cframe) int {
	n, ok := k.ids[f]
	if !ok {
		n = len(k.ids) + 1
		k.ids[f] = n
	}
	return n
}

func (k *grid16) opaque(x fval) lin16 {
	return of16(&atom16{key: "len:" + k.name(x, 0)})
}

// name tells apart the slices nothing is known about.
func (k *grid16) name(x fval, depth int) string {
	if depth < 6 {
		switch v := x.v.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL {
				return "*" + k.name(k.resolve(fval{x.f, v.X}), depth+1)
			}
		case *ssa.FieldAddr:
			return k.name(k.resolve(fval{x.f, v.X}), depth+1) + "." + itoa(v.Field)
		case *ssa.Field:
			return k.name(k.resolve(fval{x.f, v.X}), depth+1) + "." + itoa(v.Field)
		case *ssa.Global:
			return v.String()
		}
	}
	return fmt.Sprintf("%d/%s", k.id(x.f), x.v.Name())
}

func (k *grid16) loopsOf(fn *ssa.Function) []*natLoop {
	l, ok := k.loops[fn]
	if !ok {
		l = naturalLoops(fn)
		k.loops[fn] = l
	}
	return l
}

// around lists the loops a block is in, the innermost first.
func (k *grid16) around(b *ssa.BasicBlock) []*natLoop {
	var r []*natLoop
	for _, l := range k.loopsOf(b.Parent()) {
		if l.body[b] {
			r = append(r, l)
		}
	}
	sort.Slice(r, func(i, j int) bool { return len(r[i].body) < len(r[j].body) })
	return r
}

func (k *grid16) caller(f *cframe, p *ssa.Parameter) (fval, bool) {
	if f.site == nil || f.up == nil {
		return fval{}, false
	}
	cc := f.site.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	} else if g := cc.StaticCallee(); g != nil && g != f.fn && g.Origin() != f.fn {
		return fval{}, false // handed to something else, which calls it
	}
	if len(args) != len(f.fn.Params) {
		return fval{}, false
	}
	for i, q := range f.fn.Params {
		if q == p && types.Identical(types.Unalias(args[i].Type()), types.Unalias(p.Type())) || q == p && cc.IsInvoke() && i == 0 {
			return fval{f.up, args[i]}, true
		}
	}
	return fval{}, false
}

// resolve follows a value to where it was made.
func (k *grid16) resolve(x fval) fval {
	seen := map[fval]bool{}
	for !seen[x] && len(seen) < 60 {
		seen[x] = true
		y, ok := k.step(x)
		if !ok {
			return x
		}
		x = y
	}
	return x
}

func (k *grid16) step(x fval) (fval, bool) {
	switch v := x.v.(type) {
	case *ssa.ChangeType:
		return fval{x.f, v.X}, true
	case *ssa.Convert:
		return fval{x.f, v.X}, true
	case *ssa.Parameter:
		return k.caller(x.f, v)
	case *ssa.FreeVar:
		for f := x.f; f != nil; f = f.up {
			if f.fn == v.Parent().Parent() {
				if b := k.c.binding(v); b != nil {
					return fval{f, b}, true
				}
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return x, false
		}
		a := k.resolve(fval{x.f, v.X})
		switch p := a.v.(type) {
		case *ssa.Alloc:
			if y, ok := k.held(a, "", v, x.f); ok {
				return y, true
			}
			if a.f != x.f || a.v != v.X {
				return x, false
			}
		case *ssa.FieldAddr:
			return k.field(fval{a.f, p.X}, p.Field, v, x.f)
		}
	case *ssa.Field:
		return k.field(fval{x.f, v.X}, v.Field, v, x.f)
	case *ssa.Call:
		if _, ok := v.Type().(*types.Tuple); !ok {
			return k.returned(x.f, v, 0)
		}
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			return k.returned(x.f, call, v.Index)
		}
	case *ssa.Phi:
		// the same on every way
		var only fval
		for i, e := range v.Edges {
			if !x.f.live[v.Block().Preds[i]] || e == ssa.Value(v) {
				continue
			}
			if only.v != nil && only.v != e {
				return x, false
			}
			only = fval{x.f, e}
		}
		if only.v != nil {
			return only, true
		}
	}
	return x, false
}

// held finds what a variable holds where it is read.
func (k *grid16) held(a fval, path string, at ssa.Instruction, in *cframe) (fval, bool) {
	al := a.v.(*ssa.Alloc)
	stores, escapes := k.c.storesTo(al)
	if escapes {
		if _, st := deref(al.Type()).Underlying().(*types.Struct); !st {
			// only being read from elsewhere is harmless
			if !k.onlyRead(al) {
				return fval{}, false
			}
		}
	}
	for _, s := range stores {
		if s.Parent() != al.Parent() {
			return fval{}, false
		}
	}
	if a.f != in {
		if len(stores) == 1 {
			return fval{a.f, stores[0].Val}, true
		}
		return fval{}, false
	}
	s := reaching16(stores, at)
	if s == nil {
		return fval{}, false
	}
	return fval{a.f, s.Val}, true
}

func (k *grid16) onlyRead(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr != ssa.Value(al) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
		case *ssa.MakeClosure:
			fn := ref.Fn.(*ssa.Function)
			for i, b := range ref.Bindings {
				if b != ssa.Value(al) {
					continue
				}
				for _, r2 := range *fn.FreeVars[i].Referrers() {
					if _, ok := r2.(*ssa.UnOp); !ok {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// reaching16: the one store whose value is there at an instruction.
func reaching16(stores []*ssa.Store, at ssa.Instruction) *ssa.Store {
	var best *ssa.Store
	for _, s := range stores {
		if !precedes16(s, at) {
			continue
		}
		if !dominates16(s, at) {
			return nil
		}
		if best == nil || dominates16(best, s) {
			best = s
		}
	}
	return best
}

func index16(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func dominates16(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return index16(a) < index16(b)
	}
	return a.Block().Dominates(b.Block())
}

// precedes16: b can be executed after a.
func precedes16(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && index16(a) < index16(b) {
		return true
	}
	return follows16(a.Block(), b.Block(), nil)
}

// follows16: there is a way of one step or more from a to b that avoids a block.
func follows16(a, b, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || x == avoid {
			continue
		}
		if x == b {
			return true
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// field finds what a field of a struct holds where it is read.
func (k *grid16) field(x fval, idx int, at ssa.Instruction, in *cframe) (fval, bool) {
	seen := map[fval]bool{}
	for !seen[x] {
		seen[x] = true
		x = k.resolveStruct(x)
		var al *ssa.Alloc
		switch v := x.v.(type) {
		case *ssa.Alloc:
			al = v
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return fval{}, false
			}
			a := k.resolve(fval{x.f, v.X})
			p, ok := a.v.(*ssa.Alloc)
			if !ok {
				return fval{}, false
			}
			al, at, in = p, v, x.f
			x = a
		default:
			return fval{}, false
		}
		if _, isStruct := deref(al.Type()).Underlying().(*types.Struct); !isStruct {
			return fval{}, false
		}
		var stores []*ssa.Store
		whole := map[*ssa.Store]bool{}
		for _, ref := range *al.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == ssa.Value(al) {
					stores = append(stores, ref)
					whole[ref] = true
				}
			case *ssa.FieldAddr:
				if ref.Field != idx {
					continue
				}
				for _, r2 := range *ref.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(ref) {
						stores = append(stores, s)
					}
				}
			}
		}
		// in a function that was made here
		var far []*ssa.Store
		if all, _ := k.c.storesTo(al); true {
			for _, st := range all {
				if st.Parent() != al.Parent() {
					far = append(far, st)
				}
			}
		}
		var s *ssa.Store
		if len(far) > 0 {
			if len(far) > 1 || x.f != in || at.Parent() != al.Parent() || reaching16(stores, at) != nil {
				return fval{}, false
			}
			for _, st := range stores {
				if precedes16(st, at) {
					return fval{}, false
				}
			}
			g := k.under(x.f, far[0].Parent())
			if g == nil {
				return fval{}, false
			}
			x, at, in = fval{g, far[0].Val}, far[0], g
			continue
		}
		if x.f != in || at.Parent() != al.Parent() {
			if len(stores) != 1 {
				return fval{}, false
			}
			s = stores[0]
		} else {
			s = reaching16(stores, at)
		}
		if s == nil {
			return fval{}, false
		}
		if !whole[s] {
			return fval{x.f, s.Val}, true
		}
		x, at, in = fval{x.f, s.Val}, s, x.f
	}
	return fval{}, false
}

// under: the one activation of a function that another was the start of.
func (k *grid16) under(f *cframe, fn *ssa.Function) *cframe {
	var r *cframe
	for _, g := range k.run.frames {
		if g.fn == fn && g.up == f {
			if r != nil {
				return nil
			}
			r = g
		}
	}
	return r
}

// resolveStruct follows a struct, or a pointer to one, without looking into what it holds.
func (k *grid16) resolveStruct(x fval) fval {
	for i := 0; i < 40; i++ {
		switch v := x.v.(type) {
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if _, ptr := v.Type().Underlying().(*types.Pointer); !ptr {
					return x // a copy of the struct
				}
			}
		}
		y, ok := k.step(x)
		if !ok {
			return x
		}
		x = y
	}
	return x
}

// returned finds what a call returns; an empty answer beside another is set aside.
func (k *grid16) returned(f *cframe, call *ssa.Call, idx int) (fval, bool) {
	var out []fval
	if k.strict {
		k.follow(f, call)
	}
	for key, g := range f.kids {
		if key.site != ssa.Instruction(call) {
			continue
		}
		var full, none []fval
		for _, b := range g.fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !g.live[b] {
				continue
			}
			res := results(ret)
			if idx >= len(res) {
				return fval{}, false
			}
			y := fval{g, res[idx]}
			if k.isEmpty(y) {
				none = append(none, y)
				k.empty = append(k.empty, empty16{g, ret, nil})
				continue
			}
			same := false
			for _, z := range full {
				same = same || z == y
			}
			if !same {
				full = append(full, y)
			}
		}
		if len(full) == 0 && len(none) > 0 || k.strict && len(none) > 0 {
			full = append(full, none[0])
		}
		out = append(out, full...)
	}
	if len(out) != 1 {
		return fval{}, false
	}
	return out[0], true
}

// follow opens the activation of a function called by its name.
func (k *grid16) follow(f *cframe, call *ssa.Call) {
	g := call.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !k.c.InModule(g) || f.kids[ckid{call, g}] != nil {
		return
	}
	for a := f; a != nil; a = a.up {
		if a.fn == g {
			return
		}
	}
	n := whole16(g)
	n.up, n.site = f, call
	f.kids[ckid{call, g}] = n
}

func whole16(fn *ssa.Function) *cframe {
	f := &cframe{fn: fn, live: map[*ssa.BasicBlock]bool{}, kids: map[ckid]*cframe{}}
	for _, b := range fn.Blocks {
		f.live[b] = true
	}
	return f
}

// below: an index stays below the length of a slice because of how the slice was filled.
func (c *Ctx) below(in ssa.Instruction, x, idx ssa.Value) bool {
	if _, ok := x.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	k := &grid16{c: c, r: &Report{}, run: newConstRun(c), ids: map[*cframe]int{}, memo: map[fval][]seg16{}, busy: map[fval]bool{},
		loops: map[*ssa.Function][]*natLoop{}, said: map[string]bool{}, strict: true}
	f := whole16(in.Parent())
	segs := k.seq(fval{f, x})
	for _, s := range segs {
		if s.f == f && s.loop != nil && s.loop.body[in.Block()] {
			return false // still growing
		}
	}
	n := total16(segs)
	steady := func(a lin16, b lin16) bool {
		for key := range a.t {
			if _, both := b.t[key]; both && (strings.Contains(key, "*") || strings.HasPrefix(key, "var:")) {
				return false
			}
		}
		return true
	}
	atLeast := func(d lin16) bool {
		for key, m := range d.t {
			if m < 0 || strings.HasPrefix(key, "num:") {
				return false
			}
		}
		return d.k >= 0
	}
	if kc, ok := idx.(*ssa.Const); ok && kc.Value != nil {
		return kc.Int64() >= 0 && atLeast(n.plus(num16(kc.Int64()+1), -1))
	}
	for _, l := range k.around(in.Block()) {
		if l.head == in.Block() {
			continue
		}
		cn, ok := k.counter(f, l)
		if !ok || cn.phi == nil || !cn.up {
			continue
		}
		p, shift := phi16(idx, l.head)
		if p != cn.phi || cn.first.plus(num16(shift), 1).k < 0 || !cn.first.constant() {
			continue
		}
		// the counter is below the limit here
		top := cn.limit.plus(num16(shift-cn.shift), 1)
		if steady(n, top) && atLeast(n.plus(top, -1)) {
			return true
		}
	}
	return false
}

// isEmpty: nil, or a literal without elements.
func (k *grid16) isEmpty(x fval) bool {
	switch v := x.v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.ChangeType:
		return k.isEmpty(fval{x.f, v.X})
	case *ssa.Slice:
		if n, ok := literal16(v); ok {
			return n == 0
		}
	case *ssa.MakeSlice:
		return isZero(v.Len) && len(k.filled(x)) == 0
	}
	return false
}

// literal16: the length of a slice of an array made for it.
func literal16(v *ssa.Slice) (int64, bool) {
	p, ok := v.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return 0, false
	}
	arr, ok := p.Elem().Underlying().(*types.Array)
	if !ok || v.Low != nil {
		return 0, false
	}
	if v.High != nil {
		h, ok := v.High.(*ssa.Const)
		if !ok {
			return 0, false
		}
		return h.Int64(), true
	}
	return arr.Len(), true
}

// seq takes a slice apart.
func (k *grid16) seq(x fval) []seg16 {
	x = k.resolve(x)
	if s, ok := k.memo[x]; ok {
		return s
	}
	if k.busy[x] {
		return []seg16{{n: k.opaque(x), f: x.f}}
	}
	k.busy[x] = true
	s := k.parts(x)
	delete(k.busy, x)
	k.memo[x] = s
	return s
}

func (k *grid16) parts(x fval) []seg16 {
	whole := func() []seg16 { return []seg16{{n: k.opaque(x), f: x.f}} }
	switch v := x.v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return nil
		}
	case *ssa.MakeSlice:
		n := k.number(fval{x.f, v.Len})
		if n.zero() {
			return nil
		}
		return []seg16{{n: n, f: x.f, made: v, site: v, src: k.measured(fval{x.f, v.Len})}}
	case *ssa.Slice:
		if n, ok := literal16(v); ok {
			var s []seg16
			el := variadicArgs(v)
			for i := int64(0); i < n; i++ {
				e := seg16{n: num16(1), f: x.f, one: true, site: v}
				if int(i) < len(el) {
					e.elems = []ssa.Value{el[i]}
				}
				s = append(s, e)
			}
			return s
		}
		if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
			if v.Low == nil && v.High == nil {
				return k.seq(fval{x.f, v.X})
			}
			if v.High == nil && isZero(v.Low) {
				return k.seq(fval{x.f, v.X})
			}
			hi := k.length(fval{x.f, v.X})
			if v.High != nil {
				hi = k.number(fval{x.f, v.High})
			}
			if v.Low != nil {
				hi = hi.plus(k.number(fval{x.f, v.Low}), -1)
			}
			if hi.zero() {
				return nil
			}
			return []seg16{{n: hi, f: x.f, site: v}}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			s := append([]seg16{}, k.seq(fval{x.f, v.Call.Args[0]})...)
			return append(s, k.added(x.f, v)...)
		}
	case *ssa.Phi:
		if s, ok := k.gathered(x.f, v); ok {
			return s
		}
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			if s, ok := k.variable(x.f, a, v); ok {
				return s
			}
			return []seg16{{n: of16(&atom16{key: fmt.Sprintf("var:%d/%s", k.id(x.f), a.Name())}), f: x.f}}
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok && v.Op == token.MUL {
			a := k.resolve(fval{x.f, fv})
			return []seg16{{n: of16(&atom16{key: fmt.Sprintf("var:%d/%s", k.id(a.f), a.v.Name())}), f: x.f}}
		}
	}
	return whole()
}

func (k *grid16) length(x fval) lin16 { return total16(k.seq(x)) }

// added: what one append adds.
func (k *grid16) added(f *cframe, call *ssa.Call) []seg16 {
	if len(call.Call.Args) < 2 {
		return nil
	}
	arg := call.Call.Args[1]
	if sl, ok := arg.(*ssa.Slice); ok {
		if n, ok := literal16(sl); ok {
			var s []seg16
			el := variadicArgs(sl)
			for i := int64(0); i < n; i++ {
				e := seg16{n: num16(1), f: f, one: true, site: call}
				if int(i) < len(el) {
					e.elems = []ssa.Value{el[i]}
				}
				s = append(s, e)
			}
			return s
		}
	}
	return k.seq(fval{f, arg})
}

// number: what is known of an integer.
func (k *grid16) number(x fval) lin16 {
	x = k.resolve(x)
	switch v := x.v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v.Value); ok {
				return num16(n)
			}
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			return k.number(fval{x.f, v.X}).plus(k.number(fval{x.f, v.Y}), 1)
		case token.SUB:
			return k.number(fval{x.f, v.X}).plus(k.number(fval{x.f, v.Y}), -1)
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			switch v.Call.Args[0].Type().Underlying().(type) {
			case *types.Slice:
				return k.length(fval{x.f, v.Call.Args[0]})
			}
			return k.opaque(k.resolve(fval{x.f, v.Call.Args[0]}))
		}
	}
	return of16(&atom16{key: "num:" + k.name(x, 0)})
}

// measured: the slice whose length a number is.
func (k *grid16) measured(x fval) *fval {
	x = k.resolve(x)
	if v, ok := x.v.(*ssa.Call); ok {
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			y := k.resolve(fval{x.f, v.Call.Args[0]})
			return &y
		}
	}
	return nil
}

// counter describes how a loop counts.
type counter16 struct {
	n    lin16
	idx  ssa.Value // the number of the round, from the first element on
	phi  *ssa.Phi
	base *fval // the slice it runs over, where it does
	full bool  // left only when it is done

	up           bool // it counts up to a limit it does not reach
	first, limit lin16
	shift        int64 // what is compared is the variable and this
}

func (k *grid16) counter(f *cframe, l *natLoop) (counter16, bool) {
	var r counter16
	h := l.head
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return r, false
	}
	iff := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	in, out := h.Succs[0], h.Succs[1]
	neg := false
	if !l.body[in] {
		in, out, neg = out, in, true
	}
	if !l.body[in] || l.body[out] {
		return r, false
	}
	r.full = true
	for b := range l.body {
		if b == h || !f.live[b] {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] && (s == out || follows16(s, out, h)) {
				r.full = false
			}
		}
	}
	if ex, ok := iff.Cond.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 0 && !nx.IsString {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				m := k.resolve(fval{f, rg.X})
				r.n = k.opaque(m)
				return r, !neg
			}
		}
		return r, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return r, false
	}
	op, a, b := cmp.Op, cmp.X, cmp.Y
	if neg {
		op = negate16(op)
	}
	phi, shift := phi16(a, h)
	if phi == nil {
		if phi, shift = phi16(b, h); phi == nil {
			return r, false
		}
		a, b = b, a
		op = swap16(op)
	}
	var init ssa.Value
	step := int64(0)
	for i, e := range phi.Edges {
		if !l.body[h.Preds[i]] {
			if init != nil {
				return r, false
			}
			init = e
			continue
		}
		p, d := phi16(e, h)
		if p != phi || step != 0 && step != d {
			return r, false
		}
		step = d
	}
	if init == nil {
		return r, false
	}
	first := k.number(fval{f, init}).plus(num16(shift), 1)
	limit := k.number(fval{f, b})
	r.phi = phi
	r.shift, r.limit, r.first = shift, limit, first.plus(num16(shift), -1)
	r.up = step == 1 && op == token.LSS
	switch {
	case step == 1 && (op == token.LSS || op == token.NEQ):
		r.n = limit.plus(first, -1)
	case step == 1 && op == token.LEQ:
		r.n = limit.plus(first, -1).plus(num16(1), 1)
	case step == -1 && op == token.GEQ:
		r.n = first.plus(limit, -1).plus(num16(1), 1)
	case step == -1 && op == token.GTR:
		r.n = first.plus(limit, -1)
	default:
		return r, false
	}
	r.idx = a
	r.base = k.measured(fval{f, b})
	return r, true
}

func phi16(v ssa.Value, h *ssa.BasicBlock) (*ssa.Phi, int64) {
	shift := int64(0)
	for {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == h {
				return x, shift
			}
			return nil, 0
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				return nil, 0
			}
			switch x.Op {
			case token.ADD:
				shift += k.Int64()
			case token.SUB:
				shift -= k.Int64()
			default:
				return nil, 0
			}
			v = x.X
		default:
			return nil, 0
		}
	}
}

func negate16(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func swap16(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	case token.LEQ:
		return token.GEQ
	}
	return op
}

// rounds: how often a loop runs.
func (k *grid16) rounds(f *cframe, l *natLoop) lin16 {
	cn, ok := k.counter(f, l)
	if !ok {
		return of16(&atom16{key: fmt.Sprintf("loop:%d/%d", k.id(f), l.head.Index)})
	}
	if cn.base != nil {
		k.drawn = append(k.drawn, drawn16{f, l, *cn.base})
	}
	if cn.full {
		return cn.n
	}
	n := cn.n
	return of16(&atom16{key: fmt.Sprintf("loop:%d/%d", k.id(f), l.head.Index), bound: &n,
		at: l.head.Instrs[len(l.head.Instrs)-1], how: "the loop is left before it is done"})
}

// times: how often a block is executed on the way from one block to another.
func (k *grid16) times(f *cframe, b, from, to *ssa.BasicBlock) (lin16, *natLoop) {
	var ls []*natLoop
	for _, l := range k.around(b) {
		if !l.body[from] {
			ls = append(ls, l)
		}
	}
	some := func(bound *lin16, how string) lin16 {
		rep := k.representative(f, b)
		a := &atom16{key: fmt.Sprintf("block:%d/%d", k.id(f), rep.Index), bound: bound, at: firstPos16(b), how: how, block: b, frame: k.id(f)}
		if ls := k.around(b); len(ls) > 0 {
			a.loop = ls[0]
		}
		return of16(a)
	}
	switch len(ls) {
	case 0:
		if b == from || b == to || !k.way(f, from, to, b) {
			return num16(1), nil
		}
		one := num16(1)
		return some(&one, "it is only done under a condition"), nil
	case 1:
		l := ls[0]
		n := k.rounds(f, l)
		for _, p := range l.back {
			if f.live[p] && !b.Dominates(p) {
				if _, ok := k.counter(f, l); !ok {
					return some(nil, ""), l
				}
				return some(&n, "the loop goes on to the next element without it"), l
			}
		}
		if l.head != to && k.way(f, from, to, l.head) {
			return some(nil, ""), l
		}
		return n, l
	}
	return some(nil, ""), ls[0]
}

// way: there is a way from a to b that avoids a block.
func (k *grid16) way(f *cframe, a, b, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || x == avoid || !f.live[x] {
			continue
		}
		if x == b {
			return true
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func firstPos16(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	return b.Instrs[0]
}

// representative: the first block that is executed exactly when this one is.
func (k *grid16) representative(f *cframe, b *ssa.BasicBlock) *ssa.BasicBlock {
	in := k.around(b)
	for {
		d := b.Idom()
		if d == nil {
			return b
		}
		ld := k.around(d)
		if len(ld) != len(in) || len(in) > 0 && ld[0] != in[0] {
			return b
		}
		// every way on from d comes to b within the round
		if !k.everyWay(f, d, b, in) {
			return b
		}
		b = d
	}
}

func (k *grid16) everyWay(f *cframe, d, b *ssa.BasicBlock, in []*natLoop) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := append([]*ssa.BasicBlock{}, d.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || !f.live[x] {
			continue
		}
		if len(in) > 0 && (x == in[0].head || !in[0].body[x]) {
			return false
		}
		if len(x.Succs) == 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Panic); !ok {
				return false
			}
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return true
}

// gathered: a slice that grows on the way through a loop or a branch.
func (k *grid16) gathered(f *cframe, phi *ssa.Phi) ([]seg16, bool) {
	var loop *natLoop
	for _, l := range k.loopsOf(phi.Parent()) {
		if l.head == phi.Block() {
			loop = l
		}
	}
	var sites []*ssa.Call
	seen := map[ssa.Value]bool{ssa.Value(phi): true}
	bases := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				if f.live[x.Block().Preds[i]] {
					walk(e)
				}
			}
			return
		case *ssa.ChangeType:
			walk(x.X)
			return
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				sites = append(sites, x)
				walk(x.Call.Args[0])
				return
			}
		}
		bases[v] = true
	}
	for i, e := range phi.Edges {
		if f.live[phi.Block().Preds[i]] {
			walk(e)
		}
	}
	if len(bases) != 1 {
		return nil, false
	}
	var base ssa.Value
	for b := range bases {
		base = b
	}
	s := append([]seg16{}, k.seq(fval{f, base})...)
	sort.Slice(sites, func(i, j int) bool { return sites[i] != sites[j] && dominates16(sites[i], sites[j]) })
	from := phi.Parent().Blocks[0]
	if in, ok := base.(ssa.Instruction); ok {
		from = in.Block()
	}
	if k, ok := base.(*ssa.Const); ok && k != nil && loop != nil {
		from = loop.head.Idom()
	}
	return k.sites(f, s, sites, from, phi.Block()), true
}

func (k *grid16) sites(f *cframe, s []seg16, sites []*ssa.Call, from, to *ssa.BasicBlock) []seg16 {
	for _, c := range sites {
		n, l := k.times(f, c.Block(), from, to)
		for _, e := range k.added(f, c) {
			switch {
			case e.n.constant():
				m := n.times(e.n.k)
				if n.constant() && n.k == 1 {
					s = append(s, e)
					continue
				}
				s = append(s, seg16{n: m, f: f, loop: l, site: c, elems: e.elems})
			case n.constant() && n.k == 1:
				s = append(s, e)
			default:
				s = append(s, seg16{n: of16(&atom16{key: fmt.Sprintf("sum:%d/%s", k.id(f), c.Name())}), f: f, loop: l, site: c})
			}
		}
	}
	return s
}

// variable: a slice kept in a variable that others can see.
func (k *grid16) variable(f *cframe, a *ssa.Alloc, at ssa.Instruction) ([]seg16, bool) {
	stores, escapes := k.c.storesTo(a)
	if escapes && !k.onlyRead(a) {
		return nil, false
	}
	var sites []*ssa.Call
	var resets []*ssa.Store
	for _, s := range stores {
		if s.Parent() != a.Parent() {
			return nil, false
		}
		v := s.Val
		var chain []*ssa.Call
		for {
			c, ok := v.(*ssa.Call)
			if !ok {
				break
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				break
			}
			chain = append(chain, c)
			v = c.Call.Args[0]
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(a) {
			if precedes16(s, at) {
				sites = append(sites, chain...)
			}
			continue
		}
		resets = append(resets, s)
	}
	r := reaching16(resets, at)
	if r == nil {
		return nil, false
	}
	sort.Slice(sites, func(i, j int) bool { return sites[i] != sites[j] && dominates16(sites[i], sites[j]) })
	s := append([]seg16{}, k.seq(fval{f, r.Val})...)
	return k.sites(f, s, sites, r.Block(), at.Block()), true
}

// filled: the stores that fill the places of a slice.
func (k *grid16) filled(x fval) []*ssa.Store {
	var r []*ssa.Store
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.IndexAddr:
				if ref.X != v {
					continue
				}
				for _, r2 := range *ref.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(ref) {
						r = append(r, s)
					}
				}
			case *ssa.ChangeType:
				visit(ref)
			case *ssa.Phi:
				visit(ref)
			case *ssa.Store:
				if ref.Val == v {
					for _, u := range k.again(ref) {
						visit(u)
					}
				}
			}
		}
	}
	visit(x.v)
	return r
}

// again: where what is stored is read again.
func (k *grid16) again(st *ssa.Store) []ssa.Value {
	var r []ssa.Value
	reads := func(a ssa.Value) {
		for _, ref := range *a.Referrers() {
			if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
				r = append(r, u)
			}
		}
	}
	switch a := st.Addr.(type) {
	case *ssa.Alloc:
		reads(a)
	case *ssa.IndexAddr:
		if a.X.Referrers() == nil {
			break
		}
		for _, ref := range *a.X.Referrers() {
			if o, ok := ref.(*ssa.IndexAddr); ok && o.X == a.X && k.sameIndex(o.Index, a.Index) {
				reads(o)
			}
		}
	}
	return r
}

// Tables.

// put16 is a place where a field of a table is filled.
type put16 struct {
	f     *cframe
	st    *ssa.Store
	x     fval
	field string
}

// role16 tells what a field of a table holds.
func role16(t types.Type) string {
	switch typeName(t) {
	case "PeriodHeaders":
		return "headers"
	case "FactualQuadrant":
		return "facts"
	case "ContextualMemberGrid":
		return "members"
	case "VoidQuadrant":
		return "dimensions"
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		switch typeName(s.Elem()) {
		case "IndentedLabel", "PrimaryItem", "ContributingConcept":
			return "labels"
		case "EffectiveDimension":
			return "axes"
		}
		if s2, ok := s.Elem().Underlying().(*types.Slice); ok {
			if typeName(s2.Elem()) == "EffectiveDomain" {
				return "domains"
			}
			if s3, ok := s2.Elem().Underlying().(*types.Slice); ok {
				if b, ok := s3.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return "marks"
				}
			}
		}
	}
	return ""
}

// extra16: how many rows a table has beside its labels, and where.
func extra16(labels types.Type) (n int64, first bool) {
	if s, ok := labels.Underlying().(*types.Slice); ok {
		switch typeName(s.Elem()) {
		case "PrimaryItem":
			return 1, true
		case "ContributingConcept":
			return 1, false
		}
	}
	return 0, false
}

func (k *grid16) tables() {
	puts := map[string]map[string][]put16{}
	k.run.eachLive(func(f *cframe, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
		if !ok {
			return
		}
		role := role16(s.Field(fa.Field).Type())
		if role == "" {
			return
		}
		// a table has headers
		has := false
		for i := 0; i < s.NumFields(); i++ {
			has = has || role16(s.Field(i).Type()) == "headers"
		}
		if !has {
			return
		}
		n := typeName(deref(fa.X.Type()))
		if puts[n] == nil {
			puts[n] = map[string][]put16{}
		}
		puts[n][role] = append(puts[n][role], put16{f, st, fval{f, st.Val}, s.Field(fa.Field).Name()})
		k.r.Fn(k.c, f.fn)
	})
	var names []string
	for n := range puts {
		names = append(names, n)
	}
	sort.Strings(names)
	k.r.Count("kinds of table", len(names))
	if len(names) == 0 {
		k.r.Open("no table found")
	}
	for _, n := range names {
		k.table(n, puts[n])
	}
	k.emptied()
	k.order(puts)
}

func (k *grid16) table(n string, p map[string][]put16) {
	rows := func(x put16) lin16 { return k.length(x.x) }
	more := int64(0)
	first := false
	for _, l := range p["labels"] {
		more, first = extra16(l.st.Val.Type())
	}
	cells := func(x put16) []cell16 { return k.cells(x.x) }
	// rows
	k.match(n, p["facts"], p["labels"], func(a, b put16) (lin16, lin16) { return rows(a), rows(b).plus(num16(more), 1) },
		"rows of facts", "row labels")
	k.match(n, p["marks"], p["labels"], func(a, b put16) (lin16, lin16) { return rows(a), rows(b).plus(num16(more), 1) },
		"rows of footnote markers", "row labels")
	k.match(n, p["domains"], p["labels"], func(a, b put16) (lin16, lin16) { return rows(a), rows(b).plus(num16(more), 1) },
		"rows of effective domains", "row labels")
	k.match(n, p["members"], p["dimensions"], func(a, b put16) (lin16, lin16) { return rows(a), rows(b) },
		"rows of context members", "dimension labels")
	// columns
	for _, role := range []string{"facts", "marks", "members", "domains"} {
		cols := "headers"
		what := "period headers"
		if role == "domains" {
			cols, what = "axes", "effective dimensions"
		}
		for _, x := range p[role] {
			for _, cl := range cells(x) {
				k.matchOne(n, cl.n, p[cols], "cells in a row of "+x.field, what, cl.at)
			}
		}
		for _, h := range p[cols] {
			for _, x := range p[role] {
				var ns []lin16
				for _, cl := range cells(x) {
					ns = append(ns, cl.n)
				}
				if len(ns) == 1 {
					k.verdict(n, rows(h), ns[0], what, "cells in a row of "+x.field, h.st)
				}
			}
		}
	}
	// what the loops put in
	for role, ps := range p {
		if role == "axes" || role == "dimensions" {
			continue
		}
		for _, x := range ps {
			k.elements(x.x, 0, 1)
		}
	}
	if more > 0 {
		for _, x := range p["facts"] {
			k.position(n, x, p["labels"], first)
		}
		for _, x := range p["domains"] {
			k.position(n, x, p["labels"], first)
		}
	}
}

// match: every put of one kind fits one of the other.
func (k *grid16) match(table string, as, bs []put16, n func(a, b put16) (lin16, lin16), what, other string) {
	for _, a := range as {
		var ws []lin16
		var got lin16
		for _, b := range bs {
			g, w := n(a, b)
			got = g
			ws = append(ws, w)
		}
		k.judge(table, got, ws, what, other, a.st)
	}
	for _, b := range bs {
		var ws []lin16
		var got lin16
		for _, a := range as {
			g, w := n(a, b)
			got = w
			ws = append(ws, g)
		}
		k.judge(table, got, ws, other, what, b.st)
	}
}

func (k *grid16) matchOne(table string, got lin16, bs []put16, what, other string, at ssa.Instruction) {
	var ws []lin16
	for _, b := range bs {
		ws = append(ws, k.length(b.x))
	}
	k.judge(table, got, ws, what, other, at)
}

// judge: a length equals one of others, or is told apart from all of them.
func (k *grid16) judge(table string, got lin16, want []lin16, what, other string, at ssa.Instruction) {
	if len(want) == 0 {
		return
	}
	for _, w := range want {
		if got.plus(w, -1).zero() {
			k.r.OK(table + ": as many " + what + " as " + other)
			k.r.Count("lengths proved equal", 1)
			return
		}
	}
	for _, w := range want {
		if ok, _, _ := differ16(got, w); !ok {
			k.open(table + ": " + what + " and " + other + " not comparable at " + k.c.PosOf(at))
			return
		}
	}
	k.verdict(table, got, want[0], what, other, at)
}

func (k *grid16) open(s string) {
	if !k.said[s] {
		k.said[s] = true
		k.r.Open(s)
	}
}

func (k *grid16) verdict(table string, got, want lin16, what, other string, at ssa.Instruction) {
	if got.plus(want, -1).zero() {
		return
	}
	ok, why, where := differ16(got, want)
	if !ok {
		return
	}
	if where == nil {
		where = at
	}
	key := k.c.PosOf(where) + why + table
	if k.said[key] {
		return
	}
	k.said[key] = true
	k.r.Bad("lengths", k.c.FnName(where.Parent()), k.c.PosOf(where), "%s: the number of %s is not that of the %s: %s", table, what, other, why)
}

// differ16: the lengths differ for some filing.
func differ16(a, b lin16) (bool, string, ssa.Instruction) {
	d := a.plus(b, -1)
	if d.constant() {
		if d.k == 0 {
			return false, "", nil
		}
		return true, fmt.Sprintf("they differ by %d", d.k), nil
	}
	// one is put in wherever the other is, and elsewhere
	if len(d.t) == 2 {
		var up, down *atom16
		for key, n := range d.t {
			switch n {
			case 1:
				up = d.a[key]
			case -1:
				down = d.a[key]
			}
		}
		if up != nil && down != nil && up.block != nil && down.block != nil && up.frame == down.frame && up.loop == down.loop && up.loop != nil {
			if up.block.Dominates(down.block) {
				up, down = down, up
			}
			if down.block.Dominates(up.block) {
				return true, "one of them can be left out where the other is put in", up.at
			}
		}
	}
	// what is left out under a condition counts as put in
	var at ssa.Instruction
	how := ""
	for i := 0; i < 4; i++ {
		var keys []string
		for key := range d.t {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		done := true
		for _, key := range keys {
			x := d.a[key]
			if x == nil || x.bound == nil {
				continue
			}
			n := d.t[key]
			d = d.plus(of16(x), -n).plus(x.bound.times(n), 1)
			at, how = x.at, x.how
			done = false
			break
		}
		if done || d.constant() {
			break
		}
	}
	if d.constant() && at != nil {
		return true, how, at
	}
	return false, "", nil
}

// cell16 is the number of cells of the rows put in at one place.
type cell16 struct {
	n  lin16
	at ssa.Instruction
}

// cells: how many cells the rows of a grid have.
func (k *grid16) cells(x fval) []cell16 {
	var r []cell16
	for _, s := range k.seq(x) {
		if s.made != nil {
			for _, st := range k.filled(fval{s.f, s.made}) {
				if st.Parent() == s.f.fn && s.f.live[st.Block()] {
					r = append(r, cell16{k.length(fval{s.f, st.Val}), st})
				}
			}
			continue
		}
		for _, e := range s.elems {
			r = append(r, cell16{k.length(fval{s.f, e}), s.site})
		}
	}
	return r
}

// elements checks how a slice is filled, and what it is filled from.
func (k *grid16) elements(x fval, depth, rows int) {
	x = k.resolve(x)
	key := fmt.Sprintf("el:%d/%s", k.id(x.f), x.v.Name())
	if depth > 4 || k.said[key] {
		return
	}
	k.said[key] = true
	for _, s := range k.seq(x) {
		switch {
		case s.made != nil:
			k.slots(s)
			if s.src != nil {
				k.elements(*s.src, depth+1, 0)
			}
			for _, st := range k.filled(fval{s.f, s.made}) {
				if _, ok := st.Val.Type().Underlying().(*types.Slice); ok && rows > 0 && st.Parent() == s.f.fn {
					k.elements(fval{s.f, st.Val}, depth+1, rows-1)
				}
			}
		case s.loop != nil:
			cn, ok := k.counter(s.f, s.loop)
			for _, e := range s.elems {
				if ok {
					k.fill(s.f, s.loop, cn, cn.idx, e, s.site, total16(k.seq(x)))
				}
				if _, sl := e.Type().Underlying().(*types.Slice); sl && rows > 0 {
					k.elements(fval{s.f, e}, depth+1, rows-1)
				}
			}
		}
	}
}

// slots: every place of a slice made at full length is filled.
func (k *grid16) slots(s seg16) {
	stores := k.filled(fval{s.f, s.made})
	var in []*ssa.Store
	for _, st := range stores {
		if st.Parent() == s.f.fn && s.f.live[st.Block()] {
			in = append(in, st)
		}
	}
	if len(in) == 0 {
		k.open("nothing seen that fills the slice made at " + k.c.PosOf(s.made))
		return
	}
	if len(in) == 1 {
		st := in[0]
		n, l := k.timesAny(s.f, st.Block(), s.made.Block())
		if _, ok := st.Val.Type().Underlying().(*types.Pointer); !ok || l == nil {
			if ok, why, at := differ16(n, s.n); ok && !n.plus(s.n, -1).zero() {
				if at == nil {
					at = st
				}
				k.r.Bad("filled", k.c.FnName(s.f.fn), k.c.PosOf(at), "the slice made at %s is not filled to its end: %s", k.c.PosOf(s.made), why)
			}
		}
	}
	for _, st := range in {
		ia := st.Addr.(*ssa.IndexAddr)
		// the loop that counts the place
		for _, l := range k.around(st.Block()) {
			if l.body[s.made.Block()] {
				continue
			}
			cn, ok := k.counter(s.f, l)
			if !ok || cn.phi == nil || !k.depends(ia.Index, cn.phi) {
				continue
			}
			k.fill(s.f, l, cn, ia.Index, st.Val, st, s.n)
			break
		}
	}
}

func (k *grid16) timesAny(f *cframe, b, from *ssa.BasicBlock) (lin16, *natLoop) {
	// until the function is left
	var ls []*natLoop
	for _, l := range k.around(b) {
		if !l.body[from] {
			ls = append(ls, l)
		}
	}
	if len(ls) == 1 {
		return k.times(f, b, from, ls[0].head)
	}
	return of16(&atom16{key: fmt.Sprintf("any:%d/%d", k.id(f), b.Index)}), nil
}

// fill: what a loop puts in comes from the element the loop has come to.
func (k *grid16) fill(f *cframe, l *natLoop, cn counter16, idx, v ssa.Value, at ssa.Instruction, n lin16) {
	if cn.phi == nil {
		return
	}
	deps := k.deps(v)
	k.r.Count("loops that fill a table", 1)
	if !deps[cn.phi] {
		k.r.Bad("elements", k.c.FnName(f.fn), k.c.PosOf(at), "what the loop puts in does not depend on how far the loop has come")
		return
	}
	type read struct {
		ok bool
		at ssa.Instruction
	}
	bases := map[fval]*read{}
	for d := range deps {
		ia, ok := d.(*ssa.IndexAddr)
		if !ok || !l.body[ia.Block()] || !k.depends(ia.Index, cn.phi) {
			continue
		}
		if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		if !k.length(fval{f, ia.X}).plus(n, -1).zero() {
			continue
		}
		b := k.resolve(fval{f, ia.X})
		if bases[b] == nil {
			bases[b] = &read{}
		}
		bases[b].at = ia
		if k.sameIndex(ia.Index, idx) {
			bases[b].ok = true
		}
	}
	for _, x := range bases {
		if !x.ok {
			k.r.Bad("elements", k.c.FnName(f.fn), k.c.PosOf(x.at), "what is put in one place is taken from another place of a list of the same length")
		}
	}
}

func (k *grid16) sameIndex(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	return k.c.Exprs().X(a, nil).Key == k.c.Exprs().X(b, nil).Key
}

// depends: a number is computed from another.
func (k *grid16) depends(v ssa.Value, on ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if v == on {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && visit(*o) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

// deps: everything in the function that a value is made from.
func (k *grid16) deps(v ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	conds := map[*ssa.BasicBlock]bool{}
	var visit func(v ssa.Value)
	control := func(b *ssa.BasicBlock) {
		if conds[b] {
			return
		}
		conds[b] = true
		d := b.Idom()
		for _, x := range b.Parent().Blocks {
			if x != d && !(d != nil && d.Dominates(x) && follows16(x, b, d)) {
				continue
			}
			if iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
				visit(iff.Cond)
			}
		}
	}
	within := func(root ssa.Value) {
		// what is put into it
		work := []ssa.Value{root}
		done := map[ssa.Value]bool{}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			if done[x] || x.Referrers() == nil {
				continue
			}
			done[x] = true
			for _, ref := range *x.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Store:
					if ref.Addr == x {
						visit(ref.Val)
						control(ref.Block())
					} else if ref.Val == x {
						work = append(work, k.again(ref)...)
					}
				case *ssa.FieldAddr:
					if ref.X == x {
						work = append(work, ref)
					}
				case *ssa.IndexAddr:
					if ref.X == x {
						work = append(work, ref)
					}
				case *ssa.UnOp:
					if _, ok := ref.Type().Underlying().(*types.Slice); ok {
						work = append(work, ref)
					}
				case *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface:
					work = append(work, ref.(ssa.Value))
				case *ssa.MapUpdate:
					if ref.Map == x {
						visit(ref.Key)
						visit(ref.Value)
					}
				case ssa.CallInstruction:
					// it may be filled there
					for _, a := range ref.Common().Args {
						if a != x {
							visit(a)
						}
					}
				case *ssa.MakeClosure:
					for _, b := range ref.Bindings {
						visit(b)
					}
					if ref.Referrers() != nil {
						work = append(work, ref)
					}
				}
			}
		}
	}
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			within(v)
		case *ssa.Phi:
			counts := true
			for _, e := range x.Edges {
				p, _ := phi16(e, x.Block())
				_, isConst := e.(*ssa.Const)
				counts = counts && (p == x || isConst)
			}
			if !counts {
				control(x.Block())
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if *o != nil {
					visit(*o)
				}
			}
		}
	}
	visit(v)
	return seen
}

// position: the row without a label is the first, or the last.
func (k *grid16) position(table string, x put16, labels []put16, first bool) {
	var flat []seg16
	var open func(s []seg16, depth int)
	open = func(s []seg16, depth int) {
		for _, e := range s {
			src := e.src
			if src == nil && e.loop != nil {
				// one element for each of another list
				if cn, ok := k.counter(e.f, e.loop); ok && cn.full && cn.base != nil && cn.n.plus(e.n, -1).zero() && k.length(*cn.base).plus(e.n, -1).zero() {
					src = cn.base
				}
			}
			if src != nil && depth < 6 && !k.isLabels(*src) {
				open(k.seq(*src), depth+1)
				continue
			}
			flat = append(flat, e)
		}
	}
	open(k.seq(x.x), 0)
	ones, rest := -1, 0
	for i, e := range flat {
		if e.one {
			if ones >= 0 {
				return
			}
			ones = i
			continue
		}
		rest++
	}
	if ones < 0 || rest == 0 {
		k.open(table + ": no single row found beside the labelled ones")
		return
	}
	switch {
	case first && ones == 0, !first && ones == len(flat)-1:
		k.r.OK(table + ": the row without a label is where it belongs")
	default:
		e := flat[ones]
		where := "last"
		if first {
			where = "first"
		}
		k.r.Bad("position", k.c.FnName(e.f.fn), k.c.PosOf(e.site), "%s: the row that has no label of its own is not put in %s, so that the other rows do not line up with their labels", table, where)
	}
}

func (k *grid16) isLabels(x fval) bool { return role16(x.v.Type()) == "labels" }

// emptied: a table is left empty only where there is nothing to put in it.
func (k *grid16) emptied() {
	done := map[ssa.Instruction]bool{}
	for _, e := range k.empty {
		if done[e.ret] {
			continue
		}
		done[e.ret] = true
		if !k.tableResult(e.f.fn) {
			continue
		}
		var some, none string
		for i, v := range results(e.ret) {
			switch role := role16(e.f.fn.Signature.Results().At(i).Type()); role {
			case "facts", "members", "marks", "headers", "domains":
				if k.isEmpty(fval{e.f, v}) {
					none = role
				} else {
					some = role
				}
			}
		}
		if some != "" && none != "" {
			k.r.Bad("empty", k.c.FnName(e.f.fn), k.c.PosOf(e.ret), "the %s are left empty where there are %s", none, some)
			continue
		}
		for _, g := range guards16(e.ret.Block()) {
			cmp, ok := g.cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			op, a, b := cmp.Op, cmp.X, cmp.Y
			if _, ok := a.(*ssa.Const); ok {
				a, b, op = b, a, swap16(op)
			}
			kb, ok := b.(*ssa.Const)
			if !ok || kb.Value == nil || kb.Value.Kind() != constant.Int {
				continue
			}
			if k.number(fval{e.f, a}).constant() {
				continue
			}
			if !g.taken {
				op = negate16(op)
			}
			n := kb.Int64()
			some := false
			switch op {
			case token.LSS:
				some = n > 1
			case token.LEQ:
				some = n > 0
			case token.EQL:
				some = n > 0
			case token.GTR, token.GEQ, token.NEQ:
				some = true
			}
			if some {
				k.r.Bad("empty", k.c.FnName(e.f.fn), k.c.PosOf(cmp), "the table is left empty although there can be something to put in it")
			} else {
				k.r.OK("the table is left empty where there is nothing to put in it: " + k.c.PosOf(cmp))
			}
		}
	}
}

func (k *grid16) tableResult(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		switch role16(rs.At(i).Type()) {
		case "facts", "members", "marks", "headers", "domains":
			return true
		}
	}
	return false
}

type guard16 struct {
	cond  ssa.Value
	taken bool
}

// guards16: the conditions that lead straight to a block.
func guards16(b *ssa.BasicBlock) []guard16 {
	var r []guard16
	seen := map[*ssa.BasicBlock]bool{}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, p := range b.Preds {
			switch in := p.Instrs[len(p.Instrs)-1].(type) {
			case *ssa.If:
				r = append(r, guard16{in.Cond, p.Succs[0] == b})
			case *ssa.Jump:
				up(p)
			}
		}
	}
	up(b)
	return r
}

// order: a list is not put in another order after rows or columns were taken from it.
func (k *grid16) order(puts map[string]map[string][]put16) {
	type event struct {
		f  *cframe
		in ssa.Instruction
		x  fval
	}
	var sorts []event
	k.run.eachLive(func(f *cframe, in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || len(ci.Common().Args) == 0 {
			return
		}
		n := calleeName(ci.Common())
		if !(strings.HasPrefix(n, "sort.S") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse")) {
			return
		}
		a := ci.Common().Args[0]
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		sorts = append(sorts, event{f, in, k.resolve(fval{f, a})})
	})
	k.r.Count("calls that put a list in order", len(sorts))
	kept := map[string]bool{} // lists that are labels or headers
	for _, p := range puts {
		for _, role := range []string{"labels", "headers", "facts", "axes", "dimensions"} {
			for _, x := range p[role] {
				kept[k.ident(k.resolve(x.x))] = true
			}
		}
	}
	for _, s := range sorts {
		id := k.ident(s.x)
		used := map[ssa.Instruction]bool{}
		var before, after *drawn16
		for i := range k.drawn {
			d := &k.drawn[i]
			if k.ident(d.base) != id || used[d.loop.head.Instrs[0]] {
				continue
			}
			a, b, ok := common16(d.f, d.loop.head.Instrs[0], s.f, s.in)
			if !ok || a == b {
				continue
			}
			if k.sooner(a, b) && !k.sooner(b, a) {
				before = d
			} else if k.sooner(b, a) {
				after = d
			}
		}
		if before != nil && (after != nil || kept[id]) {
			k.r.Bad("order", k.c.FnName(s.f.fn), k.c.PosOf(s.in), "the list is put in another order after rows or columns were taken from it at %s", k.c.PosOf(firstPos16(before.loop.head)))
		}
	}
	// lists that grow together are put in order together
	for _, p := range puts {
		for _, l := range p["labels"] {
			for _, x := range p["facts"] {
				k.together(l, x, func(y fval) ssa.Instruction {
					for _, s := range sorts {
						if k.ident(s.x) == k.ident(y) {
							return s.in
						}
					}
					return nil
				})
			}
		}
	}
}

// sooner: b can be executed after a in the same round of the loops around both.
func (k *grid16) sooner(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return index16(a) < index16(b)
	}
	var head *ssa.BasicBlock
	for _, l := range k.around(a.Block()) {
		if l.body[b.Block()] {
			head = l.head
			break
		}
	}
	return head != b.Block() && follows16(a.Block(), b.Block(), head)
}

func (k *grid16) together(l, x put16, sorted func(fval) ssa.Instruction) {
	lv := k.resolve(l.x)
	seen := map[fval]bool{}
	var chain []fval
	var visit func(y fval, depth int)
	visit = func(y fval, depth int) {
		y = k.resolve(y)
		if seen[y] || depth > 4 {
			return
		}
		seen[y] = true
		chain = append(chain, y)
		for _, s := range k.seq(y) {
			if s.src != nil {
				visit(*s.src, depth+1)
			}
		}
	}
	visit(x.x, 0)
	for _, y := range chain {
		if y == lv {
			continue
		}
		shared := false
		for _, a := range k.seq(lv) {
			for _, b := range k.seq(y) {
				if a.loop != nil && a.loop == b.loop && a.f == b.f {
					shared = true
				}
			}
		}
		if !shared {
			continue
		}
		a, b := sorted(lv), sorted(y)
		if (a == nil) != (b == nil) {
			at := a
			if at == nil {
				at = b
			}
			k.r.Bad("order", k.c.FnName(at.Parent()), k.c.PosOf(at), "of two lists that were filled together only one is put in order")
		}
	}
}

func (k *grid16) ident(x fval) string {
	if u, ok := x.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		a := k.resolve(fval{x.f, u.X})
		if _, ok := a.v.(*ssa.Alloc); ok {
			return fmt.Sprintf("var:%d/%s", k.id(a.f), a.v.Name())
		}
	}
	return k.name(x, 0)
}

// common16 lifts two instructions into the activation both are done under.
func common16(f *cframe, a ssa.Instruction, g *cframe, b ssa.Instruction) (ssa.Instruction, ssa.Instruction, bool) {
	for x, i := f, a; x != nil; {
		for y, j := g, b; y != nil; {
			if x == y {
				return i, j, true
			}
			if y.site == nil {
				break
			}
			j, y = y.site, y.up
		}
		if x.site == nil {
			break
		}
		i, x = x.site, x.up
	}
	return nil, nil, false
}
