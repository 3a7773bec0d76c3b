package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conditional constant propagation through calls. A run starts from an assumption (what some values
// are) and follows only the branches that can be taken under it; it keeps which constants values can
// be and which marks they carry, and reports what is stored where.

// cval is what is known of a value: nothing yet (st 0), one known value (1) or any value (2).
type cval struct {
	st   uint8
	k    constant.Value // with st 1: nil stands for nil
	fn   *ssa.Function
	free []cval
	cell *ccell
	path string
	tags []string

	empty bool // a slice without elements
}

// isEmpty: a slice that has no elements, whichever way it was made.
func (x cval) isEmpty() bool { return x.empty || x.st == 1 && x.k == nil && x.fn == nil }

type clink struct {
	path string
	to   *ccell
	from string
}

// ccell is what an allocation holds, by path.
type ccell struct {
	id    int
	at    map[string]cval
	links []clink
	keys  cval // of a map
	exact bool // a map filled once, where it is made
}

type cframe struct {
	fn     *ssa.Function
	up     *cframe
	depth  int
	args   []cval
	free   []cval
	env    map[ssa.Value]cval
	tup    map[ssa.Value][]cval
	live   map[*ssa.BasicBlock]bool
	edge   map[[2]*ssa.BasicBlock]bool
	kids   map[ckid]*cframe
	cells  map[ssa.Value]*ccell
	ret    []cval
	round  int
	site   ssa.CallInstruction
	busy   bool
	called bool
}

type ckid struct {
	site ssa.Instruction
	fn   *ssa.Function
}

type constRun struct {
	c       *Ctx
	value   func(f *cframe, v ssa.Value, x cval) cval
	extern  func(f *cframe, name string, ci ssa.CallInstruction, args []cval) []string
	changed bool
	frames  []*cframe
	nextID  int
	round   int
	full    bool // gave up
	globals map[*ssa.Global]cval
	inits   map[*ssa.Function]bool
	all     map[ssa.Value]bool
}

const maxFrames = 30000

func anyVal(tags ...[]string) cval {
	v := cval{st: 2}
	for _, t := range tags {
		v.tags = joinTags(v.tags, t)
	}
	return v
}

func joinTags(a, b []string) []string {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	var out []string
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (x cval) with(tags ...string) cval {
	sort.Strings(tags)
	x.tags = joinTags(x.tags, tags)
	return x
}

func (x cval) has(tag string) bool {
	for _, t := range x.tags {
		if t == tag {
			return true
		}
	}
	return false
}

func constVal(k constant.Value) cval { return cval{st: 1, k: k} }

func (x cval) known() bool { return x.st == 1 && x.fn == nil && x.k != nil }

// text is the string a value is known to be.
func (x cval) text() (string, bool) {
	if x.known() && x.k.Kind() == constant.String {
		return constant.StringVal(x.k), true
	}
	return "", false
}

func (x cval) truth() (val, ok bool) {
	if x.known() && x.k.Kind() == constant.Bool {
		return constant.BoolVal(x.k), true
	}
	return false, false
}

func sameKnown(a, b cval) bool {
	if a.fn != b.fn {
		return false
	}
	if a.k == nil || b.k == nil {
		return a.k == nil && b.k == nil
	}
	if a.k.Kind() != b.k.Kind() {
		return false
	}
	return constant.Compare(a.k, token.EQL, b.k)
}

func joinVal(a, b cval) cval {
	if a.st == 0 {
		b.tags = joinTags(b.tags, a.tags)
		return b
	}
	if b.st == 0 {
		a.tags = joinTags(a.tags, b.tags)
		return a
	}
	out := a
	out.tags = joinTags(a.tags, b.tags)
	out.empty = a.isEmpty() && b.isEmpty()
	if a.st == 2 || b.st == 2 || !sameKnown(a, b) {
		out.st = 2
		out.k = nil
		out.fn = nil
		out.free = nil
	} else if len(a.free) == len(b.free) {
		out.free = make([]cval, len(a.free))
		for i := range a.free {
			out.free[i] = joinVal(a.free[i], b.free[i])
		}
	}
	if a.cell == nil {
		out.cell, out.path = b.cell, b.path
	} else if b.cell != nil && (b.cell != a.cell || b.path != a.path) {
		// two objects: what one holds may be read for the other
		if a.cell != b.cell {
			a.cell.link(a.path, b.cell, b.path)
		}
	}
	return out
}

// holds: something was stored at a path or below.
func (c *ccell) holds(path string) bool {
	for p := range c.at {
		if strings.HasPrefix(p, path) {
			return true
		}
	}
	for _, l := range c.links {
		if strings.HasPrefix(l.path, path) {
			return true
		}
	}
	return false
}

func (c *ccell) link(path string, to *ccell, from string) {
	for _, l := range c.links {
		if l.path == path && l.to == to && l.from == from {
			return
		}
	}
	c.links = append(c.links, clink{path, to, from})
}

func sameVal(a, b cval) bool {
	if a.st != b.st || a.empty != b.empty || a.cell != b.cell || a.path != b.path || len(a.tags) != len(b.tags) || len(a.free) != len(b.free) {
		return false
	}
	if a.st == 1 && !sameKnown(a, b) {
		return false
	}
	for i := range a.free {
		if !sameVal(a.free[i], b.free[i]) {
			return false
		}
	}
	return true
}

// get is what a cell holds at a path.
func (c *ccell) get(path string) cval { return c.read(path, map[string]bool{}, 0) }

func (c *ccell) read(path string, seen map[string]bool, depth int) cval {
	key := itoa(c.id) + path
	if depth > 12 || seen[key] {
		return cval{}
	}
	seen[key] = true
	out := c.at[path]
	for p := path; ; {
		if w, ok := c.at[p+"*"]; ok {
			out = joinVal(out, w)
		}
		if p == "" {
			break
		}
		i := strings.LastIndexAny(p, ".[{")
		p = p[:i]
	}
	for _, l := range c.links {
		if strings.HasPrefix(path, l.path) {
			out = joinVal(out, l.to.read(l.from+path[len(l.path):], seen, depth+1))
		}
	}
	return out
}

// deep collects the marks of a value and of everything it holds.
func (x cval) deep() []string {
	tags := x.tags
	seen := map[string]bool{}
	var walk func(c *ccell, path string, depth int)
	walk = func(c *ccell, path string, depth int) {
		key := itoa(c.id) + "|" + path
		if seen[key] || depth > 12 {
			return
		}
		seen[key] = true
		for p, v := range c.at {
			if strings.HasPrefix(p, path) || strings.HasSuffix(p, "*") && strings.HasPrefix(path, p[:len(p)-1]) {
				tags = joinTags(tags, v.tags)
				if v.cell != nil {
					walk(v.cell, v.path, depth+1)
				}
			}
		}
		for _, l := range c.links {
			if strings.HasPrefix(l.path, path) {
				walk(l.to, l.from, depth+1)
			} else if strings.HasPrefix(path, l.path) {
				walk(l.to, l.from+path[len(l.path):], depth+1)
			}
		}
	}
	if x.cell != nil {
		walk(x.cell, x.path, 0)
	}
	return tags
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	var b []byte
	for ; i > 0; i /= 10 {
		b = append([]byte{byte('0' + i%10)}, b...)
	}
	return string(b)
}

func newConstRun(c *Ctx) *constRun {
	return &constRun{c: c, globals: map[*ssa.Global]cval{}, inits: map[*ssa.Function]bool{}}
}

// run follows a function with unknown arguments until nothing changes any more.
func (r *constRun) run(fn *ssa.Function) *cframe {
	top := r.frame(nil, fn, nil)
	for range fn.Params {
		top.args = append(top.args, anyVal())
	}
	for range fn.FreeVars {
		top.free = append(top.free, anyVal())
	}
	for r.round = 1; r.round <= 40; r.round++ {
		r.changed = false
		r.pass(top)
		if !r.changed || r.full {
			break
		}
	}
	if r.changed {
		r.full = true
	}
	return top
}

func (r *constRun) frame(up *cframe, fn *ssa.Function, site ssa.CallInstruction) *cframe {
	f := &cframe{fn: fn, up: up, site: site, env: map[ssa.Value]cval{}, tup: map[ssa.Value][]cval{}, live: map[*ssa.BasicBlock]bool{},
		edge: map[[2]*ssa.BasicBlock]bool{}, kids: map[ckid]*cframe{}, cells: map[ssa.Value]*ccell{}}
	if up != nil {
		f.depth = up.depth + 1
	}
	r.frames = append(r.frames, f)
	if len(r.frames) > maxFrames {
		r.full = true
	}
	return f
}

func (r *constRun) newCell() *ccell {
	r.nextID++
	return &ccell{id: r.nextID, at: map[string]cval{}}
}

func (r *constRun) put(c *ccell, path string, v cval) {
	old := c.at[path]
	links := len(c.links)
	v2 := joinVal(old, v)
	if !sameVal(old, v2) || len(c.links) != links {
		c.at[path] = v2
		r.changed = true
	}
}

// set gives a value in a frame.
func (r *constRun) set(f *cframe, v ssa.Value, x cval) {
	if r.value != nil {
		x = r.value(f, v, x)
	}
	old := f.env[v]
	n := joinVal(old, x)
	if !sameVal(old, n) {
		f.env[v] = n
		r.changed = true
	}
}

func (r *constRun) get(f *cframe, v ssa.Value) cval {
	switch x := v.(type) {
	case nil:
		return anyVal()
	case *ssa.Const:
		out := cval{st: 1, k: x.Value}
		if x.Value == nil && !isNilable(x.Type()) {
			out = anyVal()
		}
		if r.value != nil {
			out = r.value(f, v, out)
		}
		return out
	case *ssa.Function:
		return cval{st: 1, fn: x}
	case *ssa.Global, *ssa.Builtin:
		return anyVal()
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p == x && i < len(f.args) {
				a := f.args[i]
				if r.value != nil {
					a = r.value(f, v, a)
				}
				return a
			}
		}
		return anyVal()
	case *ssa.FreeVar:
		for i, p := range f.fn.FreeVars {
			if p == x && i < len(f.free) {
				return f.free[i]
			}
		}
		return anyVal()
	}
	return f.env[v]
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// pass goes once through the live blocks of a function.
func (r *constRun) pass(f *cframe) []cval {
	if r.full || f.busy || f.fn.Blocks == nil {
		return f.ret
	}
	if f.round == r.round && r.round > 0 {
		// reached again in the same round (through recursion): once is enough
		return f.ret
	}
	f.round = r.round
	f.busy = true
	defer func() { f.busy = false }()
	r.mark(f, nil, f.fn.Blocks[0])
	for _, b := range f.fn.Blocks {
		if !f.live[b] {
			continue
		}
		for _, in := range b.Instrs {
			r.step(f, in)
		}
	}
	return f.ret
}

func (r *constRun) mark(f *cframe, from, to *ssa.BasicBlock) {
	e := [2]*ssa.BasicBlock{from, to}
	if !f.edge[e] {
		f.edge[e] = true
		f.live[to] = true
		r.changed = true
	}
}

func (r *constRun) step(f *cframe, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi:
		var out cval
		for i, e := range x.Edges {
			if f.edge[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				out = joinVal(out, r.get(f, e))
			}
		}
		r.set(f, x, out)
	case *ssa.BinOp:
		r.set(f, x, r.binop(x, r.get(f, x.X), r.get(f, x.Y)))
	case *ssa.UnOp:
		r.set(f, x, r.unop(f, x))
	case *ssa.Convert:
		v := r.get(f, x.X)
		if v.st == 1 && !sameKind(x.X.Type(), x.Type()) {
			v.st = 2
			v.k = nil
		}
		r.set(f, x, v)
	case *ssa.ChangeType:
		r.set(f, x, r.get(f, x.X))
	case *ssa.ChangeInterface:
		r.set(f, x, r.get(f, x.X))
	case *ssa.MakeInterface:
		r.set(f, x, r.get(f, x.X))
	case *ssa.SliceToArrayPointer:
		r.set(f, x, r.get(f, x.X))
	case *ssa.MultiConvert:
		r.set(f, x, anyVal(r.get(f, x.X).tags))
	case *ssa.TypeAssert:
		v := r.get(f, x.X)
		if x.CommaOk {
			r.tuple(f, x, []cval{v, anyVal()})
		} else {
			r.set(f, x, v)
		}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := x.(ssa.Value)
		c := f.cells[v]
		if c == nil {
			c = r.newCell()
			if mm, ok := v.(*ssa.MakeMap); ok {
				c.exact = filledAtOnce(mm)
			}
			f.cells[v] = c
		}
		ms, isSlice := v.(*ssa.MakeSlice)
		r.set(f, v, cval{st: 2, cell: c, empty: isSlice && isZero(ms.Len)})
	case *ssa.MakeClosure:
		fn, _ := x.Fn.(*ssa.Function)
		v := cval{st: 1, fn: fn}
		for _, b := range x.Bindings {
			v.free = append(v.free, r.get(f, b))
		}
		r.set(f, x, v)
	case *ssa.FieldAddr:
		r.set(f, x, r.sub(r.get(f, x.X), "."+itoa(x.Field)))
	case *ssa.Field:
		v := r.get(f, x.X)
		s := r.sub(v, "."+itoa(x.Field))
		r.set(f, x, r.load(s, x.Type()))
	case *ssa.IndexAddr:
		r.set(f, x, r.sub(r.get(f, x.X), "[]"))
	case *ssa.Index:
		v := r.get(f, x.X)
		if isString(x.X.Type()) {
			r.set(f, x, anyVal(v.tags))
			return
		}
		r.set(f, x, r.load(r.sub(v, "[]"), x.Type()))
	case *ssa.Slice:
		v := r.get(f, x.X)
		if isString(x.X.Type()) {
			v = anyVal(v.tags)
		} else if v.st != 0 {
			if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
				v.empty = x.High == nil && a.Len() == 0
			}
			if x.High != nil && isZero(x.High) {
				v.empty = true
			}
		}
		r.set(f, x, v)
	case *ssa.Extract:
		if t := f.tup[x.Tuple]; x.Index < len(t) {
			r.set(f, x, t[x.Index])
		}
	case *ssa.Lookup:
		v, ok := r.lookup(r.get(f, x.X), r.get(f, x.Index), x.X.Type())
		if x.CommaOk {
			r.tuple(f, x, []cval{v, ok})
		} else {
			r.set(f, x, v)
		}
	case *ssa.Range:
		r.set(f, x, r.get(f, x.X))
	case *ssa.Next:
		it := r.get(f, x.Iter)
		k, v := anyVal(it.tags), anyVal(it.tags)
		if !x.IsString && it.cell != nil && it.path == "" {
			if kk := it.cell.keys; kk.st != 0 {
				k = joinVal(anyVal(it.tags), kk)
			}
			if t, ok := x.Type().(*types.Tuple); ok && t.Len() == 3 {
				v = joinVal(v, r.load(r.sub(it, "{}"), t.At(2).Type()))
			}
		}
		r.tuple(f, x, []cval{anyVal(), k, v})
	case *ssa.Select:
		n := 2
		if t, ok := x.Type().(*types.Tuple); ok {
			n = t.Len()
		}
		t := make([]cval, n)
		for i := range t {
			t[i] = anyVal()
		}
		r.tuple(f, x, t)
	case *ssa.Store:
		a, v := r.get(f, x.Addr), r.get(f, x.Val)
		if v.st == 0 {
			return
		}
		r.store(a, v, x.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := r.get(f, x.Map), r.get(f, x.Key), r.get(f, x.Value)
		if v.st == 0 || m.cell == nil {
			return
		}
		if k.st == 0 {
			return
		}
		nk := joinVal(m.cell.keys, k)
		if !sameVal(nk, m.cell.keys) {
			m.cell.keys = nk
			r.changed = true
		}
		r.store(r.sub(m, "{}"), v, x.Value.Type())
		if t, ok := k.text(); ok {
			r.store(r.sub(m, "{"+t+"}"), v, x.Value.Type())
		} else {
			r.store(r.sub(m, "{?}"), v, x.Value.Type())
		}
	case *ssa.Send:
		ch, v := r.get(f, x.Chan), r.get(f, x.X)
		if ch.cell != nil {
			r.store(r.sub(ch, "[]"), v, x.X.Type())
		}
	case *ssa.Return:
		for i, res := range results(x) {
			v := r.get(f, res)
			for len(f.ret) <= i {
				f.ret = append(f.ret, cval{})
			}
			n := joinVal(f.ret[i], v)
			if !sameVal(n, f.ret[i]) {
				f.ret[i] = n
				r.changed = true
			}
		}
	case *ssa.If:
		b := x.Block()
		v := r.get(f, x.Cond)
		if t, ok := v.truth(); ok {
			if t {
				r.mark(f, b, b.Succs[0])
			} else {
				r.mark(f, b, b.Succs[1])
			}
			return
		}
		if v.st == 2 {
			r.mark(f, b, b.Succs[0])
			r.mark(f, b, b.Succs[1])
		}
	case *ssa.Jump:
		r.mark(f, x.Block(), x.Block().Succs[0])
	case ssa.CallInstruction:
		r.call(f, x)
	case ssa.Value:
		r.set(f, x, anyVal())
	}
}

func sameKind(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	const num = types.IsInteger
	return x.Info()&types.IsString != 0 && y.Info()&types.IsString != 0 || x.Info()&num != 0 && y.Info()&num != 0 || x.Info()&types.IsBoolean != 0 && y.Info()&types.IsBoolean != 0
}

func (r *constRun) tuple(f *cframe, v ssa.Value, t []cval) {
	old := f.tup[v]
	for len(old) < len(t) {
		old = append(old, cval{})
	}
	for i := range t {
		n := joinVal(old[i], t[i])
		if !sameVal(n, old[i]) {
			r.changed = true
		}
		old[i] = n
	}
	f.tup[v] = old
}

func (r *constRun) sub(v cval, path string) cval {
	if v.st == 0 {
		return v
	}
	out := cval{st: 2, tags: v.tags}
	if v.cell != nil && len(v.path) < 60 {
		out.cell, out.path = v.cell, v.path+path
	}
	return out
}

// load reads what an address stands for.
func (r *constRun) load(a cval, t types.Type) cval {
	if a.st == 0 {
		return a
	}
	if a.cell == nil {
		return anyVal(a.tags)
	}
	out := a.cell.get(a.path)
	out.tags = joinTags(out.tags, a.tags)
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		// the object itself stands for its copy
		return cval{st: 2, cell: a.cell, path: a.path, tags: out.tags}
	case *types.Basic:
		// before the first store there is the zero value
		out.st = 2
		out.k = nil
		return out
	}
	if out.st == 0 {
		out.st = 2
	}
	return out
}

func (r *constRun) store(a, v cval, t types.Type) {
	if a.cell == nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			r.escape(v)
		}
		return
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		if v.cell != nil {
			if v.cell != a.cell || v.path != a.path {
				n := len(a.cell.links)
				a.cell.link(a.path, v.cell, v.path)
				if len(a.cell.links) != n {
					r.changed = true
				}
			}
			v = cval{st: 2, tags: v.tags}
		}
		if len(v.tags) > 0 {
			r.put(a.cell, a.path+"*", v)
		}
		return
	}
	r.put(a.cell, a.path, v)
}

// escape: an object that anything may be written to from elsewhere.
func (r *constRun) escape(v cval) {
	if v.cell != nil {
		r.put(v.cell, v.path+"*", anyVal())
	}
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

// filledAtOnce: all entries of a map are put in right where it is made.
func filledAtOnce(m *ssa.MakeMap) bool {
	for _, in := range *m.Referrers() {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if x.Map != m || x.Block() != m.Block() {
				return false
			}
			if _, ok := stripConv(x.Key).(*ssa.Const); !ok {
				return false
			}
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Global); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (r *constRun) lookup(m, k cval, t types.Type) (v, ok cval) {
	if m.st == 0 || k.st == 0 {
		return cval{}, cval{}
	}
	tags := joinTags(m.tags, nil)
	if _, isMap := t.Underlying().(*types.Map); !isMap {
		return anyVal(tags), anyVal()
	}
	if m.cell == nil {
		return anyVal(tags), anyVal()
	}
	elem := t.Underlying().(*types.Map).Elem()
	get := func(path string) cval {
		switch elem.Underlying().(type) {
		case *types.Struct, *types.Array:
			return r.load(r.sub(m, path), elem)
		}
		return m.cell.get(m.path + path)
	}
	if key, known := k.text(); known {
		v = get("{" + key + "}")
		if m.cell.exact && m.path == "" {
			if !m.cell.holds("{" + key + "}") {
				return cval{st: 1}, constVal(constant.MakeBool(false))
			}
			return v, constVal(constant.MakeBool(true))
		}
		v = joinVal(v, get("{?}"))
	} else {
		v = get("{}")
	}
	if _, basic := t.Underlying().(*types.Map).Elem().Underlying().(*types.Basic); basic || v.st == 0 {
		v.st = 2
		v.k = nil
	}
	v.tags = joinTags(v.tags, tags)
	return v, anyVal()
}

func (r *constRun) binop(x *ssa.BinOp, a, b cval) cval {
	if a.st == 0 || b.st == 0 {
		return cval{}
	}
	tags := joinTags(a.tags, b.tags)
	if a.known() && b.known() && a.k.Kind() == b.k.Kind() {
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.k.Kind() != constant.Bool || x.Op == token.EQL || x.Op == token.NEQ {
				v := constVal(constant.MakeBool(constant.Compare(a.k, x.Op, b.k)))
				v.tags = tags
				return v
			}
		case token.ADD:
			if a.k.Kind() == constant.String || a.k.Kind() == constant.Int && small(a.k) && small(b.k) {
				v := constVal(constant.BinaryOp(a.k, token.ADD, b.k))
				v.tags = tags
				return v
			}
		}
	}
	if a.st == 1 && b.st == 1 && (x.Op == token.EQL || x.Op == token.NEQ) {
		isNil := func(v cval) bool { return v.fn == nil && v.k == nil }
		if isNil(a) && isNil(b) {
			return constVal(constant.MakeBool(x.Op == token.EQL))
		}
		if isNil(a) && b.fn != nil || isNil(b) && a.fn != nil {
			return constVal(constant.MakeBool(x.Op == token.NEQ))
		}
	}
	return anyVal(tags)
}

// small: far from where a sum could wrap around.
func small(k constant.Value) bool {
	i, ok := constant.Int64Val(k)
	return ok && i >= -64 && i <= 64
}

func (r *constRun) unop(f *cframe, x *ssa.UnOp) cval {
	if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
		return r.global(g)
	}
	v := r.get(f, x.X)
	switch x.Op {
	case token.NOT:
		if t, ok := v.truth(); ok {
			n := constVal(constant.MakeBool(!t))
			n.tags = v.tags
			return n
		}
	case token.MUL:
		return r.load(v, x.Type())
	case token.ARROW:
		if v.cell != nil {
			t := x.Type()
			if tt, ok := t.(*types.Tuple); ok {
				t = tt.At(0).Type()
			}
			out := r.load(r.sub(v, "[]"), t)
			if x.CommaOk {
				r.tuple(f, x, []cval{out, anyVal()})
			}
			return out
		}
		if x.CommaOk {
			r.tuple(f, x, []cval{anyVal(), anyVal()})
		}
	}
	if v.st == 0 {
		return v
	}
	return anyVal(v.tags)
}

// global is what a package variable holds when only its declaration gives it a value.
func (r *constRun) global(g *ssa.Global) cval {
	if v, ok := r.globals[g]; ok {
		if v.st == 0 {
			return anyVal()
		}
		return v
	}
	r.globals[g] = anyVal()
	if g.Pkg == nil || !r.c.inModulePath(g.Pkg.Pkg.Path()) {
		return anyVal()
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return anyVal()
	}
	var val ssa.Value
	n := 0
	for _, fn := range append([]*ssa.Function{init}, r.c.Fns...) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == g && fn == init {
							val = x.Val
							n++
							continue
						}
					}
					n = 99
				}
			}
		}
	}
	if n != 1 || val == nil {
		return anyVal()
	}
	f := r.frame(nil, init, nil)
	// only the instructions that make the value
	var need func(v ssa.Value, depth int)
	done := map[ssa.Instruction]bool{}
	var order []ssa.Instruction
	need = func(v ssa.Value, depth int) {
		in, ok := v.(ssa.Instruction)
		if !ok || done[in] || depth > 20 {
			return
		}
		done[in] = true
		switch in.(type) {
		case ssa.CallInstruction, *ssa.Phi:
			return
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				need(*op, depth+1)
			}
		}
		order = append(order, in)
		if refs := v.Referrers(); refs != nil {
			for _, ref := range *refs {
				switch y := ref.(type) {
				case *ssa.MapUpdate:
					if y.Map == v && !done[ref] {
						done[ref] = true
						need(y.Key, depth+1)
						need(y.Value, depth+1)
						order = append(order, ref)
					}
				case *ssa.Store:
					if y.Addr == v && !done[ref] {
						done[ref] = true
						need(y.Val, depth+1)
						order = append(order, ref)
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					need(y.(ssa.Value), depth+1)
				}
			}
		}
	}
	need(val, 0)
	for i := 0; i < 3; i++ {
		for _, in := range order {
			r.step(f, in)
		}
	}
	v := r.get(f, val)
	if v.cell != nil && r.changesElsewhere(g) {
		v.cell.exact = false
	}
	r.globals[g] = v
	r.changed = true
	return v
}

// changesElsewhere: entries are put into or taken from a package map outside of its declaration.
func (r *constRun) changesElsewhere(g *ssa.Global) bool {
	for _, fn := range r.c.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.X != g {
					continue
				}
				for _, ref := range *ld.Referrers() {
					switch ref.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *constRun) call(f *cframe, ci ssa.CallInstruction) {
	cc := ci.Common()
	var args []cval
	for _, a := range cc.Args {
		args = append(args, r.get(f, a))
	}
	val, _ := ci.(*ssa.Call)
	give := func(res []cval) {
		if val == nil {
			return
		}
		if t, ok := val.Type().(*types.Tuple); ok {
			if t.Len() > 0 && len(res) > 0 {
				r.tuple(f, val, res)
			}
			return
		}
		if len(res) > 0 {
			r.set(f, val, res[0])
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		give([]cval{r.builtin(f, ci, b.Name(), args)})
		return
	}
	type target struct {
		fn   *ssa.Function
		free []cval
		args []cval
	}
	var ts []target
	if cc.IsInvoke() {
		recv := r.get(f, cc.Value)
		args = append([]cval{recv}, args...)
		for _, g := range r.c.Sync().callees(ci) {
			ts = append(ts, target{g, nil, args})
		}
	} else if g := cc.StaticCallee(); g != nil {
		v := r.get(f, cc.Value)
		ts = append(ts, target{g, v.free, args})
	} else {
		v := r.get(f, cc.Value)
		switch {
		case v.st == 0:
			return
		case v.st == 1 && v.fn != nil:
			ts = append(ts, target{v.fn, v.free, args})
		default:
			for _, g := range r.c.Sync().callees(ci) {
				ts = append(ts, target{g, nil, args})
			}
		}
	}
	for _, a := range args {
		if a.st == 0 {
			return // not reached with values yet
		}
	}
	var out []cval
	ext := len(ts) == 0
	for _, t := range ts {
		if t.fn.Blocks == nil || !r.c.InModule(t.fn) && !inModuleWrapper(r.c, t.fn) {
			ext = true
			continue
		}
		g := r.enter(f, ci, t.fn, t.args, t.free)
		if g == nil {
			ext = true
			continue
		}
		res := r.pass(g)
		for i, v := range res {
			for len(out) <= i {
				out = append(out, cval{})
			}
			out[i] = joinVal(out[i], v)
		}
	}
	if ext {
		out = r.external(f, ci, args, out)
	}
	give(out)
}

func inModuleWrapper(c *Ctx, fn *ssa.Function) bool {
	if fn.Synthetic == "" {
		return false
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return c.inModulePath(o.Pkg().Path())
	}
	return false
}

// enter finds the frame of a call; a function already being followed is followed once.
func (r *constRun) enter(f *cframe, ci ssa.Instruction, fn *ssa.Function, args, free []cval) *cframe {
	var g *cframe
	for a := f; a != nil; a = a.up {
		if a.fn == fn {
			g = a
			break
		}
	}
	if g == nil {
		key := ckid{ci, fn}
		g = f.kids[key]
		if g == nil {
			if f.depth > 24 {
				r.full = true
				return nil
			}
			cs, _ := ci.(ssa.CallInstruction)
			g = r.frame(f, fn, cs)
			f.kids[key] = g
		}
	}
	merge := func(dst *[]cval, src []cval, n int) {
		for i := 0; i < n; i++ {
			v := anyVal()
			if i < len(src) {
				v = src[i]
			}
			for len(*dst) <= i {
				*dst = append(*dst, cval{})
			}
			nv := joinVal((*dst)[i], v)
			if !sameVal(nv, (*dst)[i]) {
				(*dst)[i] = nv
				r.changed = true
			}
		}
	}
	merge(&g.args, args, len(fn.Params))
	merge(&g.free, free, len(fn.FreeVars))
	return g
}

func (r *constRun) builtin(f *cframe, ci ssa.CallInstruction, name string, args []cval) cval {
	switch name {
	case "append":
		if len(args) == 0 {
			return anyVal()
		}
		v, _ := ci.(*ssa.Call)
		if v == nil {
			return anyVal()
		}
		c := f.cells[v]
		if c == nil {
			c = r.newCell()
			f.cells[v] = c
		}
		out := cval{st: 2, cell: c, empty: true}
		n := len(c.links)
		for _, a := range args {
			if a.st != 0 && !a.isEmpty() {
				out.empty = false
			}
			out.tags = joinTags(out.tags, a.tags)
			if a.cell != nil && a.cell != c {
				c.link("", a.cell, a.path)
			}
		}
		if len(c.links) != n {
			r.changed = true
		}
		return out
	case "copy":
		if len(args) == 2 && args[0].cell != nil && args[1].cell != nil && args[0].cell != args[1].cell {
			n := len(args[0].cell.links)
			args[0].cell.link(args[0].path, args[1].cell, args[1].path)
			if len(args[0].cell.links) != n {
				r.changed = true
			}
		}
		return anyVal()
	case "len", "cap":
		if s, ok := args[0].text(); ok {
			return constVal(constant.MakeInt64(int64(len(s))))
		}
		if _, isSlice := ci.Common().Args[0].Type().Underlying().(*types.Slice); isSlice && name == "len" {
			if args[0].st == 0 {
				return cval{}
			}
			if args[0].isEmpty() {
				return constVal(constant.MakeInt64(0))
			}
		}
		return anyVal()
	}
	var tags []string
	for _, a := range args {
		tags = joinTags(tags, a.tags)
	}
	return anyVal(tags)
}

// external: what a function from elsewhere returns carries the marks of everything it was given.
func (r *constRun) external(f *cframe, ci ssa.CallInstruction, args []cval, out []cval) []cval {
	name := calleeName(ci.Common())
	if v, ok := textFunction(name, args); ok {
		return []cval{v}
	}
	var tags []string
	for _, a := range args {
		tags = joinTags(tags, a.deep())
	}
	if r.extern != nil {
		add := r.extern(f, name, ci, args)
		sort.Strings(add)
		tags = joinTags(tags, add)
	}
	for i, a := range args {
		if i < len(ci.Common().Args) {
			t := ci.Common().Args[i].Type()
			if mi, ok := ci.Common().Args[i].(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			if _, ok := t.Underlying().(*types.Pointer); ok {
				r.escape(a)
			}
		}
		if a.cell != nil && len(tags) > 0 && changesArgument(name, i) {
			r.put(a.cell, a.path+"*", cval{st: 2, tags: tags})
		}
		if a.st == 1 && a.fn != nil && a.fn.Blocks != nil && r.c.InModule(a.fn) {
			if g := r.enter(f, ci, a.fn, nil, a.free); g != nil {
				r.pass(g)
			}
		}
	}
	n := 1
	if v, ok := ci.(*ssa.Call); ok {
		if t, isT := v.Type().(*types.Tuple); isT {
			n = t.Len()
		}
	}
	for len(out) < n {
		out = append(out, cval{})
	}
	for i := range out {
		out[i] = joinVal(out[i], anyVal(tags))
	}
	return out
}

// changesArgument: the function may write through what it is given.
func changesArgument(name string, arg int) bool {
	if strings.HasPrefix(name, "(") {
		return arg == 0
	}
	for _, p := range []string{"fmt.Fprint", "io.", "bufio.New"} {
		if strings.HasPrefix(name, p) {
			return arg == 0
		}
	}
	return strings.Contains(name, "nmarshal") || strings.HasPrefix(name, "fmt.Sscan") || strings.HasPrefix(name, "fmt.Fscan")
}

// textFunction computes the text functions that roles and languages are compared with.
func textFunction(name string, args []cval) (cval, bool) {
	if !strings.HasPrefix(name, "strings.") {
		return cval{}, false
	}
	var s []string
	for _, a := range args {
		t, ok := a.text()
		if !ok {
			return cval{}, false
		}
		s = append(s, t)
	}
	b := func(v bool) (cval, bool) { return constVal(constant.MakeBool(v)), true }
	t := func(v string) (cval, bool) { return constVal(constant.MakeString(v)), true }
	switch {
	case len(s) == 2 && name == "strings.HasPrefix":
		return b(strings.HasPrefix(s[0], s[1]))
	case len(s) == 2 && name == "strings.HasSuffix":
		return b(strings.HasSuffix(s[0], s[1]))
	case len(s) == 2 && name == "strings.Contains":
		return b(strings.Contains(s[0], s[1]))
	case len(s) == 2 && name == "strings.EqualFold":
		return b(strings.EqualFold(s[0], s[1]))
	case len(s) == 2 && name == "strings.TrimPrefix":
		return t(strings.TrimPrefix(s[0], s[1]))
	case len(s) == 2 && name == "strings.TrimSuffix":
		return t(strings.TrimSuffix(s[0], s[1]))
	case len(s) == 1 && name == "strings.ToLower":
		return t(strings.ToLower(s[0]))
	case len(s) == 1 && name == "strings.ToUpper":
		return t(strings.ToUpper(s[0]))
	case len(s) == 1 && name == "strings.TrimSpace":
		return t(strings.TrimSpace(s[0]))
	}
	return cval{}, false
}

// eachLive calls fn for every instruction that can be executed.
func (r *constRun) eachLive(fn func(f *cframe, in ssa.Instruction)) {
	for _, f := range r.frames {
		for _, b := range f.fn.Blocks {
			if !f.live[b] {
				continue
			}
			for _, in := range b.Instrs {
				fn(f, in)
			}
		}
	}
}
