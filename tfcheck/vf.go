package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The value-flow solver: an inclusion-based, field-sensitive points-to
// analysis with call-string contexts. Besides addresses, cells carry tags
// that say where the data came from. Objects that exist before the analysed
// code starts are symbolic: their parts are created as they are looked at and
// named by the path that leads to them.

type vobj struct {
	id     int
	name   string // path of a symbolic object
	typ    types.Type
	opaque bool // contents unknown, named by path
	shared bool // visible to other requests
	ext    bool // made by a function outside of the module
	src    *vcell
	site   ssa.Instruction
	inst   *vinst
	fn     *ssa.Function // function object
	root   *vcell
	box    bool
	global *ssa.Global
	chain  *vobj
	wait   []func()
	cells  []*vcell
	sinks  []vsink
}

type vsink struct {
	dst   *vcell
	depth int
}

type vcell struct {
	id     int
	parent *vcell
	elem   string
	obj    *vobj
	typ    types.Type
	sub    map[string]*vcell
	pts    map[*vcell]bool
	ptl    []*vcell
	tags   map[string]bool
	tgl    []string
	edges  map[*vcell]uint8
	edgel  []*vcell
	deps   []func(*vcell)
	tdeps  []func(string)
	done   map[string]bool
	queued bool
	np, nt int // propagated so far
}

type vinst struct {
	id    int
	fn    *ssa.Function
	ctx   string
	sites []ssa.CallInstruction
	regs  map[ssa.Value]*vcell
	ret   *vcell
	calls map[ssa.CallInstruction][]*vinst
	binds []*vcell // captured values
	made  *vinst   // the instance that created the closure
	ctl   *vcell   // what decides whether it runs at all
	sctl  map[ssa.CallInstruction]*vcell
}

type VF struct {
	back   map[*vcell][]*vcell
	made   map[*vcell]bool // computed, not copied
	c      *Ctx
	k      int
	insts  map[string]*vinst
	list   []*vinst
	objs   []*vobj
	objTab map[string]*vobj
	ncell  int
	work   []*vcell
	glob   map[*ssa.Global]*vobj
	skip   func(f *ssa.Function) bool // treat as outside of the module
	pend   []*vinst
	json   []vjson
	anyGet *vcell
	via    []*vcell // the addresses that shape has followed
	model  func(vf *VF, in *vinst, call ssa.CallInstruction, f *ssa.Function, dst *vcell) bool
}

// What an edge carries.
const (
	eBy   = 1 // tags that say what the value was selected by
	eTags = 2 // tags that say what it was computed from
	ePts  = 4
)

type vjson struct {
	inst *vinst
	call ssa.CallInstruction
	arg  *vcell
	val  ssa.Value
}

func newVF(c *Ctx, k int) *VF {
	return &VF{c: c, k: k, insts: map[string]*vinst{}, objTab: map[string]*vobj{}, glob: map[*ssa.Global]*vobj{}}
}

func (vf *VF) newObj(typ types.Type) *vobj {
	o := &vobj{id: len(vf.objs), typ: typ}
	vf.objs = append(vf.objs, o)
	o.root = vf.newCell(nil, "", o, typ)
	return o
}

func (vf *VF) newCell(parent *vcell, elem string, o *vobj, typ types.Type) *vcell {
	vf.ncell++
	c := &vcell{id: vf.ncell, parent: parent, elem: elem, obj: o, typ: typ}
	if o != nil {
		o.cells = append(o.cells, c)
		for _, s := range o.sinks {
			vf.deep(s.dst, c, s.depth)
		}
	}
	return c
}

// sym is the symbolic object of a given name and type.
func (vf *VF) sym(name string, typ types.Type, shared bool, chain *vobj) *vobj {
	for o := chain; o != nil; o = o.chain {
		if types.Identical(o.typ, typ) && o.shared == shared {
			switch typ.Underlying().(type) {
			case *types.Basic:
			default:
				return o
			}
		}
	}
	key := fmt.Sprintf("%s|%s|%v", name, typ, shared)
	if o := vf.objTab[key]; o != nil {
		return o
	}
	o := vf.newObj(typ)
	o.name, o.opaque, o.shared, o.chain = name, true, shared, chain
	vf.objTab[key] = o
	return o
}

// leafType: types whose parts are not told apart.
func leafType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && !strings.HasPrefix(p.Path(), "ecksbee.com/") && !strings.Contains(p.Path(), "xmlquery") {
			if p.Path() == "encoding/xml" && (n.Obj().Name() == "Name" || n.Obj().Name() == "Attr") {
				return false
			}
			if _, ok := n.Underlying().(*types.Struct); ok {
				return true
			}
		}
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func elemType(t types.Type, elem string) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == elem {
				return u.Field(i).Type()
			}
		}
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		if elem == "{}" {
			return u.Key()
		}
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (vf *VF) subc(c *vcell, elem string, typ types.Type) *vcell {
	if c.typ != nil && !strings.HasPrefix(elem, "[") && elem != "{}" && !strings.HasPrefix(elem, "#") && leafType(c.typ) {
		if _, ok := c.typ.Underlying().(*types.Struct); ok {
			return c // part of something not told apart
		}
	}
	if s := c.sub[elem]; s != nil {
		return s
	}
	if c.sub == nil {
		c.sub = map[string]*vcell{}
	}
	s := vf.newCell(c, elem, c.obj, typ)
	c.sub[elem] = s
	return s
}

// path names a memory cell.
func (c *vcell) path() string {
	if c.parent == nil {
		if c.obj != nil {
			return c.obj.name
		}
		return ""
	}
	p := c.parent.path()
	if strings.HasPrefix(c.elem, "[") || c.elem == "{}" {
		return p + c.elem
	}
	return p + "." + c.elem
}

func (vf *VF) addPts(c, p *vcell) {
	if c.pts[p] {
		return
	}
	if c.pts == nil {
		c.pts = map[*vcell]bool{}
	}
	c.pts[p] = true
	c.ptl = append(c.ptl, p)
	vf.queue(c)
}

func (vf *VF) addTag(c *vcell, t string) {
	if c.tags[t] {
		return
	}
	if c.tags == nil {
		c.tags = map[string]bool{}
	}
	c.tags[t] = true
	c.tgl = append(c.tgl, t)
	vf.queue(c)
}

func (vf *VF) queue(c *vcell) {
	if !c.queued {
		c.queued = true
		vf.work = append(vf.work, c)
	}
}

func (vf *VF) edge(dst, src *vcell, full bool) {
	if full {
		vf.edgeK(dst, src, eBy|eTags|ePts)
	} else {
		vf.edgeK(dst, src, eBy|eTags)
	}
}

func (vf *VF) edgeK(dst, src *vcell, kind uint8) {
	if dst == src {
		return
	}
	old, ok := src.edges[dst]
	if old|kind == old && ok {
		return
	}
	if src.edges == nil {
		src.edges = map[*vcell]uint8{}
	}
	if !ok {
		src.edgel = append(src.edgel, dst)
	}
	src.edges[dst] = old | kind
	for _, t := range src.tgl {
		vf.passTag(dst, t, kind)
	}
	if kind&ePts != 0 {
		for _, p := range src.ptl {
			vf.addPts(dst, p)
		}
	}
}

func isBy(t string) bool { return strings.HasPrefix(t, "by:") }

func (vf *VF) passTag(dst *vcell, t string, kind uint8) {
	if isBy(t) && kind&eBy != 0 || !isBy(t) && kind&eTags != 0 {
		vf.addTag(dst, t)
	}
}

// byEdge: every part of dst is selected by what key is computed from.
func (vf *VF) byEdge(dst *vcell, typ types.Type, key *vcell) {
	if !leafType(typ) {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				vf.byEdge(vf.subc(dst, f.Name(), f.Type()), f.Type(), key)
			}
		case *types.Array:
			vf.byEdge(vf.subc(dst, "[]", u.Elem()), u.Elem(), key)
		}
		return
	}
	if dst == key {
		return
	}
	k := fmt.Sprintf("by%d", dst.id)
	if key.done[k] {
		return
	}
	if key.done == nil {
		key.done = map[string]bool{}
	}
	key.done[k] = true
	vf.onTags(key, func(t string) {
		switch {
		case isBy(t):
			vf.addTag(dst, t)
		case !strings.HasPrefix(t, "const:"):
			vf.addTag(dst, "by:"+t)
		}
	})
}

// onPts runs f for every address the cell holds, now and later.
func (vf *VF) onPts(c *vcell, key string, f func(*vcell)) {
	if key != "" {
		if c.done[key] {
			return
		}
		if c.done == nil {
			c.done = map[string]bool{}
		}
		c.done[key] = true
	}
	c.deps = append(c.deps, f)
	for _, p := range c.ptl[:c.np] {
		f(p)
	}
	if c.np < len(c.ptl) {
		vf.queue(c)
	}
}

func (vf *VF) onTags(c *vcell, f func(string)) {
	c.tdeps = append(c.tdeps, f)
	for _, t := range c.tgl[:c.nt] {
		f(t)
	}
	if c.nt < len(c.tgl) {
		vf.queue(c)
	}
}

func (vf *VF) solve() {
	for len(vf.work) > 0 || len(vf.pend) > 0 {
		if len(vf.pend) > 0 {
			in := vf.pend[0]
			vf.pend = vf.pend[1:]
			vf.process(in)
			continue
		}
		c := vf.work[len(vf.work)-1]
		vf.work = vf.work[:len(vf.work)-1]
		c.queued = false
		for c.np < len(c.ptl) {
			p := c.ptl[c.np]
			c.np++
			for i := 0; i < len(c.edgel); i++ {
				if c.edges[c.edgel[i]]&ePts != 0 {
					vf.addPts(c.edgel[i], p)
				}
			}
			for i := 0; i < len(c.deps); i++ {
				c.deps[i](p)
			}
		}
		for c.nt < len(c.tgl) {
			t := c.tgl[c.nt]
			c.nt++
			for i := 0; i < len(c.edgel); i++ {
				vf.passTag(c.edgel[i], t, c.edges[c.edgel[i]])
			}
			for i := 0; i < len(c.tdeps); i++ {
				c.tdeps[i](t)
			}
		}
	}
}

// copyT copies a value of a type, part by part.
func (vf *VF) copyT(dst, src *vcell, typ types.Type) {
	if leafType(typ) {
		vf.edge(dst, src, true)
		vf.materialise(src, typ)
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			vf.copyT(vf.subc(dst, f.Name(), f.Type()), vf.subc(src, f.Name(), f.Type()), f.Type())
		}
		// tags given to the value as a whole
		vf.edge(dst, src, false)
	case *types.Array:
		vf.copyT(vf.subc(dst, "[]", u.Elem()), vf.subc(src, "[]", u.Elem()), u.Elem())
	}
}

// materialise gives a part of a symbolic object its contents.
func (vf *VF) materialise(c *vcell, typ types.Type) {
	if c.obj == nil {
		return
	}
	if c.done["m"] {
		return
	}
	if c.done == nil {
		c.done = map[string]bool{}
	}
	c.done["m"] = true
	f := func() {
		o := c.obj
		if o.ext {
			if o.src != nil {
				vf.edge(c, o.src, false)
			}
		} else if p := c.path(); p != "" {
			vf.addTag(c, p)
		}
		name := c.path()
		var child *vobj
		switch u := typ.Underlying().(type) {
		case *types.Pointer:
			child = vf.sym(name, u.Elem(), o.shared, o)
		case *types.Slice, *types.Map, *types.Chan:
			child = vf.sym(name, typ, o.shared, o)
		case *types.Interface:
			child = vf.sym(name, typ, o.shared, o)
			child.box = true
		case *types.Signature:
		}
		if child != nil && child != o {
			if o.ext && o.src != nil {
				child.ext = true
				if child.src == nil {
					child.src = vf.newCell(nil, "", nil, nil)
				}
				vf.edge(child.src, o.src, false)
			}
		}
		if child != nil {
			vf.addPts(c, child.root)
		}
	}
	if c.obj.opaque {
		f()
	} else {
		c.obj.wait = append(c.obj.wait, f)
	}
}

// reveal makes an object's contents symbolic (something outside filled it).
func (vf *VF) reveal(o *vobj, name string, src *vcell) {
	if o.opaque {
		if o.ext && src != nil && o.src != nil {
			vf.edge(o.src, src, false)
		}
		return
	}
	o.opaque = true
	if o.name == "" {
		o.name = name
	}
	w := o.wait
	o.wait = nil
	for _, f := range w {
		f()
	}
}

// deep adds the tags found anywhere below src to dst.
func (vf *VF) deep(dst, src *vcell, depth int) {
	key := fmt.Sprintf("d%d/%d", dst.id, depth)
	if src.done[key] {
		return
	}
	if src.done == nil {
		src.done = map[string]bool{}
	}
	src.done[key] = true
	vf.edge(dst, src, false)
	if depth <= 0 {
		return
	}
	for _, s := range sortedSubs(src) {
		vf.deep(dst, s, depth)
	}
	vf.onPts(src, "", func(p *vcell) {
		o := p.obj
		if o == nil {
			return
		}
		if o.opaque && !o.ext {
			if o.name != "" {
				vf.addTag(dst, o.name)
			}
			return
		}
		if o.ext && o.src != nil {
			vf.edge(dst, o.src, false)
		}
		o.sinks = append(o.sinks, vsink{dst, depth - 1})
		for _, c := range append([]*vcell{}, o.cells...) {
			vf.deep(dst, c, depth-1)
		}
	})
}

func sortedSubs(c *vcell) []*vcell {
	var r []*vcell
	for _, s := range c.sub {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (vf *VF) instance(fn *ssa.Function, sites []ssa.CallInstruction, made *vinst) *vinst {
	if len(sites) > vf.k {
		sites = sites[len(sites)-vf.k:]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p", fn)
	for _, s := range sites {
		fmt.Fprintf(&sb, "/%p", s)
	}
	key := sb.String()
	if in := vf.insts[key]; in != nil {
		return in
	}
	in := &vinst{id: len(vf.list), fn: fn, ctx: key, sites: sites, regs: map[ssa.Value]*vcell{}, calls: map[ssa.CallInstruction][]*vinst{}, made: made}
	in.ret = vf.newCell(nil, "", nil, nil)
	vf.insts[key] = in
	vf.list = append(vf.list, in)
	vf.pend = append(vf.pend, in)
	return in
}

func (vf *VF) global(g *ssa.Global) *vobj {
	if o := vf.glob[g]; o != nil {
		return o
	}
	o := vf.newObj(deref(g.Type()))
	o.global = g
	vf.glob[g] = o
	if !vf.c.inModulePath(g.Pkg.Pkg.Path()) {
		o.opaque, o.ext, o.name = true, true, g.String()
		o.src = vf.newCell(nil, "", nil, nil)
	} else if init := g.Pkg.Func("init"); init != nil && len(init.Blocks) > 0 {
		vf.instance(init, nil, nil) // what its declaration gives it
	}
	return o
}

func (vf *VF) reg(in *vinst, v ssa.Value) *vcell {
	switch x := v.(type) {
	case *ssa.Const:
		c := vf.newCell(nil, "", nil, v.Type())
		if x.Value != nil {
			if x.Value.Kind() == constant.String {
				vf.addTag(c, `const:`+constant.StringVal(x.Value))
			} else {
				vf.addTag(c, `const:`+x.Value.ExactString())
			}
		}
		return c
	case *ssa.Global:
		c := vf.newCell(nil, "", nil, v.Type())
		vf.addPts(c, vf.global(x).root)
		return c
	case *ssa.Function:
		c := vf.newCell(nil, "", nil, v.Type())
		key := "fn:" + x.String()
		o := vf.objTab[key]
		if o == nil {
			o = vf.newObj(v.Type())
			o.fn = x
			vf.objTab[key] = o
		}
		vf.addPts(c, o.root)
		return c
	}
	if c := in.regs[v]; c != nil {
		return c
	}
	c := vf.newCell(nil, "", nil, v.Type())
	in.regs[v] = c
	return c
}

func (vf *VF) process(in *vinst) {
	for _, b := range in.fn.Blocks {
		for _, ins := range b.Instrs {
			vf.instr(in, ins)
		}
	}
	vf.selections(in)
	// what is written for the caller depends on the conditions of the call
	ctl := vf.instCtl(in)
	for _, b := range in.fn.Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Store:
				t := y.Val.Type()
				vf.onPts(vf.reg(in, y.Addr), "", func(p *vcell) {
					if p.obj != nil && !p.obj.opaque && p.obj.inst != in {
						vf.byEdge(p, t, ctl)
					}
				})
			case *ssa.MapUpdate:
				m := y.Map.Type().Underlying().(*types.Map)
				vf.onPts(vf.reg(in, y.Map), "", func(p *vcell) {
					if p.obj != nil && !p.obj.opaque && p.obj.inst != in {
						vf.byEdge(vf.subc(p, "[]", m.Elem()), m.Elem(), ctl)
						vf.byEdge(vf.subc(p, "{}", m.Key()), m.Key(), ctl)
					}
				})
			}
		}
	}
}

func (vf *VF) instCtl(in *vinst) *vcell {
	if in.ctl == nil {
		in.ctl = vf.newCell(nil, "", nil, types.Typ[types.String])
	}
	return in.ctl
}

func (vf *VF) callCtl(in *vinst, call ssa.CallInstruction) *vcell {
	c := in.sctl[call]
	if c == nil {
		if in.sctl == nil {
			in.sctl = map[ssa.CallInstruction]*vcell{}
		}
		c = vf.newCell(nil, "", nil, types.Typ[types.String])
		in.sctl[call] = c
		vf.edgeK(c, vf.instCtl(in), eBy)
	}
	return c
}

// byFrom passes on what the container was selected by.
func (vf *VF) byFrom(dst *vcell, typ types.Type, src *vcell) {
	if !leafType(typ) {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				vf.byFrom(vf.subc(dst, f.Name(), f.Type()), f.Type(), src)
			}
		case *types.Array:
			vf.byFrom(vf.subc(dst, "[]", u.Elem()), u.Elem(), src)
		}
		return
	}
	vf.edgeK(dst, src, eBy)
}

// selections: what is stored, returned or merged under a condition that
// compares strings is selected by what they are computed from.
func (vf *VF) selections(in *vinst) {
	for _, b := range in.fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if _, ok := iff.Cond.(*ssa.Const); ok {
			continue
		}
		cond := vf.reg(in, iff.Cond)
		if presence(iff.Cond) && (gives(b.Succs[0]) || gives(b.Succs[1])) {
			continue // only whether there is anything to select from
		}
		if blank(iff.Cond) {
			continue // any name will do
		}
		for _, s := range b.Succs {
			own := len(s.Preds) == 1
			inside := func(x *ssa.BasicBlock) bool { return own && s.Dominates(x) }
			for _, x := range in.fn.Blocks {
				for i, p := range x.Preds {
					if inside(x) || !(inside(p) || p == b && x == s && !own) {
						continue
					}
					for _, ins := range x.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if phi.Edges[i] == ssa.Value(phi) {
							continue
						}
						vf.byEdge(vf.reg(in, phi), phi.Type(), cond)
					}
				}
				if !inside(x) {
					continue
				}
				for _, ins := range x.Instrs {
					switch y := ins.(type) {
					case *ssa.Return:
						for i, v := range y.Results {
							vf.byEdge(vf.subc(in.ret, fmt.Sprintf("#%d", i), v.Type()), v.Type(), cond)
						}
					case *ssa.Call:
						vf.byEdge(vf.callCtl(in, y), types.Typ[types.String], cond)
					case *ssa.Store:
						t := y.Val.Type()
						vf.onPts(vf.reg(in, y.Addr), "", func(p *vcell) {
							if p.obj != nil && !p.obj.opaque {
								vf.byEdge(p, t, cond)
							}
						})
					case *ssa.MapUpdate:
						m := y.Map.Type().Underlying().(*types.Map)
						vf.onPts(vf.reg(in, y.Map), "", func(p *vcell) {
							if p.obj != nil && !p.obj.opaque {
								vf.byEdge(vf.subc(p, "[]", m.Elem()), m.Elem(), cond)
								vf.byEdge(vf.subc(p, "{}", m.Key()), m.Key(), cond)
							}
						})
					}
				}
			}
		}
	}
}

// presence: the condition says whether a map has an entry.
func presence(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && presence(x.X)
	case *ssa.Extract:
		l, ok := x.Tuple.(*ssa.Lookup)
		return ok && l.CommaOk && x.Index == 1
	}
	return false
}

// peeled: a list that is shortened from the front as a loop goes round.
func peeled(v ssa.Value) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		if s, ok := e.(*ssa.Slice); ok && s.X == v && s.Low != nil && s.High == nil {
			if k, ok := s.Low.(*ssa.Const); ok && k.Int64() == 1 {
				return true
			}
		}
	}
	return false
}

// blank: the condition says whether a text is empty.
func blank(v ssa.Value) bool {
	x, ok := v.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
		return false
	}
	for _, s := range []ssa.Value{x.X, x.Y} {
		if k, ok := s.(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "" {
			return true
		}
	}
	return false
}

// gives: the block ends the function.
func gives(b *ssa.BasicBlock) bool {
	for i := 0; i < 4 && len(b.Succs) == 1; i++ {
		b = b.Succs[0]
	}
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}

func fieldName(t types.Type, i int) (string, types.Type) {
	s := t.Underlying().(*types.Struct)
	return s.Field(i).Name(), s.Field(i).Type()
}

func (vf *VF) alloc(in *vinst, site ssa.Instruction, typ types.Type) *vobj {
	key := fmt.Sprintf("site:%p/%d/%s", site, in.id, typ)
	if o := vf.objTab[key]; o != nil {
		return o
	}
	o := vf.newObj(typ)
	o.site, o.inst = site, in
	vf.objTab[key] = o
	return o
}

func (vf *VF) instr(in *vinst, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		vf.addPts(vf.reg(in, x), vf.alloc(in, x, deref(x.Type())).root)
	case *ssa.MakeMap:
		vf.addPts(vf.reg(in, x), vf.alloc(in, x, x.Type()).root)
	case *ssa.MakeSlice:
		vf.addPts(vf.reg(in, x), vf.alloc(in, x, x.Type()).root)
	case *ssa.MakeChan:
		vf.addPts(vf.reg(in, x), vf.alloc(in, x, x.Type()).root)
	case *ssa.MakeInterface:
		o := vf.alloc(in, x, x.X.Type())
		o.box = true
		src := vf.reg(in, x.X)
		vf.copyT(o.root, src, x.X.Type())
		dst := vf.reg(in, x)
		vf.addPts(dst, o.root)
		vf.edge(dst, src, false)
	case *ssa.MakeClosure:
		o := vf.alloc(in, x, x.Type())
		o.fn, o.inst = x.Fn.(*ssa.Function), in
		for i, b := range x.Bindings {
			vf.edge(vf.subc(o.root, fmt.Sprintf("#%d", i), b.Type()), vf.reg(in, b), true)
		}
		vf.addPts(vf.reg(in, x), o.root)
	case *ssa.FieldAddr:
		name, ft := fieldName(deref(x.X.Type()), x.Field)
		dst := vf.reg(in, x)
		vf.edgeK(dst, vf.reg(in, x.X), eBy)
		vf.onPts(vf.reg(in, x.X), "", func(p *vcell) { vf.addPts(dst, vf.subc(p, name, ft)) })
	case *ssa.Field:
		name, ft := fieldName(x.X.Type(), x.Field)
		vf.copyT(vf.reg(in, x), vf.subc(vf.reg(in, x.X), name, ft), ft)
	case *ssa.IndexAddr:
		dst := vf.reg(in, x)
		et := deref(x.Type())
		vf.edgeK(dst, vf.reg(in, x.X), eBy)
		elem := "[]"
		if k, ok := x.Index.(*ssa.Const); ok && k.Value != nil && !peeled(x.X) {
			elem = "[" + k.Value.ExactString() + "]"
		}
		vf.onPts(vf.reg(in, x.X), "", func(p *vcell) {
			// single elements are only told apart where nothing is written
			if p.obj != nil && p.obj.opaque && !p.obj.ext {
				vf.addPts(dst, vf.subc(p, elem, et))
			} else {
				vf.addPts(dst, vf.subc(p, "[]", et))
			}
		})
	case *ssa.Index:
		if isString(x.X.Type()) {
			vf.edge(vf.reg(in, x), vf.reg(in, x.X), false)
		} else {
			vf.copyT(vf.reg(in, x), vf.subc(vf.reg(in, x.X), "[]", x.Type()), x.Type())
		}
	case *ssa.Lookup:
		dst := vf.reg(in, x)
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			d := dst
			if x.CommaOk {
				d = vf.subc(dst, "#0", m.Elem())
			}
			vf.onPts(vf.reg(in, x.X), "", func(p *vcell) { vf.copyT(d, vf.subc(p, "[]", m.Elem()), m.Elem()) })
			vf.byEdge(d, m.Elem(), vf.reg(in, x.Index))
			vf.byFrom(d, m.Elem(), vf.reg(in, x.X))
			if x.CommaOk {
				vf.byEdge(vf.subc(dst, "#1", types.Typ[types.Bool]), types.Typ[types.Bool], vf.reg(in, x.Index))
			}
		} else {
			vf.edge(dst, vf.reg(in, x.X), false)
		}
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		v, k := vf.reg(in, x.Value), vf.reg(in, x.Key)
		vf.onPts(vf.reg(in, x.Map), "", func(p *vcell) {
			vf.copyT(vf.subc(p, "[]", m.Elem()), v, m.Elem())
			vf.copyT(vf.subc(p, "{}", m.Key()), k, m.Key())
		})
	case *ssa.Range:
		vf.edge(vf.reg(in, x), vf.reg(in, x.X), true)
	case *ssa.Next:
		src, dst := vf.reg(in, x.Iter), vf.reg(in, x)
		if x.IsString {
			vf.edge(vf.subc(dst, "#2", types.Typ[types.Rune]), src, false)
			return
		}
		if r, ok := x.Iter.(*ssa.Range); ok {
			if m, ok := r.X.Type().Underlying().(*types.Map); ok {
				vf.byFrom(vf.subc(dst, "#1", m.Key()), m.Key(), src)
				vf.byFrom(vf.subc(dst, "#2", m.Elem()), m.Elem(), src)
				vf.onPts(src, "", func(p *vcell) {
					vf.copyT(vf.subc(dst, "#1", m.Key()), vf.subc(p, "{}", m.Key()), m.Key())
					vf.copyT(vf.subc(dst, "#2", m.Elem()), vf.subc(p, "[]", m.Elem()), m.Elem())
				})
			}
		}
	case *ssa.Extract:
		vf.copyT(vf.reg(in, x), vf.subc(vf.reg(in, x.Tuple), fmt.Sprintf("#%d", x.Index), x.Type()), x.Type())
		// derived tags of the whole tuple
		vf.edge(vf.reg(in, x), vf.reg(in, x.Tuple), false)
	case *ssa.Phi:
		for _, e := range x.Edges {
			vf.copyT(vf.reg(in, x), vf.reg(in, e), x.Type())
		}
	case *ssa.ChangeType:
		vf.copyT(vf.reg(in, x), vf.reg(in, x.X), x.Type())
	case *ssa.ChangeInterface:
		vf.edge(vf.reg(in, x), vf.reg(in, x.X), true)
	case *ssa.Convert:
		vf.edge(vf.reg(in, x), vf.reg(in, x.X), true)
		if isString(x.Type()) {
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				vf.deep(vf.reg(in, x), vf.reg(in, x.X), 1)
			}
		} else if isString(x.X.Type()) {
			if s, ok := x.Type().Underlying().(*types.Slice); ok {
				o := vf.alloc(in, x, x.Type())
				vf.edge(vf.subc(o.root, "[]", s.Elem()), vf.reg(in, x.X), false)
				vf.addPts(vf.reg(in, x), o.root)
			}
		}
	case *ssa.MultiConvert:
		vf.edge(vf.reg(in, x), vf.reg(in, x.X), true)
	case *ssa.SliceToArrayPointer:
		vf.edge(vf.reg(in, x), vf.reg(in, x.X), true)
	case *ssa.Slice:
		vf.edge(vf.reg(in, x), vf.reg(in, x.X), true)
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ:
			_, cx := x.X.(*ssa.Const)
			_, cy := x.Y.(*ssa.Const)
			if isString(x.X.Type()) && !cx && !cy {
				vf.byEdge(vf.reg(in, x), x.Type(), vf.reg(in, x.X))
				vf.byEdge(vf.reg(in, x), x.Type(), vf.reg(in, x.Y))
			}
			if st, ok := x.X.Type().Underlying().(*types.Struct); ok && !cx && !cy {
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if !isString(f.Type()) {
						continue
					}
					for _, v := range []ssa.Value{x.X, x.Y} {
						vf.byEdge(vf.reg(in, x), x.Type(), vf.subc(vf.reg(in, v), f.Name(), f.Type()))
					}
				}
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if isFloat(x.X.Type()) {
				vf.byEdge(vf.reg(in, x), x.Type(), vf.reg(in, x.X))
				vf.byEdge(vf.reg(in, x), x.Type(), vf.reg(in, x.Y))
			}
		default:
			vf.edge(vf.reg(in, x), vf.reg(in, x.X), false)
			vf.edge(vf.reg(in, x), vf.reg(in, x.Y), false)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			dst := vf.reg(in, x)
			vf.byFrom(dst, x.Type(), vf.reg(in, x.X))
			vf.onPts(vf.reg(in, x.X), "", func(p *vcell) { vf.copyT(dst, p, x.Type()) })
		case token.ARROW:
			dst := vf.reg(in, x)
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			d := dst
			if x.CommaOk {
				d = vf.subc(dst, "#0", et)
			}
			vf.onPts(vf.reg(in, x.X), "", func(p *vcell) { vf.copyT(d, vf.subc(p, "[]", et), et) })
		default:
			vf.edge(vf.reg(in, x), vf.reg(in, x.X), false)
		}
	case *ssa.Send:
		et := x.Chan.Type().Underlying().(*types.Chan).Elem()
		src := vf.reg(in, x.X)
		vf.onPts(vf.reg(in, x.Chan), "", func(p *vcell) { vf.copyT(vf.subc(p, "[]", et), src, et) })
	case *ssa.Select:
		n := 2
		for _, st := range x.States {
			et := st.Chan.Type().Underlying().(*types.Chan).Elem()
			if st.Dir == types.RecvOnly {
				d := vf.subc(vf.reg(in, x), fmt.Sprintf("#%d", n), et)
				n++
				vf.onPts(vf.reg(in, st.Chan), "", func(p *vcell) { vf.copyT(d, vf.subc(p, "[]", et), et) })
			} else {
				src := vf.reg(in, st.Send)
				vf.onPts(vf.reg(in, st.Chan), "", func(p *vcell) { vf.copyT(vf.subc(p, "[]", et), src, et) })
			}
		}
	case *ssa.Store:
		src := vf.reg(in, x.Val)
		t := x.Val.Type()
		vf.onPts(vf.reg(in, x.Addr), "", func(p *vcell) { vf.copyT(p, src, t) })
	case *ssa.TypeAssert:
		dst := vf.reg(in, x)
		d := dst
		if x.CommaOk {
			d = vf.subc(dst, "#0", x.AssertedType)
		}
		src := vf.reg(in, x.X)
		if types.IsInterface(x.AssertedType) {
			vf.edge(d, src, true)
			return
		}
		vf.edge(d, src, false)
		vf.onPts(src, "", func(p *vcell) {
			o := p.obj
			if o == nil || !o.box {
				return
			}
			if types.Identical(o.typ, x.AssertedType) {
				vf.copyT(d, p, x.AssertedType)
			} else if o.opaque && types.IsInterface(o.typ) {
				s := vf.sym(o.name, x.AssertedType, o.shared, o)
				if s != o && o.ext {
					s.ext = true
					if s.src == nil {
						s.src = vf.newCell(nil, "", nil, nil)
					}
					if o.src != nil {
						vf.edge(s.src, o.src, false)
					}
				}
				// the object stands for the value in the interface
				vf.copyT(d, s.root, x.AssertedType)
			}
		})
	case *ssa.Return:
		for i, v := range x.Results {
			vf.copyT(vf.subc(in.ret, fmt.Sprintf("#%d", i), v.Type()), vf.reg(in, v), v.Type())
		}
	case *ssa.Call:
		vf.call(in, x, vf.reg(in, x))
	case *ssa.Go:
		vf.call(in, x, nil)
	case *ssa.Defer:
		vf.call(in, x, nil)
	}
}

func (vf *VF) resultTypes(cc *ssa.CallCommon) []types.Type {
	rs := cc.Signature().Results()
	var r []types.Type
	for i := 0; i < rs.Len(); i++ {
		r = append(r, rs.At(i).Type())
	}
	return r
}

func (vf *VF) dstOf(dst *vcell, i, n int, t types.Type) *vcell {
	if n == 1 {
		return dst
	}
	return vf.subc(dst, fmt.Sprintf("#%d", i), t)
}

func (vf *VF) call(in *vinst, call ssa.CallInstruction, dst *vcell) {
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		vf.builtin(in, call, b, dst)
		return
	}
	if cc.IsInvoke() {
		mod := vf.c.ModCallees(call)
		for _, f := range mod {
			f := f
			ci := vf.enter(in, call, f, nil)
			if len(f.Params) > 0 {
				vf.onPts(vf.reg(in, cc.Value), "", func(p *vcell) {
					if p.obj != nil && p.obj.box && types.Identical(p.obj.typ, f.Params[0].Type()) {
						vf.copyT(vf.reg(ci, f.Params[0]), p, f.Params[0].Type())
					}
				})
			}
			for i, a := range cc.Args {
				if i+1 < len(f.Params) {
					vf.copyT(vf.reg(ci, f.Params[i+1]), vf.reg(in, a), a.Type())
				}
			}
			vf.results(call, ci, dst)
		}
		if len(mod) == 0 {
			vf.external(in, call, nil, dst)
		}
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			_ = mc
			vf.dynamic(in, call, dst)
			return
		}
		vf.target(in, call, f, nil, dst)
		return
	}
	vf.dynamic(in, call, dst)
}

func (vf *VF) dynamic(in *vinst, call ssa.CallInstruction, dst *vcell) {
	seen := map[*vcell]bool{}
	known := false
	vf.onPts(vf.reg(in, call.Common().Value), "", func(p *vcell) {
		if p.obj == nil || p.obj.fn == nil || seen[p] {
			return
		}
		seen[p] = true
		known = true
		vf.target(in, call, p.obj.fn, p.obj, dst)
	})
	_ = known
}

func (vf *VF) hasBody(f *ssa.Function) bool {
	return len(f.Blocks) > 0 && vf.c.InModule(f) && (vf.skip == nil || !vf.skip(f))
}

func (vf *VF) enter(in *vinst, call ssa.CallInstruction, f *ssa.Function, clo *vobj) *vinst {
	var ci *vinst
	if clo != nil && clo.inst != nil {
		// closures are analysed in the context of their creator
		ci = vf.instance(f, clo.inst.sites, clo.inst)
		for i, fv := range f.FreeVars {
			vf.edge(vf.reg(ci, fv), vf.subc(clo.root, fmt.Sprintf("#%d", i), fv.Type()), true)
		}
	} else {
		ci = vf.instance(f, append(append([]ssa.CallInstruction{}, in.sites...), call), nil)
	}
	have := false
	for _, x := range in.calls[call] {
		if x == ci {
			have = true
		}
	}
	if !have {
		in.calls[call] = append(in.calls[call], ci)
		vf.edgeK(vf.instCtl(ci), vf.callCtl(in, call), eBy)
	}
	return ci
}

func (vf *VF) target(in *vinst, call ssa.CallInstruction, f *ssa.Function, clo *vobj, dst *vcell) {
	cc := call.Common()
	if vf.model != nil && vf.model(vf, in, call, f, dst) {
		return
	}
	if vf.attrLookup(in, call, f, dst) {
		return
	}
	if !vf.hasBody(f) {
		vf.external(in, call, f, dst)
		return
	}
	ci := vf.enter(in, call, f, clo)
	for i, a := range cc.Args {
		if i < len(f.Params) {
			vf.copyT(vf.reg(ci, f.Params[i]), vf.reg(in, a), a.Type())
		}
	}
	vf.results(call, ci, dst)
}

func (vf *VF) results(call ssa.CallInstruction, ci *vinst, dst *vcell) {
	if dst == nil {
		return
	}
	rt := vf.resultTypes(call.Common())
	for i, t := range rt {
		vf.copyT(vf.dstOf(dst, i, len(rt), t), vf.subc(ci.ret, fmt.Sprintf("#%d", i), t), t)
	}
}

func isAttrType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Attr" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "encoding/xml" || strings.HasSuffix(n.Obj().Pkg().Path(), "/xmlquery"))
}

// attrLookupArgs: a function that finds an attribute by its local name, and
// which of its parameters are the attributes and the name.
func attrLookupArgs(f *ssa.Function) (attrs, name int, ok bool) {
	s := f.Signature
	if s.Recv() != nil || s.Results().Len() == 0 || s.Results().Len() > 2 {
		return 0, 0, false
	}
	attrs, name = -1, -1
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok && isAttrType(sl.Elem()) && attrs < 0 {
			attrs = i
		} else if isString(t) && name < 0 {
			name = i
		} else {
			return 0, 0, false
		}
	}
	if attrs < 0 || name < 0 {
		return 0, 0, false
	}
	switch t := s.Results().At(0).Type().(type) {
	case *types.Pointer:
		if !isAttrType(t.Elem()) {
			return 0, 0, false
		}
		return attrs, name, true
	default:
		if !isAttrType(t) && !isString(t) {
			return 0, 0, false
		}
	}
	// the name is compared as it is with the local names
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			x, ok := ins.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if p[0] == ssa.Value(f.Params[name]) && isLocalName(p[1]) {
					return attrs, name, true
				}
			}
		}
	}
	return 0, 0, false
}

func isLocalName(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			n, _ := fieldName(deref(fa.X.Type()), fa.Field)
			return n == "Local"
		}
	case *ssa.Field:
		n, _ := fieldName(x.X.Type(), x.Field)
		return n == "Local"
	}
	return false
}

func (vf *VF) attrLookup(in *vinst, call ssa.CallInstruction, f *ssa.Function, dst *vcell) bool {
	if dst == nil || !vf.c.InModule(f) {
		return false
	}
	ia, iname, ok := attrLookupArgs(f)
	if !ok {
		return false
	}
	args := call.Common().Args
	rt := vf.resultTypes(call.Common())
	d := vf.dstOf(dst, 0, len(rt), rt[0])
	at := f.Signature.Params().At(ia).Type().Underlying().(*types.Slice).Elem()
	name := vf.reg(in, args[iname])
	vf.byEdge(d, rt[0], name)
	vf.onPts(vf.reg(in, args[ia]), "", func(p *vcell) {
		o := p.obj
		if o == nil {
			return
		}
		owner := p.path()
		for _, s := range []string{".XMLAttrs", ".Attr"} {
			owner = strings.TrimSuffix(owner, s)
		}
		vf.onTags(name, func(t string) {
			if isBy(t) {
				return
			}
			if !strings.HasPrefix(t, "const:") {
				t = "const:*"
			}
			s := vf.sym(owner+"@"+strings.TrimPrefix(t, "const:"), at, o.shared, nil)
			switch {
			case isString(rt[0]):
				vt := elemType(at, "Value")
				vf.copyT(d, vf.subc(s.root, "Value", vt), vt)
			case isAttrType(rt[0]):
				vf.copyT(d, s.root, at)
			default:
				vf.addPts(d, s.root)
			}
		})
	})
	return true
}

func (vf *VF) builtin(in *vinst, call ssa.CallInstruction, b *ssa.Builtin, dst *vcell) {
	cc := call.Common()
	switch b.Name() {
	case "append":
		if dst == nil {
			return
		}
		o := vf.alloc(in, call, dst.typ)
		et := elemType(dst.typ, "[]")
		vf.addPts(dst, o.root)
		for i, a := range cc.Args {
			src := vf.reg(in, a)
			vf.edge(dst, src, false)
			if isString(a.Type()) {
				vf.edge(vf.subc(o.root, "[]", et), src, false)
				continue
			}
			vf.onPts(src, "", func(p *vcell) {
				vf.copyT(vf.subc(o.root, "[]", et), vf.subc(p, "[]", et), et)
			})
			if i == 0 && !fullSlice(a) {
				vf.edge(dst, src, true)
				// the new elements may land in the old array
				if len(cc.Args) > 1 && !isString(cc.Args[1].Type()) {
					add := vf.reg(in, cc.Args[1])
					vf.onPts(src, "", func(p *vcell) {
						if p.obj != nil && p.obj.opaque {
							return
						}
						vf.onPts(add, fmt.Sprintf("ap%d", p.id), func(q *vcell) {
							vf.copyT(vf.subc(p, "[]", et), vf.subc(q, "[]", et), et)
						})
					})
				}
			}
		}
	case "copy":
		d, s := vf.reg(in, cc.Args[0]), vf.reg(in, cc.Args[1])
		et := elemType(cc.Args[0].Type(), "[]")
		if et == nil || isString(cc.Args[1].Type()) {
			return
		}
		vf.onPts(d, "", func(p *vcell) {
			vf.onPts(s, fmt.Sprintf("cp%d", p.id), func(q *vcell) {
				vf.copyT(vf.subc(p, "[]", et), vf.subc(q, "[]", et), et)
			})
		})
	case "min", "max":
		for _, a := range cc.Args {
			if dst != nil {
				vf.edge(dst, vf.reg(in, a), false)
			}
		}
	}
}

// external models a call of a function without a body here: its results may
// be computed from anything it is given.
func (vf *VF) external(in *vinst, call ssa.CallInstruction, f *ssa.Function, dst *vcell) {
	cc := call.Common()
	name := ""
	if f != nil {
		name = stdFuncName(f)
	} else if cc.IsInvoke() {
		name = stdName(cc.Method)
	}
	src := vf.newCell(nil, "", nil, nil)
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	base := name[strings.LastIndex(name, ".")+1:]
	decodes := strings.Contains(name, "encoding/") && (base == "Unmarshal" || base == "Decode" || base == "DecodeElement")
	for i, a := range args {
		r := vf.reg(in, a)
		if name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent" {
			if i == 0 {
				vf.json = append(vf.json, vjson{in, call, r, a})
			}
			continue
		}
		if strings.HasSuffix(name, "encoding/json.Encoder).Encode") && i == len(args)-1 {
			vf.json = append(vf.json, vjson{in, call, r, a})
			continue
		}
		if !decodes {
			vf.deep(src, r, 4)
		}
		if decodes && i > 0 || decodes && len(args) == 1 {
			vf.onPts(r, "", func(p *vcell) {
				q := p
				if p.obj != nil && p.obj.box {
					vf.onPts(p, "", func(t *vcell) {
						if t.obj != nil {
							vf.reveal(t.obj, typeName(t.obj.typ), nil)
						}
					})
					return
				}
				if q.obj != nil {
					vf.reveal(q.obj, typeName(q.obj.typ), nil)
				}
			})
		}
		if sig, ok := a.Type().Underlying().(*types.Signature); ok {
			_ = sig
			vf.onPts(r, "", func(p *vcell) {
				if p.obj == nil || p.obj.fn == nil || !vf.hasBody(p.obj.fn) {
					return
				}
				ci := vf.enter(in, call, p.obj.fn, p.obj)
				for _, pp := range p.obj.fn.Params {
					vf.unknown(vf.reg(ci, pp), pp.Type(), "arg", src)
				}
				for j := 0; j < p.obj.fn.Signature.Results().Len(); j++ {
					vf.edge(src, vf.subc(ci.ret, fmt.Sprintf("#%d", j), p.obj.fn.Signature.Results().At(j).Type()), false)
				}
			})
		}
	}
	// what is written to a builder is what it holds
	if len(args) > 1 && (strings.HasPrefix(base, "Write") && (strings.Contains(name, "strings.Builder)") || strings.Contains(name, "bytes.Buffer)")) ||
		strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString") {
		vf.onPts(vf.reg(in, args[0]), "", func(p *vcell) {
			put := func(t *vcell) {
				if t.obj != nil && !t.obj.opaque && (typeName(t.obj.typ) == "Builder" || typeName(t.obj.typ) == "Buffer") {
					vf.edge(t, src, false)
				}
			}
			if p.obj != nil && p.obj.box {
				vf.onPts(p, "", put)
				return
			}
			put(p)
		})
	}
	if dst == nil {
		return
	}
	rt := vf.resultTypes(cc)
	// sequences stand for what they run over
	switch name {
	case "maps.Keys", "maps.Values", "maps.All", "slices.All", "slices.Values":
		vf.edge(dst, vf.reg(in, args[0]), true)
		return
	case "slices.Sorted", "slices.Collect", "slices.SortedFunc", "slices.SortedStableFunc":
		if cl, ok := stripConv(args[0]).(*ssa.Call); ok && len(cl.Call.Args) > 0 {
			el := "[]"
			if calleeName(&cl.Call) == "maps.Keys" {
				el = "{}"
			}
			et := elemType(rt[0], "[]")
			o := vf.alloc(in, call, rt[0])
			vf.addPts(dst, o.root)
			vf.byFrom(vf.subc(o.root, "[]", et), et, vf.reg(in, cl.Call.Args[0]))
			vf.onPts(vf.reg(in, args[0]), "", func(p *vcell) {
				vf.copyT(vf.subc(o.root, "[]", et), vf.subc(p, el, et), et)
			})
			return
		}
	}
	// copies of containers
	switch name {
	case "slices.Clone", "slices.Concat", "maps.Clone", "slices.Repeat":
		o := vf.alloc(in, call, rt[0])
		vf.addPts(dst, o.root)
		for _, a := range args {
			srcs := []*vcell{vf.reg(in, a)}
			if name == "slices.Concat" { // a slice of slices
				srcs = []*vcell{vf.newCell(nil, "", nil, rt[0])}
				vf.onPts(vf.reg(in, a), "", func(p *vcell) {
					vf.edge(srcs[0], vf.subc(p, "[]", rt[0]), true)
				})
			}
			for _, el := range []string{"[]", "{}"} {
				if _, isMap := rt[0].Underlying().(*types.Map); el == "{}" && !isMap {
					continue
				}
				et := elemType(rt[0], el)
				if et == nil {
					continue
				}
				vf.onPts(srcs[0], "", func(p *vcell) {
					if p.typ != nil && types.Identical(p.typ.Underlying(), rt[0].Underlying()) {
						vf.copyT(vf.subc(o.root, el, et), vf.subc(p, el, et), et)
					}
				})
			}
		}
		return
	}
	for i, t := range rt {
		d := vf.dstOf(dst, i, len(rt), t)
		vf.unknown(d, t, fmt.Sprintf("ext%p.%d.%d", call, in.id, i), src)
	}
	// functions that hand back what they are given
	if len(rt) == 0 {
		return
	}
	if strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "maps.") || name == "bytes.TrimSpace" || name == "bytes.Trim" {
		for _, a := range args {
			if types.Identical(a.Type(), rt[0]) {
				vf.edge(vf.dstOf(dst, 0, len(rt), rt[0]), vf.reg(in, a), true)
			}
		}
	}
}

func typeName(t types.Type) string {
	if n, ok := deref(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// fullSlice: s[a:b:b] has no room for further elements.
func fullSlice(v ssa.Value) bool {
	sl, ok := stripConv(v).(*ssa.Slice)
	if !ok || sl.Max == nil {
		return false
	}
	if sl.Max == sl.High {
		return true
	}
	k1, ok1 := sl.Max.(*ssa.Const)
	k2, ok2 := sl.High.(*ssa.Const)
	if ok1 && ok2 {
		return k1.Int64() == k2.Int64()
	}
	l1, ok1 := sl.Max.(*ssa.Call)
	l2, ok2 := sl.High.(*ssa.Call)
	if ok1 && ok2 && len(l1.Call.Args) == 1 && len(l2.Call.Args) == 1 {
		b1, ok1 := l1.Call.Value.(*ssa.Builtin)
		b2, ok2 := l2.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && b1.Name() == "len" && b2.Name() == "len" && sameLoad(l1.Call.Args[0], l2.Call.Args[0])
	}
	return false
}

// unknown fills a register with a value made elsewhere.
func (vf *VF) unknown(d *vcell, t types.Type, name string, src *vcell) {
	if src != nil {
		vf.edge(d, src, false)
	}
	mk := func(t types.Type) *vobj {
		o := vf.sym(name, t, false, nil)
		o.ext = true
		if o.src == nil {
			o.src = vf.newCell(nil, "", nil, nil)
		}
		if src != nil {
			vf.edge(o.src, src, false)
		}
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		vf.addPts(d, mk(u.Elem()).root)
	case *types.Slice, *types.Map, *types.Chan:
		vf.addPts(d, mk(t).root)
	case *types.Interface:
		o := mk(t)
		o.box = true
		vf.addPts(d, o.root)
	case *types.Struct:
		if !leafType(t) {
			for i := 0; i < u.NumFields(); i++ {
				vf.unknown(vf.subc(d, u.Field(i).Name(), u.Field(i).Type()), u.Field(i).Type(), name+"."+u.Field(i).Name(), src)
			}
		}
	}
}

// rootParams gives the parameters of an entry symbolic values.
func (vf *VF) root(fn *ssa.Function, shared bool) *vinst {
	in := vf.instance(fn, nil, nil)
	for _, p := range fn.Params {
		c := vf.reg(in, p)
		name := typeName(p.Type())
		if name == "" {
			name = "param " + p.Name()
		}
		vf.symValue(c, p.Type(), name, shared)
	}
	return in
}

// symValue fills a cell with a symbolic value of the given name.
func (vf *VF) symValue(c *vcell, t types.Type, name string, shared bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		vf.addPts(c, vf.sym(name, u.Elem(), shared, nil).root)
	case *types.Slice, *types.Map, *types.Chan:
		vf.addPts(c, vf.sym(name, t, shared, nil).root)
	case *types.Interface:
		o := vf.sym(name, t, shared, nil)
		o.box = true
		vf.addPts(c, o.root)
	case *types.Struct:
		if !leafType(t) {
			for i := 0; i < u.NumFields(); i++ {
				vf.symValue(vf.subc(c, u.Field(i).Name(), u.Field(i).Type()), u.Field(i).Type(), name+"."+u.Field(i).Name(), shared)
			}
			return
		}
		vf.addTag(c, name)
	default:
		vf.addTag(c, name)
	}
}

// shape walks a value along its type and reports the tags of every part.
func (vf *VF) shape(c *vcell, t types.Type, path string, visit func(path string, t types.Type, c *vcell), seen map[string]bool) {
	key := fmt.Sprintf("%d|%s", c.id, path)
	if n := len(vf.via); n > 0 {
		key += fmt.Sprintf("|%d", vf.via[n-1].id)
	}
	if seen[key] || strings.Count(path, ".")+strings.Count(path, "[") > 24 {
		return
	}
	seen[key] = true
	if leafType(t) {
		if _, ok := t.Underlying().(*types.Basic); !ok {
			vf.via = append(vf.via, c)
			defer func() { vf.via = vf.via[:len(vf.via)-1] }()
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			vf.visitAll(c, func(p *vcell) { vf.shape(p, u.Elem(), path, visit, seen) })
			return
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				visit(path, t, c)
				return
			}
			vf.visitAll(c, func(p *vcell) { vf.shape(vf.subc(p, "[]", u.Elem()), u.Elem(), path+"[]", visit, seen) })
			return
		case *types.Map:
			vf.visitAll(c, func(p *vcell) {
				vf.shape(vf.subc(p, "{}", u.Key()), u.Key(), path+"{}", visit, seen)
				vf.shape(vf.subc(p, "[]", u.Elem()), u.Elem(), path+"[]", visit, seen)
			})
			return
		case *types.Interface:
			visit(path, t, c)
			vf.visitAll(c, func(p *vcell) {
				if p.obj != nil && p.obj.box && !types.IsInterface(p.obj.typ) {
					vf.shape(p, p.obj.typ, path, visit, seen)
				}
			})
			return
		}
		visit(path, t, c)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			p := path + "." + f.Name()
			if path == "" {
				p = f.Name()
			}
			vf.shape(vf.subc(c, f.Name(), f.Type()), f.Type(), p, visit, seen)
		}
	case *types.Array:
		vf.shape(vf.subc(c, "[]", u.Elem()), u.Elem(), path+"[]", visit, seen)
	}
}

func (vf *VF) visitAll(c *vcell, f func(*vcell)) {
	for _, p := range append([]*vcell{}, c.ptl...) {
		if p.obj != nil {
			f(p)
		}
	}
}

func sortedTags(c *vcell) []string {
	r := append([]string{}, c.tgl...)
	sort.Strings(r)
	return r
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
