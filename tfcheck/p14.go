package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P14: every field of an answer is computed from the part of the filing it
// stands for.

const catalogFrom = `
	Subjects[].Entity.Scheme <- Contexts[].Entity.Identifier.Scheme
	Subjects[].Entity.CharData <- Contexts[].Entity.Identifier.CharData
	Subjects[].Name <- Contexts[].Entity.Identifier.Scheme, Contexts[].Entity.Identifier.CharData | [][]*
	RelationshipSets[].RoleURI <- RoleTypes[].RoleURI
	RelationshipSets[].Title <- RoleTypes[].Definition
	Networks{} <- Contexts[].Entity.Identifier.Scheme, Contexts[].Entity.Identifier.CharData
	Networks[]{} <- RoleTypes[].RoleURI
	DocumentName <- Folder.EntryFileName
`

const renderableFrom = `
	RelationshipSet.RoleURI <- RoleTypes[].RoleURI
	RelationshipSet.Title <- RoleTypes[].Definition
	Subject.Entity.Scheme <- Contexts[].Entity.Identifier.Scheme
	Subject.Entity.CharData <- Contexts[].Entity.Identifier.CharData
	Subject.Name <- Contexts[].Entity.Identifier.Scheme, Contexts[].Entity.Identifier.CharData | [][]*

	PGrid.IndentedLabels[].Href <- PresentationLinks[].Locs[].Href, PresentationArcs[].From||PresentationArcs[].To | PresentationArcs[].*
	PGrid.IndentedLabels[].Label[][] <- PresentationLinks[].Locs[].Href, Labels[].CharData | PresentationArcs[].*
	CGrid.SummationItems[].Href <- CalculationLinks[].Locs[].Href, CalculationArcs[].From
	CGrid.SummationItems[].Label[][] <- CalculationLinks[].Locs[].Href, CalculationArcs[].From, Labels[].CharData
	CGrid.SummationItems[].BalanceType <- Element[]@balance | CalculationLinks[].Locs[].Href, CalculationArcs[].From ; by CalculationArcs[].From ; notby CalculationArcs[].To
	CGrid.SummationItems[].ContributingConcepts[].Href <- CalculationLinks[].Locs[].Href, CalculationArcs[].To
	CGrid.SummationItems[].ContributingConcepts[].Label[][] <- CalculationLinks[].Locs[].Href, CalculationArcs[].To, Labels[].CharData
	CGrid.SummationItems[].ContributingConcepts[].BalanceType <- Element[]@balance | CalculationLinks[].Locs[].Href, CalculationArcs[].To ; by CalculationArcs[].To
	CGrid.SummationItems[].ContributingConcepts[].Scale <- CalculationArcs[].Weight
	CGrid.SummationItems[].ContributingConcepts[].Sign <- ; by CalculationArcs[].Weight
	CGrid.SummationItems[].ContributingConcepts[].IsSummationItem <- ; by CalculationArcs[].From, CalculationArcs[].To

	DGrid.DRS.Links[].SourceHref <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].From
	DGrid.DRS.Links[].TargetHref <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].To ; by DefinitionArcs[].TargetRole
	DGrid.DRS.Links[].HypercubeConnection.IsClosed <- DefinitionArcs[].Closed
	DGrid.DRS.Links[].HypercubeConnection.ContextElement <- DefinitionArcs[].ContextElement
	DGrid.DRS.Links[].HypercubeConnection.External <- DefinitionArcs[].TargetRole
	DGrid.DRS.Links[].HypercubeDimensionConnection.Order <- DefinitionArcs[].Order
	DGrid.DRS.Links[].HypercubeDimensionConnection.External <- DefinitionArcs[].TargetRole
	DGrid.DRS.Links[].DimensionDomainConnection.Order <- DefinitionArcs[].Order
	DGrid.DRS.Links[].DimensionDomainConnection.Usable <- DefinitionArcs[].Usable
	DGrid.DRS.Links[].DimensionDomainConnection.External <- DefinitionArcs[].TargetRole
	DGrid.DRS.Links[].DomainMemberConnection.Order <- DefinitionArcs[].Order
	DGrid.DRS.Links[].DomainMemberConnection.Usable <- DefinitionArcs[].Usable
	DGrid.DRS.Links[].DomainMemberConnection.External <- DefinitionArcs[].TargetRole
	DGrid.DRS.Nodes[].Href <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].From, DefinitionArcs[].To ; by DefinitionArcs[].From, DefinitionArcs[].To, DefinitionArcs[].TargetRole
	DGrid.DRS.Nodes[].Label[][] <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].From, DefinitionArcs[].To, Labels[].CharData
	DGrid.RootDomains[].Href <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].From||DefinitionArcs[].To | DefinitionArcs[].*
	DGrid.RootDomains[].Label[][] <- DefinitionLinks[].Locs[].Href, Labels[].CharData | DefinitionArcs[].*
	DGrid.RootDomains[].PrimaryItems[].Href <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].From||DefinitionArcs[].To | DefinitionArcs[].*
	DGrid.RootDomains[].PrimaryItems[].Label[][] <- DefinitionLinks[].Locs[].Href, Labels[].CharData | DefinitionArcs[].*
	DGrid.RootDomains[].EffectiveDimensions[].Href <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].To
	DGrid.RootDomains[].EffectiveDimensions[].Label[][] <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].To, Labels[].CharData
	DGrid.RootDomains[].EffectiveDomainGrid[][][].Href <- DefinitionLinks[].Locs[].Href, DefinitionArcs[].To | DefinitionArcs[].*
	DGrid.RootDomains[].EffectiveDomainGrid[][][].Label[][] <- DefinitionLinks[].Locs[].Href, Labels[].CharData | DefinitionArcs[].*
`

// Rows for the parts of a rendering that hold facts; G stands for the part.
const quadrantsFrom = `
	GPeriodHeaders[][] <- Period.Duration.StartDate, Period.Duration.EndDate, Period.Instant.CharData ; by Contexts[].ID, Facts[].ContextRef, Identifier.Scheme, Identifier.CharData
	GContextualMemberGrid[][].ExplicitMember.Href <- Segment.ExplicitMembers[].Member.Href, Scenario.ExplicitMembers[].Member.Href ; by ExplicitMembers[].Dimension.Href
	GContextualMemberGrid[][].ExplicitMember.Label[][] <- Segment.ExplicitMembers[].Member.Href, Scenario.ExplicitMembers[].Member.Href, Labels[].CharData
	GContextualMemberGrid[][].TypedMember <- Segment.TypedMembers[].TypedMembersMap[], Scenario.TypedMembers[].TypedMembersMap[] ; by TypedMembers[].Dimension.Href, TypedMembers[].TypedMembersMap{}
	GVoidQuadrant[].Dimension.Href <- Segment.ExplicitMembers[].Dimension.Href, Scenario.ExplicitMembers[].Dimension.Href, Segment.TypedMembers[].Dimension.Href, Scenario.TypedMembers[].Dimension.Href
	GVoidQuadrant[].Dimension.Label[][] <- Segment.ExplicitMembers[].Dimension.Href, Scenario.ExplicitMembers[].Dimension.Href, Segment.TypedMembers[].Dimension.Href, Scenario.TypedMembers[].Dimension.Href, Labels[].CharData
	GVoidQuadrant[].TypedDomain.Href <- Segment.TypedMembers[].TypedMembersMap{}, Scenario.TypedMembers[].TypedMembersMap{}
	GVoidQuadrant[].TypedDomain.Label[][] <- Segment.TypedMembers[].TypedMembersMap{}, Scenario.TypedMembers[].TypedMembersMap{}, Labels[].CharData
`

const factsFrom = `
	FCore <- Facts[].XMLInner | Facts[].Precision ; by Facts[].Href, Facts[].ContextRef
	FHead <- Facts[].XMLInner, Facts[].Precision, Unit[].Symbol[].CharData ; by Facts[].Href, Facts[].ContextRef, Facts[].UnitRef, UnitNumerator.Measure.XMLName.Local, Units[].Measure.XMLName.Local ; notby UnitDenominator.Measure.XMLName.Local
	FTail <- Facts[].XMLInner, Facts[].Precision, Unit[].Symbol[].CharData, Unit[].UnitName[].CharData ; by Facts[].Href, Facts[].ContextRef, UnitNumerator.Measure.XMLName.Local, UnitDenominator.Measure.XMLName.Local, Units[].Measure.XMLName.Local
	FInnerHtml <- Facts[].XMLInner ; by Facts[].Href, Facts[].ContextRef
`

const footnotesFrom = `
	FFootnotes[] <- Footnotes[].InnerHtml ; by Facts[].ID, FootnoteArcs[].From, FootnoteArcs[].To, Footnotes[].ID, FootnoteLinks[].Locs[].Href, FootnoteLinks[].Locs[].Label
`

const footnoteGridFrom = `
	FFootnoteGrid[][][] <- ; by Facts[].ID, FootnoteArcs[].From, FootnoteArcs[].To
`

const expressableFrom = `
	Href <- Namespaces[], Element[]@id ; by NamespaceMap[].Space, NamespaceMap[].Local
	Labels[][] <- Labels[].CharData, Namespaces[], Element[]@id
	Context.Period[] <- Period.Duration.StartDate, Period.Duration.EndDate, Period.Instant.CharData ; by Contexts[].ID, param contextref
	Context.ContextualMemberGrid[][].TypedMember <- | * ; by param contextref
	Context.ContextualMemberGrid[][].ExplicitMember.Href <- | * ; by param contextref
	Context.VoidQuadrant[].Dimension.Href <- | * ; by param contextref
`

// Labels of a concept are found by its locator and the arcs leaving that.
const labelsFrom = `
	L[][] <- | * ; by LabelArcs[].From, LabelLink[].Locs[].Href, LabelLink[].Locs[].Label
	L{} <- | * ; by LabelArcs[].From, LabelArcs[].To, Labels[].Label
`

// Numbers and flags that are not the same for every part of an answer.
const variesFrom = `
	PGrid.IndentedLabels[].Indentation
	DGrid.RootDomains[].PrimaryItems[].Level
	DGrid.RootDomains[].EffectiveDomainGrid[][][].IsDefault
	DGrid.RootDomains[].EffectiveDomainGrid[][][].IsStrikethrough
	DGrid.DRS.Links[].HypercubeConnection.IsInclusive
	DGrid.DRS.Links[].DimensionDomainConnection.Default
	PGrid.VoidQuadrant[].IsParenthesized
	PGrid.VoidQuadrant[].Indentation
	CGrid.SummationItems[].ContributingConcepts[].Sign
`

func init() {
	register("P14", p14)
}

func p14(c *Ctx, r *Report) {
	r.Rule("Each field of the three kinds of answer is traced back, through a context- and field-sensitive value-flow analysis of rendering, to the fields of the loaded filing it is computed from; the oracle is a table of what each field stands for.")
	r.Rule("A field must be computed from what it stands for and from no other part of the filing; what is looked up must be selected by the names that identify it.")
	r.Rule("Two names are compared only if they are of the same kind (locator label, reference to a concept, context, unit, role, namespace, local name, language).")
	r.Rule("A group under which entries are collected is made only once, and no list is cut short after its first entry.")
	r.Rule("A name is not compared with itself, a map that is filled is read, a returned list is filled on some way, and members are marked as of the segment or of the scenario as they were read.")
	r.Rule("Identifiers of the filing are matched as a whole, not by a part of them or regardless of case.")
	r.Rule("A text is cut only where something was found in it, and entities that are compared were put together with the same separator.")
	r.Assume("the libraries for arcs and digits compute their results from their arguments")
	rows := map[string][]provRow{
		"Catalog":     parseRows(catalogFrom),
		"Renderable":  parseRows(renderableFrom),
		"Expressable": parseRows(expressableFrom),
	}
	add := func(n, rs, from, to string) {
		rows[n] = append(rows[n], parseRows(strings.ReplaceAll(rs, "\t"+from, "\t"+to))...)
	}
	for _, g := range []string{"PGrid.", "CGrid.SummationItems[].", "DGrid.RootDomains[]."} {
		add("Renderable", quadrantsFrom, "G", g)
		add("Renderable", factsFrom, "F", g+"FactualQuadrant[][][].")
		add("Renderable", footnotesFrom+footnoteGridFrom, "F", g)
	}
	rows["Expressable"] = append(rows["Expressable"], parseRows(strings.ReplaceAll(quadrantsFrom, "\tG", "\tContext."))[1:]...)
	add("Expressable", factsFrom, "F", "Expression[].")
	add("Expressable", footnotesFrom, "F", "")
	for _, l := range []string{"PGrid.IndentedLabels[].Label", "CGrid.SummationItems[].Label", "CGrid.SummationItems[].ContributingConcepts[].Label", "DGrid.DRS.Nodes[].Label", "DGrid.RootDomains[].Label"} {
		add("Renderable", labelsFrom, "L", l)
	}
	add("Expressable", labelsFrom, "L", "Labels")

	n := 0
	seen := map[string]bool{}
	var vfs []*VF
	for _, root := range []string{"Catalog", "Renderable", "Expressable"} {
		fn := c.Func("pkg/renderables", "Marshal"+root)
		r.Need(fn != nil && len(fn.Blocks) > 0, "renderables.Marshal%s not found", root)
		vf := newVF(c, 3)
		vf.root(fn, true)
		vf.solve()
		vfs = append(vfs, vf)
		for _, i := range vf.list {
			r.Fn(c, i.fn)
		}
		n += len(vf.list)
		have, t := answerOf(vf, root)
		r.Need(t != nil, "no answer of type %s is encoded", root)
		judge(vf, r, root, fn, rows[root], have, t)
		if root == "Renderable" {
			p14varies(c, r, vf, fn, have, t)
		}
		p14kinds(c, r, vf, seen)
		p14arcs(c, r, vf, seen)
		p14expressions(c, r, vf, seen)
		p14parts(c, r, vf, seen)
		p14sides(c, r, vf, seen)
		p14parted(c, r, vf, seen)
		separators(c, r, vf, seen)
	}
	r.Count("function instances", n)
	p14swaps(c, r, vfs)
	var fns []*ssa.Function
	for _, f := range c.Fns {
		if p := c.RelPkg(f); p == "pkg/renderables" || p == "pkg/hydratables" {
			fns = append(fns, f)
		}
	}
	p14guards(c, r, fns)
	p14stops(c, r, fns)
	p14same(c, r, fns)
	p14empty(c, r, fns)
	p14filled(c, r, fns)
	cutElsewhere(c, r, fns)
	heeded(c, r)
	exactIds(c, r, c.Fns)
	var rfns []*ssa.Function
	for _, f := range fns {
		if c.RelPkg(f) == "pkg/renderables" {
			rfns = append(rfns, f)
		}
	}
	merges(c, r, rfns)
}

// answerOf is the provenance of all parts of the answers of a type, wherever
// they are encoded.
func answerOf(vf *VF, name string) (map[string]*shaped, types.Type) {
	all := map[string]*shaped{}
	var typ types.Type
	for _, j := range vf.json {
		t := j.val.Type()
		arg := j.arg
		if mi, ok := j.val.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
			arg = vf.reg(j.inst, mi.X)
		}
		if types.IsInterface(t) {
			// boxed elsewhere
			for _, p := range j.arg.ptl {
				if p.obj != nil && p.obj.box && typeName(p.obj.typ) == name {
					t, arg = p.obj.typ, p
				}
			}
		}
		if typeName(t) != name {
			continue
		}
		typ = deref(t)
		for p, s := range vf.shapes(arg, t) {
			o := all[p]
			if o == nil {
				all[p] = s
				continue
			}
			for k := range s.data {
				o.data[k] = true
			}
			for k := range s.by {
				o.by[k] = true
			}
			for k := range s.cons {
				o.cons[k] = true
			}
			o.at = append(o.at, s.at...)
		}
	}
	return all, typ
}

// p14varies: what differs from part to part is not the same constant for all.
func p14varies(c *Ctx, r *Report, vf *VF, fn *ssa.Function, have map[string]*shaped, t types.Type) {
	exists := map[string]bool{}
	typePaths(t, "", 0, func(p string, _ types.Type) { exists[p] = true })
	for _, p := range strings.Fields(variesFrom) {
		s := have[p]
		if !exists[p] || s == nil {
			r.Open("Renderable." + p + " is not part of the type")
			continue
		}
		if len(s.data) == 0 && len(s.cons) <= 1 && !computed(vf, s) && !leftOut(c, p, t, s) {
			r.Bad("constant", "Renderable."+p, vf.writer(p, "", fn), "Renderable.%s is the constant %s for every part of every answer", p, strings.Join(keysOf(s.cons), ""))
			continue
		}
		r.OK("Renderable." + p + " is not constant")
	}
}

// leftOut: the constant is not the zero value, and there are values that do
// not set the field.
func leftOut(c *Ctx, path string, t types.Type, s *shaped) bool {
	for k := range s.cons {
		if k == "false" || k == "0" || k == `""` {
			return false
		}
	}
	i := strings.LastIndex(path, ".")
	var owner types.Type
	typePaths(t, "", 0, func(p string, pt types.Type) {
		if p == path[:i] {
			owner = deref(pt)
		}
	})
	if owner == nil {
		return true
	}
	for _, fn := range c.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				al, ok := ins.(*ssa.Alloc)
				if !ok || !types.Identical(deref(al.Type()), owner) {
					continue
				}
				sets := false
				for _, ref := range *al.Referrers() {
					switch x := ref.(type) {
					case *ssa.FieldAddr:
						if f, _ := fieldName(owner, x.Field); f == path[i+1:] {
							for _, ref := range *x.Referrers() {
								if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
									sets = true
								}
							}
						}
					case *ssa.Store:
						sets = sets || x.Addr == ssa.Value(al)
					}
				}
				if !sets {
					return true
				}
			}
		}
	}
	return false
}

// computed: some value that ends up there is neither a constant nor a copy.
func computed(vf *VF, s *shaped) bool {
	if vf.back == nil {
		vf.back = map[*vcell][]*vcell{}
		vf.made = map[*vcell]bool{}
		seen := map[*vcell]bool{}
		var todo []*vcell
		visit := func(c *vcell) {
			if c != nil && !seen[c] {
				seen[c] = true
				todo = append(todo, c)
			}
		}
		for _, in := range vf.list {
			for v, c := range in.regs {
				switch v.(type) {
				case *ssa.BinOp, *ssa.Convert, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Extract:
					vf.made[c] = true
				case *ssa.Call:
					vf.made[c] = vf.made[c] || len(in.calls[v.(*ssa.Call)]) == 0
				}
				visit(c)
			}
			visit(in.ret)
		}
		for len(todo) > 0 {
			c := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for _, d := range c.edgel {
				if c.edges[d]&eTags != 0 {
					vf.back[d] = append(vf.back[d], c)
				}
				visit(d)
			}
			for _, d := range c.ptl {
				visit(d)
			}
			for _, d := range c.sub {
				visit(d)
			}
			visit(c.parent)
		}
	}
	seen := map[*vcell]bool{}
	var up func(c *vcell) bool
	up = func(c *vcell) bool {
		if seen[c] {
			return false
		}
		seen[c] = true
		if vf.made[c] {
			return true
		}
		for _, d := range vf.back[c] {
			if up(d) {
				return true
			}
		}
		return false
	}
	for _, c := range s.at {
		if up(c) {
			return true
		}
	}
	return false
}

// p14arcs: the arcs given to the tree builder are the arcs of the filing.
func p14arcs(c *Ctx, r *Report, vf *VF, seen map[string]bool) {
	for _, in := range vf.list {
		if !c.InModule(in.fn) {
			continue
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, ok := deref(fa.X.Type()).(*types.Named)
				if !ok || n.Obj().Name() != "Arc" || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/arcs") {
					continue
				}
				f, _ := fieldName(n, fa.Field)
				got := map[string]bool{}
				if cl := in.regs[st.Val]; cl != nil {
					for _, t := range cl.tgl {
						if !isBy(t) && !strings.HasPrefix(t, "const:") {
							got[normTag(t)] = true
						}
					}
				}
				k := fmt.Sprintf("arc %s %p", f, st)
				bad := ""
				for _, t := range keysOf(got) {
					if strings.Contains(t, "Arcs[]") && !strings.HasSuffix(t, "Arcs[]."+f) {
						bad = t
					}
				}
				if bad != "" {
					if !seen[k+"!"] {
						seen[k+"!"] = true
						r.Bad("arc", c.FnName(in.fn)+" "+f+" <- "+bad, c.PosOf(st), "%s gives the tree %s as the %s of an arc", c.FnName(in.fn), bad, f)
					}
				} else if !seen[k] {
					seen[k] = true
					r.OK(c.FnName(in.fn) + " keeps the " + f + " of arcs")
				}
			}
		}
	}
}

// p14expressions: the text of a fact is complete in every language.
func p14expressions(c *Ctx, r *Report, vf *VF, seen map[string]bool) {
	rows := parseRows(strings.ReplaceAll(factsFrom, "\tF", "\t"))
	for _, in := range vf.list {
		if !c.InModule(in.fn) {
			continue
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				up, ok := ins.(*ssa.MapUpdate)
				if !ok || typeName(up.Value.Type()) != "FactExpression" {
					continue
				}
				k := fmt.Sprintf("expr %p", up)
				if seen[k] {
					continue
				}
				seen[k] = true
				have := vf.shapes(vf.reg(in, up.Value), up.Value.Type())
				any := false
				for _, s := range have {
					any = any || len(s.data) > 0
				}
				if !any {
					continue // no fact to show
				}
				key := "a language"
				if kc, ok := up.Key.(*ssa.Const); ok && kc.Value != nil {
					key = kc.Value.ExactString()
				}
				judge(vf, r, "FactExpression of "+key, in.fn, rows, have, deref(up.Value.Type()))
			}
		}
	}
}

// p14parts: lists of the filing are used as a whole.
func p14parts(c *Ctx, r *Report, vf *VF, seen map[string]bool) {
	for _, in := range vf.list {
		if !c.InModule(in.fn) {
			continue
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				sl, ok := ins.(*ssa.Slice)
				if !ok || sl.Low == nil && sl.High == nil || isString(sl.X.Type()) || lenOf(sl.High, sl.X) && (sl.Low == nil || isZeroInt(sl.Low)) {
					continue
				}
				if _, ok := sl.X.(*ssa.Phi); ok || fullSlice(sl) && isZeroInt(sl.High) {
					continue
				}
				x := in.regs[sl.X]
				if x == nil {
					continue
				}
				for _, p := range x.ptl {
					if p.obj == nil || !p.obj.opaque || p.obj.ext || !strings.HasPrefix(p.path(), "Hydratable") {
						continue
					}
					k := fmt.Sprintf("part %p", sl)
					if !seen[k] {
						seen[k] = true
						r.Bad("part", c.FnName(in.fn), c.PosOf(sl), "%s looks at a part of %s only", c.FnName(in.fn), normTag(p.path()))
					}
				}
			}
		}
	}
}

// p14stops: a list is not cut short after its first entry.
func p14stops(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, fn := range fns {
		for _, l := range naturalLoops(fn) {
			if !overSlice(l) {
				continue
			}
			for _, b := range fn.Blocks {
				if l.body[b] || !leaves(l, b) || onlyFound(l, b) == false {
					continue
				}
				for _, ins := range b.Instrs {
					if x, ok := ins.(*ssa.Call); ok {
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							r.Bad("stops", c.FnName(fn), c.PosOf(ins), "%s looks at no further element once it has added one", c.FnName(fn))
						}
					}
				}
			}
			r.OK(c.FnName(fn) + " looks at every element")
		}
		// loops that cannot come round at all
		if fn.Syntax() == nil {
			continue
		}
		info := c.infoOf(fn)
		ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
			rs, ok := n.(*ast.RangeStmt)
			if !ok || len(rs.Body.List) == 0 || info == nil {
				return true
			}
			if _, ok := info.TypeOf(rs.X).Underlying().(*types.Slice); !ok {
				return true
			}
			switch x := rs.Body.List[len(rs.Body.List)-1].(type) {
			case *ast.BranchStmt:
				if x.Tok != token.BREAK {
					return true
				}
			case *ast.ReturnStmt:
			default:
				return true
			}
			again, adds := false, false
			ast.Inspect(rs.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncLit:
					return false
				case *ast.BranchStmt:
					again = again || x.Tok == token.CONTINUE || x.Tok == token.GOTO
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok {
						if b, ok := info.Uses[id].(*types.Builtin); ok && b.Name() == "append" {
							adds = true
						}
					}
				}
				return true
			})
			if adds && !again {
				r.Bad("stops", c.FnName(fn), c.Pos(rs.Pos()), "%s looks at the first element only", c.FnName(fn))
			}
			return true
		})
	}
}

// overSlice: the loop goes through the elements of a slice.
func overSlice(l *natLoop) bool {
	for b := range l.body {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.IndexAddr); ok && variesIn(l, x.Index) {
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
					return true
				}
			}
		}
	}
	return false
}

// onlyFound: on its way to b an iteration has only been asked whether
// something is there.
func onlyFound(l *natLoop, b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil && d != l.head && l.head.Dominates(d); d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		decides := false
		for _, s := range d.Succs {
			decides = decides || len(s.Preds) == 1 && s.Dominates(b)
		}
		if !decides {
			continue
		}
		if blank(iff.Cond) {
			continue
		}
		x, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isNilConst(x.Y) && !isNilConst(x.X) {
			return false
		}
	}
	return true
}

// p14guards: where a field of one value is tested, it is not the same field of
// another value that is then used.
func p14guards(c *Ctx, r *Report, fns []*ssa.Function) {
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			x, ok := iff.Cond.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			k, ok := x.Y.(*ssa.Const)
			if !ok {
				continue
			}
			tested, s, other := ssa.Value(nil), b.Succs[0], b.Succs[1]
			if x.Op == token.EQL {
				s, other = other, s
			}
			field := -1
			if k.IsNil() {
				tested = x.X // the value itself is there
			} else if fa := fieldLoad(x.X); fa != nil && isString(k.Type()) {
				tested, field = fa.X, fa.Field
			}
			if tested == nil || !aValue(tested) {
				continue
			}
			for _, side := range []*ssa.BasicBlock{s, other} {
				if len(side.Preds) != 1 || side == other && field < 0 {
					continue
				}
				var wrong ssa.Instruction
				name, own := "", false
				for _, ins := range side.Instrs {
					fa, ok := ins.(*ssa.FieldAddr)
					if !ok || !types.Identical(fa.X.Type(), tested.Type()) || !aValue(fa.X) {
						continue
					}
					if fa.X == tested {
						own = true
						continue
					}
					if usedAsData(fa) && (fa.Field == field || side == other || field < 0) {
						wrong = ins
						name, _ = fieldName(deref(tested.Type()), fa.Field)
					}
				}
				for _, d := range fn.Blocks {
					for _, ins := range d.Instrs {
						if fa, ok := ins.(*ssa.FieldAddr); ok && fa.X == tested && side.Dominates(d) {
							own = true
						}
					}
				}
				if wrong != nil && !own {
					r.Bad("guard", c.FnName(fn)+" "+name, c.PosOf(wrong), "%s tests one value and then uses the %s of another", c.FnName(fn), name)
				} else if own {
					r.OK(c.FnName(fn) + " uses the value it has tested")
				}
			}
		}
	}
}

// aValue: a pointer that was passed or returned, not an address in this function.
func aValue(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.Extract, *ssa.Call, *ssa.Phi:
		_, ok := deref(v.Type()).Underlying().(*types.Struct)
		return ok && deref(v.Type()) != v.Type()
	}
	return false
}

func fieldLoad(v ssa.Value) *ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		fa, _ := u.X.(*ssa.FieldAddr)
		return fa
	}
	return nil
}

// usedAsData: the field is read for more than to compare it.
func usedAsData(fa *ssa.FieldAddr) bool {
	for _, ref := range *fa.Referrers() {
		u, ok := ref.(*ssa.UnOp)
		if !ok {
			continue
		}
		for _, ref := range *u.Referrers() {
			if b, ok := ref.(*ssa.BinOp); ok && b.Op != token.ADD {
				continue
			}
			return true
		}
	}
	return false
}

// p14swaps: a function is given the same kind of thing in the same place
// wherever it is called, and not one thing in two places.
func p14swaps(c *Ctx, r *Report, vfs []*VF) {
	type site struct {
		call ssa.CallInstruction
		in   *vinst
		tags []string
	}
	sites := map[*ssa.Function][]site{}
	var order []*ssa.Function
	done := map[ssa.CallInstruction]bool{}
	for _, vf := range vfs {
		for _, in := range vf.list {
			if !c.InModule(in.fn) {
				continue
			}
			for _, b := range in.fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					f := call.Common().StaticCallee()
					if f == nil || !c.InModule(f) || len(f.Params) < 2 {
						continue
					}
					s := site{call: call, in: in}
					for _, a := range call.Common().Args {
						s.tags = append(s.tags, argTags(vf, in, a))
					}
					if !done[call] {
						done[call] = true
						args := call.Common().Args
						for i := range args {
							for j := 0; j < i; j++ {
								if args[i] == args[j] && isString(args[i].Type()) && s.tags[i] != "" {
									r.Bad("twice", c.FnName(in.fn)+" "+c.FnName(f), c.PosOf(ins), "%s passes the same text to %s in two places", c.FnName(in.fn), c.FnName(f))
								}
							}
						}
					}
					if sites[f] == nil {
						order = append(order, f)
					}
					sites[f] = append(sites[f], s)
				}
			}
		}
	}
	for _, f := range order {
		for i := range f.Params {
			for j := 0; j < i; j++ {
				if !types.Identical(f.Params[i].Type(), f.Params[j].Type()) {
					continue
				}
				bad := false
				for _, a := range sites[f] {
					for _, b := range sites[f] {
						if a.call == b.call || bad || i >= len(a.tags) || i >= len(b.tags) {
							continue
						}
						if a.tags[i] != "" && a.tags[j] != "" && a.tags[i] != a.tags[j] && a.tags[i] == b.tags[j] && a.tags[j] == b.tags[i] {
							bad = true
							r.Bad("swapped", c.FnName(f), c.PosOf(a.call), "%s is called with %s and %s here, and the other way round at %s", c.FnName(f), a.tags[j], a.tags[i], c.PosOf(b.call))
						}
					}
				}
				if !bad {
					r.OK(c.FnName(f) + " is called with its arguments in the same order everywhere")
				}
			}
		}
	}
}

// argTags says what an argument is computed from.
func argTags(vf *VF, in *vinst, a ssa.Value) string {
	cl := in.regs[a]
	if cl == nil {
		return ""
	}
	got := map[string]bool{}
	add := func(c *vcell) {
		for _, t := range c.tgl {
			if !isBy(t) && !strings.HasPrefix(t, "const:") {
				got[normTag(t)] = true
			}
		}
	}
	if isString(a.Type()) {
		add(cl)
	} else if _, ok := a.Type().Underlying().(*types.Slice); ok {
		for _, p := range cl.ptl {
			if p.obj == nil {
				continue
			}
			for _, c := range p.obj.cells {
				add(c)
			}
		}
	}
	return strings.Join(keysOf(got), " ")
}

// The kinds of names in a filing.
var nameKinds = map[string][]string{
	"locator label":           {"Locs[].Label", "Arcs[].From", "Arcs[].To", "Labels[].Label", "Footnotes[].Label"},
	"concept reference":       {"Href", "TypedMembersMap{}", "Namespaces[]", "Element[]@id"},
	"context id":              {"Contexts[].ID", "Facts[].ContextRef", "ContextRefMap{}", "param contextref"},
	"unit id":                 {"Units[].ID", "Facts[].UnitRef"},
	"role":                    {"Role", "RoleURI", "TargetRole", "Arcrole", "PreferredLabel"},
	"fact id":                 {"Facts[].ID", "FootnoteLinks[].Locs[].Href"},
	"footnote id":             {"Footnotes[].ID", "FootnoteLinks[].Locs[].Href", "FootnoteArcs[].To"},
	"entity":                  {"Identifier.Scheme", "Identifier.CharData"},
	"namespace":               {"XMLName.Space", "NamespaceMap[].Space", "@targetNamespace"},
	"local name":              {"XMLName.Local", "NamespaceMap[].Local", "@name"},
	"language":                {"Lang"},
	"kind of context element": {"ContextElement"},
}

func kindsOf(cl *vcell) map[string]bool {
	r := map[string]bool{}
	if cl == nil {
		return r
	}
	for _, t := range cl.tgl {
		if isBy(t) || strings.HasPrefix(t, "const:") {
			continue
		}
		t = normTag(t)
		for k, l := range nameKinds {
			for _, p := range l {
				if strings.HasSuffix(t, p) {
					r[k] = true
				}
			}
		}
	}
	return r
}

func p14kinds(c *Ctx, r *Report, vf *VF, seen map[string]bool) {
	report := func(in *vinst, ins ssa.Instruction, a, b *vcell, what string) {
		ka, kb := kindsOf(a), kindsOf(b)
		if len(ka) == 0 || len(kb) == 0 {
			return
		}
		for k := range ka {
			if kb[k] {
				if k := fmt.Sprintf("kind %p", ins); !seen[k] {
					seen[k] = true
					r.OK(c.FnName(in.fn) + " " + what + " names of the same kind")
				}
				return
			}
		}
		why := strings.Join(keysOf(ka), "/") + " with " + strings.Join(keysOf(kb), "/")
		k := fmt.Sprintf("kind %p %s", ins, why)
		if seen[k] {
			return
		}
		seen[k] = true
		r.Bad("kind", c.FnName(in.fn)+" "+why, c.PosOf(ins), "%s %s a %s", c.FnName(in.fn), what, why)
	}
	insts := append([]*vinst{}, vf.list...)
	sort.SliceStable(insts, func(i, j int) bool { return insts[i].fn.Pos() < insts[j].fn.Pos() })
	for _, in := range insts {
		if !c.InModule(in.fn) {
			continue
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.BinOp:
					if (x.Op == token.EQL || x.Op == token.NEQ) && isString(x.X.Type()) {
						report(in, ins, in.regs[x.X], in.regs[x.Y], "compares")
					}
				case *ssa.Lookup:
					m, ok := x.X.Type().Underlying().(*types.Map)
					if !ok || !isString(m.Key()) {
						continue
					}
					if mc := in.regs[x.X]; mc != nil {
						for _, p := range mc.ptl {
							report(in, ins, in.regs[x.Index], p.sub["{}"], "looks up")
						}
					}
				}
			}
		}
	}
}
