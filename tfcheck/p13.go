package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P13: every field of a loaded filing carries the attribute or element that
// XBRL assigns to it.

// The sources XBRL 2.1, XBRL Dimensions 1.0 and the unit registry assign to
// the fields of a loaded filing.
const hydratedFrom = `
	Instances{} <- Instances{}
	Instances[].FileName <- Instances{}
	Instances[].Contexts[].ID <- Context[]@id
	Instances[].Contexts[].Entity.Identifier.CharData <- Entity[].Identifier[].CharData
	Instances[].Contexts[].Entity.Identifier.Scheme <- Entity[].Identifier[]@scheme
	Instances[].Contexts[].Period.Duration.StartDate <- Period[].StartDate[].CharData
	Instances[].Contexts[].Period.Duration.EndDate <- Period[].EndDate[].CharData
	Instances[].Contexts[].Period.Instant.CharData <- Period[].Instant[].CharData

	Instances[].Contexts[].Entity.Segment.ExplicitMembers[].Dimension.Value <- Segment[].ExplicitMember[]@dimension
	Instances[].Contexts[].Entity.Segment.ExplicitMembers[].Dimension.Href <- Namespaces[], Element[]@id ; by Segment[].ExplicitMember[]@dimension ; notby Segment[].ExplicitMember[].CharData
	Instances[].Contexts[].Entity.Segment.ExplicitMembers[].Member.CharData <- Segment[].ExplicitMember[].CharData
	Instances[].Contexts[].Entity.Segment.ExplicitMembers[].Member.Href <- Namespaces[], Element[]@id ; by Segment[].ExplicitMember[].CharData
	Instances[].Contexts[].Entity.Segment.TypedMembers[].Dimension.Value <- Segment[].TypedMember[]@dimension
	Instances[].Contexts[].Entity.Segment.TypedMembers[].Dimension.Href <- Namespaces[], Element[]@id ; by Segment[].TypedMember[]@dimension
	Instances[].Contexts[].Entity.Segment.TypedMembers[].Dimension.TypedDomainHref <- Element[]@typedDomainRef | Namespaces[], Schemas{} ; by Segment[].TypedMember[]@dimension
	Instances[].Contexts[].Entity.Segment.TypedMembers[].TypedMembersMap[] <- Segment[].TypedMember[].XMLInner
	Instances[].Contexts[].Entity.Segment.TypedMembers[].TypedMembersMap{} <- Namespaces[], Element[]@id ; by Segment[].TypedMember[].XMLInner
	Instances[].Contexts[].Entity.Segment.TypedMembers[].TypedDomainArcs[].From <- Namespaces[], Element[]@id ; by Segment[].TypedMember[]@dimension
	Instances[].Contexts[].Entity.Segment.TypedMembers[].TypedDomainArcs[].To <- Namespaces[], Element[]@id ; by Segment[].TypedMember[].XMLInner ; notby Segment[].TypedMember[]@dimension

	Instances[].Contexts[].Scenario.ExplicitMembers[].Dimension.Value <- Scenario[].ExplicitMember[]@dimension
	Instances[].Contexts[].Scenario.ExplicitMembers[].Dimension.Href <- Namespaces[], Element[]@id ; by Scenario[].ExplicitMember[]@dimension ; notby Scenario[].ExplicitMember[].CharData
	Instances[].Contexts[].Scenario.ExplicitMembers[].Member.CharData <- Scenario[].ExplicitMember[].CharData
	Instances[].Contexts[].Scenario.ExplicitMembers[].Member.Href <- Namespaces[], Element[]@id ; by Scenario[].ExplicitMember[].CharData
	Instances[].Contexts[].Scenario.TypedMembers[].Dimension.Value <- Scenario[].TypedMember[]@dimension
	Instances[].Contexts[].Scenario.TypedMembers[].Dimension.Href <- Namespaces[], Element[]@id ; by Scenario[].TypedMember[]@dimension
	Instances[].Contexts[].Scenario.TypedMembers[].Dimension.TypedDomainHref <- Element[]@typedDomainRef | Namespaces[], Schemas{} ; by Scenario[].TypedMember[]@dimension
	Instances[].Contexts[].Scenario.TypedMembers[].TypedMembersMap[] <- Scenario[].TypedMember[].XMLInner
	Instances[].Contexts[].Scenario.TypedMembers[].TypedMembersMap{} <- Namespaces[], Element[]@id ; by Scenario[].TypedMember[].XMLInner
	Instances[].Contexts[].Scenario.TypedMembers[].TypedDomainArcs[].From <- Namespaces[], Element[]@id ; by Scenario[].TypedMember[]@dimension
	Instances[].Contexts[].Scenario.TypedMembers[].TypedDomainArcs[].To <- Namespaces[], Element[]@id ; by Scenario[].TypedMember[].XMLInner ; notby Scenario[].TypedMember[]@dimension

	Instances[].Facts[].ID <- Facts[]@id
	Instances[].Facts[].Href <- Namespaces[], Element[]@id ; by Facts[].XMLName.Local, Facts[].XMLName.Space
	Instances[].Facts[].ContextRef <- Facts[]@contextRef
	Instances[].Facts[].UnitRef <- Facts[]@unitRef
	Instances[].Facts[].Precision <- Facts[]@decimals
	Instances[].Facts[].IsNil <- Facts[]@nil
	Instances[].Facts[].XMLInner <- Facts[].XMLInner

	Instances[].FootnoteLinks[].Title <- FootnoteLink[]@title
	Instances[].FootnoteLinks[].FootnoteArcs[].Arcrole <- FootnoteLink[].FootnoteArc[]@arcrole
	Instances[].FootnoteLinks[].FootnoteArcs[].From <- FootnoteLink[].FootnoteArc[]@from
	Instances[].FootnoteLinks[].FootnoteArcs[].To <- FootnoteLink[].FootnoteArc[]@to
	Instances[].FootnoteLinks[].Footnotes[].ID <- FootnoteLink[].Footnote[]@id
	Instances[].FootnoteLinks[].Footnotes[].InnerHtml <- FootnoteLink[].Footnote[].XMLInner
	Instances[].FootnoteLinks[].Footnotes[].Label <- FootnoteLink[].Footnote[]@label
	Instances[].FootnoteLinks[].Footnotes[].Lang <- FootnoteLink[].Footnote[]@lang
	Instances[].FootnoteLinks[].Locs[].Href <- FootnoteLink[].Loc[]@href
	Instances[].FootnoteLinks[].Locs[].Label <- FootnoteLink[].Loc[]@label

	Instances[].Units[].ID <- Unit[]@id
	Instances[].Units[].Measure.CharData <- Unit[].Measure[].CharData
	Instances[].Units[].Measure.XMLName.Local <- Unit[].Measure[].CharData
	Instances[].Units[].Measure.XMLName.Space <- Instances[].XMLAttrs[].Value||Instances[]@* ; by Unit[].Measure[].CharData ; notby UnitNumerator[].Measure[].CharData, UnitDenominator[].Measure[].CharData
	Instances[].Units[].Divide.UnitNumerator.Measure.CharData <- UnitNumerator[].Measure[].CharData
	Instances[].Units[].Divide.UnitNumerator.Measure.XMLName.Local <- UnitNumerator[].Measure[].CharData
	Instances[].Units[].Divide.UnitNumerator.Measure.XMLName.Space <- Instances[].XMLAttrs[].Value||Instances[]@* ; by UnitNumerator[].Measure[].CharData ; notby UnitDenominator[].Measure[].CharData
	Instances[].Units[].Divide.UnitDenominator.Measure.CharData <- UnitDenominator[].Measure[].CharData
	Instances[].Units[].Divide.UnitDenominator.Measure.XMLName.Local <- UnitDenominator[].Measure[].CharData
	Instances[].Units[].Divide.UnitDenominator.Measure.XMLName.Space <- Instances[].XMLAttrs[].Value||Instances[]@* ; by UnitDenominator[].Measure[].CharData ; notby UnitNumerator[].Measure[].CharData

	Document.ContextRefMap{} <- Document.NonFractions[]@contextRef, Document.NonNumerics[]@contextRef
	Document.NamespaceMap{} <- Document.NonFractions[]@name, Document.NonNumerics[]@name
	Document.NamespaceMap[].Local <- Document.NonFractions[]@name, Document.NonNumerics[]@name
	Document.NamespaceMap[].Space <- Document.Html.Attr[].Value ; by Document.NonFractions[]@name, Document.NonNumerics[]@name

	Schemas{} <- Schemas{}
	Schemas[].FileName <- Schemas{}
	Schemas[].Annotation.Appinfo.RoleTypes[].ID <- RoleType[]@id
	Schemas[].Annotation.Appinfo.RoleTypes[].RoleURI <- RoleType[]@roleURI
	Schemas[].Annotation.Appinfo.RoleTypes[].Definition <- RoleType[].Definition[].CharData
	Schemas[].Annotation.Appinfo.RoleTypes[].UsedOn[].CharData <- RoleType[].UsedOn[].CharData
	Schemas[].Element[].ID <- Element[]@id
	Schemas[].Element[].XMLName.Local <- Element[]@name
	Schemas[].Element[].XMLName.Space <- Schemas[]@targetNamespace||SchemaFile@targetNamespace ; notby @substitutionGroup, @type
	Schemas[].Element[].Type.Local <- Element[]@type
	Schemas[].Element[].Type.Space <- Schemas[].XMLAttrs[].Value||Schemas[]@*||SchemaFile.XMLAttrs[].Value||SchemaFile@* ; by Element[]@type ; notby Element[]@substitutionGroup
	Schemas[].Element[].SubstitutionGroup.Local <- Element[]@substitutionGroup
	Schemas[].Element[].SubstitutionGroup.Space <- Schemas[].XMLAttrs[].Value||Schemas[]@*||SchemaFile.XMLAttrs[].Value||SchemaFile@* ; by Element[]@substitutionGroup ; notby Element[]@type
	Schemas[].Element[].Nillable <- Element[]@nillable
	Schemas[].Element[].Abstract <- Element[]@abstract
	Schemas[].Element[].PeriodType <- Element[]@periodType
	Schemas[].Element[].Balance <- Element[]@balance
	Schemas[].Element[].TypedDomainHref <- Element[]@typedDomainRef | Schemas{}

	LabelLinkbases{} <- LabelLinkbases{}
	LabelLinkbases[].FileName <- LabelLinkbases{}
	LabelLinkbases[].RoleRefs[].Href <- LabelLinkbases[].RoleRef[]@href
	LabelLinkbases[].RoleRefs[].RoleURI <- LabelLinkbases[].RoleRef[]@roleURI
	LabelLinkbases[].LabelLink[].Role <- LabelLinkbases[].LabelLink[]@role
	LabelLinkbases[].LabelLink[].Locs[].Href <- LabelLink[].Loc[]@href
	LabelLinkbases[].LabelLink[].Locs[].Label <- LabelLink[].Loc[]@label
	LabelLinkbases[].LabelLink[].Labels[].CharData <- LabelLink[].Label[].CharData
	LabelLinkbases[].LabelLink[].Labels[].Label <- LabelLink[].Label[]@label
	LabelLinkbases[].LabelLink[].Labels[].Lang <- LabelLink[].Label[]@lang
	LabelLinkbases[].LabelLink[].Labels[].Role <- LabelLink[].Label[]@role
	LabelLinkbases[].LabelLink[].LabelArcs[].Arcrole <- LabelLink[].LabelArc[]@arcrole
	LabelLinkbases[].LabelLink[].LabelArcs[].Order <- LabelLink[].LabelArc[]@order
	LabelLinkbases[].LabelLink[].LabelArcs[].From <- LabelLink[].LabelArc[]@from
	LabelLinkbases[].LabelLink[].LabelArcs[].To <- LabelLink[].LabelArc[]@to

	UnitTypeRegistry{} <- Unit[].NSUnit[].CharData
	UnitTypeRegistry[]{} <- Unit[].UnitID[].CharData
	UnitTypeRegistry[][].UnitID <- Unit[].UnitID[].CharData
	UnitTypeRegistry[][].UnitName <- Unit[].UnitName[].CharData
	UnitTypeRegistry[][].NSUnit <- Unit[].NSUnit[].CharData
	UnitTypeRegistry[][].ItemType <- Unit[].ItemType[].CharData
	UnitTypeRegistry[][].NsItemType <- Unit[].NSItemType[].CharData
	UnitTypeRegistry[][].ItemTypeDate <- Unit[].ItemTypeDate[].CharData
	UnitTypeRegistry[][].Symbol <- Unit[].Symbol[].CharData
	UnitTypeRegistry[][].Definition <- Unit[].Definition[].CharData
	UnitTypeRegistry[][].BaseStandard <- Unit[].BaseStandard[].CharData
	UnitTypeRegistry[][].ConversionPresentation <- Unit[].ConversionPresentation[].XMLInner
	UnitTypeRegistry[][].ConversionContent <- Unit[].ConversionContent[].XMLInner
	UnitTypeRegistry[][].Status <- Unit[].Status[].CharData
	UnitTypeRegistry[][].VersionDate <- Unit[].VersionDate[].CharData
	UnitTypeRegistry[][].NumeratorItemType <- Unit[].NumeratorItemType[].CharData
	UnitTypeRegistry[][].NSNumeratorItemType <- Unit[].NSNumeratorItemType[].CharData
	UnitTypeRegistry[][].DenominatorItemType <- Unit[].DenominatorItemType[].CharData
	UnitTypeRegistry[][].NSDenominatorItemType <- Unit[].NSDenominatorItemType[].CharData
`

// Rows shared by the linkbases of arcs.
const linkbaseFrom = `
	KLinkbases{} <- KLinkbases{}
	KLinkbases[].FileName <- KLinkbases{}
	KLinkbases[].RoleRefs[].Href <- KLinkbases[].RoleRef[]@href
	KLinkbases[].RoleRefs[].RoleURI <- KLinkbases[].RoleRef[]@roleURI
	KLinkbases[].KLinks[].Role <- KLinkbases[].KLink[]@role
	KLinkbases[].KLinks[].Locs[].Href <- KLinkbases[].KLink[].Loc[]@href
	KLinkbases[].KLinks[].Locs[].Label <- KLinkbases[].KLink[].Loc[]@label
	KLinkbases[].KLinks[].KArcs[].Arcrole <- KLinkbases[].KLink[].KArc[]@arcrole
	KLinkbases[].KLinks[].KArcs[].Order <- KLinkbases[].KLink[].KArc[]@order
	KLinkbases[].KLinks[].KArcs[].From <- KLinkbases[].KLink[].KArc[]@from
	KLinkbases[].KLinks[].KArcs[].To <- KLinkbases[].KLink[].KArc[]@to
`

const arcsFrom = `
	PresentationLinkbases[].PresentationLinks[].PresentationArcs[].PreferredLabel <- PresentationArc[]@preferredLabel
	CalculationLinkbases[].CalculationLinks[].CalculationArcs[].Weight <- CalculationArc[]@weight
	DefinitionLinkbases[].DefinitionLinks[].DefinitionArcs[].Closed <- DefinitionArc[]@closed
	DefinitionLinkbases[].DefinitionLinks[].DefinitionArcs[].Usable <- DefinitionArc[]@usable
	DefinitionLinkbases[].DefinitionLinks[].DefinitionArcs[].ContextElement <- DefinitionArc[]@contextElement
	DefinitionLinkbases[].DefinitionLinks[].DefinitionArcs[].TargetRole <- DefinitionArc[]@targetRole
`

// Elements that XBRL lets a filing repeat.
var repeatable = []string{"Context", "Unit", "Facts", "FootnoteLink", "Footnote", "FootnoteArc", "Loc", "ExplicitMember", "TypedMember",
	"Element", "Annotation", "Appinfo", "RoleType", "UsedOn", "RoleRef", "PresentationLink", "PresentationArc", "DefinitionLink", "DefinitionArc",
	"CalculationLink", "CalculationArc", "LabelLink", "LabelArc", "Label", "NonFractions", "NonNumerics"}

func init() {
	register("P13", p13)
}

func p13(c *Ctx, r *Report) {
	r.Rule("Each field of the loaded filing is traced back, through a context- and field-sensitive value-flow analysis of hydration, to the attribute or element it is computed from; the oracle is a table of the sources XBRL assigns to each field.")
	r.Rule("A field must be computed from its source and from no other part of the filing; a reference must also be selected by the name that stands for it.")
	r.Rule("The field of a decoded file that holds an element is tagged with that element's name.")
	r.Rule("A list built from repeatable elements is built from all of them: no fixed index, and the loop that builds it goes on after an entry was added.")
	r.Rule("A list that is added to was not made with blank elements.")
	r.Rule("An attribute is returned by a lookup only if its name is the name that was asked for.")
	r.Assume("encoding/xml decodes as its struct tags say; attributes are told apart by local name")
	fn := c.Func("pkg/hydratables", "Hydrate")
	r.Need(fn != nil && len(fn.Blocks) > 0, "hydratables.Hydrate not found")
	vf := newVF(c, 3)
	in := vf.root(fn, false)
	vf.solve()
	for _, i := range vf.list {
		r.Fn(c, i.fn)
	}
	r.Count("function instances", len(vf.list))
	rt := fn.Signature.Results().At(0).Type()
	ret := in.ret.sub["#0"]
	r.Need(ret != nil, "Hydrate returns nothing")
	have := vf.shapes(ret, rt)
	rows := parseRows(hydratedFrom + arcsFrom)
	for _, k := range []string{"Presentation", "Definition", "Calculation"} {
		rows = append(rows, parseRows(strings.ReplaceAll(linkbaseFrom, "K", k))...)
	}
	judge(vf, r, "Hydratable", fn, rows, have, rt)
	p13first(c, r, vf, have)
	var made []*ssa.Function
	for _, f := range c.Fns {
		if c.RelPkg(f) == "pkg/hydratables" {
			made = append(made, f)
		}
	}
	blanks(c, r, made)
	p13tags(c, r)
	p13loops(c, r, vf)
	var fns []*ssa.Function
	for _, f := range c.Fns {
		if c.RelPkg(f) == "pkg/hydratables" {
			fns = append(fns, f)
		}
	}
	merges(c, r, fns)
	p13lookup(c, r)
}

// p13first: no part of the result comes from one fixed repeatable element.
func p13first(c *Ctx, r *Report, vf *VF, have map[string]*shaped) {
	var paths []string
	for p := range have {
		if !strings.HasPrefix(p, "Folder") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		s := have[p]
		var data []string
		for t := range s.data {
			data = append(data, t)
		}
		sort.Strings(data)
		for _, t := range data {
			for _, e := range repeatable {
				i := strings.Index("."+t, "."+e+"[")
				if i < 0 {
					continue
				}
				rest := ("." + t)[i+len(e)+2:]
				if strings.HasPrefix(rest, "]") {
					r.OK("Hydratable." + p + " takes every " + e)
					continue
				}
				r.Bad("first", p+" "+e, vf.writer(p, normTag(t), in0(vf)), "Hydratable.%s is taken from one fixed %s of several (%s)", p, e, t)
			}
		}
	}
}

func in0(vf *VF) *ssa.Function { return vf.list[0].fn }

// p13tags: fields of decoded files are named after the elements they hold.
func p13tags(c *Ctx, r *Report) {
	pkg := c.Pkgs["pkg/serializables"]
	r.Need(pkg != nil, "package serializables not found")
	roots := map[string]string{"InstanceFile": "xbrl", "SchemaFile": "schema", "UnitTypeRegistryFile": "utr",
		"PresentationLinkbaseFile": "linkbase", "DefinitionLinkbaseFile": "linkbase", "CalculationLinkbaseFile": "linkbase", "LabelLinkbaseFile": "linkbase"}
	var walk func(owner string, t types.Type)
	walk = func(owner string, t types.Type) {
		for {
			switch u := t.(type) {
			case *types.Slice:
				t = u.Elem()
				continue
			case *types.Pointer:
				t = u.Elem()
				continue
			}
			break
		}
		st, ok := t.(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("xml")
			name, opts, _ := strings.Cut(tag, ",")
			if i := strings.LastIndex(name, " "); i >= 0 {
				name = name[i+1:]
			}
			pos := c.Pos(f.Pos())
			what := owner + "." + f.Name()
			want := ""
			switch f.Name() {
			case "XMLAttrs":
				want = "any,attr"
			case "CharData":
				want = "chardata"
			case "XMLInner":
				want = "innerxml"
			}
			switch {
			case f.Name() == "XMLName":
			case want != "":
				if opts != want && tag != "" {
					r.Bad("tag", what, pos, "%s holds %s but is tagged %q", what, want, tag)
				} else {
					r.OK(what + " holds " + want)
				}
			case opts == "any":
				// everything that no other field takes
				r.OK(what + " holds the remaining elements")
			case name == "" && tag == "":
				name = f.Name()
				fallthrough
			case name != "":
				if !strings.EqualFold(name, f.Name()) && !strings.EqualFold(name+"s", f.Name()) {
					r.Bad("tag", what, pos, "%s is decoded from element %q", what, name)
				} else {
					r.OK(what + " holds element " + name)
				}
			}
			walk(what, f.Type())
		}
	}
	sc := pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		xml := false
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := reflect.StructTag(st.Tag(i)).Lookup("xml"); ok {
				xml = true
			}
			if st.Field(i).Name() == "XMLName" && roots[n] != "" {
				name, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("xml"), ",")
				if j := strings.LastIndex(name, " "); j >= 0 {
					name = name[j+1:]
				}
				if name != "" && name != roots[n] {
					r.Bad("tag", n+".XMLName", c.Pos(st.Field(i).Pos()), "the root element of %s is %q, not %q", n, roots[n], name)
				} else {
					r.OK(n + " is decoded from element " + roots[n])
				}
			}
		}
		if xml {
			walk(n, st)
		}
	}
}

// p13loops: a loop that adds an entry to a list goes on afterwards.
func p13loops(c *Ctx, r *Report, vf *VF) {
	done := map[*ssa.Function]bool{}
	for _, in := range vf.list {
		if done[in.fn] {
			continue
		}
		done[in.fn] = true
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				if sl, ok := ins.(*ssa.Slice); ok {
					partOfInput(c, r, vf, in, sl)
				}
			}
		}
		for _, l := range naturalLoops(in.fn) {
			if !overSymbolic(vf, in, l) {
				continue
			}
			for _, b := range in.fn.Blocks {
				stops := false
				if !l.body[b] {
					if !leaves(l, b) || lookedUp(l, b) {
						continue
					}
					stops = true
				}
				for _, ins := range b.Instrs {
					what := ""
					switch x := ins.(type) {
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							what = "an element"
						}
					case *ssa.MapUpdate:
						what = "an entry"
					}
					if what == "" {
						continue
					}
					if !stops {
						r.OK(c.FnName(in.fn) + " goes on after it added " + what)
					} else {
						r.Bad("stops", c.FnName(in.fn), c.PosOf(ins), "%s looks at no further element once it has added %s", c.FnName(in.fn), what)
					}
				}
			}
		}
	}
}

// leaves: the block belongs to an iteration of the loop, but leaves it.
func leaves(l *natLoop, b *ssa.BasicBlock) bool {
	for _, s := range l.head.Succs {
		if l.body[s] && len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

// lookedUp: the iteration that leaves the loop was looked for by comparing two
// names, so that there can be no other.
func lookedUp(l *natLoop, b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil && l.head.Dominates(d); d = d.Idom() {
		if !l.body[d] || len(d.Instrs) == 0 {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if x, ok := iff.Cond.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) && isString(x.X.Type()) {
			_, k1 := x.X.(*ssa.Const)
			_, k2 := x.Y.(*ssa.Const)
			if !k1 && !k2 {
				return true
			}
		}
	}
	return false
}

// partOfInput: a list of the input is used as a whole.
func partOfInput(c *Ctx, r *Report, vf *VF, in *vinst, sl *ssa.Slice) {
	if sl.Low == nil && sl.High == nil || isString(sl.X.Type()) {
		return
	}
	if _, ok := sl.X.(*ssa.Phi); ok {
		return
	}
	if fullSlice(sl) && isZeroInt(sl.High) {
		return // an empty slice to append to
	}
	if lenOf(sl.High, sl.X) && (sl.Low == nil || isZeroInt(sl.Low)) {
		return
	}
	x := in.regs[sl.X]
	if x == nil {
		return
	}
	for _, p := range x.ptl {
		if p.obj == nil || !p.obj.opaque || p.obj.ext {
			continue
		}
		path := normTag(p.path())
		for _, e := range repeatable {
			if strings.HasSuffix(path, "."+e) {
				r.Bad("part", c.FnName(in.fn)+" "+e, c.PosOf(sl), "%s looks at a part of the %s elements only", c.FnName(in.fn), e)
				return
			}
		}
	}
}

func isZeroInt(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == "0"
}

// lenOf: v is the length of x.
func lenOf(v, x ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && sameLoad(call.Call.Args[0], x)
}

// sameLoad: both values are the same, or loads of the same field.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		if la.X == lb.X {
			return true
		}
		fa, ok := la.X.(*ssa.FieldAddr)
		fb, ok2 := lb.X.(*ssa.FieldAddr)
		return ok && ok2 && fa.Field == fb.Field && sameLoad(fa.X, fb.X)
	}
	fa, ok := a.(*ssa.Field)
	fb, ok2 := b.(*ssa.Field)
	return ok && ok2 && fa.Field == fb.Field && sameLoad(fa.X, fb.X)
}

// merges: entries filed under a key that is already taken are combined with
// what is there.
func merges(c *Ctx, r *Report, fns []*ssa.Function) {
	// what is appended to what, by owner and field
	type fld struct {
		owner types.Type
		name  string
	}
	combined := map[string]bool{}
	key := func(f fld) string { return f.owner.String() + "." + f.name }
	loaded := func(v ssa.Value) (fld, bool) {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				n, _ := fieldName(deref(fa.X.Type()), fa.Field)
				return fld{deref(fa.X.Type()), n}, true
			}
		case *ssa.Field:
			n, _ := fieldName(x.X.Type(), x.Field)
			return fld{x.X.Type(), n}, true
		}
		return fld{}, false
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || len(call.Call.Args) < 2 {
					// a helper such as slices.Concat
					if f := call.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "slices.") {
						for _, a := range call.Call.Args {
							if f, ok := loaded(a); ok {
								combined[key(f)] = true
							}
						}
						for _, a := range appendedElems(call) {
							if f, ok := loaded(a); ok {
								combined[key(f)] = true
							}
						}
					}
					continue
				}
				if f, ok := loaded(call.Call.Args[1]); ok {
					combined[key(f)] = true
				}
				for _, e := range appendedElems(call) {
					if u, ok := e.(*ssa.UnOp); ok {
						if ia, ok := u.X.(*ssa.IndexAddr); ok {
							if f, ok := loaded(ia.X); ok {
								combined[key(f)] = true
							}
						}
						if al, ok := u.X.(*ssa.Alloc); ok {
							for _, ref := range *al.Referrers() {
								if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
									if u, ok := st.Val.(*ssa.UnOp); ok {
										if ia, ok := u.X.(*ssa.IndexAddr); ok {
											if f, ok := loaded(ia.X); ok {
												combined[key(f)] = true
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				up, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				l := loopOf(fn, b)
				if l == nil || variantKey(l, up.Key) == false {
					continue
				}
				// a fresh container must not replace one that is there
				switch v := stripConv(up.Value).(type) {
				case *ssa.MakeMap, *ssa.MakeSlice:
					_ = v
					if !readAt(fn, l, up.Map) {
						continue // filled by one pass of an inner loop
					}
					if testedBefore(up) {
						r.OK(c.FnName(fn) + " makes a group only once")
					} else {
						r.Bad("regroup", c.FnName(fn), c.PosOf(ins), "%s replaces a group that may already hold entries by an empty one", c.FnName(fn))
					}
					continue
				}
				if oneEntry(up.Value) && readBack(fn, up.Map) {
					if _, ok := up.Key.(*ssa.Extract); !ok && !testedBefore(up) {
						r.Bad("regroup", c.FnName(fn), c.PosOf(ins), "%s replaces a group that may already hold entries by one with a single entry", c.FnName(fn))
					}
					continue
				}
				e := deref(up.Value.Type())
				st, ok := e.Underlying().(*types.Struct)
				n, named := e.(*types.Named)
				if !ok || !named || n.Obj().Pkg() == nil || !c.inModulePath(n.Obj().Pkg().Path()) || !madeHere(up.Map) || !elemOfLoop(l, up.Value) {
					continue
				}
				if _, ok := fieldOfElem(up.Key, up.Value); !ok {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if _, ok := f.Type().Underlying().(*types.Slice); !ok {
						continue
					}
					if combined[key(fld{e, f.Name()})] {
						r.OK(c.FnName(fn) + " keeps the " + f.Name() + " of every entry with the same key")
					} else {
						r.Bad("merge", c.FnName(fn)+" "+f.Name(), c.PosOf(ins), "%s files entries by key, and the %s of all but one entry with the same key are lost", c.FnName(fn), f.Name())
					}
				}
			}
		}
	}
}

// appendedElems are the elements of the list literal handed to a variadic call.
func appendedElems(call *ssa.Call) []ssa.Value {
	var r []ssa.Value
	if len(call.Call.Args) == 0 {
		return nil
	}
	sl, ok := call.Call.Args[len(call.Call.Args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, ref := range *ia.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				r = append(r, st.Val)
			}
		}
	}
	return r
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func loopOf(fn *ssa.Function, b *ssa.BasicBlock) *natLoop {
	var best *natLoop
	for _, l := range naturalLoops(fn) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// variantKey: the key differs between iterations.
func variantKey(l *natLoop, k ssa.Value) bool {
	if _, ok := k.(*ssa.Const); ok {
		return false
	}
	ins, ok := k.(ssa.Instruction)
	return ok && l.body[ins.Block()]
}

// madeHere: the map was made empty by this function.
func madeHere(m ssa.Value) bool {
	_, ok := stripConv(m).(*ssa.MakeMap)
	return ok
}

// readIn: the map is looked up in the loop.
// readAt: the map is read in the loop itself and not in one inside it.
func readAt(fn *ssa.Function, l *natLoop, m ssa.Value) bool {
	for b := range l.body {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.Lookup); ok && x.X == m {
				if i := loopOf(fn, b); i == nil || i.head == l.head {
					return true
				}
			}
		}
	}
	return false
}

// oneEntry: a fresh list with a single entry.
func oneEntry(v ssa.Value) bool {
	switch x := stripConv(v).(type) {
	case *ssa.Call:
		bi, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "append" || len(appendedElems(x)) != 1 {
			return false
		}
		switch y := stripConv(x.Call.Args[0]).(type) {
		case *ssa.Const:
			return y.Value == nil
		case *ssa.MakeSlice:
			return true
		case *ssa.Slice:
			return isZeroInt(y.High)
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return false
		}
		a, ok := deref(al.Type()).Underlying().(*types.Array)
		return ok && a.Len() == 1
	}
	return false
}

// readBack: entries of the map are looked at.
func readBack(fn *ssa.Function, m ssa.Value) bool {
	if m.Referrers() == nil {
		return false
	}
	for _, ref := range *m.Referrers() {
		switch ref.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.Return, *ssa.Call:
			return true
		}
	}
	return false
}

// testedBefore: the update happens depending on what the map holds.
func testedBefore(up *ssa.MapUpdate) bool {
	for d := up.Block(); d != nil; d = d.Idom() {
		if d == up.Block() || len(d.Instrs) == 0 {
			continue
		}
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && fromLookup(iff.Cond, up.Map, 0) {
			return true
		}
	}
	return false
}

func fromLookup(v, m ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		return x.X == m
	case *ssa.Extract:
		return fromLookup(x.Tuple, m, depth+1)
	case *ssa.UnOp:
		return fromLookup(x.X, m, depth+1)
	case *ssa.BinOp:
		return fromLookup(x.X, m, depth+1) || fromLookup(x.Y, m, depth+1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if fromLookup(a, m, depth+1) || a == m {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromLookup(e, m, depth+1) {
				return true
			}
		}
	}
	return false
}

// elemOfLoop: the value is the element the loop is at.
func elemOfLoop(l *natLoop, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) && elemOfLoop(l, st.Val) {
					return true
				}
			}
			return false
		}
		ia, ok := x.X.(*ssa.IndexAddr)
		return ok && variesIn(l, ia.Index)
	}
	return false
}

// fieldOfElem: the key is a field of the value.
func fieldOfElem(k, v ssa.Value) (int, bool) {
	switch x := k.(type) {
	case *ssa.Field:
		return x.Field, sameLoad(x.X, v)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if u, ok := v.(*ssa.UnOp); ok && u.X == fa.X {
				return fa.Field, true
			}
		}
	}
	return 0, false
}

// p13lookup: attribute lookups compare names.
func p13lookup(c *Ctx, r *Report) {
	for _, fn := range c.Fns {
		ia, iname, ok := attrLookupArgs(fn)
		if !ok || len(fn.Blocks) == 0 {
			continue
		}
		_ = ia
		r.Fn(c, fn)
		// blocks entered only if the names are equal
		var equal []*ssa.BasicBlock
		for _, b := range fn.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			x, ok := iff.Cond.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			p := ssa.Value(fn.Params[iname])
			if !(x.X == p && isLocalName(x.Y) || x.Y == p && isLocalName(x.X)) {
				continue
			}
			s := b.Succs[0]
			if x.Op == token.NEQ {
				s = b.Succs[1]
			}
			if len(s.Preds) == 1 {
				equal = append(equal, s)
			}
		}
		if len(equal) == 0 && comparesInClosure(fn) {
			r.Open(c.FnName(fn) + " compares names in a function literal")
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ret, ok := ins.(*ssa.Return)
				if !ok {
					continue
				}
				v := results(ret)[0]
				if isNilConst(v) || isZeroConst(v) {
					continue
				}
				if _, isPhi := v.(*ssa.Phi); isPhi {
					continue
				}
				good := false
				for _, e := range equal {
					good = good || e.Dominates(b)
				}
				if good {
					r.OK(c.FnName(fn) + " returns the attribute of that name")
				} else if len(equal) == 0 && !callsAttrHelper(c, fn) {
					r.Bad("lookup", c.FnName(fn), c.PosOf(ins), "%s returns an attribute without comparing its name with the one asked for", c.FnName(fn))
				} else if len(equal) > 0 {
					r.Bad("lookup", c.FnName(fn), c.PosOf(ins), "%s may return an attribute whose name is not the one asked for", c.FnName(fn))
				}
			}
		}
	}
}

func comparesInClosure(fn *ssa.Function) bool {
	for _, a := range fn.AnonFuncs {
		for _, b := range a.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if ok && (x.Op == token.EQL || x.Op == token.NEQ) && (isLocalName(x.X) || isLocalName(x.Y)) {
					return true
				}
			}
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func isZeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && (k.Value == nil || k.Value.ExactString() == `""`)
}

// callsAttrHelper: the name is handed on to another function.
func callsAttrHelper(c *Ctx, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok {
				own := false
				for _, f := range c.Callees(call) {
					own = own || c.InModule(f)
				}
				if !own {
					continue
				}
				for _, a := range call.Common().Args {
					for _, p := range fn.Params {
						if a == ssa.Value(p) && isString(p.Type()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// Loops.

type natLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	back []*ssa.BasicBlock // blocks with an edge to the head
}

func naturalLoops(fn *ssa.Function) []*natLoop {
	var r []*natLoop
	for _, h := range fn.Blocks {
		var l *natLoop
		for _, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			if l == nil {
				l = &natLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				r = append(r, l)
			}
			l.back = append(l.back, p)
			work := []*ssa.BasicBlock{p}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[b] {
					continue
				}
				l.body[b] = true
				work = append(work, b.Preds...)
			}
		}
	}
	return r
}

// innermost is the head of the innermost loop around a block.
func innermost(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *natLoop
	for _, l := range naturalLoops(fn) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	if best == nil {
		return nil
	}
	return best.head
}

// loopContinues: from block b the head of its loop can be reached again.
func loopContinues(l *natLoop, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == l.head {
			return true
		}
		if seen[x] || !l.body[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// overSymbolic: the loop looks at the elements of a part of the input.
func overSymbolic(vf *VF, in *vinst, l *natLoop) bool {
	for b := range l.body {
		for _, ins := range b.Instrs {
			var base ssa.Value
			switch x := ins.(type) {
			case *ssa.IndexAddr:
				if _, ok := x.Index.(*ssa.Const); ok {
					continue
				}
				if !variesIn(l, x.Index) {
					continue
				}
				base = x.X
			case *ssa.Next:
				if b != l.head {
					continue
				}
				if rg, ok := x.Iter.(*ssa.Range); ok {
					base = rg.X
				}
			}
			if base == nil {
				continue
			}
			if c := in.regs[base]; c != nil {
				for _, p := range c.ptl {
					if p.obj != nil && p.obj.opaque && !p.obj.ext {
						return true
					}
				}
			}
		}
	}
	return false
}

// variesIn: the value is computed from a counter of this loop's head.
func variesIn(l *natLoop, v ssa.Value) bool {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			return x.Block() == l.head
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok {
				v = x.X
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

var _ = fmt.Sprint
