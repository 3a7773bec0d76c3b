package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P15: standard names and roles are dispatched by their standard meaning.

func init() { register("P15", p15) }

const (
	nsXSD    = "http://www.w3.org/2001/XMLSchema"
	nsXSI    = "http://www.w3.org/2001/XMLSchema-instance"
	nsXML    = "http://www.w3.org/XML/1998/namespace"
	nsXLINK  = "http://www.w3.org/1999/xlink"
	nsXBRLI  = "http://www.xbrl.org/2003/instance"
	nsLINK   = "http://www.xbrl.org/2003/linkbase"
	nsXBRLDT = "http://xbrl.org/2005/xbrldt"
	nsXBRLDI = "http://xbrl.org/2006/xbrldi"
	nsIX     = "http://www.xbrl.org/2013/inlineXBRL"
	nsNUM    = "http://www.xbrl.org/dtr/type/numeric"
	role03   = "http://www.xbrl.org/2003/role/"
	arc03    = "http://www.xbrl.org/2003/arcrole/"
	arcDim   = "http://xbrl.org/int/dim/arcrole/"
	linkArc  = "http://www.w3.org/1999/xlink/properties/linkbase"
)

// published15 are the names as the specifications print them.
var published15 = func() map[string]bool {
	out := map[string]bool{}
	for _, s := range []string{nsXSD, nsXSI, nsXML, nsXLINK, nsXBRLI, nsLINK, nsXBRLDT, nsXBRLDI, nsIX, nsNUM, linkArc,
		"http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/1999/XSL/Transform", "http://www.w3.org/2000/svg",
		"http://www.xbrl.org/2008/inlineXBRL", "http://www.xbrl.org/2003/XLink", "http://www.xbrl.org/2003/iso4217", "http://www.xbrl.org/2003/iso3166",
		"http://www.xbrl.org/utr/utr.xml", "http://www.xbrl.org/2009/utr", "http://www.xbrl.org/2003/xbrl-role-2003-07-31.xsd",
		"http://www.xbrl.org/2003/xbrl-instance-2003-12-31.xsd", "http://www.xbrl.org/2003/xbrl-linkbase-2003-12-31.xsd", "http://www.xbrl.org/2003/xl-2003-12-31.xsd", "http://www.xbrl.org/2003/xlink-2003-12-31.xsd",
		"http://www.xbrl.org/2005/xbrldt-2005.xsd", "http://www.xbrl.org/2006/xbrldi-2006.xsd", "http://www.xbrl.org/2006/ref-2006-02-27.xsd", "http://www.xbrl.org/2004/ref-2004-08-10.xsd", "http://www.xbrl.org/2004/ref", "http://www.xbrl.org/2006/ref",
		"http://www.xbrl.org/inlineXBRL/transformation/2010-04-20", "http://www.xbrl.org/inlineXBRL/transformation/2011-07-31", "http://www.xbrl.org/inlineXBRL/transformation/2015-02-26", "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12", "http://www.xbrl.org/inlineXBRL/transformation/2022-02-16",
		"http://www.xbrl.org/dtr/type/nonNumeric-2009-12-16.xsd", "http://www.xbrl.org/dtr/type/numeric-2009-12-16.xsd", "http://www.xbrl.org/dtr/type/non-numeric", "http://www.xbrl.org/dtr/type/2020-01-21", "http://www.xbrl.org/dtr/type/2022-03-31", "http://www.xbrl.org/dtr/type/2024-01-31",
		"http://www.xbrl.org/lrr/lrr.xml", "http://www.xbrl.org/2005/lrr", "http://www.xbrl.org/lrr/role/negated-2009-12-16.xsd", "http://www.xbrl.org/lrr/role/net-2009-12-16.xsd",
		"http://www.xbrl.org/2003/role/link", "http://www.xbrl.org/2003/role/footnote", "http://www.xbrl.org/2003/role/reference",
		"https://xbrl.org/2023/arcrole/summation-item"} {
		out[s] = true
	}
	for _, s := range strings.Fields("label terseLabel verboseLabel positiveLabel positiveTerseLabel positiveVerboseLabel negativeLabel negativeTerseLabel negativeVerboseLabel zeroLabel zeroTerseLabel zeroVerboseLabel totalLabel periodStartLabel periodEndLabel documentation definitionGuidance disclosureGuidance presentationGuidance placementGuidance measurementGuidance commentaryGuidance exampleGuidance commentary example definitionRef disclosureRef mandatoryDisclosureRef recommendedDisclosureRef unspecifiedDisclosureRef presentationRef placementRef measurementRef commentaryRef exampleRef calculationLinkbaseRef definitionLinkbaseRef labelLinkbaseRef presentationLinkbaseRef referenceLinkbaseRef") {
		out[role03+s] = true
	}
	for _, s := range strings.Fields("negatedLabel negatedPeriodEndLabel negatedPeriodStartLabel negatedTotalLabel negatedNetLabel negatedTerseLabel netLabel deprecatedLabel deprecatedDateLabel restatedLabel") {
		out["http://www.xbrl.org/2009/role/"+s] = true
	}
	for _, s := range strings.Fields("parent-child summation-item concept-label concept-reference general-special essence-alias similar-tuples requires-element fact-footnote") {
		out[arc03+s] = true
	}
	out["http://www.xbrl.org/2009/arcrole/fact-explanatoryFact"] = true
	out["http://www.xbrl.org/2009/arcrole/dep-concept-deprecatedConcept"] = true
	for _, s := range strings.Fields("hypercube-dimension dimension-domain domain-member all notAll dimension-default") {
		out[arcDim+s] = true
	}
	return out
}()

// locals15 are names of item types, elements and attributes.
var types15 = strings.Fields("decimalItemType floatItemType doubleItemType monetaryItemType sharesItemType pureItemType fractionItemType integerItemType nonPositiveIntegerItemType negativeIntegerItemType longItemType intItemType shortItemType byteItemType nonNegativeIntegerItemType unsignedLongItemType unsignedIntItemType unsignedShortItemType unsignedByteItemType positiveIntegerItemType stringItemType booleanItemType hexBinaryItemType base64BinaryItemType anyURIItemType QNameItemType durationItemType dateTimeItemType timeItemType dateItemType gYearMonthItemType gYearItemType gMonthDayItemType gDayItemType gMonthItemType normalizedStringItemType tokenItemType languageItemType NameItemType NCNameItemType contextEntityType percentItemType perShareItemType areaItemType volumeItemType massItemType weightItemType energyItemType powerItemType lengthItemType memoryItemType textBlockItemType escapedItemType xmlNodesItemType xmlItemType domainItemType SQNameItemType nonemptySQNameItemType prefixedContentItemType guidanceItemType noDecimalsMonetaryItemType nonNegativeMonetaryItemType")

var element15 = map[string]string{}

func init() {
	for ns, names := range map[string]string{
		nsXSD:    "schema include import annotation appinfo element",
		nsLINK:   "linkbaseRef schemaRef roleRef arcroleRef roleType usedOn definition linkbase loc presentationLink presentationArc definitionLink definitionArc calculationLink calculationArc labelLink labelArc label footnoteLink footnoteArc footnote",
		nsXBRLI:  "xbrl context entity identifier segment scenario period startDate endDate instant forever unit measure divide unitNumerator unitDenominator",
		nsXBRLDI: "explicitMember typedMember",
	} {
		for _, n := range strings.Fields(names) {
			element15[n] = ns
		}
	}
}

var ixElement15 = map[string]bool{"header": true, "resources": true, "references": true, "hidden": true, "nonFraction": true, "nonNumeric": true, "exclude": true, "relationship": true, "continuation": true, "fraction": true, "tuple": true, "footnote": true, "denominator": true, "numerator": true}

var kind15 = map[string]string{"linkbaseRef": "simple", "schemaRef": "simple", "roleRef": "simple", "loc": "locator", "label": "resource", "footnote": "resource",
	"presentationLink": "extended", "definitionLink": "extended", "calculationLink": "extended", "labelLink": "extended", "footnoteLink": "extended",
	"presentationArc": "arc", "definitionArc": "arc", "calculationArc": "arc", "labelArc": "arc", "footnoteArc": "arc"}

var xlinkAttr15 = map[string]bool{"type": true, "href": true, "role": true, "arcrole": true, "label": true, "from": true, "to": true, "title": true, "show": true, "actuate": true}

var attrs15 = strings.Fields("type href role arcrole label from to title show actuate id name order use priority weight preferredLabel balance periodType typedDomainRef abstract nillable substitutionGroup targetNamespace elementFormDefault attributeFormDefault schemaLocation noNamespaceSchemaLocation namespace roleURI arcroleURI contextRef unitRef decimals precision nil lang scheme dimension closed contextElement targetRole usable cyclesAllowed xmlns base format scale sign fromRefs toRefs footnoteRefs continuedAt escape target tupleRef tupleID colspan rowspan src alt class style default fixed ref minOccurs maxOccurs value")

// attrNS is the namespace an attribute has in a well-formed document.
func attrNS(name, el string) (string, bool) {
	switch name {
	case "balance", "periodType":
		return nsXBRLI, el == "element" || el == ""
	case "typedDomainRef":
		return nsXBRLDT, true
	case "closed", "contextElement", "targetRole", "usable":
		return nsXBRLDT, el == "definitionArc" || el == ""
	case "lang":
		return nsXML, true
	}
	if kind15[el] != "" && xlinkAttr15[name] {
		return nsXLINK, true
	}
	return "", false
}

func distance15(a, b string, max int) int {
	if d := len(a) - len(b); d > max || -d > max {
		return max + 1
	}
	prev := make([]int, len(b)+1)
	for j := range prev {
		prev[j] = j
	}
	for i := 1; i <= len(a); i++ {
		cur := make([]int, len(b)+1)
		cur[0] = i
		for j := 1; j <= len(b); j++ {
			cost := 1
			if a[i-1] == b[j-1] {
				cost = 0
			}
			cur[j] = min(prev[j]+1, cur[j-1]+1, prev[j-1]+cost)
		}
		prev = cur
	}
	return prev[len(b)]
}

// bare15 is a name without what is most easily confused in it.
func bare15(s string) string {
	s = strings.ToLower(strings.TrimSpace(s))
	s = strings.TrimPrefix(strings.TrimPrefix(s, "http://"), "https://")
	return strings.TrimRight(strings.TrimPrefix(s, "www."), "/#")
}

type std15 struct {
	c *Ctx
	r *Report
}

func p15(c *Ctx, r *Report) {
	r.Rule("no text in the program is a near miss of a namespace, role or arcrole the XBRL and W3C specifications publish, of an XBRL item type, or of an element or attribute name")
	r.Rule("whatever is built from a document can also be built from one whose elements and attributes have the namespaces and xlink types the specifications give them")
	r.Rule("each linkbase role leads to the collection of that kind of linkbase and to no other; a role of another kind leads to none")
	r.Rule("each dimensional arcrole leads to the relationship of that name, inclusive for all, exclusive for notAll, default only for dimension-default; other arcroles lead to none")
	r.Rule("each network is drawn from the arcrole it stands for: the tree of labels from parent-child, primary items and members from domain-member, default members from dimension-default, struck members from notAll, footnotes from fact-footnote, summations from summation-item, labels from concept-label")
	r.Rule("percentages are shown for the numeric percentItemType only, text blocks for textBlockItemType only")
	k := &std15{c: c, r: r}
	k.spelling()
	k.accepted()
	k.linkbases()
	k.relationships()
	k.networks()
	k.calculations()
	k.labels()
	k.drawn()
	k.itemTypes()
	k.queries()
}

// spelling looks for names that are almost, but not quite, published ones.
func (k *std15) spelling() {
	c, r := k.c, k.r
	published := make([]string, 0, len(published15))
	for s := range published15 {
		published = append(published, s)
	}
	sort.Strings(published)
	isType := map[string]bool{}
	for _, t := range types15 {
		isType[t] = true
	}
	n := 0
	seen := map[string]bool{}
	check := func(s string, pos token.Pos, pkg string) {
		if isType[s] || published15[s] {
			n++
			return
		}
		key := s + c.Pos(pos)
		if seen[key] {
			return
		}
		seen[key] = true
		low := strings.ToLower(s)
		if strings.HasSuffix(low, "itemtype") && !strings.ContainsAny(s, " /:<>") {
			n++
			for _, t := range types15 {
				if strings.EqualFold(s, t) || len(s) > 10 && distance15(s, t, 1) <= 1 {
					r.Bad("spelling", pkg, c.Pos(pos), "%q is not the name of an item type; %q is", s, t)
					return
				}
			}
			return
		}
		if !strings.Contains(low, "xbrl.org") && !strings.Contains(low, "w3.org") || strings.ContainsAny(s, " '\"<>[]%") {
			return
		}
		n++
		for _, p := range published {
			if bare15(s) == bare15(p) || distance15(s, p, 2) <= 2 {
				r.Bad("spelling", pkg, c.Pos(pos), "%q is not a published name; %q is", s, p)
				return
			}
		}
	}
	for _, p := range c.All {
		if !c.inModulePath(p.PkgPath) {
			continue
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(nd ast.Node) bool {
				if g, ok := nd.(*ast.GenDecl); ok && g.Tok == token.CONST {
					// counts where it is used
					return false
				}
				e, ok := nd.(ast.Expr)
				if !ok {
					return true
				}
				if bl, isLit := e.(*ast.BasicLit); isLit && bl.Kind != token.STRING {
					return true
				}
				tv, ok := p.TypesInfo.Types[e]
				if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
					return true
				}
				check(constant.StringVal(tv.Value), e.Pos(), p.PkgPath)
				// the parts of a constant expression are not names of their own
				return false
			})
			ast.Inspect(f, func(nd ast.Node) bool {
				st, ok := nd.(*ast.StructType)
				if !ok || st.Fields == nil {
					return true
				}
				for _, fl := range st.Fields.List {
					if fl.Tag == nil {
						continue
					}
					name, kind := xmlTag(strings.Trim(fl.Tag.Value, "`"))
					if name == "" || kind == "attr" {
						continue
					}
					n++
					if element15[name] != "" {
						continue
					}
					for el := range element15 {
						if strings.EqualFold(el, name) {
							r.Bad("spelling", p.PkgPath, c.Pos(fl.Tag.Pos()), "%q is not the name of an element; %q is", name, el)
						}
					}
				}
				return true
			})
		}
	}
	r.Count("names compared with the published ones", n)
	r.OK("spelling of published names")
}

// xmlTag is the local name and the kind a field is decoded from.
func xmlTag(tag string) (name, kind string) {
	v, ok := reflect.StructTag(tag).Lookup("xml")
	if !ok {
		return "", ""
	}
	parts := strings.Split(v, ",")
	name = parts[0]
	if i := strings.LastIndexAny(name, " >"); i >= 0 {
		name = name[i+1:]
	}
	for _, p := range parts[1:] {
		switch p {
		case "attr", "any", "chardata", "innerxml", "comment", "cdata":
			kind = p
			if p == "attr" {
				return
			}
		}
	}
	return
}

// findsAttribute: a function of the module that picks an attribute by its name.
func (k *std15) findsAttribute(fn *ssa.Function) bool {
	if fn == nil || !k.c.InModule(fn) || fn.Parent() != nil {
		return false
	}
	sig := fn.Signature
	if sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 1 {
		return false
	}
	return fullType(sig.Results().At(0).Type()) == "encoding/xml.Attr" && isString(sig.Params().At(1).Type())
}

// fullType is the name of a type with its package.
func fullType(t types.Type) string {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func tagOf(x cval, prefix string) string {
	out := ""
	for _, t := range x.tags {
		if strings.HasPrefix(t, prefix) {
			if out != "" {
				return ""
			}
			out = t[len(prefix):]
		}
	}
	return out
}

func without(x cval, prefixes ...string) cval {
	var tags []string
next:
	for _, t := range x.tags {
		for _, p := range prefixes {
			if strings.HasPrefix(t, p) {
				continue next
			}
		}
		tags = append(tags, t)
	}
	x.tags = tags
	return x
}

// document follows the reading of a document: which element and attribute a value comes from. With
// standard, namespaces and xlink types have the values the specifications give them.
func (k *std15) document(run *constRun, standard bool, value func(el, at string) (string, bool)) {
	prev := run.value
	run.value = func(f *cframe, v ssa.Value, x cval) cval {
		if prev != nil {
			x = prev(f, v, x)
		}
		if x.st == 0 {
			return x
		}
		var st *types.Struct
		field := -1
		switch y := v.(type) {
		case *ssa.FieldAddr:
			st, _ = deref(y.X.Type()).Underlying().(*types.Struct)
			field = y.Field
		case *ssa.Field:
			st, _ = y.X.Type().Underlying().(*types.Struct)
			field = y.Field
		case *ssa.Call:
			fn := y.Common().StaticCallee()
			if k.findsAttribute(fn) {
				name, ok := run.get(f, y.Common().Args[1]).text()
				x = without(x, "attr:")
				if ok {
					x = x.with("attr:" + name)
				}
				for _, t := range run.get(f, y.Common().Args[0]).tags {
					if strings.HasPrefix(t, "el:") {
						x = x.with(t)
					}
				}
			}
			return x
		case *ssa.UnOp:
			fa, ok := y.X.(*ssa.FieldAddr)
			if !ok || y.Op != token.MUL {
				return x
			}
			if s, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
				if name, kind := xmlTag(s.Tag(fa.Field)); name != "" && kind == "" && s.Field(fa.Field).Name() != "XMLName" {
					el := tagOf(run.get(f, fa), "el:")
					x = without(x, "el:", "attr:")
					if el != "" {
						x = x.with("el:" + el)
					}
					return x
				}
			}
			return k.assumed(x, run.get(f, fa.X), deref(fa.X.Type()), fa.Field, standard, value)
		}
		if st == nil || field < 0 {
			return x
		}
		if name, kind := xmlTag(st.Tag(field)); name != "" && kind == "" && st.Field(field).Name() != "XMLName" {
			parent := tagOf(x, "el:")
			x = without(x, "el:", "attr:")
			if parent == "units" {
				name = "units/" + name
			}
			x = x.with("el:" + name)
		}
		if y, ok := v.(*ssa.Field); ok {
			return k.assumed(x, run.get(f, y.X), y.X.Type(), field, standard, value)
		}
		return x
	}
}

// assumed is what a field of a name or an attribute holds.
func (k *std15) assumed(x, base cval, t types.Type, field int, standard bool, value func(el, at string) (string, bool)) cval {
	name, _ := fieldName(t, field)
	el, at := tagOf(x, "el:"), tagOf(x, "attr:")
	if el == "" {
		el = tagOf(base, "el:")
	}
	text := func(s string) cval {
		c := constVal(constant.MakeString(s))
		c.tags = x.tags
		return c
	}
	switch fullType(t) {
	case "encoding/xml.Name":
		if name != "Space" || !standard {
			return x
		}
		if at != "" {
			if ns, ok := attrNS(at, el); ok {
				return text(ns)
			}
			return x
		}
		if ns := element15[el]; ns != "" && !hasPrefixTag(x, "attr:") {
			return text(ns)
		}
	case "encoding/xml.Attr":
		if name != "Value" || at == "" {
			return x
		}
		if value != nil {
			if s, ok := value(el, at); ok {
				return text(s)
			}
		}
		if standard && at == "type" && kind15[el] != "" {
			return text(kind15[el])
		}
		if standard && at == "arcrole" && el == "linkbaseRef" {
			return text(linkArc)
		}
		if standard && at == "role" && el == "footnoteLink" {
			return text(role03 + "link")
		}
		if standard && at == "arcrole" && el == "footnoteArc" {
			return text(arc03 + "fact-footnote")
		}
	}
	return x
}

func hasPrefixTag(x cval, p string) bool {
	for _, t := range x.tags {
		if strings.HasPrefix(t, p) {
			return true
		}
	}
	return false
}

func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// built lists what a run fills in.
func (k *std15) built(run *constRun) map[string]string {
	out := map[string]string{}
	put := func(key string, in ssa.Instruction) {
		if _, ok := out[key]; !ok {
			out[key] = k.c.PosOf(in)
		}
	}
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			n, _ := types.Unalias(deref(fa.X.Type())).(*types.Named)
			if n == nil || n.Obj().Pkg() == nil || !k.c.inModulePath(n.Obj().Pkg().Path()) {
				return
			}
			if v := run.get(f, x.Val); v.st == 1 && v.k == nil {
				return
			}
			name, _ := fieldName(deref(fa.X.Type()), fa.Field)
			key := n.Obj().Name() + "." + name + " in " + k.c.FnName(topFn(f.fn))
			put(key, in)
			if isTextType(x.Val.Type()) || isBool(x.Val.Type()) {
				for _, t := range run.get(f, x.Val).tags {
					if strings.HasPrefix(t, "attr:") {
						put(key+" (from the attribute "+t[5:]+")", in)
					}
				}
			}
		case *ssa.MapUpdate:
			n, _ := types.Unalias(deref(x.Value.Type())).(*types.Named)
			if n == nil || n.Obj().Pkg() == nil || !k.c.inModulePath(n.Obj().Pkg().Path()) {
				return
			}
			put("the collection of "+n.Obj().Name()+" in "+k.c.FnName(topFn(f.fn)), in)
		}
	})
	return out
}

// accepted: what is built from any document is also built from a standard one.
func (k *std15) accepted() {
	c, r := k.c, k.r
	var roots []*ssa.Function
	for _, n := range [][2]string{{"pkg/hydratables", "Hydrate"}, {"pkg/hydratables", "HydrateGlobalSchema"}, {"pkg/serializables", "Discover"}} {
		if fn := c.Func(n[0], n[1]); fn != nil {
			roots = append(roots, fn)
		}
	}
	r.Need(len(roots) == 3, "Hydrate, HydrateGlobalSchema or Discover not found")
	names := 0
	for _, root := range roots {
		free := newConstRun(c)
		k.document(free, false, nil)
		free.run(root)
		std := newConstRun(c)
		k.document(std, true, nil)
		std.run(root)
		for _, f := range std.frames {
			r.Fn(c, f.fn)
		}
		if free.full || std.full {
			r.Open(c.FnName(root) + " could not be followed to the end")
			continue
		}
		all, some := k.built(free), k.built(std)
		keys := make([]string, 0, len(all))
		for key := range all {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			if _, ok := some[key]; !ok {
				r.Bad("standard documents", key, all[key], "%s cannot be filled from a document with the standard namespaces, link types and roles: they are compared with something else", key)
			}
		}
		r.Count("fields and collections filled from documents", len(all))
		// the names attributes are asked for
		free.eachLive(func(f *cframe, in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || !k.findsAttribute(call.Common().StaticCallee()) {
				return
			}
			name, ok := free.get(f, call.Common().Args[1]).text()
			if !ok {
				return
			}
			names++
			for _, a := range attrs15 {
				if a == name {
					return
				}
			}
			for _, a := range attrs15 {
				if strings.EqualFold(a, name) || len(a) > 4 && distance15(a, name, 1) <= 1 {
					r.Bad("spelling", c.FnName(f.fn), c.PosOf(in), "no attribute is named %q; %q is", name, a)
					return
				}
			}
		})
	}
	r.Count("attributes asked for", names)
	r.OK("standard documents are read")
}

// linkbases: each linkbase role leads to its own collection.
func (k *std15) linkbases() {
	c, r := k.c, k.r
	root := c.Func("pkg/serializables", "Discover")
	if root == nil {
		return
	}
	follow := func(role string, given bool) (map[string]string, bool) {
		run := newConstRun(c)
		k.document(run, true, func(el, at string) (string, bool) {
			if given && el == "linkbaseRef" && at == "role" {
				return role, true
			}
			return "", false
		})
		run.run(root)
		out := map[string]string{}
		run.eachLive(func(f *cframe, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			n, _ := types.Unalias(deref(mu.Value.Type())).(*types.Named)
			if n != nil && strings.HasSuffix(n.Obj().Name(), "LinkbaseFile") {
				out[n.Obj().Name()] = c.PosOf(in)
			}
		})
		return out, run.full
	}
	base, full := follow("", false)
	if full || len(base) == 0 {
		r.Open("how linkbases are collected could not be followed")
		return
	}
	want := map[string]string{"presentationLinkbaseRef": "PresentationLinkbaseFile", "definitionLinkbaseRef": "DefinitionLinkbaseFile", "calculationLinkbaseRef": "CalculationLinkbaseFile", "labelLinkbaseRef": "LabelLinkbaseFile", "referenceLinkbaseRef": ""}
	got := map[string]map[string]string{}
	effect := false
	for _, role := range sortedKeys15(want) {
		g, full := follow(role03+role, true)
		if full {
			r.Open("how linkbases are collected could not be followed")
			return
		}
		got[role] = g
		if len(g) != len(base) {
			effect = true
		}
	}
	if !effect {
		r.Open("the collections do not depend on the role of a linkbase in a way that could be followed")
		return
	}
	for _, role := range sortedKeys15(want) {
		r.OK("linkbase role " + role)
		file := want[role]
		if file != "" && base[file] != "" && got[role][file] == "" {
			r.Bad("linkbase role", c.FnName(root), base[file], "a linkbase of role %s%s never reaches the collection of %s", role03, role, file)
		}
		for _, other := range sortedKeys15(got[role]) {
			if other != file {
				r.Bad("linkbase role", c.FnName(root), got[role][other], "a linkbase of role %s%s is collected as %s", role03, role, other)
			}
		}
	}
}

func sortedKeys15[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// arcs follows an answer as if every arc of the given type had the given arcrole; a value taken from the
// ends of such an arc is marked "arc", one taken from a network "net:" and its arcrole.
func (k *std15) arcs(root *ssa.Function, typ, arcrole string, given bool) *constRun {
	run := newConstRun(k.c)
	run.value = func(f *cframe, v ssa.Value, x cval) cval {
		if x.st == 0 {
			return x
		}
		if n, field := fieldRead(v); n != nil && strings.HasSuffix(n.Obj().Name(), "Arc") && n.Obj().Pkg() != nil && k.c.inModulePath(n.Obj().Pkg().Path()) {
			if isString(v.Type()) {
				x = x.with("from:" + n.Obj().Name())
			}
			if n.Obj().Name() != typ {
				return x
			}
			switch field {
			case "Arcrole":
				if given {
					x = constVal(constant.MakeString(arcrole))
				}
			case "From", "To":
				if hasPrefixTag(x, "src:") {
					x = x.with("arc")
				}
			}
			return x
		}
		if n, _ := fieldRead(v); n != nil && typ != "" {
			if sl, ok := v.Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == typ {
				x = x.with("src:" + typ)
			}
		}
		if call, ok := v.(*ssa.Call); ok {
			return k.carried(run, f, call, x)
		}
		return x
	}
	run.extern = func(f *cframe, name string, ci ssa.CallInstruction, args []cval) []string {
		if strings.HasSuffix(name, "joshuanario/arcs.NewRArc") && len(args) == 2 {
			if s, ok := args[1].text(); ok {
				return []string{"net:" + s}
			}
			return []string{"net:?"}
		}
		return nil
	}
	run.run(root)
	return run
}

// carried: what a function of the module answers depends on what it was asked.
func (k *std15) carried(run *constRun, f *cframe, call *ssa.Call, x cval) cval {
	b, isBasic := call.Type().Underlying().(*types.Basic)
	if !isBasic || b.Info()&(types.IsString|types.IsBoolean) == 0 {
		return x
	}
	add := func(v ssa.Value) {
		for _, t := range run.get(f, v).tags {
			if t == "arc" || strings.HasPrefix(t, "net:") {
				x = x.with(t)
			}
		}
	}
	for _, a := range call.Common().Args {
		add(a)
	}
	return x
}

// drs is what the relationships of an answer are under an assumption.
type drs15 struct {
	fields map[string]string // connection field -> position
	flags  map[string]string // flag -> "true", "false" or "?"
	dims   string
}

func (k *std15) relationships() {
	c, r := k.c, k.r
	root := c.Func(renderPkg, "MarshalRenderable")
	r.Need(root != nil, "MarshalRenderable not found")
	if root == nil {
		return
	}
	follow := func(arcrole string, given bool) (drs15, bool) {
		run := k.arcs(root, "DefinitionArc", arcrole, given)
		for _, f := range run.frames {
			r.Fn(c, f.fn)
		}
		out := drs15{fields: map[string]string{}, flags: map[string]string{}}
		run.eachLive(func(f *cframe, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			n, _ := types.Unalias(deref(fa.X.Type())).(*types.Named)
			if n == nil {
				return
			}
			name, _ := fieldName(deref(fa.X.Type()), fa.Field)
			v := run.get(f, st.Val)
			switch {
			case n.Obj().Name() == "DRSLink" && strings.HasSuffix(name, "Connection"):
				if v.st == 0 || v.st == 1 && v.k == nil && v.fn == nil {
					return
				}
				out.fields[name] = c.PosOf(in)
				if s, ok := deref(st.Val.Type()).Underlying().(*types.Struct); ok && v.cell != nil {
					for i := 0; i < s.NumFields(); i++ {
						if !isBool(s.Field(i).Type()) {
							continue
						}
						held := v.cell.get(v.path + "." + itoa(i))
						flag := "?"
						if held.st == 0 && !v.cell.holds(v.path+"."+itoa(i)) {
							flag = "false"
						} else if b, ok := held.truth(); ok {
							flag = "false"
							if b {
								flag = "true"
							}
						}
						key := name + "." + s.Field(i).Name()
						if old, ok := out.flags[key]; ok && old != flag {
							flag = "?"
						}
						out.flags[key] = flag
					}
				}
			case n.Obj().Name() == "EffectiveDimension" && name == "Href":
				for _, t := range v.deep() {
					if t == "arc" {
						out.dims = c.PosOf(in)
					}
				}
			}
		})
		return out, run.full
	}
	base, full := follow("", false)
	if full || len(base.fields) == 0 {
		r.Open("how relationships are listed could not be followed")
		return
	}
	type want struct {
		field string
		flag  string
		val   string
	}
	table := map[string]want{
		arcDim + "domain-member":       {"DomainMemberConnection", "", ""},
		arcDim + "hypercube-dimension": {"HypercubeDimensionConnection", "", ""},
		arcDim + "dimension-default":   {"DimensionDomainConnection", "DimensionDomainConnection.Default", "true"},
		arcDim + "dimension-domain":    {"DimensionDomainConnection", "DimensionDomainConnection.Default", "false"},
		arcDim + "all":                 {"HypercubeConnection", "HypercubeConnection.IsInclusive", "true"},
		arcDim + "notAll":              {"HypercubeConnection", "HypercubeConnection.IsInclusive", "false"},
		arc03 + "general-special":      {},
	}
	got := map[string]drs15{}
	effect := false
	for _, a := range sortedKeys15(table) {
		g, full := follow(a, true)
		if full {
			r.Open("how relationships are listed could not be followed")
			return
		}
		got[a] = g
		if len(g.fields) != len(base.fields) {
			effect = true
		}
	}
	for _, a := range sortedKeys15(table) {
		r.OK("dimensional arcrole " + a)
		w, g := table[a], got[a]
		if effect {
			if w.field != "" && base.fields[w.field] != "" && g.fields[w.field] == "" {
				r.Bad("dimensional arcrole", c.FnName(root), base.fields[w.field], "an arc of arcrole %s is never listed as a %s", a, w.field)
			}
			for _, fl := range sortedKeys15(g.fields) {
				if fl != w.field {
					r.Bad("dimensional arcrole", c.FnName(root), g.fields[fl], "an arc of arcrole %s is listed as a %s", a, fl)
				}
			}
			if w.flag != "" && g.fields[w.field] != "" {
				switch v := g.flags[w.flag]; {
				case v == "" || v == "?":
					r.Open(w.flag + " for " + a + " could not be told")
				case v != w.val:
					r.Bad("dimensional arcrole", c.FnName(root), g.fields[w.field], "for an arc of arcrole %s %s is %s instead of %s", a, w.flag, v, w.val)
				}
			}
		}
		isDim := strings.HasSuffix(a, "/hypercube-dimension")
		if base.dims != "" {
			if isDim && g.dims == "" {
				r.Bad("dimensional arcrole", c.FnName(root), base.dims, "the target of a %s arc is never an effective dimension", a)
			}
			if !isDim && g.dims != "" && got[arcDim+"hypercube-dimension"].dims != "" {
				r.Bad("dimensional arcrole", c.FnName(root), g.dims, "the target of a %s arc is an effective dimension", a)
			}
		}
	}
	if !effect {
		r.Open("the relationships do not depend on the arcrole in a way that could be followed")
		return
	}
}

// guards are the marks of the conditions a place is reached under, in its function and in its callers.
func (k *std15) guards(run *constRun, f *cframe, b *ssa.BasicBlock) map[string]bool {
	out := map[string]bool{}
	for f != nil {
		for d := b.Idom(); d != nil; d = d.Idom() {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			one := 0
			for _, s := range d.Succs {
				if len(s.Preds) == 1 && s.Dominates(b) {
					one++
				}
			}
			if one != 1 {
				continue
			}
			for _, t := range k.condTags(run, f, iff.Cond, 0) {
				out[t] = true
			}
		}
		if f.site == nil {
			break
		}
		b = f.site.Block()
		f = f.up
	}
	return out
}

// condTags are the marks of what a condition compares.
func (k *std15) condTags(run *constRun, f *cframe, v ssa.Value, depth int) []string {
	if depth > 6 {
		return nil
	}
	var tags []string
	tags = joinTags(tags, run.get(f, v).tags)
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			// how far a loop has come says nothing about what it has seen
			return nil
		}
		tags = joinTags(tags, k.condTags(run, f, x.X, depth+1))
		tags = joinTags(tags, k.condTags(run, f, x.Y, depth+1))
	case *ssa.UnOp:
		if x.Op == token.NOT {
			tags = joinTags(tags, k.condTags(run, f, x.X, depth+1))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			tags = joinTags(tags, k.condTags(run, f, e, depth+1))
		}
	case *ssa.Call:
		for _, a := range x.Common().Args {
			tags = joinTags(tags, run.get(f, a).deep())
		}
	case *ssa.Lookup:
		tags = joinTags(tags, run.get(f, x.X).deep())
		tags = joinTags(tags, run.get(f, x.Index).tags)
	case *ssa.Extract:
		tags = joinTags(tags, k.condTags(run, f, x.Tuple, depth+1))
	}
	return tags
}

// networks: what is drawn from a network is drawn from the one it stands for.
func (k *std15) networks() {
	c, r := k.c, k.r
	root := c.Func(renderPkg, "MarshalRenderable")
	if root == nil {
		return
	}
	run := k.arcs(root, "", "", false)
	if run.full {
		r.Open("networks could not be followed")
		return
	}
	short := func(t string) string { return t[strings.LastIndex(t, "/")+1:] }
	nets := func(tags []string) map[string]bool {
		out := map[string]bool{}
		for _, t := range tags {
			if strings.HasPrefix(t, "net:") {
				out[t[4:]] = true
			}
		}
		return out
	}
	want := map[string]string{"RootDomain": arcDim + "domain-member", "PrimaryItem": arcDim + "domain-member", "IndentedLabel": arc03 + "parent-child"}
	found := map[string]bool{}
	// fields of one struct being filled
	type member struct {
		href, def, strike *ssa.Store
	}
	members := map[*cframe]map[ssa.Value]*member{}
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		n, _ := types.Unalias(deref(fa.X.Type())).(*types.Named)
		if n == nil || n.Obj().Pkg() == nil || !c.inModulePath(n.Obj().Pkg().Path()) {
			return
		}
		name, _ := fieldName(deref(fa.X.Type()), fa.Field)
		switch {
		case name == "Href" && want[n.Obj().Name()] != "":
			w := want[n.Obj().Name()]
			ns := nets(run.get(f, st.Val).deep())
			if len(ns) == 0 || ns["?"] {
				return
			}
			found[n.Obj().Name()] = true
			r.OK("network of " + n.Obj().Name())
			if !ns[w] {
				r.Bad("network", c.FnName(f.fn), c.PosOf(in), "a %s is drawn from the network of %s arcs instead of %s", n.Obj().Name(), strings.Join(sortedKeys15(ns), ", "), w)
			}
		case n.Obj().Name() == "EffectiveMember":
			if members[f] == nil {
				members[f] = map[ssa.Value]*member{}
			}
			m := members[f][fa.X]
			if m == nil {
				m = &member{}
				members[f][fa.X] = m
			}
			switch name {
			case "Href":
				m.href = st
			case "IsDefault":
				m.def = st
			case "IsStrikethrough":
				m.strike = st
			}
		}
	})
	for n := range want {
		if !found[n] {
			r.Open("the network of " + n + " could not be followed")
		}
	}
	// the order of frames is the order they were reached in
	for _, f := range run.frames {
		var ms []*member
		for _, m := range members[f] {
			if m.href != nil {
				ms = append(ms, m)
			}
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].href.Pos() < ms[j].href.Pos() })
		for _, m := range ms {
			isDef, knownDef := false, m.def == nil
			if m.def != nil {
				isDef, knownDef = run.get(f, m.def.Val).truth()
			}
			struck, knownStruck := false, m.strike == nil
			if m.strike != nil {
				struck, knownStruck = run.get(f, m.strike.Val).truth()
			}
			href := nets(run.get(f, m.href.Val).deep())
			g := nets(func() (out []string) {
				for t := range k.guards(run, f, m.href.Block()) {
					out = append(out, t)
				}
				return
			}())
			if href["?"] || g["?"] || len(href) == 0 {
				r.Open("the network of a member could not be followed")
				continue
			}
			at := c.PosOf(m.href)
			r.OK("network of the member made at " + at)
			if knownDef {
				w := arcDim + "domain-member"
				if isDef {
					w = arcDim + "dimension-default"
				}
				if !href[w] {
					r.Bad("network", c.FnName(f.fn), at, "a member with IsDefault %v is drawn from the network of %s arcs instead of %s", isDef, strings.Join(sortedKeys15(href), ", "), short(w))
				}
			}
			if knownStruck {
				in, out := g[arcDim+"all"], g[arcDim+"notAll"]
				switch {
				case in == out:
					r.Open("under which kind of hypercube a member is listed could not be told")
				case struck != out:
					kind := "all"
					if out {
						kind = "notAll"
					}
					r.Bad("network", c.FnName(f.fn), at, "a member of a hypercube reached by %s arcs is listed with IsStrikethrough %v", kind, struck)
				}
			}
			if len(g) > 0 && knownDef && !isDef && !g[arcDim+"dimension-domain"] {
				r.Bad("network", c.FnName(f.fn), at, "the members of a domain are listed without following the dimension-domain arcs (only %s)", strings.Join(sortedKeys15(g), ", "))
			}
			if len(g) > 0 && !g[arcDim+"hypercube-dimension"] {
				r.Bad("network", c.FnName(f.fn), at, "the members of a dimension are listed without following the hypercube-dimension arcs (only %s)", strings.Join(sortedKeys15(g), ", "))
			}
		}
	}
}

func (k *std15) calculations() {
	c := k.c
	root := c.Func(renderPkg, "MarshalRenderable")
	if root == nil {
		return
	}
	filled := func(arcrole string, given bool) (string, bool) {
		run := k.arcs(root, "CalculationArc", arcrole, given)
		at := ""
		run.eachLive(func(f *cframe, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok || at != "" {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			n, _ := types.Unalias(deref(fa.X.Type())).(*types.Named)
			name, _ := fieldName(deref(fa.X.Type()), fa.Field)
			if n == nil || n.Obj().Name() != "ContributingConcept" || name != "Href" {
				return
			}
			for _, t := range run.get(f, st.Val).deep() {
				if t == "arc" {
					at = c.PosOf(in)
				}
			}
		})
		return at, run.full
	}
	k.only("calculation arcrole", "a contributing concept", root, filled, arc03+"summation-item", arc03+"parent-child", arc03+"general-special")
}

// only: something is filled for one name and for no other.
func (k *std15) only(rule, what string, root *ssa.Function, filled func(string, bool) (string, bool), own string, others ...string) {
	c, r := k.c, k.r
	base, full := filled("", false)
	if full || base == "" {
		r.Open(what + " could not be followed")
		return
	}
	at, full := filled(own, true)
	if full {
		r.Open(what + " could not be followed")
		return
	}
	r.Count("roles followed alone", 1+len(others))
	if at == "" {
		r.Bad(rule, c.FnName(root), base, "%s is never made from %s", what, own)
		return
	}
	for _, o := range others {
		if at, full := filled(o, true); !full && at != "" {
			r.Bad(rule, c.FnName(root), at, "%s is made from %s, not only from %s", what, o, own)
			return
		}
	}
	r.OK(what)
}

func (k *std15) labels() {
	c, r := k.c, k.r
	root := c.Func(renderPkg, "GetLabel")
	ll := c.NamedType("pkg/hydratables", "LabelLinkLabel")
	lang := c.NamedType(renderPkg, "Lang")
	r.Need(root != nil && ll != nil && lang != nil, "GetLabel, LabelLinkLabel or Lang not found")
	if root == nil || ll == nil || lang == nil {
		return
	}
	l := &lang21{c: c, r: r, lang: lang, label: ll, seen: map[*ssa.BasicBlock]bool{}}
	text := func(arcrole, role, code string, given bool) (map[string]string, bool) {
		run := newConstRun(c)
		run.value = func(f *cframe, v ssa.Value, x cval) cval {
			if x.st == 0 {
				return x
			}
			n, field := fieldRead(v)
			if n == nil {
				return x
			}
			switch {
			case n.Obj().Name() == "LabelArc" && field == "Arcrole" && arcrole != "":
				return constVal(constant.MakeString(arcrole))
			case sameNamed(n, ll) && field == "Role" && role != "":
				return constVal(constant.MakeString(role))
			case sameNamed(n, ll) && field == "Lang" && code != "":
				return constVal(constant.MakeString(code))
			case sameNamed(n, ll) && field == "CharData":
				return x.with("text")
			}
			return x
		}
		run.run(root)
		out := map[string]string{}
		run.eachLive(func(f *cframe, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !l.keyed(mu.Map.Type(), isTextType) {
				return
			}
			for _, t := range run.get(f, mu.Value).deep() {
				if t == "text" {
					out["text"] = c.PosOf(in)
				}
			}
		})
		return out, run.full
	}
	k.only("label arcrole", "a label", root, func(a string, given bool) (string, bool) {
		out, full := text(a, "", "", given)
		return out["text"], full
	}, arc03+"concept-label", arc03+"concept-reference")
	// each label role and language is filed under its own name
	want := map[string]string{"label": "Label", "terseLabel": "Terse", "verboseLabel": "Verbose"}
	used := map[string]string{}
	for _, role := range sortedKeys15(want) {
		ev, full := l.file(root, "en", role03+role, true)
		if full || len(ev) == 0 {
			continue
		}
		for _, e := range ev {
			if e.role == "?" {
				continue
			}
			if o, ok := used[e.role]; ok && o != role {
				r.Bad("label role", c.FnName(root), c.PosOf(e.in), "labels of role %s and %s are filed under the same name %q", role, o, e.role)
			}
			used[e.role] = role
		}
	}
	names := map[string]string{}
	for _, code := range []string{"en", "es"} {
		ev, full := l.file(root, code, role03+"label", true)
		if full {
			continue
		}
		for _, e := range ev {
			if e.lang == "?" {
				continue
			}
			if o, ok := names[e.lang]; ok && o != code {
				r.Bad("label language", c.FnName(root), c.PosOf(e.in), "labels in %s and %s are filed under the same language %q", code, o, e.lang)
			}
			names[e.lang] = code
			if !strings.HasPrefix(strings.ToLower(e.lang), code) {
				r.Bad("label language", c.FnName(root), c.PosOf(e.in), "a label in %s is filed under %q", code, e.lang)
			}
		}
	}
	shown := map[string]string{"label": "default", "terseLabel": "terse", "verboseLabel": "verbose"}
	for as, role := range used {
		low := strings.ToLower(as)
		for other, word := range shown {
			if other != role && strings.Contains(low, word) {
				r.Bad("label role", c.FnName(root), "", "labels of role %s are filed under %q", role, as)
			}
		}
	}
	for as, role := range used {
		r.OK("label role " + role + " as " + as)
	}
	for as, code := range names {
		r.OK("language " + code + " as " + as)
	}
}

// drawn: the arcs a network is made of are of a kind that has its arcrole.
func (k *std15) drawn() {
	c, r := k.c, k.r
	root := c.Func(renderPkg, "MarshalRenderable")
	if root == nil {
		return
	}
	run := k.arcs(root, "", "", false)
	if run.full {
		return
	}
	n := map[string]int{}
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok || !strings.HasSuffix(calleeName(call.Common()), "joshuanario/arcs.NewRArc") {
			return
		}
		s, ok := run.get(f, call.Common().Args[1]).text()
		if !ok {
			return
		}
		at := in
		if f.site != nil {
			at = f.site
		}
		for _, t := range run.get(f, call.Common().Args[0]).deep() {
			if !strings.HasPrefix(t, "from:") {
				continue
			}
			n[t[5:]]++
			own := false
			switch t[5:] {
			case "FootnoteArc":
				own = s == arc03+"fact-footnote"
			case "PresentationArc":
				own = s == arc03+"parent-child"
			case "CalculationArc":
				own = s == arc03+"summation-item"
			case "LabelArc":
				own = s == arc03+"concept-label"
			case "DefinitionArc":
				own = strings.HasPrefix(s, arcDim) || !published15[s]
			default:
				own = true
			}
			if !own {
				r.Bad("network", c.FnName(at.Parent()), c.PosOf(at), "a network of %s is drawn along %s", t[5:]+"s", s)
			}
		}
	})
	for _, t := range []string{"FootnoteArc", "PresentationArc", "DefinitionArc"} {
		if n[t] == 0 {
			r.Open("no network of " + t + "s could be followed")
		}
		r.Count("networks of "+t+"s", n[t])
	}
}

func (k *std15) itemTypes() {
	c, r := k.c, k.r
	root := c.Func(renderPkg, "MarshalRenderable")
	if root == nil {
		return
	}
	type seen struct{ sign, scaled, block map[string]string }
	unclear := false
	follow := func(space, local string, given bool) (seen, bool) {
		run := newConstRun(c)
		run.value = func(f *cframe, v ssa.Value, x cval) cval {
			if x.st == 0 {
				return x
			}
			if cn, ok := v.(*ssa.Const); ok {
				if cn.Value != nil && cn.Value.Kind() == constant.String && strings.TrimSpace(constant.StringVal(cn.Value)) == "%" {
					return x.with("sign")
				}
				return x
			}
			switch y := v.(type) {
			case *ssa.FieldAddr:
				n, _ := types.Unalias(deref(y.X.Type())).(*types.Named)
				name, _ := fieldName(deref(y.X.Type()), y.Field)
				if n != nil && n.Obj().Name() == "Concept" && name == "Type" {
					return x.with("ctype")
				}
			case *ssa.Field:
				n, _ := types.Unalias(y.X.Type()).(*types.Named)
				name, _ := fieldName(y.X.Type(), y.Field)
				if n != nil && n.Obj().Name() == "Concept" && name == "Type" {
					return x.with("ctype")
				}
			}
			if b, ok := v.(*ssa.BinOp); ok && given && (b.Op == token.EQL || b.Op == token.NEQ) && fullType(b.X.Type()) == "encoding/xml.Name" {
				p, q := run.get(f, b.X), run.get(f, b.Y)
				if q.has("ctype") {
					p, q = q, p
				}
				if p.has("ctype") && q.cell != nil {
					s, ok1 := q.cell.get(q.path + ".0").text()
					l, ok2 := q.cell.get(q.path + ".1").text()
					if ok1 && ok2 {
						return constVal(constant.MakeBool((s == space && l == local) == (b.Op == token.EQL)))
					}
				}
				unclear = true
			}
			var t types.Type
			field := -1
			var base ssa.Value
			switch y := v.(type) {
			case *ssa.UnOp:
				if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
					t, field, base = deref(fa.X.Type()), fa.Field, fa.X
				}
			case *ssa.Field:
				t, field, base = y.X.Type(), y.Field, y.X
			}
			if field >= 0 && given && fullType(t) == "encoding/xml.Name" && (x.has("ctype") || run.get(f, base).has("ctype")) {
				switch name, _ := fieldName(t, field); name {
				case "Space":
					return constVal(constant.MakeString(space))
				case "Local":
					return constVal(constant.MakeString(local))
				}
			}
			return x
		}
		run.run(root)
		out := seen{map[string]string{}, map[string]string{}, map[string]string{}}
		run.eachLive(func(f *cframe, in ssa.Instruction) {
			switch y := in.(type) {
			case *ssa.Store:
				fa, ok := y.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				n, _ := types.Unalias(deref(fa.X.Type())).(*types.Named)
				if n != nil && n.Obj().Name() == "FactExpression" && run.get(f, y.Val).has("sign") {
					out.sign[c.FnName(topFn(f.fn))] = c.PosOf(in)
				}
			case *ssa.Call:
				name := calleeName(y.Common())
				if name == "(*math/big.Float).Mul" || name == "(*math/big.Rat).Mul" || name == "(*math/big.Int).Mul" {
					out.scaled[c.FnName(topFn(f.fn))] = c.PosOf(in)
				}
				if strings.HasSuffix(name, "html.NewTokenizer") || strings.HasSuffix(name, "html.Parse") || strings.HasSuffix(name, "html.ParseFragment") {
					out.block[c.FnName(topFn(f.fn))] = c.PosOf(in)
				}
			}
		})
		return out, run.full || unclear
	}
	base, full := follow("", "", false)
	if full {
		r.Open("item types could not be followed")
		return
	}
	dtr := "http://www.xbrl.org/dtr/type/non-numeric"
	for _, t := range []struct {
		space, local   string
		percent, block bool
	}{
		{nsNUM, "percentItemType", true, false},
		{nsNUM, "perShareItemType", false, false},
		{nsXBRLI, "monetaryItemType", false, false},
		{nsXBRLI, "pureItemType", false, false},
		{dtr, "textBlockItemType", false, true},
		{"http://www.xbrl.org/dtr/type/2020-01-21", "textBlockItemType", false, true},
		{nsXBRLI, "stringItemType", false, false},
	} {
		got, full := follow(t.space, t.local, true)
		if full {
			r.Open("item types could not be followed")
			return
		}
		name := t.space + "#" + t.local
		r.OK("item type " + name)
		expect := func(want bool, got, base map[string]string, is, isnt string) {
			for _, fn := range sortedKeys15(base) {
				if want && got[fn] == "" {
					r.Bad("item type", fn, base[fn], "a fact of type %s %s", name, isnt)
				}
				if !want && got[fn] != "" {
					r.Bad("item type", fn, got[fn], "a fact of type %s %s", name, is)
				}
			}
		}
		if !t.block {
			expect(t.percent, got.sign, base.sign, "is shown with a percent sign", "is never shown with a percent sign")
			expect(t.percent, got.scaled, base.scaled, "is multiplied as a percentage", "is never multiplied as a percentage")
		}
		expect(t.block, got.block, base.block, "is read as a text block", "is never read as a text block")
	}
	if len(base.sign) == 0 && len(base.scaled) == 0 {
		r.Open("how percentages are shown could not be followed")
	}
}

var (
	nameTest15 = regexp.MustCompile(`local-name\(\)\s*=\s*['"]([^'"]*)['"]\s+and\s+namespace-uri\(\)\s*=\s*['"]([^'"]*)['"]`)
	arcTest15  = regexp.MustCompile(`@(?:[\w]+:)?arcrole\s*=\s*['"]([^'"]*)['"]`)
)

// queries: the names inline documents are searched for.
func (k *std15) queries() {
	c, r := k.c, k.r
	root := c.Func("pkg/serializables", "DecodeIxbrlFile")
	if root == nil {
		r.Open("DecodeIxbrlFile not found")
		return
	}
	run := newConstRun(c)
	run.extern = func(f *cframe, name string, ci ssa.CallInstruction, args []cval) []string {
		if !strings.Contains(name, "xmlquery.") || len(args) < 2 {
			return nil
		}
		q, ok := args[1].text()
		if !ok {
			return nil
		}
		m := nameTest15.FindAllStringSubmatch(q, -1)
		if len(m) == 0 {
			return nil
		}
		return []string{"q:" + m[len(m)-1][1]}
	}
	run.run(root)
	n := 0
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		switch x := in.(type) {
		case ssa.CallInstruction:
			if !strings.Contains(calleeName(x.Common()), "xmlquery.") || len(x.Common().Args) < 2 {
				return
			}
			q, ok := run.get(f, x.Common().Args[1]).text()
			if !ok {
				return
			}
			for _, m := range nameTest15.FindAllStringSubmatch(q, -1) {
				n++
				el, ns := m[1], m[2]
				want := element15[el]
				if ixElement15[el] {
					want = nsIX
				}
				if want == "" {
					for e := range ixElement15 {
						if strings.EqualFold(e, el) {
							r.Bad("query", c.FnName(f.fn), c.PosOf(in), "no inline element is named %q; %q is", el, e)
						}
					}
					continue
				}
				if ns != want && !(el == "footnote" && ns == nsLINK) && !(want == nsIX && ns == "http://www.xbrl.org/2008/inlineXBRL") {
					r.Bad("query", c.FnName(f.fn), c.PosOf(in), "the %s elements of an inline document are looked for in %s instead of %s", el, ns, want)
				}
			}
			if strings.Contains(q, "'relationship'") {
				for _, m := range arcTest15.FindAllStringSubmatch(q, -1) {
					if m[1] != arc03+"fact-footnote" && strings.Contains(strings.ToLower(q), "relationship") {
						r.Bad("query", c.FnName(f.fn), c.PosOf(in), "footnote relationships are looked for with the arcrole %s", m[1])
					}
				}
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			nt, _ := types.Unalias(deref(fa.X.Type())).(*types.Named)
			if nt == nil || nt.Obj().Name() != "Document" {
				return
			}
			name, _ := fieldName(deref(fa.X.Type()), fa.Field)
			var els []string
			for _, t := range run.get(f, x.Val).deep() {
				if strings.HasPrefix(t, "q:") {
					els = append(els, t[2:])
				}
			}
			if len(els) != 1 {
				return
			}
			low := strings.ToLower(name)
			own := strings.Contains(low, strings.ToLower(els[0]))
			if own {
				return
			}
			for e := range ixElement15 {
				if e != els[0] && strings.HasPrefix(low, strings.ToLower(e)) {
					r.Bad("query", c.FnName(f.fn), c.PosOf(in), "%s of an inline document is filled with its %s elements", name, els[0])
				}
			}
			for e := range element15 {
				if e != els[0] && (low == strings.ToLower(e) || low == strings.ToLower(e)+"s") {
					r.Bad("query", c.FnName(f.fn), c.PosOf(in), "%s of an inline document is filled with its %s elements", name, els[0])
				}
			}
		}
	})
	r.Count("elements searched for", n)
	if n == 0 {
		r.Open("what inline documents are searched for could not be told")
	}
}
