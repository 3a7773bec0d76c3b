package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P21: every language a label can be filed under is served by everything that is keyed by language.

const renderPkg = "pkg/renderables"

// label21 is one place where the text of a label is filed.
type label21 struct {
	role, lang string
	in         ssa.Instruction
}

func p21(c *Ctx, r *Report) {
	r.Rule("a label whose language is en, en-US or es and whose role is label, terseLabel or verboseLabel is filed under that language and that role; a label of another language or role is not filed under them")
	r.Rule("for every language a label can be filed under, and for the unlabelled form, the text of a fact is stored under that language on every way through the loop over the languages, and is grouped the way that language groups digits")
	r.Rule("for every language a label can be filed under, the renderable and the expressable store a period text under it that was written in that language")
	r.Rule("where languages, roles or label packs are gathered in a loop, the loop starts at the first, ends after the last, skips none because of its position and keeps what it has gathered")
	r.Rule("the languages and roles of all three grids reach the answer")
	lang := c.NamedType(renderPkg, "Lang")
	getLabel := c.Func(renderPkg, "GetLabel")
	marshalR := c.Func(renderPkg, "MarshalRenderable")
	marshalE := c.Func(renderPkg, "MarshalExpressable")
	ll := c.NamedType("pkg/hydratables", "LabelLinkLabel")
	r.Need(lang != nil && getLabel != nil && marshalR != nil && marshalE != nil && ll != nil, "Lang, GetLabel, LabelLinkLabel, MarshalRenderable or MarshalExpressable not found")
	if lang == nil || getLabel == nil || marshalR == nil || marshalE == nil || ll == nil {
		return
	}
	k := &lang21{c: c, r: r, lang: lang, label: ll, seen: map[*ssa.BasicBlock]bool{}}
	k.labels(getLabel)
	if len(k.served) == 0 {
		r.Open("no language found that labels are filed under")
	}
	for _, l := range k.served {
		k.language(marshalR, l, true)
		k.language(marshalE, l, false)
	}
	k.language(marshalR, "Unlabelled", true)
	k.language(marshalE, "Unlabelled", true)
	k.gathered()
	k.listed(marshalR)
}

func init() { register("P21", p21) }

type lang21 struct {
	c      *Ctx
	r      *Report
	lang   *types.Named
	label  *types.Named
	served []string
	seen   map[*ssa.BasicBlock]bool
}

// fieldOf is the struct type and field a value was read from.
func fieldRead(v ssa.Value) (*types.Named, string) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				n, _ := types.Unalias(deref(fa.X.Type())).(*types.Named)
				name, _ := fieldName(deref(fa.X.Type()), fa.Field)
				return n, name
			}
		}
	case *ssa.Field:
		n, _ := types.Unalias(x.X.Type()).(*types.Named)
		name, _ := fieldName(x.X.Type(), x.Field)
		return n, name
	}
	return nil, ""
}

func sameNamed(a, b *types.Named) bool { return a != nil && b != nil && a.Obj() == b.Obj() }

// keyed: a map from languages to the given kind of element.
func (k *lang21) keyed(t types.Type, elem func(types.Type) bool) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	n, _ := types.Unalias(m.Key()).(*types.Named)
	return sameNamed(n, k.lang) && elem(m.Elem())
}

func isTextType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isRoleMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, inner := m.Elem().Underlying().(*types.Map)
	return inner && isTextType(m.Key())
}

// file follows the filing of a label with the given language and role.
func (k *lang21) file(root *ssa.Function, code, role string, assumed bool) (out []label21, full bool) {
	run := newConstRun(k.c)
	run.value = func(f *cframe, v ssa.Value, x cval) cval {
		n, field := fieldRead(v)
		if sameNamed(n, k.label) {
			switch field {
			case "Lang":
				if assumed {
					return constVal(constant.MakeString(code)).with("code")
				}
				return x.with("code")
			case "Role":
				if assumed {
					return constVal(constant.MakeString(role))
				}
			case "CharData":
				return x.with("text")
			}
		}
		var idx ssa.Value
		switch y := v.(type) {
		case *ssa.Lookup:
			if isRoleMap(y.X.Type()) {
				idx = y.Index
			}
		case *ssa.Extract:
			if lk, ok := y.Tuple.(*ssa.Lookup); ok && y.Index == 0 && isRoleMap(lk.X.Type()) {
				idx = lk.Index
			}
		}
		if idx != nil {
			if t, ok := run.get(f, idx).text(); ok {
				x = x.with("at:" + t)
			}
		}
		return x
	}
	run.run(root)
	outer := map[string]bool{}
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isRoleMap(mu.Map.Type()) {
			return
		}
		if t, ok := run.get(f, mu.Key).text(); ok {
			for _, tag := range run.get(f, mu.Value).deep() {
				if tag == "text" {
					outer[t] = true
				}
			}
		}
	})
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !k.keyed(mu.Map.Type(), isTextType) {
			return
		}
		v := run.get(f, mu.Value)
		isText := false
		for _, t := range v.deep() {
			if t == "text" {
				isText = true
			}
		}
		if !isText {
			return
		}
		e := label21{in: in, lang: "?", role: "?"}
		if t, ok := run.get(f, mu.Key).text(); ok {
			e.lang = t
		}
		var roles []string
		for _, t := range run.get(f, mu.Map).tags {
			if strings.HasPrefix(t, "at:") {
				roles = append(roles, t[3:])
			}
		}
		if len(roles) == 0 && len(outer) > 0 {
			for t := range outer {
				roles = append(roles, t)
			}
		}
		if len(roles) == 1 {
			e.role = roles[0]
		}
		out = append(out, e)
		if assumed && e.lang != "?" {
			k.filing(run, f, mu, e.lang)
		}
	})
	return out, run.full
}

// filing: the search for the labels of a concept goes through all of them, and one label does not
// keep another from being filed.
func (k *lang21) filing(run *constRun, f *cframe, mu *ssa.MapUpdate, lang string) {
	c, r := k.c, k.r
	b := mu.Block()
	for g := f; g != nil; g = g.up {
		for _, l := range naturalLoops(g.fn) {
			if l.body[b] && !k.seen[l.head] {
				k.seen[l.head] = true
				k.toTheEnd(g.fn, l)
			}
		}
		k.leaves(g.fn, b, "files a label")
		for d := b; d.Idom() != nil; d = d.Idom() {
			iff, ok := d.Idom().Instrs[len(d.Idom().Instrs)-1].(*ssa.If)
			if !ok || len(d.Preds) != 1 {
				continue
			}
			for _, lk := range lookupsIn(iff.Cond, map[ssa.Value]bool{}) {
				if !k.keyed(lk.X.Type(), isTextType) {
					continue
				}
				if t, ok := run.get(g, lk.Index).text(); ok && t != lang {
					r.Bad("label", c.FnName(g.fn), c.PosOf(lk), "whether a label is filed under %q depends on whether there is one under %q", lang, t)
				}
			}
		}
		if g.site == nil {
			break
		}
		b = g.site.Block()
	}
}

// leaves: the pass of a loop that does something is its last.
func (k *lang21) leaves(fn *ssa.Function, b *ssa.BasicBlock, does string) {
	for _, l := range naturalLoops(fn) {
		if l.body[b] {
			continue
		}
		for d := b.Idom(); d != nil; d = d.Idom() {
			if l.body[d] && d != l.head {
				pos := ""
				for _, in := range b.Instrs {
					if pos = k.c.PosOf(in); strings.Contains(pos, ":") {
						break
					}
				}
				k.r.Bad("to the end", k.c.FnName(fn), pos, "the pass of a loop that %s is its last", does)
				return
			}
		}
	}
}

func lookupsIn(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Lookup {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	if lk, ok := v.(*ssa.Lookup); ok {
		return []*ssa.Lookup{lk}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return nil
	}
	var out []*ssa.Lookup
	for _, op := range in.Operands(nil) {
		if *op != nil {
			out = append(out, lookupsIn(*op, seen)...)
		}
	}
	return out
}

func (k *lang21) labels(root *ssa.Function) {
	c, r := k.c, k.r
	const std = "http://www.xbrl.org/2003/role/"
	langs := map[string]string{"en": "en - english", "en-US": "en - english", "es": "es - español"}
	roles := map[string]string{"label": "Default", "terseLabel": "Terse", "verboseLabel": "Verbose"}
	where := ""
	if all, _ := k.file(root, "", "", false); len(all) > 0 {
		where = c.PosOf(all[0].in)
	}
	served := map[string]bool{}
	var codes, kinds []string
	for l := range langs {
		codes = append(codes, l)
	}
	for l := range roles {
		kinds = append(kinds, l)
	}
	sort.Strings(codes)
	sort.Strings(kinds)
	for _, code := range codes {
		for _, kind := range kinds {
			r.Count("label filings", 1)
			got, full := k.file(root, code, std+kind, true)
			if full {
				r.Open("the filing of labels could not be followed")
				continue
			}
			ok, open := false, false
			for _, e := range got {
				switch {
				case e.lang == "?" || e.role == "?":
					open = true
				case e.lang != langs[code]:
					r.Bad("label", c.FnName(e.in.Parent()), c.PosOf(e.in), "a label in language %q is filed under %q", code, e.lang)
					ok = true
				case e.role != roles[kind]:
					r.Bad("label", c.FnName(e.in.Parent()), c.PosOf(e.in), "a label with role %s is filed under %q", kind, e.role)
					ok = true
				default:
					ok = true
					served[e.lang] = true
				}
			}
			switch {
			case ok:
			case open:
				r.Open("where a label in language " + code + " with role " + kind + " is filed could not be told")
			default:
				r.Bad("label", c.FnName(root), where, "a label in language %q with role %s is filed nowhere", code, kind)
			}
		}
	}
	for _, other := range [][2]string{{"fr", "label"}, {"de-DE", "label"}, {"en", "documentation"}, {"en-US", "totalLabel"}, {"es", "periodEndLabel"}, {"en", "commentaryGuidance"}} {
		r.Count("label filings", 1)
		got, full := k.file(root, other[0], std+other[1], true)
		if full {
			continue
		}
		for _, e := range got {
			if roles[other[1]] != "" {
				// another language: only the supported names are wrong for it
				if e.lang == "en - english" || e.lang == "es - español" {
					r.Bad("label", c.FnName(e.in.Parent()), c.PosOf(e.in), "a label in language %q is filed under %q", other[0], e.lang)
				}
				continue
			}
			if e.role == "Default" || e.role == "Terse" || e.role == "Verbose" {
				r.Bad("label", c.FnName(e.in.Parent()), c.PosOf(e.in), "a label with role %s is filed under %q", other[1], e.role)
			}
		}
	}
	// whatever else labels are filed under
	if all, full := k.file(root, "", "", false); !full {
		for _, e := range all {
			if e.lang != "?" {
				served[e.lang] = true
			}
		}
	}
	for l := range served {
		k.served = append(k.served, l)
	}
	sort.Strings(k.served)
	for _, l := range k.served {
		r.OK("language " + l)
	}
}

// tongue: the language a constant text of a period is written in.
func tongue(s string) string {
	s = " " + strings.ToLower(s) + " "
	for _, w := range []string{"es_es", " mes ", " meses ", "enero", " terminado", " al "} {
		if strings.Contains(s, w) {
			return "es"
		}
	}
	for _, w := range []string{"january", "jan 2", " month ", " months ", " ended", " as of "} {
		if strings.Contains(s, w) {
			return "en"
		}
	}
	for _, p := range []string{"fr", "de", "hi", "pt", "it"} {
		if strings.HasPrefix(s, " "+p+"_") {
			return p
		}
	}
	return ""
}

// language follows an answer as if every language in it were the given one.
func (k *lang21) language(root *ssa.Function, lang string, facts bool) {
	c, r := k.c, k.r
	r.Count("languages followed", 1)
	run := newConstRun(c)
	run.value = func(f *cframe, v ssa.Value, x cval) cval {
		if cn, ok := v.(*ssa.Const); ok {
			if cn.Value != nil && cn.Value.Kind() == constant.String {
				if t := tongue(constant.StringVal(cn.Value)); t != "" {
					return x.with("tongue:" + t)
				}
			}
			return x
		}
		if n, ok := types.Unalias(v.Type()).(*types.Named); ok && sameNamed(n, k.lang) && x.st != 0 {
			tags := x.tags
			x = constVal(constant.MakeString(lang))
			x.tags = tags
		}
		return x
	}
	inner := run.value
	run.value = func(f *cframe, v ssa.Value, x cval) cval {
		x = inner(f, v, x)
		if n, field := fieldRead(v); n != nil && x.st != 0 && field == "XMLInner" && n.Obj().Name() == "Fact" {
			x = x.with("xml")
		}
		return x
	}
	run.extern = func(f *cframe, name string, ci ssa.CallInstruction, args []cval) []string {
		if strings.HasSuffix(name, "joshuanario/digits.New") && len(args) > 2 {
			if args[2].known() {
				if i, ok := constant.Int64Val(args[2].k); ok {
					return []string{"group:" + string(rune(i))}
				}
			}
			return []string{"group:?"}
		}
		return nil
	}
	run.run(root)
	for _, f := range run.frames {
		r.Fn(c, f.fn)
	}
	if run.full {
		r.Open(c.FnName(root) + " could not be followed to the end for " + lang)
		return
	}
	isFact := func(t types.Type) bool {
		n, _ := types.Unalias(deref(t)).(*types.Named)
		return n != nil && n.Obj().Name() == "FactExpression"
	}
	short := lang
	if i := strings.Index(lang, " "); i > 0 {
		short = lang[:i]
	}
	var factAt, periodAt []ssa.Instruction
	stored := map[*cframe]map[ssa.Instruction]bool{}
	periods := false
	anyFact, anyPeriod := "", ""
	unknown := false
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		key, known := run.get(f, mu.Key).text()
		switch {
		case k.keyed(mu.Map.Type(), isFact):
			if !known || key != lang {
				if anyFact == "" {
					anyFact = c.PosOf(in)
				}
				return
			}
			tags := run.get(f, mu.Value).deep()
			group := ""
			for _, t := range tags {
				if t == "xml" {
					factAt = append(factAt, in)
					if stored[f] == nil {
						stored[f] = map[ssa.Instruction]bool{}
					}
					stored[f][in] = true
				}
				if strings.HasPrefix(t, "group:") {
					group += t[6:]
				}
			}
			want := map[string]string{"en - english": ",", "es - español": " "}[lang]
			if want != "" && group != "" && !strings.ContainsAny(group, "?") && group != want {
				r.Bad("fact text", c.FnName(in.Parent()), c.PosOf(in), "the text of a fact for %q groups digits with %q instead of %q", lang, group, want)
			}
		case k.keyed(mu.Map.Type(), isTextType):
			tags := run.get(f, mu.Value).deep()
			own, other := false, ""
			for _, t := range tags {
				if strings.HasPrefix(t, "tongue:") {
					if t[7:] == short {
						own = true
					} else {
						other = t[7:]
					}
				}
			}
			if other != "" && anyPeriod == "" {
				anyPeriod = c.PosOf(in)
			}
			if !known && (own || other != "") {
				unknown = true
			}
			if !known || key != lang {
				return
			}
			if own {
				periods = true
				periodAt = append(periodAt, in)
				if stored[f] == nil {
					stored[f] = map[ssa.Instruction]bool{}
				}
				stored[f][in] = true
			}
			if other != "" && lang != "Unlabelled" {
				r.Bad("period", c.FnName(in.Parent()), c.PosOf(in), "the period text for %q is written in another language (%s)", lang, other)
				periods = true
			}
		}
	})
	if facts {
		if len(factAt) == 0 {
			r.Bad("fact text", c.FnName(root), anyFact, "no text of a fact is stored for %q, which labels can be filed under", lang)
		} else {
			r.OK("fact text for " + lang)
		}
	}
	if lang != "Unlabelled" {
		switch {
		case periods:
			r.OK("period text for " + lang + " in " + root.Name())
		case unknown:
			r.Open("under which language a period is stored could not be told")
		default:
			if t := tongueOf(short); !t {
				r.Open("the wording of periods for " + lang + " is not known")
			} else {
				r.Bad("period", c.FnName(root), anyPeriod, "no period text written in %q is stored under it in %s, though labels can be filed under it", lang, root.Name())
			}
		}
	}
	if facts && lang != "Unlabelled" && tongueOf(short) && periods {
		k.headers(run, lang, short)
	}
	// on every way through the loop over the languages
	for f := range stored {
		for in := range stored[f] {
			k.leaves(f.fn, in.Block(), "stores the text for a language")
		}
		k.everyWay(run, f, stored, lang)
	}
}

// headers: the period headers of every grid of the answer carry the texts of the language.
func (k *lang21) headers(run *constRun, lang, short string) {
	c, r := k.c, k.r
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok || calleeName(call.Common()) != "encoding/json.Marshal" || len(call.Common().Args) != 1 {
			return
		}
		v := run.get(f, call.Common().Args[0])
		mi, ok := call.Common().Args[0].(*ssa.MakeInterface)
		if !ok || v.cell == nil {
			return
		}
		var walk func(t types.Type, v cval, name string, depth int)
		walk = func(t types.Type, v cval, name string, depth int) {
			if depth > 6 {
				return
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "PeriodHeaders" {
				r.Count("headers followed", 1)
				x := run.load(v, t)
				own := false
				for _, tag := range x.deep() {
					if tag == "tongue:"+short {
						own = true
					}
				}
				switch {
				case own:
				case x.cell == nil:
					r.Open("the headers " + name + " could not be followed")
				default:
					r.Bad("period", name, c.PosOf(call), "the period headers %s get no text for %q", name, lang)
				}
				return
			}
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					walk(u.Field(i).Type(), run.sub(v, "."+itoa(i)), name+"."+u.Field(i).Name(), depth+1)
				}
			case *types.Slice:
				x := run.load(v, t)
				walk(u.Elem(), run.sub(x, "[]"), name+"[]", depth+1)
			case *types.Pointer:
				walk(u.Elem(), run.load(v, t), name, depth+1)
			}
		}
		walk(deref(mi.X.Type()), v, typeName(mi.X.Type()), 0)
	})
}

func tongueOf(short string) bool { return short == "en" || short == "es" }

// everyWay: in the innermost loop around a store, every pass stores.
func (k *lang21) everyWay(run *constRun, f *cframe, stored map[*cframe]map[ssa.Instruction]bool, lang string) {
	loops := naturalLoops(f.fn)
	has := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if stored[f][in] {
				return true
			}
		}
		return false
	}
	for in := range stored[f] {
		var inner *natLoop
		for _, l := range loops {
			if l.body[in.Block()] && (inner == nil || len(l.body) < len(inner.body)) && k.overLangs(l, in.(*ssa.MapUpdate)) {
				inner = l
			}
		}
		if inner == nil {
			continue
		}
		// from the head back to the head without a store
		seen := map[*ssa.BasicBlock]bool{}
		var bad *ssa.BasicBlock
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			for i, s := range b.Succs {
				if !f.edge[[2]*ssa.BasicBlock{b, s}] || !inner.body[s] || nothingToStore(b, i, in.(*ssa.MapUpdate)) {
					continue
				}
				if s == inner.head {
					bad = b
					continue
				}
				if seen[s] || has(s) {
					continue
				}
				seen[s] = true
				walk(s)
			}
		}
		walk(inner.head)
		k.r.Count("loops over languages", 1)
		if bad != nil {
			at := in
			if n := len(bad.Instrs); n > 0 {
				at = bad.Instrs[n-1]
			}
			_ = at
			k.r.Bad("every way", k.c.FnName(f.fn), k.c.PosOf(in), "a pass of the loop over the languages can leave out the text for %q", lang)
		}
	}
}

// nothingToStore: the branch is taken when what would be stored is nil.
func nothingToStore(b *ssa.BasicBlock, succ int, mu *ssa.MapUpdate) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return false
	}
	x, y := bo.X, bo.Y
	if cn, ok := x.(*ssa.Const); ok && cn.Value == nil {
		x, y = y, x
	}
	if cn, ok := y.(*ssa.Const); !ok || cn.Value != nil {
		return false
	}
	if (bo.Op == token.EQL) != (succ == 0) {
		return false
	}
	return dependsOn(mu.Value, x, map[ssa.Value]bool{})
}

// overLangs: the key of the store is the element the loop goes over, and the loop goes over languages only.
func (k *lang21) overLangs(l *natLoop, mu *ssa.MapUpdate) bool {
	v := stripConv(mu.Key)
	switch x := v.(type) {
	case *ssa.Const:
		// a fixed language under a test of the element
		return false
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		return ok && l.body[x.Block()] && l.body[ia.Block()] && x.Op == token.MUL && !k.deeper(l, x.Block())
	case *ssa.Extract:
		nx, ok := x.Tuple.(*ssa.Next)
		return ok && l.body[nx.Block()] && x.Index == 1 && !k.deeper(l, nx.Block())
	}
	return false
}

func (k *lang21) deeper(l *natLoop, b *ssa.BasicBlock) bool {
	for _, o := range naturalLoops(b.Parent()) {
		if o != l && o.head != l.head && o.body[b] && l.body[o.head] {
			return true
		}
	}
	return false
}

// gathered checks the loops that gather languages, roles and label packs.
func (k *lang21) gathered() {
	c, r := k.c, k.r
	role := c.NamedType(renderPkg, "LabelRole")
	pack := c.NamedType(renderPkg, "LabelPack")
	lpack := c.NamedType(renderPkg, "LanguagePack")
	var about func(t types.Type, depth int) bool
	about = func(t types.Type, depth int) bool {
		if depth > 4 {
			return false
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if sameNamed(n, k.lang) || sameNamed(n, role) || sameNamed(n, pack) || sameNamed(n, lpack) {
				return depth > 0 || sameNamed(n, pack) || sameNamed(n, lpack)
			}
		}
		switch u := types.Unalias(t).(type) {
		case *types.Slice:
			return about(u.Elem(), depth+1)
		case *types.Pointer:
			return about(u.Elem(), depth)
		case *types.Map:
			return about(u.Elem(), depth+1) || about(u.Key(), depth+1)
		}
		return false
	}
	isAbout := func(t types.Type) bool { return about(t, 0) }
	// holds: a list of what has labels or texts by language
	var holds func(t types.Type, depth int) bool
	holds = func(t types.Type, depth int) bool {
		if depth > 5 {
			return false
		}
		if about(t, 1) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return holds(u.Elem(), depth+1)
		case *types.Pointer:
			return holds(u.Elem(), depth+1)
		case *types.Map:
			return holds(u.Elem(), depth+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if holds(u.Field(i).Type(), depth+1) {
					return true
				}
			}
		}
		return false
	}
	isList := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && holds(s.Elem(), 0)
	}
	for _, fn := range c.Fns {
		if c.RelPkg(fn) != renderPkg || fn.Blocks == nil {
			continue
		}
		for _, l := range naturalLoops(fn) {
			gathers := k.gathers(l, isAbout)
			k.position(fn, l, func(t types.Type) bool { return gathers || isList(t) })
			k.kept(fn, l, isAbout)
			if gathers {
				k.toTheEnd(fn, l)
			}
			k.merged(fn, l, isAbout)
		}
	}
	_ = r
}

// position: a loop over a list starts at the first, goes one by one and ends after the last, and
// nothing in it depends on where in the list an element stands.
func (k *lang21) position(fn *ssa.Function, l *natLoop, about func(types.Type) bool) {
	c, r := k.c, k.r
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		b, isInt := phi.Type().Underlying().(*types.Basic)
		if !isInt || b.Info()&types.IsInteger == 0 {
			continue
		}
		// what is indexed with it
		var list ssa.Value
		isIdx := func(v ssa.Value) bool {
			if v == phi {
				return true
			}
			bo, ok := v.(*ssa.BinOp)
			return ok && bo.Op == token.ADD && bo.X == phi && l.body[bo.Block()]
		}
		for b := range l.body {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && isIdx(ia.Index) && about(ia.X.Type()) {
					list = ia.X
				}
			}
		}
		if list == nil {
			continue
		}
		r.Count("loops over labels or languages", 1)
		if sl, ok := list.(*ssa.Slice); ok {
			if cn, ok := sl.Low.(*ssa.Const); ok && cn.Value != nil {
				if n, _ := constant.Int64Val(cn.Value); n > 0 {
					r.Bad("position", c.FnName(fn), c.PosOf(sl), "the loop over %s leaves out the first", c.what(list))
					continue
				}
			}
			if sub, ok := sl.High.(*ssa.BinOp); ok && sub.Op == token.SUB {
				if call, ok := sub.X.(*ssa.Call); ok && calleeName(call.Common()) == "len" {
					r.Bad("position", c.FnName(fn), c.PosOf(sl), "the loop over %s leaves out the last", c.what(list))
					continue
				}
			}
		}
		// range loops: -1, then +1 before use; counted loops: 0
		var start int64 = -99
		step := int64(0)
		for i, e := range phi.Edges {
			if !l.body[phi.Block().Preds[i]] {
				if cn, ok := e.(*ssa.Const); ok && cn.Value != nil {
					start, _ = constant.Int64Val(cn.Value)
				}
			} else if bo, ok := e.(*ssa.BinOp); ok && bo.X == phi {
				if cn, ok := bo.Y.(*ssa.Const); ok && cn.Value != nil {
					step, _ = constant.Int64Val(cn.Value)
					if bo.Op == token.SUB {
						step = -step
					}
				}
			}
		}
		first := start
		rangeLoop := false
		for _, ref := range *phi.Referrers() {
			if bo, ok := ref.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.Block() == l.head && start == -1 {
				rangeLoop = true
				first = 0
			}
		}
		if start != -99 && step == 1 && first > 0 {
			r.Bad("position", c.FnName(fn), c.Pos(phi.Pos()), "the loop over %s starts at the element %d", c.what(list), first)
			continue
		}
		if step < 0 {
			k23 := &keep23{c: c, r: r, x: c.Exprs()}
			if t := k23.see(fn, l); t != nil && t.phi == phi {
				if w, _ := k23.leftOut(t); w != "" {
					r.Bad("position", c.FnName(fn), c.Pos(phi.Pos()), "the loop over %s leaves out %s", c.what(list), w)
					continue
				}
			}
		}
		if start != -99 && step > 1 {
			r.Bad("position", c.FnName(fn), c.Pos(phi.Pos()), "the loop over %s leaves out elements", c.what(list))
			continue
		}
		if iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok && !rangeLoop {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.LSS && bo.X == phi {
				if sub, ok := bo.Y.(*ssa.BinOp); ok && sub.Op == token.SUB {
					if call, ok := sub.X.(*ssa.Call); ok && calleeName(call.Common()) == "len" {
						if cn, ok := sub.Y.(*ssa.Const); ok && cn.Value != nil && first == 0 {
							if n, _ := constant.Int64Val(cn.Value); n > 0 {
								r.Bad("position", c.FnName(fn), c.PosOf(bo), "the loop over %s ends before the last element", c.what(list))
							}
						}
					}
				}
			}
		}
		// tests of the position inside of the loop
		for b := range l.body {
			if b == l.head {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !isIdx(bo.X) {
				continue
			}
			if _, ok := bo.Y.(*ssa.Const); !ok {
				continue
			}
			// one way must gather and the other not
			if k.skips(l, b) {
				r.Bad("position", c.FnName(fn), c.PosOf(bo), "whether an element of %s is used depends on its position", c.what(list))
			}
		}
	}
}

// skips: one successor of a branch goes straight to the next pass or out of the loop.
func (k *lang21) skips(l *natLoop, b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if !l.body[s] || s == l.head {
			return true
		}
		if len(s.Instrs) <= 3 && len(s.Succs) == 1 && (s.Succs[0] == l.head || !l.body[s.Succs[0]]) {
			plain := true
			for _, in := range s.Instrs {
				switch x := in.(type) {
				case *ssa.Jump, *ssa.DebugRef:
				case *ssa.BinOp:
					if _, ok := x.X.(*ssa.Phi); !ok {
						plain = false
					}
				default:
					plain = false
				}
			}
			if plain {
				return true
			}
		}
	}
	return false
}

// kept: what a loop gathers in a variable is not thrown away by the next pass.
func (k *lang21) kept(fn *ssa.Function, l *natLoop, about func(types.Type) bool) {
	c, r := k.c, k.r
	for _, al := range keptVars(l, about) {
		after := false
		for _, ref := range *al.Referrers() {
			if ld, ok := ref.(*ssa.UnOp); ok && !l.body[ld.Block()] && reachesBlock(l.head, ld.Block()) {
				after = true
			}
		}
		if !after {
			continue
		}
		r.Count("gathered lists", 1)
		for b := range l.body {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != al {
					continue
				}
				if vi, ok := st.Val.(ssa.Instruction); !ok || !l.body[vi.Block()] || k.fromGathered(st.Val, l, about) {
					continue
				}
				if k.fresh(l, al, st) {
					r.Bad("kept", c.FnName(fn), c.PosOf(st), "every pass of the loop throws away %s gathered by the passes before", c.what(st.Val))
				}
			}
		}
	}
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !about(phi.Type()) || !usedAfter(phi, l) {
			continue
		}
		r.Count("gathered lists", 1)
		for i, e := range phi.Edges {
			if !l.body[phi.Block().Preds[i]] || e == phi {
				continue
			}
			// lists made anew in every pass
			for _, v := range phiLeaves(e, phi, l) {
				if v == phi || dependsOn(v, phi, map[ssa.Value]bool{}) {
					if !dependsOnPass(v, phi, l) {
						r.Bad("kept", c.FnName(fn), c.Pos(v.Pos()), "every pass of the loop adds the same to %s", c.what(phi))
					}
					continue
				}
				if k.fromGathered(v, l, about) && entersEmpty(phi, l) {
					continue
				}
				if vi, ok := v.(ssa.Instruction); !ok || !l.body[vi.Block()] {
					continue
				}
				at := phi.Pos()
				if v.Pos().IsValid() {
					at = v.Pos()
				}
				r.Bad("kept", c.FnName(fn), c.Pos(at), "every pass of the loop throws away %s gathered by the passes before", c.what(phi))
			}
		}
	}
}

// dependsOnPass: what is added depends on the pass of the loop.
func dependsOnPass(v ssa.Value, phi *ssa.Phi, l *natLoop) bool {
	if v == phi {
		return true
	}
	call, ok := v.(*ssa.Call)
	if !ok || calleeName(call.Common()) != "append" || len(call.Common().Args) != 2 || call.Common().Args[0] != phi {
		return true
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.body[in.Block()] {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi, *ssa.Next:
			return true
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					if walk(y.Val) {
						return true
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					for _, rr := range *y.(ssa.Value).Referrers() {
						if st, ok := rr.(*ssa.Store); ok && walk(st.Val) {
							return true
						}
					}
				case ssa.CallInstruction, *ssa.MakeClosure:
					return true
				}
			}
			return false
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return true
			}
			if _, ok := x.X.(*ssa.Alloc); ok {
				if al := x.X.(*ssa.Alloc); !l.body[al.Block()] {
					return true // a variable that other passes may change
				}
			}
			if _, ok := x.X.(*ssa.FreeVar); ok {
				return true
			}
		case *ssa.Call:
			if len(x.Common().Args) == 0 {
				return true
			}
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(call.Common().Args[1])
}

// entersEmpty: the list is empty when the loop begins.
func entersEmpty(phi *ssa.Phi, l *natLoop) bool {
	seen := map[ssa.Value]bool{}
	var empty func(v ssa.Value) bool
	empty = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.Slice:
			_, ok := x.X.(*ssa.Alloc)
			return ok
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !empty(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range phi.Edges {
		if !l.body[phi.Block().Preds[i]] && !empty(e) {
			return false
		}
	}
	return true
}

// gathers: the loop adds to a list or map of labels, languages or roles from outside of it.
func (k *lang21) gathers(l *natLoop, about func(types.Type) bool) bool {
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if about(phi.Type()) && usedAfter(phi, l) {
			return true
		}
	}
	if len(keptVars(l, about)) > 0 {
		return true
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !about(mu.Map.Type()) {
				continue
			}
			if mi, ok := mapBase(mu.Map).(ssa.Instruction); !ok || !l.body[mi.Block()] {
				return true
			}
			if lk, ok := mu.Map.(*ssa.Lookup); ok {
				if mi, ok := mapBase(lk.X).(ssa.Instruction); !ok || !l.body[mi.Block()] {
					return true
				}
			}
		}
	}
	return false
}

// toTheEnd: a loop that gathers is left only when there is no further element.
func (k *lang21) toTheEnd(fn *ssa.Function, l *natLoop) {
	c, r := k.c, k.r
	head, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || len(l.head.Succs) != 2 {
		return
	}
	_ = head
	var after *ssa.BasicBlock
	for _, s := range l.head.Succs {
		if !l.body[s] {
			after = s
		}
	}
	if after == nil {
		return
	}
	r.Count("gathering loops", 1)
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] || s != after && !reachesBlock(s, after) {
				continue
			}
			if s != after && enclosedBy(s, after) {
				continue
			}
			at := b.Instrs[len(b.Instrs)-1]
			pos := c.PosOf(at)
			for i := len(b.Instrs) - 1; i >= 0 && !strings.Contains(pos, ":"); i-- {
				pos = c.PosOf(b.Instrs[i])
			}
			r.Bad("to the end", c.FnName(fn), pos, "a loop that gathers labels, languages or roles can end before the last element")
		}
	}
}

// enclosedBy: the way from one block to the other leads around an enclosing loop.
func enclosedBy(from, to *ssa.BasicBlock) bool {
	for _, o := range naturalLoops(from.Parent()) {
		if o.body[from] && o.body[to] {
			// within the same enclosing loop: reached without passing its head?
			seen := map[*ssa.BasicBlock]bool{o.head: true}
			var walk func(b *ssa.BasicBlock) bool
			walk = func(b *ssa.BasicBlock) bool {
				for _, s := range b.Succs {
					if s == to {
						return true
					}
					if !seen[s] && o.body[s] {
						seen[s] = true
						if walk(s) {
							return true
						}
					}
				}
				return false
			}
			return !walk(from)
		}
	}
	return false
}

// merged: where packs are merged, what is already there is not replaced and what comes is not passed over.
func (k *lang21) merged(fn *ssa.Function, l *natLoop, about func(types.Type) bool) {
	c, r := k.c, k.r
	for b := range l.body {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isRoleMap(mu.Map.Type()) || !about(mu.Map.Type()) {
				continue
			}
			if mi, ok := mapBase(mu.Map).(ssa.Instruction); ok && l.body[mi.Block()] {
				continue
			}
			// the loop that makes the same key come again: one around the loop the key comes from
			var keyLoop *natLoop
			for _, o := range naturalLoops(fn) {
				if ki, ok := stripConv(mu.Key).(ssa.Instruction); ok && o.body[ki.Block()] && (keyLoop == nil || len(o.body) < len(keyLoop.body)) {
					keyLoop = o
				}
			}
			if keyLoop == nil || keyLoop.head == l.head || !l.body[keyLoop.head] {
				continue
			}
			r.Count("merges of packs", 1)
			if k.whenAbsent(mu) || madeFromMap(mu.Value, mu.Map, map[ssa.Value]bool{}) {
				continue
			}
			r.Bad("merged", c.FnName(fn), c.PosOf(mu), "a pack that is already there for a role is replaced by that of another label")
		}
	}
	// a pack that comes is passed over
	for b := range l.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !k.keyed(v.Type(), isTextType) {
				continue
			}
			ex, ok := v.(*ssa.Extract)
			if !ok || ex.Index != 2 {
				continue
			}
			nx, ok := ex.Tuple.(*ssa.Next)
			if !ok || nx.Block() != l.head {
				continue
			}
			uses := map[*ssa.BasicBlock]bool{}
			for _, ref := range *ex.Referrers() {
				switch y := ref.(type) {
				case *ssa.Range, *ssa.MapUpdate:
					uses[ref.Block()] = true
				case ssa.CallInstruction:
					if n := calleeName(y.Common()); n != "len" {
						uses[ref.Block()] = true
					}
				}
			}
			if len(uses) == 0 {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			skipped := false
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				if testsLength(b, ex) {
					return
				}
				for _, s := range b.Succs {
					if !l.body[s] {
						continue
					}
					if s == l.head {
						skipped = true
						continue
					}
					if !seen[s] && !uses[s] {
						seen[s] = true
						walk(s)
					}
				}
			}
			walk(l.head)
			r.Count("merges of packs", 1)
			if skipped {
				r.Bad("merged", c.FnName(fn), c.PosOf(nx), "the languages of a label can be passed over when packs are merged")
			}
		}
	}
}

func testsLength(b *ssa.BasicBlock, v ssa.Value) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, x := range []ssa.Value{bo.X, bo.Y} {
		if x == v {
			return true
		}
		if call, ok := x.(*ssa.Call); ok && calleeName(call.Common()) == "len" && call.Common().Args[0] == v {
			return true
		}
	}
	return false
}

// mapBase is the variable a map is held in, or the map itself.
func mapBase(v ssa.Value) ssa.Value {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			return al
		}
	}
	return v
}

// whenAbsent: the update is only made where the map has nothing under its key.
func (k *lang21) whenAbsent(mu *ssa.MapUpdate) bool {
	for b := mu.Block(); b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		if madeFromMap(iff.Cond, mu.Map, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// madeFromMap: the value is made from what the map holds.
func madeFromMap(v, m ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if lk, ok := v.(*ssa.Lookup); ok && mapBase(lk.X) == mapBase(m) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && madeFromMap(*op, m, seen) {
			return true
		}
	}
	return false
}

// fresh: the stored value is no empty list that is filled again in the same pass.
func (k *lang21) fresh(l *natLoop, al *ssa.Alloc, st *ssa.Store) bool {
	switch x := st.Val.(type) {
	case *ssa.MakeSlice, *ssa.MakeMap:
		return false
	case *ssa.Slice:
		_, ok := x.X.(*ssa.Alloc)
		return !ok
	}
	return true
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

// fromGathered: the value is made from another list that the loop keeps.
func (k *lang21) fromGathered(v ssa.Value, l *natLoop, about func(types.Type) bool) bool {
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if about(phi.Type()) && dependsOn(v, phi, map[ssa.Value]bool{}) {
			return true
		}
	}
	for _, al := range keptVars(l, about) {
		for _, ref := range *al.Referrers() {
			if ld, ok := ref.(*ssa.UnOp); ok && l.body[ld.Block()] && dependsOn(v, ld, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

// keptVars are the variables from outside of a loop that are changed in it.
func keptVars(l *natLoop, about func(types.Type) bool) []*ssa.Alloc {
	var out []*ssa.Alloc
	seen := map[*ssa.Alloc]bool{}
	for b := range l.body {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			al, ok := st.Addr.(*ssa.Alloc)
			if ok && !seen[al] && !l.body[al.Block()] && about(deref(al.Type())) {
				seen[al] = true
				out = append(out, al)
			}
		}
	}
	return out
}

func phiLeaves(v ssa.Value, stop *ssa.Phi, l *natLoop) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok && p != stop && l.body[p.Block()] {
			for _, e := range p.Edges {
				walk(e)
			}
			return
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

func usedAfter(v ssa.Value, l *natLoop) bool {
	for _, ref := range *v.Referrers() {
		if _, dbg := ref.(*ssa.DebugRef); dbg {
			continue
		}
		if !l.body[ref.Block()] {
			return true
		}
	}
	return false
}

func dependsOn(v, on ssa.Value, seen map[ssa.Value]bool) bool {
	if v == on {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, on, seen) {
			return true
		}
	}
	// what is stored into what it is made from
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == v && dependsOn(x.Val, on, seen) {
					return true
				}
			case *ssa.MapUpdate:
				if x.Map == v && (dependsOn(x.Value, on, seen) || dependsOn(x.Key, on, seen)) {
					return true
				}
			case *ssa.IndexAddr:
				for _, rr := range *x.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == x && dependsOn(st.Val, on, seen) {
						return true
					}
				}
			case ssa.CallInstruction:
				for _, a := range x.Common().Args {
					if a != v && dependsOn(a, on, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// what names a list for a message.
func (c *Ctx) what(v ssa.Value) string {
	return types.TypeString(v.Type(), func(*types.Package) string { return "" })
}

// listed: the languages and roles of every label pack reach the lists that are returned with them,
// and the lists of every grid reach the answer.
func (k *lang21) listed(root *ssa.Function) {
	c, r := k.c, k.r
	role := c.NamedType(renderPkg, "LabelRole")
	pack := c.NamedType(renderPkg, "LabelPack")
	getLabel := c.Func(renderPkg, "GetLabel")
	isList := func(t types.Type) string {
		s, ok := types.Unalias(t).Underlying().(*types.Slice)
		if !ok {
			return ""
		}
		n, _ := types.Unalias(s.Elem()).(*types.Named)
		switch {
		case sameNamed(n, k.lang):
			return "languages"
		case sameNamed(n, role):
			return "roles"
		}
		return ""
	}
	isPack := func(t types.Type) bool {
		if s, ok := types.Unalias(t).(*types.Slice); ok {
			t = s.Elem()
		}
		n, _ := types.Unalias(t).(*types.Named)
		return sameNamed(n, pack)
	}
	makes := map[*ssa.Function]bool{}
	var reaches func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	reaches = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if fn == getLabel {
			return true
		}
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					for _, g := range c.ModCallees(x) {
						if reaches(g, seen) {
							return true
						}
					}
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok && reaches(g, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	source := func(fn *ssa.Function) bool {
		v, ok := makes[fn]
		if !ok {
			v = reaches(fn, map[*ssa.Function]bool{})
			makes[fn] = v
		}
		return v
	}
	// reports: functions that hand out languages or roles along with what they were gathered from
	reports := func(fn *ssa.Function) bool {
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isList(res.At(i).Type()) != "" {
				return source(fn)
			}
		}
		return false
	}
	outer := func(fn *ssa.Function) *ssa.Function {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn
	}
	// what a value is a source of, in the function whose duty it is to report it
	mark := func(v ssa.Value) (tag string, call *ssa.Call) {
		t := v.Type()
		var cl *ssa.Call
		switch x := v.(type) {
		case *ssa.Call:
			cl = x
		case *ssa.Extract:
			cl, _ = x.Tuple.(*ssa.Call)
		}
		if cl == nil {
			return "", nil
		}
		g := cl.Common().StaticCallee()
		if g == nil || !source(g) {
			return "", nil
		}
		kind := isList(t)
		if kind != "" && !reports(g) {
			kind = ""
		}
		if kind == "" && isPack(t) {
			kind = "labels"
		}
		if kind == "" {
			return "", nil
		}
		return kind + " from " + g.Name() + " at " + c.PosOf(cl), cl
	}
	run := newConstRun(c)
	run.value = func(f *cframe, v ssa.Value, x cval) cval {
		if x.st == 0 {
			return x
		}
		if t, _ := mark(v); t != "" {
			o := outer(f.fn)
			if o == root || reports(o) {
				return x.with(t)
			}
		}
		return x
	}
	type want struct {
		tag  string
		call *ssa.Call
		kind string
	}
	wants := map[*cframe][]want{}
	run.run(root)
	if run.full {
		r.Open("the gathering of languages and roles could not be followed")
		return
	}
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		v, ok := in.(ssa.Value)
		if !ok {
			return
		}
		tag, call := mark(v)
		if tag == "" {
			return
		}
		o := outer(f.fn)
		if o != root && !reports(o) {
			return
		}
		if call.Common().StaticCallee() == getLabel && o == root {
			return
		}
		g := f
		for g != nil && g.fn != o {
			g = g.up
		}
		if g != nil {
			wants[g] = append(wants[g], want{tag, call, strings.SplitN(tag, " ", 2)[0]})
		}
	})
	has := func(tags []string, t string) bool {
		for _, x := range tags {
			if x == t {
				return true
			}
		}
		return false
	}
	told := map[string]bool{}
	check := func(at *cframe, kind string, got cval, where string) {
		tags := got.deep()
		for _, w := range wants[at] {
			if w.kind != "labels" && w.kind != kind {
				continue
			}
			r.Count("gathered sources", 1)
			if has(tags, w.tag) || told[w.tag+kind] {
				continue
			}
			told[w.tag+kind] = true
			r.Bad("listed", c.FnName(at.fn), c.PosOf(w.call), "the %s of what %s gives are not in the %s %s", kind, w.call.Common().StaticCallee().Name(), kind, where)
		}
	}
	for f := range wants {
		if f.fn == root {
			continue
		}
		res := f.fn.Signature.Results()
		for i := 0; i < res.Len() && i < len(f.ret); i++ {
			if kind := isList(res.At(i).Type()); kind != "" {
				check(f, kind, f.ret[i], "that "+f.fn.Name()+" returns")
			}
		}
	}
	// the answer
	run.eachLive(func(f *cframe, in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok || calleeName(call.Common()) != "encoding/json.Marshal" || len(call.Common().Args) != 1 {
			return
		}
		v := run.get(f, call.Common().Args[0])
		mi, ok := call.Common().Args[0].(*ssa.MakeInterface)
		if !ok || v.cell == nil {
			return
		}
		st, ok := deref(mi.X.Type()).Underlying().(*types.Struct)
		if !ok {
			return
		}
		for top := range wants {
			if top.fn != root {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if kind := isList(st.Field(i).Type()); kind != "" {
					check(top, kind, run.load(run.sub(v, "."+itoa(i)), st.Field(i).Type()), "of the answer")
				}
			}
		}
	})
}
