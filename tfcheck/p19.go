package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P19: the markup returned for a narrative fact consists of the renderer's own tags and of escaped text.

var tags19 = map[string]bool{
	"<table>": true, "</table>": true, "<tr>": true, "</tr>": true, "<th>": true, "</th>": true,
	"<td>": true, "</td>": true, "<br />": true, "<br/>": true, "<br>": true,
}

// piece19 is a part of the text that a string is made of.
type piece19 struct {
	kind string   // const, safe, taint, acc (looked at on its own), unknown
	vals []string // const: what it can be
	at   ssa.Instruction
	why  string
}

// frame19 says what the parameters of a function stand for.
type frame19 struct {
	call ssa.CallInstruction
	up   *frame19
}

type markup struct {
	c    *Ctx
	r    *Report
	done map[string]bool
	bad  map[string]bool
	n    int
}

func p19(c *Ctx, r *Report) {
	r.Rule("whatever is stored as the markup of a fact is made of constants whose tags all belong to the fixed set, and of text that went through HTML escaping after it was last unescaped")
	r.Rule("escaped text is not unescaped again")
	r.Assume("html.EscapeString escapes <, >, &, ' and \"")
	ft := c.NamedType("pkg/renderables", "FactExpression")
	r.Need(ft != nil, "type FactExpression not found")
	if ft == nil {
		return
	}
	m := &markup{c: c, r: r, done: map[string]bool{}, bad: map[string]bool{}}
	sinks := 0
	for _, fn := range c.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), ft) || field19(fa.X.Type(), fa.Field) != "InnerHtml" {
					continue
				}
				sinks++
				r.Fn(c, fn)
				m.text(s.Val, s, nil)
			}
		}
	}
	r.Need(sinks > 0, "nothing is stored as the markup of a fact")
	r.Count("places where markup is stored", sinks)
	r.Count("pieces of text", m.n)
}

// text decides about all that a string is made of.
func (m *markup) text(v ssa.Value, at ssa.Instruction, f *frame19) {
	key := fmt.Sprintf("%p %p", v, f)
	if m.done[key] {
		return
	}
	m.done[key] = true
	if f == nil || at.Parent() != nil {
		m.r.Fn(m.c, at.Parent())
	}
	m.sequence(m.pieces(v, at, f, 0))
}

// sequence decides about pieces that follow each other.
func (m *markup) sequence(ps []piece19) {
	pre := []string{""}
	for _, p := range ps {
		m.n++
		switch p.kind {
		case "taint":
			m.report(p, "unescaped", "%s becomes part of the markup without being escaped", p.why)
			pre = []string{""}
		case "unescaped":
			m.report(p, "unescaped-again", "%s", p.why)
		case "unknown":
			m.r.Open(fmt.Sprintf("%s: %s", m.c.PosOf(p.at), p.why))
			pre = []string{""}
		case "const":
			var out []string
			for _, a := range pre {
				for _, b := range p.vals {
					if len(out) < 200 {
						out = append(out, a+b)
					}
				}
			}
			pre = nil
			have := map[string]bool{}
			for _, s := range out {
				rest, bad := tagged19(s)
				if bad != "" {
					m.report(p, "other-tag", "%s is none of the tags that a narrative fact may contain", bad)
				}
				if !have[rest] {
					have[rest] = true
					pre = append(pre, rest)
				}
			}
			m.r.OK("constant markup at " + m.c.PosOf(p.at))
		case "safe":
			for _, s := range pre {
				if s != "" {
					m.report(p, "text-in-tag", "text of the filing becomes part of the tag %s", s)
					break
				}
			}
			pre = []string{""}
			m.r.OK("escaped text at " + m.c.PosOf(p.at))
		default:
			pre = []string{""}
		}
	}
}

func (m *markup) report(p piece19, rule, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	key := rule + m.c.PosOf(p.at) + msg
	if m.bad[key] {
		return
	}
	m.bad[key] = true
	m.r.Bad(rule, "markup made in "+m.c.FnName(p.at.Parent()), m.c.PosOf(p.at), "%s", msg)
}

// tagged19 splits constant markup: a tag that is begun and not ended is returned as the rest.
func tagged19(s string) (rest, bad string) {
	for {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			return "", ""
		}
		j := strings.IndexByte(s[i:], '>')
		if j < 0 {
			return s[i:], ""
		}
		t := s[i : i+j+1]
		if !tags19[strings.ToLower(t)] {
			return "", t
		}
		s = s[i+j+1:]
	}
}

func one19(kind string, at ssa.Instruction, why string) []piece19 {
	return []piece19{{kind: kind, at: at, why: why}}
}

// pieces lists what a string is made of, in order.
func (m *markup) pieces(v ssa.Value, at ssa.Instruction, f *frame19, depth int) []piece19 {
	if depth > 60 {
		return one19("unknown", at, "made in too many steps")
	}
	if i, ok := v.(ssa.Instruction); ok {
		if f == nil || i.Parent() == at.Parent() {
			at = i
		}
	}
	if vals, ok := m.consts(v, at, f, 0); ok {
		return []piece19{{kind: "const", vals: vals, at: at}}
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return append(m.pieces(x.X, x, f, depth+1), m.pieces(x.Y, x, f, depth+1)...)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			m.text(e, p.Instrs[len(p.Instrs)-1], f)
		}
		return one19("acc", at, "")
	case *ssa.ChangeType:
		return m.pieces(x.X, at, f, depth+1)
	case *ssa.MakeInterface:
		return m.pieces(x.X, at, f, depth+1)
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return one19("unknown", at, "a character")
		}
		return m.pieces(x.X, at, f, depth+1)
	case *ssa.Slice:
		return m.pieces(x.X, at, f, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return m.load(x, f, depth)
		}
	case *ssa.Field:
		return m.field(x.X.Type(), x.Field, at)
	case *ssa.Index, *ssa.Lookup:
		return one19("unknown", at, "an element")
	case *ssa.Parameter:
		return m.param(x, at, f, depth)
	case *ssa.FreeVar:
		if b := m.c.binding(x); b != nil {
			m.text(b, at, nil)
			return one19("acc", at, "")
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return m.call(call, x.Index, f, depth)
		}
	case *ssa.Call:
		return m.call(x, 0, f, depth)
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
		return one19("safe", at, "a number")
	}
	return one19("unknown", at, "text of an unknown kind")
}

func (m *markup) param(x *ssa.Parameter, at ssa.Instruction, f *frame19, depth int) []piece19 {
	fn := x.Parent()
	idx := -1
	for i, p := range fn.Params {
		if p == x {
			idx = i
		}
	}
	if f != nil {
		for _, g := range m.c.ModCallees(f.call) {
			if g == fn {
				if as := argsOf(f.call); idx < len(as) {
					return m.pieces(as[idx], f.call, f.up, depth+1)
				}
			}
		}
	}
	n := 0
	for _, ci := range m.c.Callers(fn) {
		if as := argsOf(ci); idx < len(as) {
			n++
			m.text(as[idx], ci, nil)
		}
	}
	if n == 0 {
		return one19("unknown", at, "a parameter")
	}
	return one19("acc", at, "")
}

// field: what a field of a struct holds.
func (m *markup) field(t types.Type, i int, at ssa.Instruction) []piece19 {
	n, _ := types.Unalias(deref(t)).(*types.Named)
	name := field19(t, i)
	if n != nil && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		switch {
		case strings.HasSuffix(p, "/pkg/hydratables"), strings.HasSuffix(p, "/pkg/serializables"), strings.HasSuffix(p, "net/html"), strings.HasSuffix(p, "xmlquery"), strings.HasSuffix(p, "encoding/xml"):
			return one19("taint", at, n.Obj().Name()+"."+name)
		}
	}
	// a struct of the renderer's own: everything that is ever stored there
	k := 0
	for _, fn := range m.c.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == i && types.Identical(deref(fa.X.Type()), deref(t)) {
					k++
					m.text(s.Val, s, nil)
				}
			}
		}
	}
	if k == 0 {
		return one19("unknown", at, "the field "+name)
	}
	return one19("acc", at, "")
}

func (m *markup) load(x *ssa.UnOp, f *frame19, depth int) []piece19 {
	switch a := x.X.(type) {
	case *ssa.FieldAddr:
		return m.field(a.X.Type(), a.Field, x)
	case *ssa.IndexAddr:
		return m.elements(a.X, x, f)
	case *ssa.Global:
		for _, fn := range m.c.Fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						m.text(s.Val, s, nil)
					}
				}
			}
		}
		return one19("acc", x, "")
	}
	// the store just before, so that a tag put together in steps is seen as one
	b := x.Block()
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i] != ssa.Instruction(x) {
			continue
		}
	back:
		for i--; i >= 0; i-- {
			switch y := b.Instrs[i].(type) {
			case *ssa.Store:
				if y.Addr == x.X {
					return m.pieces(y.Val, y, f, depth+1)
				}
			case *ssa.Call:
				if g := y.Call.StaticCallee(); g == nil || m.c.InModule(g) {
					break back
				}
			}
		}
		break
	}
	root := x.X
	for i := 0; i < 20; i++ {
		fv, ok := root.(*ssa.FreeVar)
		if !ok {
			break
		}
		nb := m.c.binding(fv)
		if nb == nil {
			return one19("unknown", x, "a captured variable")
		}
		root = nb
	}
	if al, ok := root.(*ssa.Alloc); ok {
		ss, _ := m.c.storesTo(al)
		for _, s := range ss {
			sf := f
			if s.Parent() != x.Parent() {
				sf = nil
			}
			m.text(s.Val, s, sf)
		}
		return one19("acc", x, "")
	}
	if p, ok := root.(*ssa.Parameter); ok { // through a pointer: everything callers let it point at, and what is stored there
		for _, u := range *p.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(p) {
				m.text(s.Val, s, f)
			}
		}
		for _, ci := range m.c.Callers(p.Parent()) {
			for i, q := range p.Parent().Params {
				if q == p && i < len(argsOf(ci)) {
					if al, ok := argsOf(ci)[i].(*ssa.Alloc); ok {
						ss, _ := m.c.storesTo(al)
						for _, s := range ss {
							m.text(s.Val, s, nil)
						}
					}
				}
			}
		}
		return one19("acc", x, "")
	}
	return one19("unknown", x, "a variable")
}

// elements: everything that a slice of strings is made of.
func (m *markup) elements(v ssa.Value, at ssa.Instruction, f *frame19) []piece19 {
	seen := map[ssa.Value]bool{}
	known := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.Slice:
			visit(x.X)
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.Const:
		case *ssa.MakeSlice, *ssa.Alloc:
			for _, u := range *v.Referrers() {
				switch y := u.(type) {
				case *ssa.IndexAddr:
					for _, w := range *y.Referrers() {
						if s, ok := w.(*ssa.Store); ok {
							m.text(s.Val, s, f)
						}
					}
				case *ssa.Store:
					if y.Addr == v {
						visit(y.Val)
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				root := x.X
				if fv, ok := root.(*ssa.FreeVar); ok {
					root = m.c.binding(fv)
				}
				if al, ok := root.(*ssa.Alloc); ok {
					ss, _ := m.c.storesTo(al)
					for _, s := range ss {
						visit(s.Val)
					}
					return
				}
			}
			known = false
		case *ssa.Call:
			if calleeName(&x.Call) == "append" {
				for _, a := range x.Call.Args {
					visit(a)
				}
				return
			}
			known = false
		default:
			known = false
		}
	}
	visit(v)
	if !known {
		return one19("unknown", at, "an element of a list")
	}
	return one19("acc", at, "")
}

var verb19 = regexp.MustCompile(`%[-+# 0-9.]*[a-zA-Z%]`)

func (m *markup) call(x *ssa.Call, idx int, f *frame19, depth int) []piece19 {
	cc := &x.Call
	n := calleeName(cc)
	arg := func(i int) []piece19 { return m.pieces(cc.Args[i], x, f, depth+1) }
	switch n {
	case "html.EscapeString", "golang.org/x/net/html.EscapeString", "html/template.HTMLEscapeString", "text/template.HTMLEscapeString":
		return one19("safe", x, "")
	case "html.UnescapeString", "golang.org/x/net/html.UnescapeString":
		ps := arg(0)
		for _, p := range ps {
			if p.kind == "safe" || p.kind == "acc" {
				return []piece19{{kind: "unescaped", at: x, why: "text that was already escaped is unescaped again"}}
			}
		}
		return one19("taint", x, "unescaped text")
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatFloat", "strconv.FormatBool":
		return one19("safe", x, "a number")
	case "strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToValidUTF8", "strings.Clone", "strings.Repeat":
		return arg(0)
	case "strings.ToLower", "strings.ToUpper", "strings.Title":
		return arg(0)
	case "strings.Replace", "strings.ReplaceAll":
		ps := arg(0)
		old, ok1 := m.consts(cc.Args[1], x, f, 0)
		new, ok2 := m.consts(cc.Args[2], x, f, 0)
		if ok1 && ok2 && len(old) == 1 && len(new) == 1 {
			if old[0] == "<" && !strings.Contains(new[0], "<") {
				return one19("safe", x, "")
			}
			if strings.Contains(old[0], "&") && strings.ContainsAny(new[0], "<>") {
				for _, p := range ps {
					if p.kind == "safe" || p.kind == "acc" {
						return []piece19{{kind: "unescaped", at: x, why: fmt.Sprintf("text that was already escaped is unescaped again, %q becomes %q", old[0], new[0])}}
					}
				}
			}
			return append(ps, piece19{kind: "const", vals: new, at: x})
		}
		return ps
	case "(*strings.Replacer).Replace":
		if mk, ok := cc.Args[0].(*ssa.Call); ok && calleeName(&mk.Call) == "strings.NewReplacer" {
			if m.replacer(mk, f) {
				return one19("safe", x, "")
			}
		}
		if u, ok := cc.Args[0].(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				for _, mk := range m.globalInit(g) {
					if call, ok := mk.(*ssa.Call); ok && calleeName(&call.Call) == "strings.NewReplacer" && m.replacer(call, nil) {
						return one19("safe", x, "")
					}
				}
			}
		}
		return arg(1)
	case "strings.Join":
		m.sequence(m.elements(cc.Args[0], x, f))
		return append(one19("acc", x, ""), arg(1)...)
	case "fmt.Sprintf":
		return m.format(x, cc.Args[0], cc.Args[1], f, depth)
	case "fmt.Sprint", "fmt.Sprintln":
		var out []piece19
		for _, a := range variadicArgs(cc.Args[0]) {
			out = append(out, m.pieces(a, x, f, depth+1)...)
		}
		return out
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		m.written(cc.Args[0], x, f)
		return one19("acc", x, "")
	case "(golang.org/x/net/html.Token).String":
		if m.isText(cc.Args[0], x) {
			return one19("safe", x, "")
		}
		return one19("taint", x, "a token of the filing as it was written")
	case "append":
		var out []piece19
		for i := range cc.Args {
			out = append(out, arg(i)...)
		}
		return out
	}
	if strings.Contains(n, "net/html.Tokenizer)") {
		return one19("taint", x, "what the tokenizer read")
	}
	mods := m.c.ModCallees(x)
	if len(mods) > 0 {
		for _, g := range mods {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					rs := results(ret)
					if idx < len(rs) {
						if len(mods) == 1 && len(g.Blocks) == 1 && depth < 20 {
							return m.pieces(rs[idx], ret, &frame19{x, f}, depth+1)
						}
						if f.depth() < 6 {
							m.text(rs[idx], ret, &frame19{x, f})
						}
					}
				}
			}
		}
		return one19("acc", x, "")
	}
	// a function of a library: what goes in comes out
	if g := cc.StaticCallee(); g != nil {
		var out []piece19
		for i, a := range cc.Args {
			switch u := a.Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					out = append(out, arg(i)...)
				}
			case *types.Slice:
				if isByte(u.Elem()) {
					out = append(out, arg(i)...)
				}
			}
		}
		for _, p := range out {
			if p.kind == "taint" || p.kind == "unescaped" {
				return []piece19{p}
			}
		}
	}
	return one19("unknown", x, "the result of "+n)
}

func (f *frame19) depth() int {
	n := 0
	for ; f != nil; f = f.up {
		n++
	}
	return n
}

// replacer: the replacements take away what begins a tag.
func (m *markup) replacer(mk *ssa.Call, f *frame19) bool {
	as := variadicArgs(mk.Call.Args[0])
	ok := false
	for i := 0; i+1 < len(as); i += 2 {
		o, ok1 := text19(as[i])
		n, ok2 := text19(as[i+1])
		if !ok1 || !ok2 || strings.Contains(n, "<") {
			return false
		}
		ok = ok || o == "<"
	}
	return ok
}

func (m *markup) globalInit(g *ssa.Global) []ssa.Value {
	var out []ssa.Value
	if g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				out = append(out, s.Val)
			}
		}
	}
	return out
}

func (m *markup) format(x *ssa.Call, format ssa.Value, rest ssa.Value, f *frame19, depth int) []piece19 {
	fs, ok := m.consts(format, x, f, 0)
	if !ok || len(fs) != 1 {
		return append(m.pieces(format, x, f, depth+1), one19("unknown", x, "formatted text")...)
	}
	as := variadicArgs(rest)
	var out []piece19
	lit, k := fs[0], 0
	for {
		loc := verb19.FindStringIndex(lit)
		if loc == nil {
			break
		}
		if loc[0] > 0 {
			out = append(out, piece19{kind: "const", vals: []string{lit[:loc[0]]}, at: x})
		}
		v := lit[loc[1]-1]
		lit = lit[loc[1]:]
		if v == '%' {
			out = append(out, piece19{kind: "const", vals: []string{"%"}, at: x})
			continue
		}
		if k < len(as) {
			if v == 'd' {
				out = append(out, one19("safe", x, "a number")...)
			} else {
				out = append(out, m.pieces(as[k], x, f, depth+1)...)
			}
		}
		k++
	}
	if lit != "" {
		out = append(out, piece19{kind: "const", vals: []string{lit}, at: x})
	}
	return out
}

// written looks at everything written to a builder, block by block.
func (m *markup) written(b ssa.Value, at ssa.Instruction, f *frame19) {
	roots := map[ssa.Value]bool{}
	place := ""
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if v == nil || roots[v] {
			return
		}
		roots[v] = true
		switch x := v.(type) {
		case *ssa.FreeVar:
			add(m.c.binding(x))
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.FieldAddr:
			place = placeOf(x)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				add(x.X)
				if al, ok := x.X.(*ssa.Alloc); ok {
					ss, _ := m.c.storesTo(al)
					for _, s := range ss {
						add(s.Val)
					}
				}
			}
		case *ssa.Parameter:
			for _, ci := range m.c.Callers(x.Parent()) {
				for i, p := range x.Parent().Params {
					if p == x && i < len(argsOf(ci)) {
						add(argsOf(ci)[i])
					}
				}
			}
		}
	}
	add(b)
	var same func(v ssa.Value, depth int) bool
	same = func(v ssa.Value, depth int) bool {
		if roots[v] {
			return true
		}
		if depth > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.FreeVar:
			nb := m.c.binding(x)
			return nb != nil && same(nb, depth+1)
		case *ssa.FieldAddr:
			return place != "" && placeOf(x) == place
		case *ssa.MakeInterface:
			return same(x.X, depth+1)
		case *ssa.UnOp:
			return x.Op == token.MUL && same(x.X, depth+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && same(e, depth+1) {
					return true
				}
			}
		case *ssa.Parameter:
			for _, ci := range m.c.Callers(x.Parent()) {
				for i, p := range x.Parent().Params {
					if p == x && i < len(argsOf(ci)) && same(argsOf(ci)[i], depth+1) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fn := range m.c.Fns {
		if m.c.RelPkg(fn) != m.c.RelPkg(at.Parent()) {
			continue
		}
		for _, blk := range fn.Blocks {
			var seq []piece19
			for _, ins := range blk.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || len(call.Call.Args) == 0 {
					continue
				}
				switch calleeName(&call.Call) {
				case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write":
					if same(call.Call.Args[0], 0) {
						seq = append(seq, m.pieces(call.Call.Args[1], call, nil, 0)...)
					}
				case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
					if same(call.Call.Args[0], 0) {
						if k, ok := call.Call.Args[1].(*ssa.Const); ok {
							seq = append(seq, piece19{kind: "const", vals: []string{string(rune(k.Int64()))}, at: call})
						} else {
							seq = append(seq, one19("unknown", call, "a character")...)
						}
					}
				case "io.WriteString":
					if same(call.Call.Args[0], 0) {
						seq = append(seq, m.pieces(call.Call.Args[1], call, nil, 0)...)
					}
				case "fmt.Fprintf":
					if same(call.Call.Args[0], 0) {
						seq = append(seq, m.format(call, call.Call.Args[1], call.Call.Args[2], nil, 0)...)
					}
				case "fmt.Fprint", "fmt.Fprintln":
					if same(call.Call.Args[0], 0) {
						for _, a := range variadicArgs(call.Call.Args[1]) {
							seq = append(seq, m.pieces(a, call, nil, 0)...)
						}
					}
				}
			}
			if len(seq) > 0 {
				m.r.Fn(m.c, fn)
				m.sequence(seq)
			}
		}
	}
}

// isText: the token is known to be a text token here.
func (m *markup) isText(tok ssa.Value, at ssa.Instruction) bool {
	for d := at.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) == 0 {
			continue
		}
		all := true
		for _, p := range d.Preds {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || p.Succs[0] != d {
				all = false
				break
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL || typeName(cmp.X.Type()) != "TokenType" {
				all = false
				break
			}
			k, ok := cmp.Y.(*ssa.Const)
			if !ok {
				k, ok = cmp.X.(*ssa.Const)
			}
			if !ok || k.Int64() != 1 {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// consts lists what a string can be when there are only so many possibilities.
func (m *markup) consts(v ssa.Value, at ssa.Instruction, f *frame19, depth int) ([]string, bool) {
	if depth > 12 {
		return nil, false
	}
	if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}, true
		}
	case *ssa.ChangeType:
		return m.consts(x.X, at, f, depth+1)
	case *ssa.Phi:
		set := map[string]bool{}
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			p := x.Block().Preds[i]
			vs, ok := m.consts(e, p.Instrs[len(p.Instrs)-1], f, depth+1)
			if !ok {
				return nil, false
			}
			for _, s := range vs {
				set[s] = true
			}
		}
		return sorted19(set), true
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, ok1 := m.consts(x.X, x, f, depth+1)
			b, ok2 := m.consts(x.Y, x, f, depth+1)
			if ok1 && ok2 && len(a)*len(b) <= 200 {
				set := map[string]bool{}
				for _, p := range a {
					for _, q := range b {
						set[p+q] = true
					}
				}
				return sorted19(set), true
			}
			return nil, false
		}
	case *ssa.Lookup:
		if vs, ok := m.mapValues(x.X); ok {
			return vs, true
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			if vs, ok := m.mapValues(lk.X); ok {
				return vs, true
			}
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				if vs, ok := m.mapKeys(rg.X); ok {
					return vs, true
				}
			}
		}
	case *ssa.Parameter:
		if f != nil {
			for _, g := range m.c.ModCallees(f.call) {
				if g == x.Parent() {
					for i, p := range g.Params {
						if as := argsOf(f.call); p == x && i < len(as) {
							if vs, ok := m.consts(as[i], f.call, f.up, depth+1); ok {
								return vs, true
							}
						}
					}
				}
			}
			break
		}
		cs := m.c.Callers(x.Parent())
		if len(cs) == 0 {
			break
		}
		set, all := map[string]bool{}, true
		for _, ci := range cs {
			for i, p := range x.Parent().Params {
				if as := argsOf(ci); p == x && i < len(as) {
					vs, ok := m.consts(as[i], ci, nil, depth+1)
					all = all && ok
					for _, s := range vs {
						set[s] = true
					}
				}
			}
		}
		if all && len(set) > 0 {
			return sorted19(set), true
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "strings.ToLower", "strings.TrimSpace":
			if vs, ok := m.consts(x.Call.Args[0], x, f, depth+1); ok {
				return vs, true
			}
		}
		mods := m.c.ModCallees(x)
		if len(mods) == 0 || len(mods) > 3 {
			break
		}
		set := map[string]bool{}
		for _, g := range mods {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					rs := results(ret)
					if len(rs) != 1 {
						return nil, false
					}
					vs, ok := m.consts(rs[0], ret, &frame19{x, f}, depth+1)
					if !ok {
						return nil, false
					}
					for _, s := range vs {
						set[s] = true
					}
				}
			}
		}
		return sorted19(set), len(set) > 0
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if vs, ok := m.listValues(ia.X); ok {
				return vs, true
			}
		}
	}
	return m.narrowed(v, at)
}

func text19(v ssa.Value) (string, bool) {
	if k, ok := stripConv(v).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	return "", false
}

func field19(t types.Type, i int) string {
	if st, ok := deref(t).Underlying().(*types.Struct); ok {
		return st.Field(i).Name()
	}
	return ""
}

func sorted19(set map[string]bool) []string {
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// sameText: two loads give the same text.
func (m *markup) sameText(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != y.Op {
			return false
		}
		if x.X == y.X {
			return true
		}
		fx, ok1 := x.X.(*ssa.FieldAddr)
		fy, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fx.Field == fy.Field && (fx.X == fy.X || m.sameText(fx.X, fy.X))
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && m.sameText(x.X, y.X)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || !strings.HasPrefix(calleeName(&x.Call), "strings.") || calleeName(&x.Call) != calleeName(&y.Call) || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		for i := range x.Call.Args {
			if !m.sameText(x.Call.Args[i], y.Call.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// narrowed: the text was compared with constants, or looked for among them, on every way here.
func (m *markup) narrowed(v ssa.Value, at ssa.Instruction) ([]string, bool) {
	for d := at.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) == 0 {
			break
		}
		set, all := map[string]bool{}, true
		for _, p := range d.Preds {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || p.Succs[0] == p.Succs[1] {
				all = false
				break
			}
			vs, ok := m.oneOf(iff.Cond, p.Succs[0] == d, v)
			if !ok {
				all = false
				break
			}
			for _, s := range vs {
				set[s] = true
			}
		}
		if all {
			return sorted19(set), true
		}
	}
	return nil, false
}

// oneOf: the condition having that outcome says that the text is one of a few.
func (m *markup) oneOf(cond ssa.Value, truth bool, v ssa.Value) ([]string, bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return m.oneOf(x.X, !truth, v)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL && truth || x.Op == token.NEQ && !truth {
			if s, ok := text19(x.Y); ok && m.sameText(x.X, v) {
				return []string{s}, true
			}
			if s, ok := text19(x.X); ok && m.sameText(x.Y, v) {
				return []string{s}, true
			}
		}
	case *ssa.Lookup:
		if truth && m.sameText(x.Index, v) {
			return m.mapKeys(x.X)
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && truth && m.sameText(lk.Index, v) {
			return m.mapKeys(lk.X)
		}
	case *ssa.Call:
		if truth && calleeName(&x.Call) == "slices.Contains" && m.sameText(x.Call.Args[1], v) {
			return m.listValues(x.Call.Args[0])
		}
		if g := x.Call.StaticCallee(); truth && g != nil && m.c.InModule(g) && len(g.Params) == len(x.Call.Args) {
			for i, a := range x.Call.Args {
				if m.sameText(a, v) {
					return m.accepts(g, g.Params[i])
				}
			}
		}
	}
	return nil, false
}

// accepts: the texts for which a function of its own says true.
func (m *markup) accepts(g *ssa.Function, p *ssa.Parameter) ([]string, bool) {
	set := map[string]bool{}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		rs := results(ret)
		if len(rs) != 1 || !isBool(rs[0].Type()) {
			return nil, false
		}
		var outcome func(r ssa.Value, at ssa.Instruction) bool
		outcome = func(r ssa.Value, at ssa.Instruction) bool {
			if k, ok := r.(*ssa.Const); ok {
				if !constant.BoolVal(k.Value) {
					return true
				}
				vs, ok := m.narrowed(p, at)
				for _, s := range vs {
					set[s] = true
				}
				return ok
			}
			if ph, ok := r.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					q := ph.Block().Preds[i]
					if k, ok := e.(*ssa.Const); ok && constant.BoolVal(k.Value) {
						iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
						if !ok {
							return outcome(e, q.Instrs[len(q.Instrs)-1])
						}
						vs, ok := m.oneOf(iff.Cond, q.Succs[0] == ph.Block(), p)
						if !ok {
							return false
						}
						for _, s := range vs {
							set[s] = true
						}
						continue
					}
					if !outcome(e, q.Instrs[len(q.Instrs)-1]) {
						return false
					}
				}
				return true
			}
			vs, ok := m.oneOf(r, true, p)
			for _, s := range vs {
				set[s] = true
			}
			return ok
		}
		if !outcome(rs[0], ret) {
			return nil, false
		}
	}
	return sorted19(set), len(set) > 0
}

// maker finds the one place where a map or list is made.
func (m *markup) maker(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			switch a := x.X.(type) {
			case *ssa.Global:
				ins := m.globalInit(a)
				if len(ins) != 1 {
					return nil
				}
				v = ins[0]
				continue
			case *ssa.Alloc:
				ss, _ := m.c.storesTo(a)
				if len(ss) != 1 {
					return nil
				}
				v = ss[0].Val
				continue
			case *ssa.FreeVar:
				b := m.c.binding(a)
				al, ok := b.(*ssa.Alloc)
				if !ok {
					return nil
				}
				ss, _ := m.c.storesTo(al)
				if len(ss) != 1 {
					return nil
				}
				v = ss[0].Val
				continue
			}
			return nil
		case *ssa.FreeVar:
			v = m.c.binding(x)
			if v == nil {
				return nil
			}
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
	return nil
}

func (m *markup) mapUpdates(v ssa.Value) ([]*ssa.MapUpdate, bool) {
	mk, ok := m.maker(v).(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	var out []*ssa.MapUpdate
	for _, u := range *mk.Referrers() {
		switch x := u.(type) {
		case *ssa.MapUpdate:
			if x.Map == ssa.Value(mk) {
				out = append(out, x)
			}
		case *ssa.Lookup, *ssa.DebugRef, *ssa.Range, *ssa.Store:
		default:
			return nil, false
		}
	}
	return out, true
}

func (m *markup) mapKeys(v ssa.Value) ([]string, bool) {
	us, ok := m.mapUpdates(v)
	if !ok {
		return nil, false
	}
	set := map[string]bool{}
	for _, u := range us {
		s, ok := text19(u.Key)
		if !ok {
			return nil, false
		}
		if k, ok := u.Value.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
			continue
		}
		set[s] = true
	}
	return sorted19(set), true
}

func (m *markup) mapValues(v ssa.Value) ([]string, bool) {
	us, ok := m.mapUpdates(v)
	if !ok {
		return nil, false
	}
	set := map[string]bool{"": true}
	for _, u := range us {
		s, ok := text19(u.Value)
		if !ok {
			return nil, false
		}
		set[s] = true
	}
	return sorted19(set), true
}

func (m *markup) listValues(v ssa.Value) ([]string, bool) {
	al, ok := m.maker(v).(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	set := map[string]bool{}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok {
				t, ok := text19(s.Val)
				if !ok {
					return nil, false
				}
				set[t] = true
			}
		}
	}
	return sorted19(set), len(set) > 0
}

func init() { register("P19", p19) }
