package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms name values by how they are computed, across calls: small functions
// are expanded, texts put together in different ways come out the same. A
// question mark stands for what is not followed.

type tframe struct {
	fn   *ssa.Function
	env  map[*ssa.Parameter]string
	up   *tframe // the frame that encloses a closure
	busy map[*ssa.Function]bool
	open map[*ssa.Alloc]bool // being named
}

type terms struct {
	c *Ctx
}

const catSep = "\x01"

func cat(parts ...string) string {
	var out []string
	for _, p := range parts {
		if p == `""` {
			continue
		}
		for _, q := range strings.Split(p, catSep) {
			// neighbouring constants
			if n := len(out); n > 0 && strings.HasPrefix(q, `"`) && strings.HasPrefix(out[n-1], `"`) {
				out[n-1] = out[n-1][:len(out[n-1])-1] + q[1:]
				continue
			}
			out = append(out, q)
		}
	}
	if len(out) == 0 {
		return `""`
	}
	return strings.Join(out, catSep)
}

func showTerm(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, catSep, "+"), "ecksbee.com/telefacts/pkg/", "")
}

func (t *terms) frame(fn *ssa.Function, env map[*ssa.Parameter]string, up *tframe) *tframe {
	f := &tframe{fn: fn, env: env, up: up, busy: map[*ssa.Function]bool{fn: true}, open: map[*ssa.Alloc]bool{}}
	if up != nil {
		for k := range up.busy {
			f.busy[k] = true
		}
	}
	return f
}

// x names a value.
func (t *terms) x(f *tframe, v ssa.Value, depth int) string {
	if depth > 60 {
		return "?"
	}
	depth++
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		if x.Value.Kind() == constant.String {
			return `"` + constant.StringVal(x.Value) + `"`
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		if s, ok := f.env[x]; ok {
			return s
		}
		return x.Parent().Name() + "." + x.Name()
	case *ssa.Global:
		return "&" + x.String()
	case *ssa.Function:
		return x.String()
	case *ssa.FreeVar:
		if f.up != nil {
			if b := t.c.binding(x); b != nil {
				return t.x(f.up, b, depth)
			}
		}
		return "?" + x.Name()
	case *ssa.Alloc:
		return "&" + t.content(f, x, depth)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return t.load(f, x.X, depth)
		case token.NOT:
			return "!" + t.x(f, x.X, depth)
		}
		return x.Op.String() + "(" + t.x(f, x.X, depth) + ")"
	case *ssa.Field:
		n, _ := fieldName(x.X.Type(), x.Field)
		return t.part(t.x(f, x.X, depth), n)
	case *ssa.FieldAddr:
		return "&" + t.load(f, x, depth)
	case *ssa.IndexAddr:
		return "&" + t.load(f, x, depth)
	case *ssa.Index:
		return t.x(f, x.X, depth) + t.index(f, x.Index, x.X, depth)
	case *ssa.Lookup:
		return t.x(f, x.X, depth) + "[" + t.x(f, x.Index, depth) + "]"
	case *ssa.BinOp:
		a, b := t.x(f, x.X, depth), t.x(f, x.Y, depth)
		if x.Op == token.ADD && isString(x.Type()) {
			return cat(a, b)
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.ADD, token.MUL:
			if b < a {
				a, b = b, a
			}
		case token.GTR:
			return "(" + b + "<" + a + ")"
		case token.GEQ:
			return "(" + b + "<=" + a + ")"
		}
		return "(" + a + x.Op.String() + b + ")"
	case *ssa.Convert:
		return t.x(f, x.X, depth)
	case *ssa.ChangeType:
		return t.x(f, x.X, depth)
	case *ssa.MakeInterface:
		return t.x(f, x.X, depth)
	case *ssa.ChangeInterface:
		return t.x(f, x.X, depth)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			if _, isArr := deref(x.X.Type()).Underlying().(*types.Array); !isArr {
				return t.x(f, x.X, depth)
			}
			return "?"
		}
		s := "slice(" + t.x(f, x.X, depth)
		for _, y := range []ssa.Value{x.Low, x.High} {
			if y == nil {
				s += ","
			} else {
				s += "," + t.x(f, y, depth)
			}
		}
		return s + ")"
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return t.call(f, call, x.Index, depth)
		}
		switch y := x.Tuple.(type) {
		case *ssa.Lookup:
			if x.Index == 0 {
				return t.x(f, y.X, depth) + "[" + t.x(f, y.Index, depth) + "]"
			}
			return "has(" + t.x(f, y.X, depth) + "," + t.x(f, y.Index, depth) + ")"
		case *ssa.Next:
			if rg, ok := y.Iter.(*ssa.Range); ok && x.Index > 0 {
				return t.x(f, rg.X, depth) + []string{"", "{}", "[]"}[x.Index]
			}
		}
		return "?"
	case *ssa.Call:
		return t.call(f, x, 0, depth)
	case *ssa.Phi:
		s := ""
		for i, e := range x.Edges {
			if e == ssa.Value(x) {
				continue
			}
			// lists that are filled in place keep their name
			y := t.x(f, e, depth+10)
			if i == 0 {
				s = y
			} else if s != y {
				return "?"
			}
		}
		return s
	}
	return "?"
}

func (t *terms) part(s, field string) string {
	if strings.HasPrefix(s, "{") {
		// a composite
		for _, kv := range splitTop(s[1 : len(s)-1]) {
			if i := strings.Index(kv, ":"); i > 0 && kv[:i] == field {
				return kv[i+1:]
			}
		}
		return "zero"
	}
	if strings.HasPrefix(s, "changed(") && strings.HasSuffix(s, ")") {
		// a copy with some parts replaced
		kvs := splitTop(s[len("changed(") : len(s)-1])
		for _, kv := range kvs[1:] {
			if i := strings.Index(kv, ":"); i > 0 && kv[:i] == field {
				return kv[i+1:]
			}
		}
		return t.part(kvs[0], field)
	}
	return s + "." + field
}

func splitTop(s string) []string {
	var r []string
	n, last := 0, 0
	for i, ch := range s {
		switch ch {
		case '{', '(', '[':
			n++
		case '}', ')', ']':
			n--
		case ';':
			if n == 0 {
				r = append(r, s[last:i])
				last = i + 1
			}
		}
	}
	return append(r, s[last:])
}

// load names what is at an address.
func (t *terms) load(f *tframe, a ssa.Value, depth int) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		n, _ := fieldName(deref(x.X.Type()), x.Field)
		return t.part(t.load(f, x.X, depth+1), n)
	case *ssa.IndexAddr:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			_ = p
			return t.load(f, x.X, depth+1) + t.index(f, x.Index, x.X, depth)
		}
		return t.x(f, x.X, depth) + t.index(f, x.Index, x.X, depth)
	}
	s := t.x(f, a, depth)
	if strings.HasPrefix(s, "&") {
		return s[1:]
	}
	return "*" + s
}

// content names what a variable holds.
func (t *terms) content(f *tframe, al *ssa.Alloc, depth int) string {
	if depth > 50 {
		return "?"
	}
	if isBuilder(al.Type()) {
		return t.written(f, al, depth)
	}
	stores, _ := t.c.storesTo(al)
	var parts []string
	plain := true
	reentered := f.open[al]
	f.open[al] = true
	defer func() { f.open[al] = reentered }()
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || reentered {
			continue
		}
		n, _ := fieldName(deref(fa.X.Type()), fa.Field)
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				parts = append(parts, n+":"+t.x(f, st.Val, depth+1))
				plain = false
			}
		}
	}
	switch {
	case len(stores) == 1 && plain:
		if stores[0].Parent() != al.Parent() {
			return "?"
		}
		return t.x(f, stores[0].Val, depth+1)
	case len(stores) == 0 && !plain:
		sort.Strings(parts)
		return "{" + strings.Join(parts, ";") + "}"
	case len(stores) == 1:
		return "changed(" + t.x(f, stores[0].Val, depth+1) + ";" + strings.Join(parts, ";") + ")"
	case len(stores) > 1:
		// the same every time
		s := ""
		for i, st := range stores {
			if st.Parent() != al.Parent() {
				return "?"
			}
			y := t.x(f, st.Val, depth+10)
			if i > 0 && s != y {
				return "?" + al.Comment
			}
			s = y
		}
		return s
	}
	return "zero"
}

func isBuilder(p types.Type) bool {
	switch deref(p).String() {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

// written names what is written to a builder or a digest, one after another.
func (t *terms) written(f *tframe, w ssa.Value, depth int) string {
	type wr struct {
		ins ssa.Instruction
		s   string
	}
	var ws []wr
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.MakeInterface, *ssa.ChangeInterface:
				visit(x.(ssa.Value))
			case *ssa.Call:
				cc := &x.Call
				n := calleeName(cc)
				i := strings.LastIndex(n, ".")
				recv := cc.IsInvoke() && cc.Value == v || !cc.IsInvoke() && len(cc.Args) > 0 && cc.Args[0] == v
				if !recv {
					continue
				}
				args := cc.Args
				if !cc.IsInvoke() {
					args = args[1:]
				}
				switch n[i+1:] {
				case "Write", "WriteString", "WriteByte", "WriteRune":
					if loopOf(x.Parent(), x.Block()) != nil && loopOf(x.Parent(), x.Block()) != loopOf(w.Parent(), blockOf(w)) {
						ws = append(ws, wr{x, "?"})
					} else {
						ws = append(ws, wr{x, t.x(f, args[0], depth+1)})
					}
				case "Fprintf", "Fprint":
					ws = append(ws, wr{x, t.format(f, cc, 1, depth)})
				}
			}
		}
	}
	visit(w)
	sort.SliceStable(ws, func(i, j int) bool { return precedes(ws[i].ins, ws[j].ins) })
	var parts []string
	for _, x := range ws {
		parts = append(parts, x.s)
	}
	return cat(parts...)
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if ins, ok := v.(ssa.Instruction); ok {
		return ins.Block()
	}
	return nil
}

// variadic lists the arguments behind dots.
func variadicArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at := map[int64]ssa.Value{}
	for _, ref := range *arr.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				at[k.Int64()] = st.Val
			}
		}
	}
	var r []ssa.Value
	for i := int64(0); i < int64(len(at)); i++ {
		if at[i] == nil {
			return nil
		}
		r = append(r, at[i])
	}
	return r
}

// format names the text that a format makes of strings.
func (t *terms) format(f *tframe, cc *ssa.CallCommon, at int, depth int) string {
	if len(cc.Args) < at+2 {
		return "?"
	}
	k, ok := cc.Args[at].(*ssa.Const)
	if !ok || k.Value == nil {
		return "?"
	}
	args := variadicArgs(cc.Args[at+1])
	fm := constant.StringVal(k.Value)
	var parts []string
	n := 0
	for fm != "" {
		i := strings.IndexByte(fm, '%')
		if i < 0 {
			parts = append(parts, `"`+fm+`"`)
			break
		}
		if i > 0 {
			parts = append(parts, `"`+fm[:i]+`"`)
		}
		if i+1 >= len(fm) {
			return "?"
		}
		switch fm[i+1] {
		case 's', 'v':
			if n >= len(args) || !isString(stripConv(args[n]).Type()) {
				return "?"
			}
			parts = append(parts, t.x(f, args[n], depth+1))
			n++
		case '%':
			parts = append(parts, `"%"`)
		default:
			return "?"
		}
		fm = fm[i+2:]
	}
	return cat(parts...)
}

// index names a position in a list: [] when it runs over all of them.
func (t *terms) index(f *tframe, i ssa.Value, list ssa.Value, depth int) string {
	if k, ok := constOf(i, 0); ok {
		return fmt.Sprintf("[%d]", k)
	}
	if k, ok := loopStart(i); ok && k != 0 {
		return fmt.Sprintf("[%d..]", k)
	}
	if ph, _ := fullLoop(t, f, i, list, depth); ph != nil {
		return "[]"
	}
	return "[?]"
}

// constOf: an integer that is the same every time.
func constOf(v ssa.Value, depth int) (int64, bool) {
	if depth > 5 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return x.Int64(), true
		}
	case *ssa.Phi:
		if len(x.Edges) == 1 {
			return constOf(x.Edges[0], depth+1)
		}
	case *ssa.BinOp:
		a, ok := constOf(x.X, depth+1)
		b, ok2 := constOf(x.Y, depth+1)
		if ok && ok2 && x.Op == token.ADD {
			return a + b, true
		}
	}
	return 0, false
}

// loopStart: where a loop variable starts.
func loopStart(i ssa.Value) (int64, bool) {
	ph, ok := i.(*ssa.Phi)
	add := int64(0)
	if b, isB := i.(*ssa.BinOp); isB && b.Op == token.ADD {
		ph, ok = b.X.(*ssa.Phi)
		add = 1
	}
	if !ok || ph == nil {
		return 0, false
	}
	l := loopHead(ph.Block())
	if l == nil {
		return 0, false
	}
	for j, e := range ph.Edges {
		if !l.body[l.head.Preds[j]] {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				return k.Int64() + add, true
			}
		}
	}
	return 0, false
}

// fullLoop: the variable of a loop that visits every element of the list.
func fullLoop(t *terms, f *tframe, i ssa.Value, list ssa.Value, depth int) (*ssa.Phi, *natLoop) {
	ph, ok := i.(*ssa.Phi)
	start := int64(0)
	if b, isB := i.(*ssa.BinOp); isB && b.Op == token.ADD {
		ph, ok = b.X.(*ssa.Phi)
		start = -1
	}
	if !ok || ph == nil {
		return nil, nil
	}
	for _, l := range naturalLoops(ph.Parent()) {
		if l.head != ph.Block() {
			continue
		}
		for j, e := range ph.Edges {
			if l.body[l.head.Preds[j]] {
				b, ok := e.(*ssa.BinOp)
				if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
					return nil, nil
				}
				if k, ok := b.Y.(*ssa.Const); !ok || k.Int64() != 1 {
					return nil, nil
				}
			} else if k, ok := e.(*ssa.Const); !ok || k.Int64() != start {
				return nil, nil
			}
		}
		iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
		if !ok {
			return nil, nil
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS || cmp.X != i {
			return nil, nil
		}
		if k, ok := cmp.Y.(*ssa.Const); ok {
			if arr, isArr := deref(list.Type()).Underlying().(*types.Array); isArr && arr.Len() == k.Int64() {
				return ph, l
			}
			return nil, nil
		}
		if cl, ok := cmp.Y.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if cl.Call.Args[0] == list || t.x(f, cl.Call.Args[0], depth+1) == t.x(f, list, depth+1) {
					return ph, l
				}
			}
		}
		return nil, nil
	}
	return nil, nil
}

// call names a result of a call.
func (t *terms) call(f *tframe, call *ssa.Call, res int, depth int) string {
	cc := &call.Call
	n := calleeName(cc)
	switch n {
	case "fmt.Sprintf":
		if s := t.format(f, cc, 0, depth); s != "?" {
			return s
		}
	case "fmt.Sprint":
		args := variadicArgs(cc.Args[0])
		ok := len(args) > 0
		var parts []string
		for _, a := range args {
			ok = ok && isString(stripConv(a).Type())
			parts = append(parts, t.x(f, a, depth))
		}
		if ok {
			return cat(parts...)
		}
	case "strings.Join":
		if args := variadicArgs(cc.Args[0]); len(args) > 0 {
			sep := t.x(f, cc.Args[1], depth)
			var parts []string
			for i, a := range args {
				if i > 0 {
					parts = append(parts, sep)
				}
				parts = append(parts, t.x(f, a, depth))
			}
			return cat(parts...)
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		if _, ok := cc.Args[0].(*ssa.Alloc); ok {
			return t.written(f, cc.Args[0], depth)
		}
	}
	if strings.HasPrefix(n, "hash/") || strings.HasPrefix(n, "crypto/") {
		if strings.Contains(n, ".New") {
			return n + "<" + t.written(f, call, depth) + ">"
		}
	}
	if strings.HasSuffix(n, ".Sum") && cc.IsInvoke() {
		return "Sum(" + t.x(f, cc.Value, depth) + ")"
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			return b.Name() + "(" + t.x(f, cc.Args[0], depth) + "?)"
		}
	}
	var callee *ssa.Function
	up := (*tframe)(nil)
	if g := cc.StaticCallee(); g != nil {
		callee = g
	}
	if mk, ok := cc.Value.(*ssa.MakeClosure); ok {
		callee = mk.Fn.(*ssa.Function)
		up = f
	}
	var args []string
	if cc.IsInvoke() {
		args = append(args, t.x(f, cc.Value, depth))
	}
	for _, a := range cc.Args {
		args = append(args, t.x(f, a, depth))
	}
	if callee != nil && t.c.InModule(callee) && len(callee.Blocks) > 0 && !f.busy[callee] {
		if s := t.expand(f, callee, up, cc, args, res, depth); s != "" {
			return s
		}
	}
	if callee != nil {
		n = callee.String()
		if up != nil {
			n += "?"
		}
	}
	if n == "" {
		return "?"
	}
	s := n + "(" + strings.Join(args, ",") + ")"
	if res > 0 {
		s += fmt.Sprintf("#%d", res)
	}
	return s
}

// expand names a result by the callee's body, "" if that cannot be done.
func (t *terms) expand(f *tframe, callee *ssa.Function, up *tframe, cc *ssa.CallCommon, args []string, res, depth int) string {
	if depth > 40 {
		return ""
	}
	env := map[*ssa.Parameter]string{}
	for i, p := range callee.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	g := t.frame(callee, env, up)
	for k := range f.busy {
		g.busy[k] = true
	}
	out := ""
	n := 0
	for _, b := range callee.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == callee.Recover {
			continue
		}
		if t.guardedByNil(g, b) {
			continue
		}
		n++
		rs := results(ret)
		if res >= len(rs) {
			return ""
		}
		s := t.x(g, rs[res], depth+2)
		if strings.Contains(s, "?") {
			return ""
		}
		if n > 1 && s != out {
			return ""
		}
		out = s
	}
	return out
}

// guardedByNil: the block is only reached if an address that is given is nil.
func (t *terms) guardedByNil(g *tframe, b *ssa.BasicBlock) bool {
	for q := b; q != nil; q = q.Idom() {
		p := q.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(q.Preds) != 1 {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var other ssa.Value
		if k, ok := cmp.Y.(*ssa.Const); ok && k.IsNil() {
			other = cmp.X
		} else if k, ok := cmp.X.(*ssa.Const); ok && k.IsNil() {
			other = cmp.Y
		} else {
			continue
		}
		pm, ok := other.(*ssa.Parameter)
		if !ok || !strings.HasPrefix(g.env[pm], "&") {
			continue
		}
		if cmp.Op == token.EQL && p.Succs[0] == q || cmp.Op == token.NEQ && p.Succs[1] == q {
			return true
		}
	}
	return false
}

// guards are the conditions under which a block is reached, those of loops
// that visit every element aside.
func (t *terms) guards(f *tframe, b *ssa.BasicBlock) []string {
	var r []string
	for q := b; q != nil; q = q.Idom() {
		p := q.Idom()
		if p == nil {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(q.Preds) != 1 {
			continue
		}
		if cmp, ok := iff.Cond.(*ssa.BinOp); ok && cmp.Op == token.LSS {
			if l := loopHead(p); l != nil {
				continue
			}
		}
		if ex, ok := iff.Cond.(*ssa.Extract); ok {
			if _, ok := ex.Tuple.(*ssa.Next); ok {
				continue
			}
		}
		s := t.x(f, iff.Cond, 0)
		if p.Succs[0] == q {
			r = append(r, s)
		} else {
			r = append(r, negate(s))
		}
	}
	return r
}

func negate(s string) string {
	if strings.HasPrefix(s, "!") {
		return s[1:]
	}
	return "!" + s
}

func loopHead(b *ssa.BasicBlock) *natLoop {
	for _, l := range naturalLoops(b.Parent()) {
		if l.head == b {
			return l
		}
	}
	return nil
}
