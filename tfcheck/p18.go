package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P18", p18) }

// conversion is one call that turns text of the filing into a number or a flag: the value it yields, the error
// (or success flag) that says whether it did, and the text.
type conversion struct {
	call *ssa.Call
	val  int // result holding the value
	err  int // result holding the error, -1 if there is none
	flag bool
	name string
	text ssa.Value
}

type numCheck struct {
	c      *Ctx
	r      *Report
	wraps  map[*ssa.Function]*conversion
	places map[string]bool // struct fields holding reported numbers and flags
}

func p18(c *Ctx, r *Report) {
	r.Rule("From every conversion of text into a number or flag (strconv.Parse*, Atoi and functions handing their result and error on) two walks over the control flow are made, one assuming the conversion failed and one assuming it succeeded; branches on the error, on values derived from it and on merged variables are resolved along the walk.")
	r.Rule("On the failing walk the value converted never ends up in a field or result (ParseBool's false may where that is the default as well), and the default then used equals the one used when the text is absent.")
	r.Rule("On the succeeding walk the field or result that takes the value on any path takes it unchanged on every path that fills it: no other value, no arithmetic, no narrowing conversion, no later overwriting.")
	r.Rule("The text converted is the text of the attribute: only white space may be trimmed; decimal base and full width are used. A flag compared with text instead of converted accepts both spellings, 'true' and '1' (or 'false' and '0').")
	r.Rule("A field holding a reported number is neither narrowed, changed by arithmetic nor formatted with a fixed number of digits where it is read, and a reported flag is not stored negated.")
	r.Assume("strconv converts as documented; the conversion of a colspan inside a narrative fact is not a reported number (it fills no field).")
	n := &numCheck{c: c, r: r, wraps: map[*ssa.Function]*conversion{}, places: map[string]bool{}}
	var fns []*ssa.Function
	for _, fn := range c.Fns {
		fns = append(fns, fn)
	}
	// functions that hand the outcome of a conversion on
	for round := 0; round < 3; round++ {
		for _, fn := range fns {
			if n.wraps[fn] != nil {
				continue
			}
			for _, cv := range n.conversions(fn) {
				n.wrapper(fn, cv)
			}
		}
	}
	count := 0
	for _, fn := range fns {
		for _, cv := range n.conversions(fn) {
			count++
			r.Fn(c, fn)
			n.check(fn, cv)
		}
		n.flags(fn)
	}
	r.Need(count > 0, "no conversion of text into a number found")
	r.Count("conversions", count)
	r.Count("fields_of_reported_values", len(n.places))
	n.reads(fns)
}

func (n *numCheck) conversions(fn *ssa.Function) []*conversion {
	var l []*conversion
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			name := calleeName(&call.Call)
			switch name {
			case "strconv.ParseFloat", "strconv.ParseBool", "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi":
				l = append(l, &conversion{call: call, val: 0, err: 1, name: name, text: call.Call.Args[0]})
				continue
			}
			if f := call.Call.StaticCallee(); f != nil {
				g := f
				if o := f.Origin(); o != nil && n.wraps[f] == nil {
					g = o
				}
				if w := n.wraps[g]; w != nil {
					cv := &conversion{call: call, val: w.val, err: w.err, flag: w.flag, name: w.name}
					if p, ok := w.text.(*ssa.Parameter); ok {
						cv.text = argOf(call, g, p)
					}
					l = append(l, cv)
				}
			}
		}
	}
	return l
}

func extractOf(call *ssa.Call, i int) ssa.Value {
	if call.Call.Signature().Results().Len() == 1 {
		if i == 0 {
			return call
		}
		return nil
	}
	if i < 0 || call.Referrers() == nil {
		return nil
	}
	for _, u := range *call.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
			return ex
		}
	}
	return nil
}

// wrapper records fn when it returns the value of cv together with its error or with whether there was one.
func (n *numCheck) wrapper(fn *ssa.Function, cv *conversion) {
	v, e := extractOf(cv.call, cv.val), extractOf(cv.call, cv.err)
	if v == nil || e == nil || fn.Signature.Results().Len() != 2 {
		return
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		rs := results(ret)
		if len(rs) != 2 {
			continue
		}
		vi := -1
		for i, x := range rs {
			if stripConv(x) == v {
				vi = i
			}
		}
		if vi < 0 {
			continue
		}
		o := rs[1-vi]
		switch {
		case isErrorType(o.Type()):
			n.wraps[fn] = &conversion{val: vi, err: 1 - vi, name: cv.name, text: textRoot(cv.text)}
		case isBool(o.Type()):
			n.wraps[fn] = &conversion{val: vi, err: 1 - vi, flag: true, name: cv.name, text: textRoot(cv.text)}
		}
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// textRoot strips what does not change the text converted.
func textRoot(v ssa.Value) ssa.Value {
	for v != nil {
		v = fwd(v)
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Call:
			switch calleeName(&x.Call) {
			case "strings.TrimSpace", "strings.Clone":
				v = x.Call.Args[0]
				continue
			}
		}
		return v
	}
	return v
}

// nstate is what one walk knows at a point.
type nstate struct {
	vals map[ssa.Value]string // "v" the value, "m" changed value, "u" unknown
	errs map[ssa.Value]bool   // the error
	bool map[ssa.Value]bool   // known truth values
	def  map[ssa.Value]string // merged variables holding a constant
	last map[string]nstore    // what each place holds last
}

type nstore struct {
	kind string
	ins  ssa.Instruction
}

func (s *nstate) clone() *nstate {
	t := &nstate{vals: map[ssa.Value]string{}, errs: map[ssa.Value]bool{}, bool: map[ssa.Value]bool{}, def: map[ssa.Value]string{}, last: map[string]nstore{}}
	for k, v := range s.vals {
		t.vals[k] = v
	}
	for k, v := range s.errs {
		t.errs[k] = v
	}
	for k, v := range s.bool {
		t.bool[k] = v
	}
	for k, v := range s.def {
		t.def[k] = v
	}
	for k, v := range s.last {
		t.last[k] = v
	}
	return t
}

func (s *nstate) key(b *ssa.BasicBlock) string {
	var l []string
	for k, v := range s.vals {
		l = append(l, k.Name()+"="+v)
	}
	for k := range s.errs {
		l = append(l, k.Name()+"!")
	}
	for k, v := range s.bool {
		l = append(l, fmt.Sprint(k.Name(), "?", v))
	}
	for k, v := range s.def {
		l = append(l, k.Name()+"#"+v)
	}
	for k, v := range s.last {
		l = append(l, k+"<"+v.kind)
	}
	sort.Strings(l)
	return fmt.Sprint(b.Index) + ";" + strings.Join(l, ";")
}

// walk follows the control flow from the end of one instruction.
type nwalk struct {
	n      *numCheck
	fn     *ssa.Function
	failed bool
	absent bool
	stop   *ssa.BasicBlock // head of the loop around the start
	from   *ssa.BasicBlock
	seen   map[string]bool
	ends   []map[string]nstore
	track  map[string]bool
	limit  bool
	depth  int
	root   ssa.Value       // the flag converted
	conds  map[string]bool // conditions that held at the start
}

func placeOf(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		nm, _ := fieldName(deref(x.X.Type()), x.Field)
		return typeName(deref(x.X.Type())) + "." + nm
	}
	return ""
}

func constText(v ssa.Value) (string, bool) {
	if k, ok := stripConv(v).(*ssa.Const); ok {
		if k.Value == nil {
			return "0", true
		}
		switch k.Value.Kind() {
		case constant.Bool, constant.String:
			return k.Value.ExactString(), true
		}
		if f, _ := constant.Float64Val(constant.ToFloat(k.Value)); true {
			return fmt.Sprint(f), true
		}
	}
	return "", false
}

func (w *nwalk) kind(s *nstate, v ssa.Value) string {
	if k, ok := s.vals[v]; ok {
		return k
	}
	if d, ok := s.def[v]; ok {
		return "c:" + d
	}
	if t, ok := constText(v); ok {
		return "c:" + t
	}
	if isBool(v.Type()) {
		if t, ok := w.truth(s, v); ok {
			return fmt.Sprint("c:", t)
		}
	}
	return ""
}

// same: a constant equal to the flag on this walk is the flag.
func (w *nwalk) same(s *nstate, k string) string {
	if w.root == nil || w.failed {
		return k
	}
	if t, ok := s.bool[w.root]; ok && k == fmt.Sprint("c:", t) {
		return "v"
	}
	return k
}

// underFlag: the block is reached by one answer of the flag only.
func (w *nwalk) underFlag(s *nstate, b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if v, _ := notOf(iff.Cond); s.vals[v] == "v" {
			for _, t := range d.Succs {
				if (t == b || t.Dominates(b)) && len(t.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// chosen: which value a merge takes depends on the flag.
func (w *nwalk) chosen(s *nstate, v ssa.Value, depth int) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok || depth > 4 {
		return false
	}
	for i, e := range ph.Edges {
		p := ph.Block().Preds[i]
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if v, _ := notOf(iff.Cond); s.vals[v] == "v" {
				return true
			}
		}
		if w.underFlag(s, p) && !w.underFlag(s, ph.Block()) || w.chosen(s, e, depth+1) {
			return true
		}
	}
	return false
}

// narrows: the conversion cannot hold every value.
func narrows(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	if f.Info()&types.IsFloat != 0 {
		return t.Info()&types.IsFloat == 0 || f.Kind() == types.Float64 && t.Kind() == types.Float32
	}
	if f.Info()&types.IsInteger != 0 {
		switch t.Kind() {
		case types.Int8, types.Int16, types.Uint8, types.Uint16, types.Uint, types.Uint32, types.Uint64, types.String:
			return f.Kind() != t.Kind()
		}
	}
	return false
}

func (w *nwalk) run(b *ssa.BasicBlock, at int, s *nstate) {
	for i := at; i < len(b.Instrs); i++ {
		w.step(b.Instrs[i], s)
	}
	last := b.Instrs[len(b.Instrs)-1]
	switch x := last.(type) {
	case *ssa.If:
		tr, known := w.truth(s, x.Cond)
		for i, to := range b.Succs {
			if known && tr != (i == 0) {
				continue
			}
			t := s
			if !known {
				t = s.clone()
				if w.root != nil {
					if v, neg := notOf(x.Cond); s.vals[v] == "v" {
						t.bool[w.root] = (i == 0) != neg
						t.bool[v] = (i == 0) != neg
					}
				}
			}
			w.edge(b, to, t)
		}
	case *ssa.Return:
		for i, v := range results(x) {
			k := w.kind(s, v)
			if w.chosen(s, v, 0) || w.underFlag(s, b) {
				k = w.same(s, k)
			}
			if k != "" {
				s.last[fmt.Sprintf("result %d", i)] = nstore{k, x}
			} else {
				s.last[fmt.Sprintf("result %d", i)] = nstore{"o", x}
			}
		}
		// a failure that is handed on with the value is judged by the caller
		if w.failed {
			handed := false
			for _, v := range results(x) {
				if s.errs[v] || isErrorType(v.Type()) && definitelyNonNil(v) {
					handed = true
				}
				if isBool(v.Type()) && len(results(x)) > 1 {
					if t, ok := w.truth(s, v); ok && !t {
						handed = true
					}
				}
			}
			if handed {
				for i := range results(x) {
					delete(s.last, fmt.Sprintf("result %d", i))
				}
			}
		}
		w.end(s)
	default:
		if len(b.Succs) == 0 {
			return
		}
		for i, to := range b.Succs {
			t := s
			if i < len(b.Succs)-1 {
				t = s.clone()
			}
			w.edge(b, to, t)
		}
	}
}

func (w *nwalk) end(s *nstate) {
	m := map[string]nstore{}
	for k, v := range s.last {
		m[k] = v
	}
	w.ends = append(w.ends, m)
}

func (w *nwalk) edge(p, b *ssa.BasicBlock, s *nstate) {
	if b == w.stop {
		w.end(s)
		return
	}
	idx := -1
	for i, q := range b.Preds {
		if q == p {
			idx = i
		}
	}
	type upd struct {
		v    ssa.Value
		kind string
		err  bool
		tr   bool
		has  bool
	}
	var us []upd
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 || idx >= len(ph.Edges) {
			continue
		}
		e := ph.Edges[idx]
		u := upd{v: ph, kind: w.kind(s, e), err: s.errs[e]}
		if isBool(ph.Type()) {
			if t, ok := w.truth(s, e); ok {
				u.tr, u.has = t, true
			}
		}
		us = append(us, u)
	}
	for _, u := range us {
		delete(s.vals, u.v)
		delete(s.errs, u.v)
		delete(s.bool, u.v)
		delete(s.def, u.v)
		switch {
		case strings.HasPrefix(u.kind, "c:"):
			s.def[u.v] = u.kind[2:]
		case u.kind != "":
			s.vals[u.v] = u.kind
		}
		if u.err {
			s.errs[u.v] = true
		}
		if u.has {
			s.bool[u.v] = u.tr
		}
	}
	k := s.key(b)
	if w.seen[k] {
		return
	}
	if len(w.seen) > 6000 {
		w.limit = true
		return
	}
	w.seen[k] = true
	w.run(b, 0, s)
}

func notOf(v ssa.Value) (ssa.Value, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		x, n := notOf(u.X)
		return x, !n
	}
	return v, false
}

// condKey names a condition, with the polarity taken out.
func condKey(c *Ctx, v ssa.Value) (string, bool) {
	v, neg := notOf(v)
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return c.Exprs().X(v, nil).Key, neg
	}
	a, b := c.Exprs().X(bo.X, nil).Key, c.Exprs().X(bo.Y, nil).Key
	if a > b {
		a, b = b, a
	}
	return a + "==" + b, neg != (bo.Op == token.NEQ)
}

// held are the conditions that hold wherever b is reached.
func held(c *Ctx, b *ssa.BasicBlock) map[string]bool {
	m := map[string]bool{}
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if (s == b || s.Dominates(b)) && len(s.Preds) == 1 {
				k, neg := condKey(c, iff.Cond)
				m[k] = (i == 0) != neg
			}
		}
	}
	return m
}

// truth is what a condition is known to be on this walk.
func (w *nwalk) truth(s *nstate, v ssa.Value) (bool, bool) {
	if t, ok := s.bool[v]; ok {
		return t, true
	}
	if len(w.conds) > 0 {
		if _, ok := v.(*ssa.BinOp); ok {
			k, neg := condKey(w.n.c, v)
			if t, ok := w.conds[k]; ok {
				return t != neg, true
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, ok := w.truth(s, x.X)
			return !t, ok
		}
		if x.Op == token.MUL {
			if y := fwd(v); y != v {
				return w.truth(s, y)
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if !s.errs[fwd(pr[0])] && !s.errs[pr[0]] {
					continue
				}
				if k, ok := pr[1].(*ssa.Const); ok && k.IsNil() {
					return w.failed == (x.Op == token.NEQ), true
				}
			}
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k, ok := pr[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if t, ok := w.truth(s, pr[0]); ok {
						return t == constant.BoolVal(k.Value) == (x.Op == token.EQL), true
					}
				}
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "math.IsNaN", "math.IsInf":
			if s.vals[x.Call.Args[0]] != "" {
				return false, true
			}
		case "errors.Is", "errors.As":
			if !w.failed && s.errs[x.Call.Args[0]] {
				return false, true
			}
		}
	}
	return false, false
}

func (w *nwalk) step(ins ssa.Instruction, s *nstate) {
	switch x := ins.(type) {
	case *ssa.Convert:
		if k := s.vals[x.X]; k != "" {
			if k == "v" && narrows(x.X.Type(), x.Type()) {
				k = "m"
			}
			s.vals[x] = k
		}
	case *ssa.ChangeType:
		if k := s.vals[x.X]; k != "" {
			s.vals[x] = k
		}
		if s.errs[x.X] {
			s.errs[x] = true
		}
	case *ssa.MakeInterface:
		if k := s.vals[x.X]; k != "" {
			s.vals[x] = k
		}
	case *ssa.MultiConvert:
		if k := s.vals[x.X]; k != "" {
			s.vals[x] = k
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR:
			if s.vals[x.X] != "" || s.vals[x.Y] != "" {
				s.vals[x] = "m"
			}
		case token.EQL, token.NEQ:
			// a flag compared with a constant
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k, ok := pr[1].(*ssa.Const); ok && isBool(pr[0].Type()) && k.Value != nil && s.vals[pr[0]] != "" {
					if constant.BoolVal(k.Value) == (x.Op == token.EQL) {
						s.vals[x] = s.vals[pr[0]]
					} else {
						s.vals[x] = "m"
					}
				}
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if y := fwd(x); y != ssa.Value(x) {
				if k := s.vals[y]; k != "" {
					s.vals[x] = k
				} else if d, ok := s.def[y]; ok {
					s.def[x] = d
				}
				if s.errs[y] {
					s.errs[x] = true
				}
				return
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if st, ok := s.last["var "+al.Name()]; ok {
					switch {
					case strings.HasPrefix(st.kind, "c:"):
						s.def[x] = st.kind[2:]
					case st.kind == "e":
						s.errs[x] = true
					case st.kind != "o":
						s.vals[x] = st.kind
					}
				}
			}
			if p := placeOf(x.X); p != "" {
				if st, ok := s.last[p]; ok && (st.kind == "v" || st.kind == "m" || st.kind == "u") {
					s.vals[x] = st.kind
				}
			}
		case token.NOT, token.SUB, token.XOR:
			if s.vals[x.X] != "" {
				s.vals[x] = "m"
			}
		}
	case *ssa.Call:
		w.call(x, s)
	case *ssa.Store:
		k := w.kind(s, x.Val)
		if s.errs[x.Val] {
			k = "e"
		}
		if k == "" {
			k = "o"
		}
		if w.chosen(s, x.Val, 0) || w.underFlag(s, x.Block()) {
			k = w.same(s, k)
		}
		if al, ok := x.Addr.(*ssa.Alloc); ok {
			s.last["var "+al.Name()] = nstore{k, x}
			return
		}
		if p := placeOf(x.Addr); p != "" {
			s.last[p] = nstore{k, x}
		}
	}
}

// call follows the value into a function of the module that takes it together with its error or alone.
func (w *nwalk) call(x *ssa.Call, s *nstate) {
	var has, hasErr bool
	for _, a := range x.Call.Args {
		if s.vals[a] != "" {
			has = true
		}
		if s.errs[a] {
			hasErr = true
		}
	}
	if !has {
		return
	}
	f := x.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || w.depth > 3 || !w.n.c.InModule(f) {
		name := calleeName(&x.Call)
		if strings.HasPrefix(name, "math.") && !isBool(x.Type()) {
			s.vals[x] = "m"
			return
		}
		if types.Identical(x.Type(), x.Call.Args[0].Type()) {
			s.vals[x] = "u"
		}
		return
	}
	_ = hasErr
	sub := &nwalk{n: w.n, fn: f, failed: w.failed, seen: map[string]bool{}, track: w.track, depth: w.depth + 1}
	st := (&nstate{}).clone()
	for _, p := range f.Params {
		a := argOf(x, f, p)
		if a == nil {
			continue
		}
		switch k := w.kind(s, a); {
		case strings.HasPrefix(k, "c:"):
			st.def[p] = k[2:]
		case k != "":
			st.vals[p] = k
		}
		if s.errs[a] {
			st.errs[p] = true
		}
		if isBool(p.Type()) {
			if t, ok := w.truth(s, a); ok {
				st.bool[p] = t
			}
		}
	}
	sub.run(f.Blocks[0], 0, st)
	kinds := map[string]bool{}
	for _, e := range sub.ends {
		if r, ok := e["result 0"]; ok {
			kinds[r.kind] = true
		}
	}
	if x.Call.Signature().Results().Len() != 1 {
		return
	}
	switch {
	case sub.limit:
		s.vals[x] = "u"
	case len(kinds) == 1:
		for k := range kinds {
			switch {
			case strings.HasPrefix(k, "c:"):
				s.def[x] = k[2:]
			case k != "o":
				s.vals[x] = k
			}
		}
	case kinds["v"]:
		// on some paths another value
		if !w.failed {
			s.vals[x] = "m"
		} else {
			s.vals[x] = "v"
		}
	case kinds["m"]:
		s.vals[x] = "m"
	}
}

func (n *numCheck) start(fn *ssa.Function, cv *conversion, failed bool) *nwalk {
	w := &nwalk{n: n, fn: fn, failed: failed, seen: map[string]bool{}, from: cv.call.Block()}
	if l := loopOf(fn, cv.call.Block()); l != nil {
		w.stop = l.head
	}
	s := (&nstate{}).clone()
	v, e := extractOf(cv.call, cv.val), extractOf(cv.call, cv.err)
	w.conds = held(n.c, cv.call.Block())
	if v != nil {
		s.vals[v] = "v"
		if isBool(v.Type()) {
			w.root = v
			if failed && cv.name == "strconv.ParseBool" {
				s.bool[v] = false
			}
		}
	}
	if e != nil {
		if cv.flag {
			s.bool[e] = !failed
		} else {
			s.errs[e] = true
		}
	}
	at := 0
	for i, ins := range cv.call.Block().Instrs {
		if ins == ssa.Instruction(cv.call) {
			at = i + 1
		}
	}
	w.run(cv.call.Block(), at, s)
	return w
}

func (n *numCheck) check(fn *ssa.Function, cv *conversion) {
	c, r := n.c, n.r
	pos := c.PosOf(cv.call)
	what := c.FnName(fn) + " " + cv.name
	n.source(fn, cv, what)
	good := n.start(fn, cv, false)
	bad := n.start(fn, cv, true)
	if good.limit || bad.limit {
		r.Open(what + ": too many paths")
		return
	}
	places := map[string]bool{}
	for _, e := range good.ends {
		for p, st := range e {
			if !strings.HasPrefix(p, "var ") && (st.kind == "v" || st.kind == "m") {
				places[p] = true
			}
		}
	}
	for p := range n.fieldPlaces(fn, cv) {
		places[p] = true
	}
	if len(places) == 0 {
		v := extractOf(cv.call, cv.val)
		if v == nil || !used(v) {
			if !n.again(fn, cv) {
				r.Bad("discarded", what+" "+textName(cv.text), pos, "the value converted from %s is never used, so a legible value is discarded", textName(cv.text))
				return
			}
		}
		r.Count("conversions_filling_no_field", 1)
		return
	}
	var list []string
	for p := range places {
		list = append(list, p)
	}
	sort.Strings(list)
	for _, p := range list {
		if !strings.HasPrefix(p, "result ") {
			n.places[p] = true
		}
		ok := true
		for _, e := range good.ends {
			st, has := e[p]
			if !has {
				continue
			}
			switch {
			case st.kind == "m":
				r.Bad("changed", what+" → "+p, c.PosOf(st.ins), "the value converted is changed before it is taken as %s", p)
				ok = false
			case st.kind == "u":
				r.Open(what + " → " + p)
			case st.kind != "v":
				if strings.HasPrefix(p, "result ") && n.errorReturn(st.ins) {
					continue
				}
				r.Bad("replaced", what+" → "+p, c.PosOf(st.ins), "%s takes another value on a path where the text was converted successfully", p)
				ok = false
			}
		}
		def := ""
		for _, e := range bad.ends {
			st, has := e[p]
			if !has {
				continue
			}
			if st.kind == "v" || st.kind == "m" {
				if cv.name == "strconv.ParseBool" && st.kind == "v" && n.zeroDefault(fn, cv, p) {
					continue
				}
				r.Bad("failed", what+" → "+p, c.PosOf(st.ins), "%s takes the value of a conversion that failed", p)
				ok = false
			}
			if strings.HasPrefix(st.kind, "c:") {
				def = st.kind[2:]
			}
		}
		if strings.HasPrefix(p, "result ") {
			if ok {
				r.OK(what + " → " + p)
			}
			continue
		}
		if ab, at, known := n.absentDefault(fn, cv, p); known {
			if def == "" {
				if b, _, k := n.before(fn, cv, p); k && len(bad.ends) > 0 {
					def = b
				}
			}
			if def != "" && norm(def) != norm(ab) {
				r.Bad("default", what+" → "+p, c.PosOf(at), "%s is %s when the text is absent but %s when it is illegible", p, ab, def)
				ok = false
			}
		}
		if ok {
			r.OK(what + " → " + p)
		}
	}
}

func norm(s string) string {
	if s == "false" {
		return "0"
	}
	return s
}

func (n *numCheck) errorReturn(ins ssa.Instruction) bool {
	ret, ok := ins.(*ssa.Return)
	if !ok {
		return false
	}
	for _, v := range results(ret) {
		if isErrorType(v.Type()) && definitelyNonNil(v) {
			return true
		}
	}
	return false
}

// again: the same text is converted elsewhere in the function, so this conversion only tests it.
func (n *numCheck) again(fn *ssa.Function, cv *conversion) bool {
	k := n.c.Exprs().X(textRoot(cv.text), nil).Key
	for _, o := range n.conversions(fn) {
		if o.call != cv.call && o.text != nil && n.c.Exprs().X(textRoot(o.text), nil).Key == k {
			return true
		}
	}
	return false
}

func textName(v ssa.Value) string {
	if v == nil {
		return "the text"
	}
	v = textRoot(v)
	if u, ok := v.(*ssa.UnOp); ok {
		if p := placeOf(u.X); p != "" {
			return p
		}
	}
	return name(v)
}

// fieldPlaces are the fields the value reaches over any merge, whatever the path.
func (n *numCheck) fieldPlaces(fn *ssa.Function, cv *conversion) map[string]bool {
	r := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				visit(x)
			case *ssa.Convert:
				visit(x)
			case *ssa.ChangeType:
				visit(x)
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if p := placeOf(x.Addr); p != "" {
					r[p] = true
				}
			}
		}
	}
	visit(extractOf(cv.call, cv.val))
	return r
}

// zeroDefault: false is what the place holds without a value as well.
func (n *numCheck) zeroDefault(fn *ssa.Function, cv *conversion, p string) bool {
	if ab, _, ok := n.absentDefault(fn, cv, p); ok {
		return norm(ab) == "0"
	}
	// a helper: whatever default its callers apply is not visible here
	return !strings.HasPrefix(p, "result ")
}

// before is the constant the place holds just before the conversion.
func (n *numCheck) before(fn *ssa.Function, cv *conversion, p string) (string, ssa.Instruction, bool) {
	var obj ssa.Value
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || placeOf(st.Addr) != p {
				continue
			}
			fa := st.Addr.(*ssa.FieldAddr)
			if reachesInstrWithout(cv.call, st, loopStartOf(fn, cv)) {
				obj = fa.X
			}
		}
	}
	al, ok := obj.(*ssa.Alloc)
	if !ok {
		return "", nil, false
	}
	var best *ssa.Store
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || placeOf(st.Addr) != p || st.Addr.(*ssa.FieldAddr).X != obj {
				continue
			}
			if precedes(st, cv.call) && (best == nil || precedes(best, st)) {
				best = st
			}
		}
	}
	if best != nil {
		if t, ok := constText(best.Val); ok {
			return t, best, true
		}
		return "", nil, false
	}
	if precedes(al, cv.call) {
		return "0", al, true
	}
	return "", nil, false
}

func loopStartOf(fn *ssa.Function, cv *conversion) ssa.Instruction {
	if l := loopOf(fn, cv.call.Block()); l != nil {
		return l.head.Instrs[0]
	}
	return cv.call
}

// absentDefault is the constant the place ends up with when the conversion is bypassed because there is no text.
func (n *numCheck) absentDefault(fn *ssa.Function, cv *conversion, p string) (string, ssa.Instruction, bool) {
	b := cv.call.Block()
	text := textRoot(cv.text)
	tk := ""
	if text != nil {
		tk = n.c.Exprs().X(text, nil).Key
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		if l := loopOf(fn, b); l != nil && !l.body[d] {
			return "", nil, false
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if s == b || s.Dominates(b) {
				continue
			}
			v, k, eq := eqConst(iff.Cond, i == 0)
			if eq && k != "" && v != nil && n.c.Exprs().X(textRoot(v), nil).Key == tk {
				continue
			}
			if !n.testsText(iff.Cond, tk) {
				return "", nil, false
			}
			w := &nwalk{n: n, fn: fn, absent: true, seen: map[string]bool{}, from: d}
			if l := loopOf(fn, b); l != nil {
				w.stop = l.head
			}
			w.edge(d, s, (&nstate{}).clone())
			if w.limit {
				return "", nil, false
			}
			vals := map[string]ssa.Instruction{}
			some, none := false, false
			for _, e := range w.ends {
				st, has := e[p]
				if !has {
					none = true
					continue
				}
				some = true
				if !strings.HasPrefix(st.kind, "c:") {
					return "", nil, false
				}
				vals[st.kind[2:]] = st.ins
			}
			if some && len(vals) == 1 {
				for k, v := range vals {
					return k, v, true
				}
			}
			if some || !none {
				return "", nil, false
			}
			return n.before(fn, cv, p)
		}
	}
	return "", nil, false
}

// testsText: the condition asks whether the attribute whose text is converted is there.
func (n *numCheck) testsText(cond ssa.Value, tk string) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{bo.X, bo.Y} {
		if _, ok := o.(*ssa.Const); ok {
			continue
		}
		k := n.c.Exprs().X(textRoot(o), nil).Key
		if k == tk || strings.Contains(tk, k) {
			return true
		}
	}
	return false
}

// source: the text converted is the text of the filing, and is read as decimal.
func (n *numCheck) source(fn *ssa.Function, cv *conversion, what string) {
	c, r := n.c, n.r
	args := cv.call.Call.Args
	intArg := func(i int) (int64, bool) {
		if i >= len(args) {
			return 0, false
		}
		k, ok := args[i].(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		return k.Int64(), true
	}
	if strings.HasPrefix(calleeName(&cv.call.Call), "strconv.") {
		switch cv.name {
		case "strconv.ParseFloat":
			if k, ok := intArg(1); ok && k == 32 {
				r.Bad("narrowed", what, c.PosOf(cv.call), "the number is read with 32 bits only")
			}
		case "strconv.ParseInt", "strconv.ParseUint":
			if k, ok := intArg(1); ok && k != 10 {
				r.Bad("narrowed", what, c.PosOf(cv.call), "the number is read with base %d", k)
			}
			if k, ok := intArg(2); ok && (k == 8 || k == 16) {
				r.Bad("narrowed", what, c.PosOf(cv.call), "the number is read with %d bits only", k)
			}
			if cv.name == "strconv.ParseUint" {
				r.Bad("narrowed", what, c.PosOf(cv.call), "a negative number is not legible")
			}
		}
	}
	v := textRoot(cv.text)
	if v == nil {
		return
	}
	bad := ""
	switch x := v.(type) {
	case *ssa.Slice:
		bad = "a part of the text"
	case *ssa.Call:
		switch nm := calleeName(&x.Call); nm {
		case "strings.Replace", "strings.ReplaceAll", "strings.Map", "strings.Repeat":
			bad = nm
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
			if s, ok := constStr(x.Call.Args[1]); ok && strings.Trim(s, " \t\r\n+") != "" {
				bad = nm
			}
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if cl, ok := ia.X.(*ssa.Call); ok && strings.HasPrefix(calleeName(&cl.Call), "strings.Split") {
				bad = "a part of the text"
			}
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok && strings.HasPrefix(calleeName(&cl.Call), "strings.Cut") {
			bad = "a part of the text"
		}
	}
	if bad != "" && len(n.fieldPlaces(fn, cv)) > 0 {
		r.Bad("text", what, c.PosOf(cv.call), "not the text as stated is converted but %s", bad)
	}
}

// flags: a flag read by comparing text accepts both spellings.
func (n *numCheck) flags(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || !isBool(st.Val.Type()) {
				continue
			}
			p := placeOf(st.Addr)
			if p == "" {
				continue
			}
			words := map[string]bool{}
			neg := false
			var text ssa.Value
			n.compared(st.Val, words, &neg, &text, map[ssa.Value]bool{})
			if text == nil {
				continue
			}
			if u, ok := textRoot(text).(*ssa.UnOp); !ok || !strings.HasSuffix(placeOf(u.X), "Attr.Value") {
				continue
			}
			one := func(a, b string) bool { return words[a] != words[b] }
			if one("true", "1") || one("false", "0") {
				n.r.Bad("spelling", n.c.FnName(fn)+" → "+p, n.c.PosOf(st), "%s is read by comparing the text with only one of the two spellings of the flag", p)
			} else if words["true"] || words["false"] {
				n.r.OK(n.c.FnName(fn) + " → " + p)
			}
		}
	}
}

// compared collects the constants a flag's text is compared with.
func (n *numCheck) compared(v ssa.Value, words map[string]bool, neg *bool, text *ssa.Value, seen map[ssa.Value]bool) {
	v = fwd(v)
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			n.compared(e, words, neg, text, seen)
			// short circuit: the branch taken on equality
			p := x.Block().Preds[i]
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				n.compared(iff.Cond, words, neg, text, seen)
			} else if len(p.Preds) == 1 {
				q := p.Preds[0]
				if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok {
					n.compared(iff.Cond, words, neg, text, seen)
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			n.compared(x.X, words, neg, text, seen)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			if s, ok := constStr(x.Y); ok && s != "" {
				words[s] = true
				*text = x.X
			} else if s, ok := constStr(x.X); ok && s != "" {
				words[s] = true
				*text = x.Y
			}
		}
	case *ssa.Call:
		if calleeName(&x.Call) == "strings.EqualFold" {
			if s, ok := constStr(x.Call.Args[1]); ok {
				words[strings.ToLower(s)] = true
				*text = x.Call.Args[0]
			}
			return
		}
		f := x.Call.StaticCallee()
		if f == nil || !n.c.InModule(f) || f.Signature.Results().Len() != 1 {
			return
		}
		var inner ssa.Value
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if ok {
				n.compared(results(ret)[0], words, neg, &inner, seen)
				for _, p := range b.Preds {
					if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
						n.compared(iff.Cond, words, neg, &inner, seen)
					}
				}
			}
		}
		if inner == nil {
			return
		}
		if p, ok := textRoot(inner).(*ssa.Parameter); ok {
			inner = argOf(x, f, p)
		}
		*text = inner
	}
}

// reads: what the fields hold is not narrowed or changed where they are used.
func (n *numCheck) reads(fns []*ssa.Function) {
	c, r := n.c, n.r
	// fields that are copies of reported values
	for round := 0; round < 4; round++ {
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					p := placeOf(st.Addr)
					if p != "" && !n.places[p] && n.reported(st.Val, 0) {
						n.places[p] = true
					}
				}
			}
		}
	}
	// another package passes them on under the same name
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || n.places[placeOf(fa)] {
					continue
				}
				nm, ok := deref(fa.X.Type()).(*types.Named)
				if !ok || nm.Obj().Pkg() == nil || strings.HasPrefix(nm.Obj().Pkg().Path(), c.ModPath) {
					continue
				}
				sc := nm.Obj().Pkg().Scope()
				for _, o := range sc.Names() {
					t, ok := sc.Lookup(o).(*types.TypeName)
					if !ok {
						continue
					}
					f, _ := fieldName(nm, fa.Field)
					if n.places[typeName(t.Type())+"."+f] {
						n.places[placeOf(fa)] = true
					}
				}
			}
		}
	}
	count := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Convert:
					if n.reported(x.X, 0) {
						count++
						if narrows(x.X.Type(), x.Type()) {
							r.Bad("narrowed", c.FnName(fn)+" "+n.placeName(x.X), c.PosOf(x), "the reported %s is narrowed to %s", n.placeName(x.X), x.Type())
						}
					}
				case *ssa.BinOp:
					switch x.Op {
					case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
					default:
						continue
					}
					for _, o := range []ssa.Value{x.X, x.Y} {
						if !n.reported(o, 0) {
							continue
						}
						count++
						if x.Op == token.SUB && onlyCompared(x) {
							continue
						}
						r.Bad("arithmetic", c.FnName(fn)+" "+n.placeName(o), c.PosOf(x), "the reported %s is changed by arithmetic before it is used", n.placeName(o))
					}
				case *ssa.UnOp:
					if (x.Op == token.SUB || x.Op == token.XOR) && n.reported(x.X, 0) && !n.signTested(fn, x.X) {
						r.Bad("arithmetic", c.FnName(fn)+" "+n.placeName(x.X), c.PosOf(x), "the reported %s is changed by arithmetic before it is used", n.placeName(x.X))
					}
					if x.Op == token.NOT && n.reported(x.X, 0) && x.Referrers() != nil {
						for _, u := range *x.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Val == ssa.Value(x) && placeOf(st.Addr) != "" {
								r.Bad("negated", c.FnName(fn)+" "+n.placeName(x.X), c.PosOf(st), "the reported %s is stored negated", n.placeName(x.X))
							}
						}
					}
				case *ssa.Call:
					nm := calleeName(&x.Call)
					if nm == "fmt.Sprintf" {
						count += n.printed(fn, x)
						continue
					}
					for i, a := range x.Call.Args {
						if !n.reported(a, 0) {
							continue
						}
						count++
						switch {
						case nm == "strconv.FormatFloat" && i == 0:
							if k, ok := x.Call.Args[2].(*ssa.Const); ok && k.Int64() >= 0 {
								r.Bad("digits", c.FnName(fn)+" "+n.placeName(a), c.PosOf(x), "the reported %s is written with %d digits only", n.placeName(a), k.Int64())
							}
							if k, ok := x.Call.Args[3].(*ssa.Const); ok && k.Int64() == 32 {
								r.Bad("digits", c.FnName(fn)+" "+n.placeName(a), c.PosOf(x), "the reported %s is written with 32 bits only", n.placeName(a))
							}
						case nm == "cmp.Compare" || nm == "cmp.Less":
						case strings.HasPrefix(nm, "math.") && !isBool(x.Type()):
							switch nm {
							case "math.Abs":
								if n.signTested(fn, a) {
									continue
								}
								r.Bad("arithmetic", c.FnName(fn)+" "+n.placeName(a), c.PosOf(x), "the sign of the reported %s is dropped", n.placeName(a))
							case "math.Round", "math.Floor", "math.Ceil", "math.Trunc", "math.RoundToEven", "math.Min", "math.Max":
								r.Bad("arithmetic", c.FnName(fn)+" "+n.placeName(a), c.PosOf(x), "the reported %s is changed by %s before it is used", n.placeName(a), nm)
							}
						}
					}
				}
			}
		}
	}
	r.Count("uses_of_reported_values_examined", count)
	r.OK("reads of " + fmt.Sprint(len(n.places)) + " fields")
}

func onlyCompared(v *ssa.BinOp) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
				continue
			}
		case *ssa.DebugRef:
			continue
		}
		return false
	}
	return true
}

// signTested: the sign of the number is kept apart from its magnitude.
func (n *numCheck) signTested(fn *ssa.Function, a ssa.Value) bool {
	k := n.c.Exprs().X(a, nil).Key
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if t, ok := constText(pr[1]); ok && t == "0" && n.c.Exprs().X(pr[0], nil).Key == k {
							return true
						}
					}
				}
			case *ssa.Call:
				nm := calleeName(&x.Call)
				if (nm == "math.Signbit" || x.Call.StaticCallee() != nil && n.c.InModule(x.Call.StaticCallee())) && len(x.Call.Args) > 0 && n.c.Exprs().X(x.Call.Args[0], nil).Key == k {
					return true
				}
			}
		}
	}
	return false
}

// printed: a format shows a reported number with all its digits.
func (n *numCheck) printed(fn *ssa.Function, x *ssa.Call) int {
	f, ok := constStr(x.Call.Args[0])
	if !ok || len(x.Call.Args) < 2 {
		return 0
	}
	count := 0
	verbs := formatVerbs(f)
	for i, a := range variadicArgs(x.Call.Args[1]) {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		if !n.reported(a, 0) || i >= len(verbs) {
			continue
		}
		count++
		v := verbs[i]
		b, _ := a.Type().Underlying().(*types.Basic)
		if b == nil || b.Info()&types.IsFloat == 0 {
			continue
		}
		if strings.Contains(v, ".") || strings.HasSuffix(v, "f") || strings.HasSuffix(v, "e") {
			n.r.Bad("digits", n.c.FnName(fn)+" "+n.placeName(a), n.c.PosOf(x), "the reported %s is written with a fixed number of digits (%s)", n.placeName(a), v)
		}
	}
	return count
}

// formatVerbs are the verbs of a format, one per argument.
func formatVerbs(f string) []string {
	var r []string
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j < len(f) && f[j] != '%' {
			r = append(r, f[i:j+1])
		}
		i = j
	}
	return r
}

// reported: the value is what a field of reported values holds.
func (n *numCheck) reported(v ssa.Value, depth int) bool {
	return n.placeName2(v, depth) != ""
}

func (n *numCheck) placeName(v ssa.Value) string {
	p := n.placeName2(v, 0)
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	return p
}

func (n *numCheck) placeName2(v ssa.Value, depth int) string {
	if depth > 5 {
		return ""
	}
	v = fwd(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if p := placeOf(x.X); p != "" && n.places[p] && !n.constBefore(x) {
			return p
		}
	case *ssa.Field:
		nm, _ := fieldName(x.X.Type(), x.Field)
		if p := typeName(x.X.Type()) + "." + nm; n.places[p] {
			return p
		}
	case *ssa.ChangeType:
		return n.placeName2(x.X, depth+1)
	case *ssa.Call:
		if calleeName(&x.Call) == "math.Abs" {
			return n.placeName2(x.Call.Args[0], depth+1)
		}
	case *ssa.Convert:
		if !narrows(x.X.Type(), x.Type()) {
			return n.placeName2(x.X, depth+1)
		}
	case *ssa.Parameter:
		fn := x.Parent()
		cs := n.c.Callers(fn)
		if len(cs) == 0 {
			return ""
		}
		p := ""
		for _, ci := range cs {
			a := argOf(ci, fn, x)
			if a == nil {
				return ""
			}
			p = n.placeName2(a, depth+1)
			if p == "" {
				return ""
			}
		}
		return p
	}
	return ""
}

// constBefore: the field was set to a value of the program's own just before.
func (n *numCheck) constBefore(ld *ssa.UnOp) bool {
	fa := ld.X.(*ssa.FieldAddr)
	root := rootAlloc(fa.X)
	p := placeOf(fa)
	for _, b := range ld.Parent().Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || placeOf(st.Addr) != p || !precedes(st, ld) {
				continue
			}
			if st.Addr.(*ssa.FieldAddr).X == fa.X || root != nil && rootAlloc(st.Addr.(*ssa.FieldAddr).X) == root {
				if _, ok := constText(st.Val); ok {
					return true
				}
			}
		}
	}
	return false
}
