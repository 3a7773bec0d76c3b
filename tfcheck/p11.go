package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"net/http"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P11", p11) }

// state of a response
const (
	rNone   = iota // nothing sent
	rDone          // error sent by http.Error, complete
	rOK            // success status sent, no data yet
	rData          // success status and data sent
	rErr           // error status sent, its text may follow
	rHanded        // handed to another handler
)

type rstate struct {
	status int
	json   bool   // the JSON content type was set in time
	html   int    // the path was taken for an inline document: 1 yes, 2 cannot be told
	corr   string // outcomes this path is tied to: values of merged constants and of helper results
}

// corrOf and withCorr read and extend the outcomes a path is tied to.
func (s rstate) outcome(key string) string {
	for _, p := range strings.Split(s.corr, ";") {
		if strings.HasPrefix(p, key+"=") {
			return p[len(key)+1:]
		}
	}
	return ""
}

func (s rstate) tie(key, out string) rstate {
	var ps []string
	for _, p := range strings.Split(s.corr, ";") {
		if p != "" && !strings.HasPrefix(p, key+"=") {
			ps = append(ps, p)
		}
	}
	if out != "" && len(ps) < 8 {
		ps = append(ps, key+"="+out)
	}
	sort.Strings(ps)
	s.corr = strings.Join(ps, ";")
	return s
}

// excluded: the path cannot take an edge on which the atoms hold.
func (s rstate) excluded(as []Atom) bool {
	if s.corr == "" {
		return false
	}
	for _, a := range as {
		if a.A == nil {
			continue
		}
		o := s.outcome(a.A.Key)
		switch a.K {
		case "true", "false", "nil", "nn":
			if o != "" && opposite[a.K] == o {
				return true
			}
		case "eq":
			if a.B != nil && a.B.Op == "const" && o != "" && (strings.HasPrefix(o, "c") && o != "c"+a.B.Key || o == "ne"+a.B.Key) {
				return true
			}
		case "ne":
			if a.B != nil && o == "c"+a.B.Key {
				return true
			}
		case "le":
		}
	}
	return false
}

var opposite = map[string]string{"true": "false", "false": "true", "nil": "nn", "nn": "nil"}

// outcomeOf abstracts a value for correlation.
func (f *Facts) outcomeOf(v ssa.Value, st *State) string {
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			if isNillable(k.Type()) {
				return "nil"
			}
			return ""
		}
		if k.Value.Kind() == constant.Bool {
			return k.Value.ExactString()
		}
		return "c" + f.t.X(k, nil).Key
	}
	e := f.t.X(v, nil)
	if f.nonNil(v, st) && isNillable(v.Type()) {
		return "nn"
	}
	for _, k := range []string{"nil", "true", "false"} {
		if st.has(k, e) {
			return k
		}
	}
	if isString(v.Type()) && f.proves(st, nil, f.t.Len(e), -1) {
		return "ne" + f.t.konst(`""`, v.Type()).Key
	}
	return ""
}

type rset map[rstate]bool

type handlerCheck struct {
	c      *Ctx
	r      *Report
	root   *ssa.Function
	events int
}

var inlineExts = map[string]bool{".xhtml": true, ".htm": true}

// analyse follows one function with the writer bound to w; returns the states at its returns.
func (h *handlerCheck) analyse(fn *ssa.Function, w map[ssa.Value]bool, in rset, consts map[*ssa.Parameter]ssa.Value, open []ssa.Value, depth int) rset {
	c := h.c
	h.r.Fn(c, fn)
	f := c.Facts(fn)
	pend := c.pendingAt(fn, open)
	ins := map[*ssa.BasicBlock]rset{fn.Blocks[0]: in}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	out := rset{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := rset{}
		for s := range ins[b] {
			cur[s] = true
		}
		for _, x := range b.Instrs {
			cur = h.step(fn, x, w, cur, consts, pend, depth)
			if ret, ok := x.(*ssa.Return); ok {
				for s := range cur {
					n := rstate{status: s.status, json: s.json, html: s.html}
					for i, v := range results(ret) {
						o := f.outcomeOf(v, f.At(ret))
						if o == "" {
							o = s.outcome(f.t.X(v, nil).Key)
						}
						n = n.tie("#"+string(rune('0'+i)), o)
					}
					out[n] = true
				}
			}
		}
		br, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			n := rset{}
			html := 0
			var atoms []Atom
			if isIf && b.Succs[0] != b.Succs[1] {
				atoms = f.assume(br.Cond, i == 0, nil, 0)
				exts := []string{".xhtml", ".htm"}
				if c.impliesOneOf(br.Cond, i == 0, inlineExts, exts, 0) {
					html = 1
				} else if !c.impliesOneOf(br.Cond, i != 0, inlineExts, exts, 0) && !isEqConst(br.Cond) && c.fromExt(br.Cond, 0) {
					html = 2
				}
			}
			pi := -1
			for k, p := range s.Preds {
				if p == b {
					pi = k
				}
			}
			for st := range cur {
				if st.excluded(atoms) {
					continue
				}
				if html != 0 && st.html != 1 {
					st.html = html
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 {
						e := ph.Edges[pi]
						out := f.outcomeOf(e, f.out0(b))
						if out == "" {
							out = st.outcome(f.t.X(e, nil).Key)
						}
						st = st.tie(f.t.X(ph, nil).Key, out)
					}
				}
				n[st] = true
			}
			if len(n) == 0 {
				continue
			}
			old := ins[s]
			grown := old == nil
			if old == nil {
				old = rset{}
				ins[s] = old
			}
			for st := range n {
				if !old[st] {
					old[st] = true
					grown = true
				}
			}
			if grown {
				work = append(work, s)
			}
		}
	}
	return out
}

// pendingAt: errors that may be non-nil before each instruction of interest.
func (c *Ctx) pendingAt(fn *ssa.Function, open []ssa.Value) func(ssa.Instruction) []pend {
	src := func(in ssa.Instruction) []ssa.Value {
		if in == fn.Blocks[0].Instrs[0] && len(open) > 0 {
			if _, isCall := in.(*ssa.Call); !isCall {
				return open
			}
		}
		call, ok := in.(*ssa.Call)
		if !ok || c.harmlessError(call) && !strings.HasPrefix(calleeName(call.Common()), "strconv.") {
			return nil
		}
		return errValues(call)
	}
	outs := c.pending(fn, src)
	return func(at ssa.Instruction) []pend {
		b := at.Block()
		cur := pendSet{}
		f := c.Facts(fn)
		for i, p := range b.Preds {
			_ = i
			st := f.EdgeState(p, b)
			for k, v := range outs[p] {
				if !st.has("nil", f.t.X(k, nil)) {
					cur[k] = v
				}
			}
		}
		for _, x := range b.Instrs {
			if x == at {
				break
			}
			for _, v := range src(x) {
				cur[v] = pendOf(v, x)
			}
		}
		return sortedPend(cur)
	}
}

func pendOf(v ssa.Value, in ssa.Instruction) pend { return pend{v: v, call: in} }

func (h *handlerCheck) isW(v ssa.Value, w map[ssa.Value]bool) bool {
	for i := 0; i < 8; i++ {
		if w[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			if n := fwd(x); n != v {
				v = n
				continue
			}
			e := h.c.Exprs().X(x, nil)
			if e.Val != nil && e.Val != v {
				v = e.Val
				continue
			}
			return false
		case *ssa.FreeVar:
			b := h.c.binding(x)
			if b == nil {
				return false
			}
			v = b
		default:
			return false
		}
	}
	return false
}

func intConst(v ssa.Value, consts map[*ssa.Parameter]ssa.Value) (int64, bool) {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				return constant.Int64Val(x.Value)
			}
			return 0, false
		case *ssa.Parameter:
			n, ok := consts[x]
			if !ok {
				return 0, false
			}
			v = n
		case *ssa.UnOp:
			n := fwd(x)
			if n == v {
				return 0, false
			}
			v = n
		default:
			return 0, false
		}
	}
	return 0, false
}

func strConst(v ssa.Value, consts map[*ssa.Parameter]ssa.Value) (string, bool) {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Const:
			return constStr(x)
		case *ssa.Parameter:
			n, ok := consts[x]
			if !ok {
				return "", false
			}
			v = n
		default:
			return "", false
		}
	}
	return "", false
}

func (h *handlerCheck) step(fn *ssa.Function, in ssa.Instruction, w map[ssa.Value]bool, cur rset, consts map[*ssa.Parameter]ssa.Value, pend func(ssa.Instruction) []pend, depth int) rset {
	c := h.c
	hname := c.FnName(h.root)
	bad := func(rule, what, format string, a ...any) {
		h.r.Bad(rule, what+" in "+c.FnName(fn)+" for "+hname, c.PosOf(in), format, a...)
	}
	if mu, ok := in.(*ssa.MapUpdate); ok {
		if h.isHeader(mu.Map, w) {
			return h.header(fn, in, "Set", mu.Key, nil, cur, consts, bad)
		}
		return cur
	}
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return cur
	}
	cc := call.Common()
	name := calleeName(cc)
	// who receives the writer?
	recvW := cc.IsInvoke() && h.isW(cc.Value, w)
	argW := -1
	for i, a := range cc.Args {
		if h.isW(a, w) {
			argW = i
		}
	}
	if strings.HasPrefix(name, "(net/http.Header).") && len(cc.Args) > 0 && h.isHeader(cc.Args[0], w) {
		m := strings.TrimPrefix(name, "(net/http.Header).")
		switch m {
		case "Set", "Add", "Del":
			var v ssa.Value
			if len(cc.Args) > 2 {
				v = cc.Args[2]
			}
			return h.header(fn, in, m, cc.Args[1], v, cur, consts, bad)
		}
		return cur
	}
	next := rset{}
	sendError := func(code int64, known, complete bool) rset {
		h.events++
		for s := range cur {
			if s.status != rNone {
				bad("second-answer", "error response", "an error response is sent although an answer has already been sent on some path")
			}
			s.status = rErr
			if complete {
				s.status = rDone
			}
			next[s] = true
		}
		if known && code < 400 {
			bad("error-status", "error response", "an error is answered with status %d", code)
		} else {
			h.r.OK("error response in " + c.FnName(fn))
		}
		return next
	}
	success := func() {
		h.events++
		ps := pend(in)
		if len(ps) > 0 {
			bad("unchecked", "success after "+p10callName(ps[0].call), "success is sent although %s at %s may have failed", p10callName(ps[0].call), c.PosOf(ps[0].call))
		} else {
			h.r.OK("success response in " + c.FnName(fn))
		}
		for s := range cur {
			if s.status == rNone && !s.json && s.html == 0 {
				bad("content-type", "success", "success is sent on a path that has not set the JSON content type and does not serve an inline document")
			}
			if s.status == rNone && s.json && s.html == 1 {
				bad("content-type", "success", "an inline document is labelled as JSON")
			}
		}
	}
	data := func() rset {
		for s := range cur {
			switch s.status {
			case rNone:
				success()
			case rDone:
				bad("second-answer", "data", "data is written after an error response")
			case rErr:
				s.status = rErr
				next[s] = true
				continue
			}
			s.status = rData
			next[s] = true
		}
		h.events++
		return next
	}
	switch {
	case name == "net/http.Error" && argW == 0:
		code, known := intConst(cc.Args[2], consts)
		return sendError(code, known, true)
	case name == "net/http.NotFound" && argW == 0:
		return sendError(404, true, true)
	case recvW && cc.Method.Name() == "WriteHeader":
		code, known := intConst(cc.Args[0], consts)
		if known && code >= 400 {
			return sendError(code, true, false)
		}
		if !known && !h.mayBeSuccess(cc.Args[0]) {
			return sendError(0, false, false)
		}
		success()
		for s := range cur {
			if s.status != rNone {
				bad("second-answer", "status", "a success status is sent although an answer has already been sent on some path")
			}
			if known && (code == 204 || code == 304) {
				bad("no-data", "status", "success is sent as %d, which carries no data", code)
			}
			s.status = rOK
			next[s] = true
		}
		return next
	case recvW && cc.Method.Name() == "Write":
		return data()
	case recvW && cc.Method.Name() == "Header":
		return cur
	case recvW:
		return cur
	case (strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "io.Copy" || name == "io.CopyN") && argW == 0:
		return data()
	case name == "encoding/json.NewEncoder" && argW == 0:
		return cur
	case name == "(*encoding/json.Encoder).Encode" && h.encoderOf(cc.Args[0], w):
		return data()
	}
	if argW >= 0 || h.capturesW(cc, w) {
		mods := c.ModCallees(call)
		if len(mods) > 0 && depth < 6 {
			res := rset{}
			for _, g := range mods {
				nw := map[ssa.Value]bool{}
				nc := map[*ssa.Parameter]ssa.Value{}
				for i, p := range g.Params {
					ai := i
					if cc.IsInvoke() {
						ai = i - 1
					}
					if ai < 0 || ai >= len(cc.Args) {
						continue
					}
					if h.isW(cc.Args[ai], w) {
						nw[p] = true
					}
					a := cc.Args[ai]
					if q, ok := a.(*ssa.Parameter); ok {
						if v, ok := consts[q]; ok {
							a = v
						}
					}
					if isConst(a) {
						nc[p] = a
					}
				}
				for v := range w {
					nw[v] = true
				}
				var open []ssa.Value
				ps := pend(in)
				for i, p := range g.Params {
					ai := i
					if cc.IsInvoke() {
						ai = i - 1
					}
					if ai >= 0 && ai < len(cc.Args) && isErrorType(p.Type()) {
						for _, q := range ps {
							if c.carries(cc.Args[ai], q.v, 0) {
								open = append(open, p)
							}
						}
					}
				}
				for s0 := range cur {
					base := s0
					st0 := rstate{status: s0.status, json: s0.json, html: s0.html}
					cf := c.Facts(fn)
					for i, p := range g.Params {
						ai := i
						if cc.IsInvoke() {
							ai = i - 1
						}
						if ai < 0 || ai >= len(cc.Args) {
							continue
						}
						o := cf.outcomeOf(cc.Args[ai], cf.At(in))
						if o == "" {
							o = s0.outcome(cf.t.X(cc.Args[ai], nil).Key)
						}
						st0 = st0.tie(cf.t.X(p, nil).Key, o)
					}
					one := rset{st0: true}
					for s := range h.analyse(g, nw, one, nc, open, depth+1) {
						n := rstate{status: s.status, json: s.json, html: s.html, corr: base.corr}
						h.tieResults(&n, s, call)
						res[n] = true
						if (s.status == rOK || s.status == rData) && s0.status == rNone {
							for _, q := range ps {
								// an error handed to the helper is the helper's to test
								passed := false
								for _, a := range cc.Args {
									if c.carries(a, q.v, 0) {
										passed = true
									}
								}
								if !passed {
									bad("unchecked", "success after "+p10callName(q.call), "success is sent although %s at %s may have failed", p10callName(q.call), c.PosOf(q.call))
								}
							}
						}
					}
				}
			}
			if len(res) > 0 {
				return res
			}
			return cur
		}
		if argW >= 0 && len(mods) == 0 && !strings.HasPrefix(name, "github.com/gorilla/mux.") {
			for s := range cur {
				if s.status == rNone {
					s.status = rHanded
				}
				next[s] = true
			}
			return next
		}
	}
	return cur
}

// tieResults carries the outcomes of a helper over to the values its call yields.
func (h *handlerCheck) tieResults(n *rstate, s rstate, call ssa.CallInstruction) {
	v, ok := call.(*ssa.Call)
	if !ok {
		return
	}
	t := h.c.Exprs()
	if v.Call.Signature().Results().Len() == 1 {
		*n = n.tie(t.X(v, nil).Key, s.outcome("#0"))
		return
	}
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok {
			*n = n.tie(t.X(ex, nil).Key, s.outcome("#"+string(rune('0'+ex.Index))))
		}
	}
}

func isEqConst(v ssa.Value) bool {
	_, _, a := eqConst(v, true)
	_, _, b := eqConst(v, false)
	return a || b
}

// fromExt: the value depends on the extension of a file name.
func (c *Ctx) fromExt(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	if call, ok := v.(*ssa.Call); ok {
		switch calleeName(call.Common()) {
		case "path/filepath.Ext", "path.Ext", "strings.HasSuffix":
			return true
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if e := c.Exprs().X(v, nil); e.Val != nil && e.Val != v && c.fromExt(e.Val, depth+1) {
		return true
	}
	for _, o := range in.Operands(nil) {
		if o != nil && *o != nil && c.fromExt(*o, depth+1) {
			return true
		}
	}
	return false
}

// out0 is the state when control leaves a block.
func (f *Facts) out0(b *ssa.BasicBlock) *State {
	if s := f.out[b]; s != nil {
		return s
	}
	return newState()
}

func (h *handlerCheck) capturesW(cc *ssa.CallCommon, w map[ssa.Value]bool) bool {
	check := func(v ssa.Value) bool {
		if mc, ok := v.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if h.isW(b, w) {
					return true
				}
				if al, ok := b.(*ssa.Alloc); ok {
					st, _ := h.c.storesTo(al)
					for _, s := range st {
						if h.isW(s.Val, w) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return check(cc.Value)
}

// mayBeSuccess: a status that is not a constant may be below 400.
func (h *handlerCheck) mayBeSuccess(v ssa.Value) bool {
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if n, ok := intConst(e, nil); !ok || n < 400 {
				return true
			}
		}
		return false
	}
	if _, ok := v.(*ssa.Parameter); ok {
		return false
	}
	return true
}

func (h *handlerCheck) isHeader(v ssa.Value, w map[ssa.Value]bool) bool {
	if ct, ok := v.(*ssa.ChangeType); ok {
		v = ct.X
	}
	v = fwd(v)
	if e := h.c.Exprs().X(v, nil); e.Val != nil {
		if call, ok := e.Val.(*ssa.Call); ok {
			v = call
		}
	}
	call, ok := v.(*ssa.Call)
	return ok && call.Call.IsInvoke() && call.Call.Method.Name() == "Header" && h.isW(call.Call.Value, w)
}

func (h *handlerCheck) encoderOf(v ssa.Value, w map[ssa.Value]bool) bool {
	v = fwd(v)
	if call, ok := v.(*ssa.Call); ok {
		switch calleeName(call.Common()) {
		case "encoding/json.NewEncoder":
			return h.isW(call.Call.Args[0], w)
		}
	}
	return false
}

func (h *handlerCheck) header(fn *ssa.Function, in ssa.Instruction, op string, key, val ssa.Value, cur rset, consts map[*ssa.Parameter]ssa.Value, bad func(string, string, string, ...any)) rset {
	k, _ := strConst(key, consts)
	h.events++
	next := rset{}
	for s := range cur {
		if s.status != rNone {
			bad("late-header", "header "+k, "header field %s is set after the status line and does not reach the client", k)
		}
		if s.status == rNone && http.CanonicalHeaderKey(k) == "Content-Type" {
			if op == "Del" {
				s.json = false
			} else if val == nil {
				s.json = true
			} else if v, ok := strConst(val, consts); ok {
				s.json = strings.HasPrefix(v, "application/json")
			} else {
				s.json = true
			}
		}
		next[s] = true
	}
	h.r.OK("header field " + k + " in " + h.c.FnName(fn))
	return next
}

// expected provenance of the parameters of the answering operations
var answerParams = map[string][]string{
	"MarshalCatalog":     {"var:id"},
	"MarshalRenderable":  {"var:id", "var:hash"},
	"MarshalExpressable": {"var:id", "query:name", "query:contextref"},
}

func p11(c *Ctx, r *Report) {
	r.Rule("every path of every HTTP handler (helpers that receive the writer included) sends exactly one answer: an error status of 400 or more and nothing after it, or success followed by data; typestate over all paths")
	r.Rule("header fields are set before the status line; success carries the JSON content type on every path except those taken for an inline document")
	r.Rule("success is sent only where every error result obtained before was found nil")
	r.Rule("what is computed is asked for with the request's own id, hash, name and contextref; every path variable used by a handler is in its route, and no literal route is hidden behind an earlier variable one")
	n := 0
	for _, fn := range c.Fns {
		if !isHandler(fn) {
			continue
		}
		n++
		h := &handlerCheck{c: c, r: r, root: fn}
		out := h.analyse(fn, map[ssa.Value]bool{fn.Params[0]: true}, rset{rstate{}: true}, nil, nil, 0)
		name := c.FnName(fn)
		for s := range out {
			switch s.status {
			case rNone:
				r.Bad("no-answer", name, c.Pos(fn.Pos()), "a path through the handler sends no answer")
			case rOK:
				r.Bad("no-data", name, c.Pos(fn.Pos()), "a path through the handler sends a success status without data")
			default:
				r.OK("one answer on the paths of " + name)
			}
		}
		r.Count("response_events", h.events)
	}
	r.Count("handlers", n)
	r.Need(n >= 1, "only %d handlers found", n)
	p11args(c, r)
	p11routes(c, r)
}

// requestPart says which part of the request a string is.
func (c *Ctx) requestPart(v ssa.Value, depth int) map[string]bool {
	res := map[string]bool{}
	if depth > 12 {
		return res
	}
	merge := func(m map[string]bool) {
		for k := range m {
			res[k] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constStr(x); ok && s != "" {
			res["const:"+s] = true
		}
	case *ssa.Lookup:
		k, ok := constStr(x.Index)
		if call, isCall := fwd(x.X).(*ssa.Call); isCall && calleeName(call.Common()) == "github.com/gorilla/mux.Vars" && ok {
			res["var:"+k] = true
		} else if ok {
			if e := c.Exprs().X(x.X, nil); e.Val != nil {
				if call, isCall := e.Val.(*ssa.Call); isCall && calleeName(call.Common()) == "github.com/gorilla/mux.Vars" {
					res["var:"+k] = true
				}
			}
			if strings.Contains(x.X.Type().String(), "net/url.Values") {
				res["query:"+k] = true
			}
			if p, isP := x.X.(*ssa.Parameter); isP && len(res) == 0 {
				for _, s := range c.Callers(p.Parent()) {
					for i, q := range p.Parent().Params {
						if q == p && i < len(s.Common().Args) {
							if call, isCall := fwd(s.Common().Args[i]).(*ssa.Call); isCall && calleeName(call.Common()) == "github.com/gorilla/mux.Vars" {
								res["var:"+k] = true
							}
						}
					}
				}
			}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if x.Index == 0 {
				return c.requestPart(t, depth+1)
			}
		case *ssa.Call:
			return c.requestCall(t, x.Index, depth)
		}
	case *ssa.Call:
		return c.requestCall(x, 0, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			merge(c.requestPart(e, depth+1))
		}
	case *ssa.UnOp:
		if w := fwd(x); w != v {
			return c.requestPart(w, depth+1)
		}
		if e := c.Exprs().X(x, nil); e.Val != nil && e.Val != v {
			return c.requestPart(e.Val, depth+1)
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return c.requestPart(ia.X, depth+1)
		}
	case *ssa.Parameter:
		for _, s := range c.Callers(x.Parent()) {
			for i, q := range x.Parent().Params {
				if q == x && i < len(s.Common().Args) {
					merge(c.requestPart(s.Common().Args[i], depth+1))
				}
			}
		}
	case *ssa.BinOp:
		merge(c.requestPart(x.X, depth+1))
		merge(c.requestPart(x.Y, depth+1))
	}
	return res
}

func (c *Ctx) requestCall(call *ssa.Call, idx, depth int) map[string]bool {
	res := map[string]bool{}
	n := calleeName(call.Common())
	args := call.Call.Args
	key := func(v ssa.Value) (string, bool) {
		if s, ok := constStr(v); ok {
			return s, true
		}
		return "", false
	}
	switch n {
	case "(net/url.Values).Get", "(*net/http.Request).FormValue":
		if k, ok := key(args[1]); ok {
			res["query:"+k] = true
			return res
		}
	}
	if g := call.Call.StaticCallee(); g != nil && c.InModule(g) {
		sub := c.requestReturn(g, idx, call, depth)
		for k := range sub {
			res[k] = true
		}
		return res
	}
	for _, a := range args {
		if isString(a.Type()) {
			for k := range c.requestPart(a, depth+1) {
				if !strings.HasPrefix(k, "const:") {
					res[k] = true
				}
			}
		}
	}
	return res
}

// requestReturn evaluates a helper of the module for this call only.
func (c *Ctx) requestReturn(g *ssa.Function, idx int, call *ssa.Call, depth int) map[string]bool {
	res := map[string]bool{}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		for k := range c.requestPartIn(results(ret)[idx], g, call, depth+1) {
			res[k] = true
		}
	}
	return res
}

func (c *Ctx) requestPartIn(v ssa.Value, g *ssa.Function, call *ssa.Call, depth int) map[string]bool {
	res := map[string]bool{}
	if depth > 12 {
		return res
	}
	merge := func(m map[string]bool) {
		for k := range m {
			res[k] = true
		}
	}
	arg := func(v ssa.Value) ssa.Value {
		for i, p := range g.Params {
			if p == v && i < len(call.Call.Args) {
				return call.Call.Args[i]
			}
		}
		return v
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return c.requestPart(arg(x), depth+1)
	case *ssa.Lookup:
		k := arg(x.Index)
		if s, ok := constStr(k); ok {
			if cl, ok := fwd(arg(x.X)).(*ssa.Call); ok && calleeName(cl.Common()) == "github.com/gorilla/mux.Vars" {
				res["var:"+s] = true
			} else if strings.Contains(x.X.Type().String(), "net/url.Values") {
				res["query:"+s] = true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			merge(c.requestPartIn(e, g, call, depth+1))
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return c.requestPartIn(t, g, call, depth+1)
		case *ssa.Call:
			return c.requestPartIn(t, g, call, depth+1)
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		switch n {
		case "(net/url.Values).Get", "(*net/http.Request).FormValue":
			if s, ok := constStr(arg(x.Call.Args[1])); ok {
				res["query:"+s] = true
				return res
			}
		}
		if h := x.Call.StaticCallee(); h != nil && !c.InModule(h) {
			for _, a := range x.Call.Args {
				if isString(a.Type()) {
					merge(c.requestPartIn(a, g, call, depth+1))
				}
			}
		}
	default:
		return c.requestPart(v, depth+1)
	}
	return res
}

func p11args(c *Ctx, r *Report) {
	p := c.Pkgs["pkg/cache"]
	r.Need(p != nil, "the cache package is gone")
	for name, want := range answerParams {
		fn := p.Func(name)
		if fn == nil {
			continue
		}
		for _, site := range c.Callers(fn) {
			if PkgOf(site.Parent()).Name() == "cache" {
				continue
			}
			for i, exp := range want {
				if i >= len(site.Common().Args) {
					continue
				}
				got := c.requestPart(site.Common().Args[i], 0)
				var ks []string
				for k := range got {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				if len(ks) == 0 {
					r.Open("origin of argument " + exp + " of " + name)
					continue
				}
				if len(ks) == 1 && ks[0] == exp {
					r.OK(name + " asked with " + exp)
				} else {
					r.Bad("argument", name+" argument "+exp, c.PosOf(site), "%s is asked with %s where the request's %s belongs", name, strings.Join(ks, "+"), exp)
				}
			}
		}
	}
}

var muxVar = regexp.MustCompile(`\{([^}:]+)`)

type route struct {
	full string
	pos  token.Pos
	in   ssa.Instruction
	h    []*ssa.Function
	rtr  ssa.Value
	pat  string
}

func p11routes(c *Ctx, r *Report) {
	var routes []route
	for _, fn := range c.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				n := calleeName(call.Common())
				if n != "(*github.com/gorilla/mux.Router).HandleFunc" && n != "(*github.com/gorilla/mux.Router).Handle" {
					continue
				}
				pat, ok := constStr(call.Call.Args[1])
				if !ok {
					continue
				}
				rt := route{pat: pat, pos: call.Pos(), in: call, rtr: call.Call.Args[0]}
				rt.full = c.routePrefix(call.Call.Args[0], 0) + pat
				for _, g := range c.functionsOf(call.Call.Args[2], 0) {
					if isHandler(g) {
						rt.h = append(rt.h, g)
					}
				}
				routes = append(routes, rt)
			}
		}
	}
	r.Count("routes", len(routes))
	for i, rt := range routes {
		have := map[string]bool{}
		for _, m := range muxVar.FindAllStringSubmatch(rt.full, -1) {
			have[m[1]] = true
		}
		for _, h := range rt.h {
			for _, v := range c.varsUsed(h) {
				if have[v] {
					r.OK("path variable " + v + " of " + rt.full)
				} else {
					r.Bad("route", "variable "+v+" of "+rt.full, c.PosOf(rt.in), "the handler uses path variable %s, which the route %s does not have", v, rt.full)
				}
			}
		}
		for j := 0; j < i; j++ {
			o := routes[j]
			if o.rtr != rt.rtr && c.Exprs().X(o.rtr, nil) != c.Exprs().X(rt.rtr, nil) {
				continue
			}
			if shadows(o.pat, rt.pat) {
				r.Bad("route", rt.full+" behind "+o.full, c.PosOf(rt.in), "route %s is never reached because %s is matched first", rt.full, o.full)
			} else {
				r.OK("route " + rt.full + " after " + o.full)
			}
		}
	}
}

func shadows(a, b string) bool {
	as, bs := strings.Split(a, "/"), strings.Split(b, "/")
	if len(as) != len(bs) {
		return false
	}
	for i := range as {
		if strings.HasPrefix(as[i], "{") && !strings.Contains(as[i], ":") {
			continue
		}
		if as[i] != bs[i] {
			return false
		}
	}
	return true
}

func (c *Ctx) routePrefix(v ssa.Value, depth int) string {
	if depth > 8 {
		return ""
	}
	call, ok := fwd(v).(*ssa.Call)
	if !ok {
		return ""
	}
	switch calleeName(call.Common()) {
	case "(*github.com/gorilla/mux.Route).Subrouter":
		return c.routePrefix(call.Call.Args[0], depth+1)
	case "(*github.com/gorilla/mux.Router).PathPrefix", "(*github.com/gorilla/mux.Route).PathPrefix":
		s, _ := constStr(call.Call.Args[1])
		return c.routePrefix(call.Call.Args[0], depth+1) + s
	}
	return ""
}

// functionsOf: the functions a value can be.
func (c *Ctx) functionsOf(v ssa.Value, depth int) []*ssa.Function {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return c.functionsOf(x.X, depth+1)
	case *ssa.MakeInterface:
		return c.functionsOf(x.X, depth+1)
	case *ssa.UnOp:
		if w := fwd(x); w != v {
			return c.functionsOf(w, depth+1)
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && c.InModule(g) {
			var r []*ssa.Function
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					r = append(r, c.functionsOf(results(ret)[0], depth+1)...)
				}
			}
			return r
		}
	}
	return nil
}

// varsUsed: path variables a handler and the functions it calls look up.
func (c *Ctx) varsUsed(h *ssa.Function) []string {
	set := map[string]bool{}
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			l, ok := in.(*ssa.Lookup)
			if !ok {
				continue
			}
			k, ok := constStr(l.Index)
			if !ok {
				continue
			}
			e := c.Exprs().X(l.X, nil)
			if call, isCall := e.Val.(*ssa.Call); isCall && calleeName(call.Common()) == "github.com/gorilla/mux.Vars" {
				set[k] = true
			}
		}
	}
	var r []string
	for k := range set {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = types.Typ
