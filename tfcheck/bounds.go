package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const inf = int64(1) << 40

// lenAxioms states what the length of a made, sliced or appended value is.
func (t *exprTab) lenAxioms(l *Expr) {
	if _, ok := t.axs[l.Key]; ok {
		return
	}
	t.axs[l.Key] = []leFact{{nil, l, 0}} // 0 - len <= 0
	e := l.Args[0]
	eq := func(x *Expr, k int64) { // len == x+k
		b, n := t.Lin(x)
		t.axs[l.Key] = append(t.axs[l.Key], leFact{l, b, n + k}, leFact{b, l, -n - k})
	}
	switch e.Op {
	case "bytes":
		eq(t.Len(e.Args[0]), 0)
		return
	case "call":
		switch e.Aux {
		case "strings.Split":
			t.axs[l.Key] = append(t.axs[l.Key], leFact{nil, l, -1})
		case "strings.SplitN":
			if b, n := t.Lin(e.Args[2]); b == nil && n != 0 {
				t.axs[l.Key] = append(t.axs[l.Key], leFact{nil, l, -1})
				if n > 0 {
					t.axs[l.Key] = append(t.axs[l.Key], leFact{l, nil, n})
				}
			}
		}
		return
	}
	if e.Op != "val" || e.Val == nil {
		return
	}
	switch v := e.Val.(type) {
	case *ssa.MakeSlice:
		eq(t.X(v.Len, nil), 0)
	case *ssa.Slice:
		var base *Expr
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok {
				base = t.Int(arr.Len())
			}
		} else {
			base = t.Len(t.X(v.X, nil))
		}
		if base == nil {
			return
		}
		hi := base
		if v.High != nil {
			hi = t.X(v.High, nil)
		}
		lo := int64(0)
		if v.Low != nil {
			lb, n := t.Lin(t.X(v.Low, nil))
			if lb != nil {
				// len == hi - low; with low <= hi only len <= hi is kept
				hb, hn := t.Lin(hi)
				t.axs[l.Key] = append(t.axs[l.Key], leFact{l, hb, hn})
				return
			}
			lo = n
		}
		eq(hi, -lo)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(v.Call.Args) == 2 {
			if k, ok := v.Call.Args[0].(*ssa.Const); ok && k.Value == nil {
				x, n := t.Lin(t.Len(t.X(v.Call.Args[1], nil)))
				if k2, ok := v.Call.Args[1].(*ssa.Const); ok && k2.Value == nil {
					x, n = nil, 0
				}
				t.axs[l.Key] = append(t.axs[l.Key], leFact{l, x, n}, leFact{x, l, -n})
				return
			}
			x, n := t.Lin(t.Len(t.X(v.Call.Args[0], nil)))
			add := int64(0)
			if s, ok := v.Call.Args[1].(*ssa.Slice); ok && s.Low == nil && s.High == nil {
				if p, ok := s.X.Type().Underlying().(*types.Pointer); ok {
					if arr, ok := p.Elem().Underlying().(*types.Array); ok {
						add = arr.Len()
						t.axs[l.Key] = append(t.axs[l.Key], leFact{l, x, n + add})
					}
				}
			}
			t.axs[l.Key] = append(t.axs[l.Key], leFact{x, l, -n - add})
		}
	}
}

func (t *exprTab) callAxioms(e *Expr) {
	if _, ok := t.axs[e.Key]; ok {
		return
	}
	t.axs[e.Key] = nil
	switch e.Aux {
	case "strings.Index", "strings.IndexRune", "strings.IndexByte", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc", "slices.Index", "slices.IndexFunc":
		l := t.Len(e.Args[0])
		b, n := t.Lin(l)
		d := int64(-1)
		if e.Aux == "strings.Index" || e.Aux == "strings.LastIndex" {
			d = 0
			if sub := e.Args[1]; sub.Op == "const" && len(sub.Aux) > 2 {
				d = -int64(len(sub.Aux) - 2)
				if n == 0 && b != nil {
					// not found gives -1, which needs a string at least d long to stay below len+d
					t.axs[e.Key] = append(t.axs[e.Key], leFact{e, b, -1})
				}
			}
			if d < -1 {
				d = -1
			}
		}
		t.axs[e.Key] = append(t.axs[e.Key], leFact{nil, e, 1}, leFact{e, b, n + d})
	case "sort.Search":
		b, n := t.Lin(e.Args[0])
		t.axs[e.Key] = append(t.axs[e.Key], leFact{nil, e, 0}, leFact{e, b, n})
	case "strings.Count", "unicode/utf8.RuneCountInString", "sort.SearchStrings":
		t.axs[e.Key] = append(t.axs[e.Key], leFact{nil, e, 0})
	}
}

// bound finds the least n with a - b <= n that follows from the state and axioms.
func (f *Facts) bound(s *State, a, b *Expr) (int64, bool) {
	if keyOf(a) == keyOf(b) {
		return 0, true
	}
	adj := map[string][]leFact{}
	for _, at := range s.m {
		if at.K == "le" {
			adj[keyOf(at.A)] = append(adj[keyOf(at.A)], leFact{at.A, at.B, at.N})
		}
		if at.K == "same" && at.B != nil {
			x, n := f.t.Lin(at.B)
			if isInt(at.A.Type) {
				adj[keyOf(at.A)] = append(adj[keyOf(at.A)], leFact{at.A, x, n})
				adj[keyOf(x)] = append(adj[keyOf(x)], leFact{x, at.A, -n})
			}
		}
		if at.K == "eq" && at.B != nil && at.A != nil && at.B.Op != "const" && hasLenT(at.A.Type) {
			la, lb := f.t.Len(at.A), f.t.Len(at.B)
			adj[la.Key] = append(adj[la.Key], leFact{la, lb, 0})
			adj[lb.Key] = append(adj[lb.Key], leFact{lb, la, 0})
		}
	}
	dist := map[string]int64{keyOf(a): 0}
	exprs := map[string]*Expr{keyOf(a): a}
	work := []string{keyOf(a)}
	n := map[string]int{}
	// axioms whose left side is zero are needed when the walk is at zero
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if n[k]++; n[k] > 40 {
			continue
		}
		edges := adj[k]
		e := exprs[k]
		if e != nil {
			for _, ax := range f.t.axs[k] {
				if keyOf(ax.A) == k {
					edges = append(edges[:len(edges):len(edges)], ax)
				}
			}
			// x - len(..) axioms registered under the other side
			for _, ax := range f.reverseAxioms(k) {
				edges = append(edges[:len(edges):len(edges)], ax)
			}
		}
		if k == "" && b != nil {
			for _, ax := range f.t.axs[b.Key] {
				if ax.A == nil {
					edges = append(edges[:len(edges):len(edges)], ax)
				}
			}
		}
		for _, ed := range edges {
			nk := keyOf(ed.B)
			d := dist[k] + ed.N
			if o, ok := dist[nk]; !ok || d < o {
				dist[nk] = d
				exprs[nk] = ed.B
				work = append(work, nk)
			}
		}
	}
	d, ok := dist[keyOf(b)]
	return d, ok
}

var revMemo map[string][]leFact
var revCount int

// reverseAxioms: axioms a - b <= n registered under b, for a == k.
func (f *Facts) reverseAxioms(k string) []leFact {
	if len(f.t.axs) != revCount || revMemo == nil {
		revMemo = map[string][]leFact{}
		for owner, l := range f.t.axs {
			for _, ax := range l {
				if keyOf(ax.A) != owner && ax.A != nil {
					revMemo[keyOf(ax.A)] = append(revMemo[keyOf(ax.A)], ax)
				}
			}
		}
		revCount = len(f.t.axs)
	}
	return revMemo[k]
}

func hasLenT(t types.Type) bool { return t != nil && hasLen(t) }

// proves a - b <= n at the state.
func (f *Facts) proves(s *State, a, b *Expr, n int64) bool {
	if a != nil {
		x, k := f.t.Lin(a)
		a, n = x, n-k
	}
	if b != nil {
		x, k := f.t.Lin(b)
		b, n = x, n+k
	}
	if a == nil && b == nil {
		return 0 <= n
	}
	d, ok := f.bound(s, a, b)
	return ok && d <= n
}
