package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Provenance tables. A row is
//
//	path <- need, need | allow, allow ; by by by
//
// where path names a part of the result, need lists what it must be computed
// from, allow what it may also be computed from, and by what must select it.
// An alternative is written a||b.

type provRow struct {
	path  string
	need  []string
	allow []string
	by    []string
	notBy []string
}

func parseRows(s string) []provRow {
	var r []provRow
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "//") {
			continue
		}
		path, rest, ok := strings.Cut(l, "<-")
		if !ok {
			panic("row " + l)
		}
		row := provRow{path: strings.TrimSpace(path)}
		parts := strings.Split(rest, ";")
		need, allow, _ := strings.Cut(strings.ReplaceAll(parts[0], "||", "\x00"), "|")
		split := func(s string) []string {
			var r []string
			for _, x := range strings.Split(s, ",") {
				if x = strings.TrimSpace(strings.ReplaceAll(x, "\x00", "||")); x != "" {
					r = append(r, x)
				}
			}
			return r
		}
		row.need, row.allow = split(need), split(allow)
		for _, p := range parts[1:] {
			p = strings.TrimSpace(p)
			if x, ok := strings.CutPrefix(p, "by "); ok {
				row.by = split(x)
			} else if x, ok := strings.CutPrefix(p, "notby "); ok {
				row.notBy = split(x)
			} else {
				panic("row " + l)
			}
		}
		r = append(r, row)
	}
	return r
}

var (
	reIndex = regexp.MustCompile(`\[\d+\]`)
	reAttr  = regexp.MustCompile(`(@[\w*]+)\.Value`)
)

func normTag(t string) string {
	return reAttr.ReplaceAllString(reIndex.ReplaceAllString(t, "[]"), "$1")
}

func matchTag(t, pat string) bool {
	for _, p := range strings.Split(pat, "||") {
		if x, ok := strings.CutSuffix(p, "*"); ok {
			if t == x || strings.HasPrefix(t, x) || strings.Contains(t, "."+x) {
				return true
			}
			continue
		}
		if t == p || strings.HasSuffix(t, "."+p) || strings.HasPrefix(p, "@") && strings.HasSuffix(t, p) {
			return true
		}
	}
	return false
}

func matchAny(t string, pats []string) bool {
	for _, p := range pats {
		if matchTag(t, p) {
			return true
		}
	}
	return false
}

// shaped is what a part of a result is computed from.
type shaped struct {
	path string
	data map[string]bool // raw tags
	by   map[string]bool
	cons map[string]bool
	at   []*vcell
}

func (vf *VF) shapes(c *vcell, t types.Type) map[string]*shaped {
	r := map[string]*shaped{}
	vf.shape(c, t, "", func(path string, t types.Type, cl *vcell) {
		s := r[path]
		if s == nil {
			s = &shaped{path, map[string]bool{}, map[string]bool{}, map[string]bool{}, nil}
			r[path] = s
		}
		s.at = append(s.at, cl)
		for _, v := range vf.via {
			for _, t := range v.tgl {
				if isBy(t) {
					s.by[strings.TrimPrefix(t, "by:")] = true
				}
			}
		}
		for _, t := range cl.tgl {
			switch {
			case isBy(t):
				s.by[strings.TrimPrefix(t, "by:")] = true
			case strings.HasPrefix(t, "const:"):
				s.cons[strings.TrimPrefix(t, "const:")] = true
			default:
				s.data[t] = true
			}
		}
	}, map[string]bool{})
	return r
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// typePaths lists the parts of a type, the way shape names them.
func typePaths(t types.Type, path string, depth int, visit func(string, types.Type)) {
	if n, ok := t.(*types.Named); ok && depth > 0 && n.Obj().Pkg() != nil {
		if p := n.Obj().Pkg().Path(); !strings.HasPrefix(p, "ecksbee.com/") && p != "encoding/xml" {
			visit(path, t)
			return
		}
		if strings.HasSuffix(n.Obj().Pkg().Path(), "/serializables") {
			visit(path, t)
			return
		}
	}
	if depth > 20 {
		return
	}
	if leafType(t) {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			typePaths(u.Elem(), path, depth+1, visit)
			return
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
				typePaths(u.Elem(), path+"[]", depth+1, visit)
				return
			}
		case *types.Map:
			typePaths(u.Key(), path+"{}", depth+1, visit)
			typePaths(u.Elem(), path+"[]", depth+1, visit)
			return
		}
		visit(path, t)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			p := path + "." + f.Name()
			if path == "" {
				p = f.Name()
			}
			typePaths(f.Type(), p, depth+1, visit)
		}
	case *types.Array:
		typePaths(u.Elem(), path+"[]", depth+1, visit)
	}
}

// judge compares the computed provenance of a result with the table.
func judge(vf *VF, r *Report, what string, fn *ssa.Function, rows []provRow, have map[string]*shaped, t types.Type) {
	exists := map[string]bool{}
	flag := map[string]bool{}
	typePaths(t, "", 0, func(p string, t types.Type) {
		exists[p] = true
		if isBool(t) {
			flag[p] = true
		}
	})
	for _, row := range rows {
		if !exists[row.path] {
			r.Open(what + "." + row.path + " is not part of the type")
			continue
		}
		s := have[row.path]
		if s == nil {
			s = &shaped{path: row.path}
		}
		r.Count("result fields traced", 1)
		bad := false
		vague := false
		norm := map[string]bool{}
		for t := range s.data {
			norm[normTag(t)] = true
			if matchAny(normTag(t), row.need) {
				continue
			}
			for _, n := range row.need {
				for _, n := range strings.Split(n, "||") {
					if vagueFor(t, n) {
						vague = true
					}
				}
			}
		}
		for _, n := range row.need {
			ok := false
			for t := range norm {
				ok = ok || matchTag(t, n)
			}
			if !ok && flag[row.path] && len(s.cons) > 0 {
				// a flag may be set where its source says so
				for t := range s.by {
					ok = ok || matchTag(normTag(t), n)
				}
			}
			if ok {
				continue
			}
			if vague {
				r.Open(what + "." + row.path + ": attribute name not resolved")
				bad = true
				break
			}
			bad = true
			got := "nothing in the source"
			if len(norm) > 0 {
				got = strings.Join(keysOf(norm), ", ")
			} else if len(s.cons) > 0 {
				got = "constants only"
			}
			r.Bad("source", what+"."+row.path+" <- "+n, vf.writer(row.path, oneOf(norm), fn), "%s.%s is never computed from %s (it is computed from %s)", what, row.path, n, got)
		}
		if bad {
			for t := range s.by {
				if vague && matchAny(normTag(t), row.notBy) {
					r.Bad("selection", what+"."+row.path+" by "+normTag(t), vf.writer(row.path, normTag(t), fn), "%s.%s is selected by %s", what, row.path, normTag(t))
				}
			}
			continue
		}
		all := append(append([]string{}, row.need...), row.allow...)
		for _, t := range keysOf(norm) {
			if !matchAny(t, all) {
				bad = true
				if vague && vagueAny(t, all) {
					r.Open(what + "." + row.path + ": attribute name not resolved")
					continue
				}
				r.Bad("foreign", what+"."+row.path+" <- "+t, vf.writer(row.path, t, fn), "%s.%s is also computed from %s, but it stands for %s", what, row.path, t, strings.Join(row.need, ", "))
			}
		}
		nby := map[string]bool{}
		for t := range s.by {
			nby[normTag(t)] = true
		}
		for _, n := range row.by {
			ok := false
			for t := range nby {
				ok = ok || matchTag(t, n)
			}
			if !ok {
				bad = true
				r.Bad("selection", what+"."+row.path+" by "+n, vf.writer(row.path, "", fn), "%s.%s is not selected by %s", what, row.path, n)
			}
		}
		for _, n := range row.notBy {
			for t := range nby {
				if matchTag(t, n) {
					bad = true
					r.Bad("selection", what+"."+row.path+" by "+t, vf.writer(row.path, t, fn), "%s.%s is selected by %s", what, row.path, t)
				}
			}
		}
		if !bad {
			r.OK(what + "." + row.path + " is computed from " + strings.Join(row.need, ", "))
		}
	}
}

// writer is where a part of a result is filled in, preferably with a value
// that carries the tag.
func (vf *VF) writer(path, tag string, fn *ssa.Function) string {
	field := path
	if i := strings.LastIndex(path, "."); i >= 0 {
		field = path[i+1:]
	}
	isMap := strings.HasSuffix(field, "{}") || strings.HasSuffix(field, "[]")
	field = strings.TrimRight(field, "{}[]")
	owner := ""
	if parts := strings.Split(path, "."); len(parts) > 1 {
		owner = strings.TrimSuffix(strings.TrimRight(parts[len(parts)-2], "{}[]"), "s")
	}
	best, score := "", 0
	consider := func(in *vinst, ins ssa.Instruction, v ssa.Value, n int) {
		if c := in.regs[v]; c != nil && tag != "" {
			for _, t := range c.tgl {
				if normTag(strings.TrimPrefix(t, "by:")) == tag {
					n += 4
					break
				}
			}
		}
		if pos := vf.c.PosOf(ins); n > score && pos != "" {
			best, score = pos, n
		}
	}
	for _, in := range vf.list {
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if n, _ := fieldName(deref(fa.X.Type()), fa.Field); n != field {
						continue
					}
					n := 1
					if owner != "" && strings.Contains(deref(fa.X.Type()).String(), owner) {
						n += 2
					}
					consider(in, ins, x.Val, n)
				case *ssa.MapUpdate:
					if isMap && tag != "" {
						consider(in, ins, x.Key, 0)
						consider(in, ins, x.Value, 0)
					}
				}
			}
		}
	}
	if best == "" {
		best = vf.c.Pos(fn.Pos())
	}
	return best
}

func oneOf(m map[string]bool) string {
	for _, k := range keysOf(m) {
		return k
	}
	return ""
}

// vagueFor: the tag stands for some attribute of the element whose attribute
// the pattern names.
func vagueFor(t, pat string) bool {
	i := strings.LastIndex(pat, "@")
	if i < 0 {
		return false
	}
	t = normTag(t)
	for _, s := range []string{"@*", ".XMLAttrs[].Value", ".Attr[].Value", ".XMLAttrs[]", ".Attr[]"} {
		if owner, ok := strings.CutSuffix(t, s); ok {
			return matchTag(owner, pat[:i])
		}
	}
	return false
}

func vagueAny(t string, pats []string) bool {
	for _, p := range pats {
		for _, p := range strings.Split(p, "||") {
			if vagueFor(t, p) {
				return true
			}
		}
	}
	return false
}
