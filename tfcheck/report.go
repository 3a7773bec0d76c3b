package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one construct of the tree that breaks the property.
type Violation struct {
	Rule string `json:"rule"`
	Key  string `json:"key"` // rule and construct, without line numbers
	Pos  string `json:"position"`
	Msg  string `json:"message"`
}

// Report collects what a check analysed and found.
type Report struct {
	Prop        string
	Rules       []string
	Assumptions []string
	Counts      map[string]int
	Violations  []Violation
	fns         map[string]bool
	samples     []string
	seen        map[string]bool
	obligations int
	discharged  int
	undecided   []string
}

func NewReport(prop string) *Report {
	return &Report{Prop: prop, Counts: map[string]int{}, fns: map[string]bool{}, seen: map[string]bool{}}
}

func (r *Report) Rule(format string, a ...any) { r.Rules = append(r.Rules, fmt.Sprintf(format, a...)) }
func (r *Report) Assume(format string, a ...any) {
	r.Assumptions = append(r.Assumptions, fmt.Sprintf(format, a...))
}
func (r *Report) Count(name string, n int) { r.Counts[name] += n }

// Fn records that a function was analysed.
func (r *Report) Fn(c *Ctx, fn *ssa.Function) { r.fns[c.FnName(fn)] = true }

// OK records a discharged obligation.
func (r *Report) OK(what string) {
	r.obligations++
	r.discharged++
	if len(r.samples) < 12 && !r.seen["s:"+what] {
		r.seen["s:"+what] = true
		r.samples = append(r.samples, what)
	}
}

// Open records an obligation the analysis cannot decide either way; it is listed, not reported.
func (r *Report) Open(what string) {
	r.obligations++
	r.undecided = append(r.undecided, what)
}

// Bad records a violated obligation.
func (r *Report) Bad(rule, construct, pos, format string, a ...any) {
	key := rule + " " + construct
	r.obligations++
	if r.seen["v:"+key+pos] {
		return
	}
	r.seen["v:"+key+pos] = true
	r.Violations = append(r.Violations, Violation{Rule: rule, Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...)})
}

// Need fails the run (no answer) when an anchor of the analysis is gone.
type NoAnswer struct{ msg string }

func (r *Report) Need(ok bool, format string, a ...any) {
	if !ok {
		panic(NoAnswer{fmt.Sprintf(format, a...)})
	}
}

type knownFinding struct{ prop, key, text string }

func readKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<rule construct> | <what fails>
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" key=")
		i := strings.Index(rest, " | ")
		if i < 0 {
			continue
		}
		r = append(r, knownFinding{prop, rest[:i], rest[i+3:]})
	}
	return r
}

// Finish writes the evidence, prints the verdict and returns the exit code.
func (r *Report) Finish(c *Ctx, verif string, start time.Time) int {
	known := readKnown(filepath.Join(verif, "known_findings.txt"), r.Prop)
	var open []Violation
	for _, v := range r.Violations {
		hit := false
		for _, k := range known {
			if k.key == v.Key {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.text)
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fns := make([]string, 0, len(r.fns))
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":             "Static analysis of the type-checked program in SSA form, rebuilt from the working tree on this run. An obligation is one place at which a rule had to hold.",
		"rules":                   r.Rules,
		"functions_analysed":      len(fns),
		"obligations":             r.obligations,
		"discharged":              r.discharged,
		"module_functions_loaded": len(c.Fns),
		"counts":                  r.Counts,
		"samples":                 r.samples,
	}
	if len(r.undecided) > 0 {
		cov["undecided"] = r.undecided
	}
	if len(fns) <= 400 {
		cov["functions"] = fns
	}
	if len(r.Violations) > 0 {
		cov["found"] = r.Violations
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
		"violations": len(open), "assumptions": r.Assumptions,
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write the evidence:", err)
		return 2
	}
	if len(open) == 0 {
		os.Remove(filepath.Join(dir, r.Prop+".violations.txt"))
		fmt.Printf("%s: %d obligations in %d functions, %d discharged, %d undecided, no violation\n",
			r.Prop, r.obligations, len(fns), r.discharged, len(r.undecided))
		return 0
	}
	replay := filepath.Join(dir, r.Prop+".violations.txt")
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s: [%s] %s\n    construct: %s\n", v.Pos, v.Rule, v.Msg, v.Key)
	}
	fmt.Fprintf(&sb, "\nreproduce: cd %s && ./check.sh %s\n", verif, r.Prop)
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
