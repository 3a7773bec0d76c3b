package main

import "golang.org/x/tools/go/ssa"

// byCases: the goal holds at the instruction whichever way control came to
// the nearest join before it. Ways that contradict what is known at the
// instruction are not taken.
func (f *Facts) byCases(in ssa.Instruction, goal func(*State) bool) bool {
	here := f.At(in)
	chain := []*ssa.BasicBlock{in.Block()}
	for len(chain[0].Preds) == 1 {
		chain = append([]*ssa.BasicBlock{chain[0].Preds[0]}, chain...)
	}
	join := chain[0]
	if len(join.Preds) < 2 {
		return false
	}
	for i, p := range join.Preds {
		if join.Dominates(p) {
			return false
		}
		s := f.edge(p, join, i)
		if s == nil {
			return false
		}
		s = s.clone()
		for _, b := range chain {
			for _, x := range b.Instrs {
				if x == in {
					break
				}
				f.step(s, x)
			}
		}
		if f.atOdds(s, here) {
			continue
		}
		for _, a := range here.m {
			s.add(a)
		}
		if !goal(s) {
			return false
		}
	}
	return true
}

// atOdds: the two states cannot hold at once.
func (f *Facts) atOdds(s, t *State) bool {
	for _, a := range t.m {
		switch a.K {
		case "le":
			if f.proves(s, a.B, a.A, -a.N-1) {
				return true
			}
		case "nn":
			if s.has("nil", a.A) {
				return true
			}
		case "nil":
			if s.has("nn", a.A) {
				return true
			}
		case "true":
			if s.has("false", a.A) {
				return true
			}
		case "false":
			if s.has("true", a.A) {
				return true
			}
		}
	}
	return false
}
