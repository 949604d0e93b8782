package main

import "fmt"

// Which elements a loop visits.

// visitsIndexed: the loop visits idx = 0 … count-1, each once, in either
// order, and nothing ends it early. Empty if so, otherwise the reason.
func visitsIndexed(e *Event, idx, count *Term, facts *BDD) string {
	l := e.Loop
	if l.Back == nil {
		return "the loop body never continues"
	}
	var ph *PhiInfo
	for _, p := range l.Phis {
		if !p.Invariant && isNumType(p.Var.typ) && containsTerm(idx, p.Var) {
			ph = p
		}
	}
	if ph == nil {
		return fmt.Sprintf("the element visited, number %s, is not counted by the loop", short(idx))
	}
	at := func(v *Term) *Term { return subst(idx, map[*Term]*Term{ph.Var: v}) }
	entry := And(e.Guard, facts)
	iter := And(l.Assume, facts)
	step := TSub(at(ph.Back), idx)
	up := proveEq(step, TInt(1), And(iter, l.BackG))
	down := !up && proveEq(step, TInt(-1), And(iter, l.BackG))
	switch {
	case up && !proveEq(at(ph.Init), TInt(0), entry):
		return fmt.Sprintf("the first element visited is number %s", short(at(ph.Init)))
	case down && !proveEq(TAdd(at(ph.Init), TInt(1)), count, entry):
		return fmt.Sprintf("the first element visited is number %s, not the last one", short(at(ph.Init)))
	case !up && !down:
		return fmt.Sprintf("the loop advances by %s", short(step))
	}
	end := CondLe(count, idx, true)
	if down {
		end = CondLt(idx, TInt(0), true)
	}
	if past := AndAll(iter, l.BackG, end); sat(past) && !never(past) && sat(AndAll(iter, l.BackG, Not(end))) {
		return fmt.Sprintf("the loop can go past the last element, to number %s", short(idx))
	}
	for _, x := range l.Exits {
		if sat(And(x.Guard, iter)) && !implies(And(x.Guard, iter), end) {
			return fmt.Sprintf("the loop can end at element %s before the last one (when %s)", short(idx), shortB(x.Guard))
		}
	}
	return ""
}

// visitsList: the loop visits head, next(head), … until nil.
func visitsList(e *Event, elem, head *Term, next func(m *Mem, x *Term) *Term, facts *BDD) string {
	l := e.Loop
	if l.Back == nil {
		return "the loop body never continues"
	}
	var ph *PhiInfo
	for _, p := range l.Phis {
		if p.Var == elem {
			ph = p
		}
	}
	if ph == nil {
		// a variable that is kept in memory
		for loc, v := range l.MemVars {
			if v == elem {
				ph = &PhiInfo{Var: v, Init: l.Entry.Load(loc, v.typ), Back: l.Back.Load(loc, v.typ)}
			}
		}
	}
	if ph == nil {
		return fmt.Sprintf("the element visited, %s, is not the one the loop walks", short(elem))
	}
	iter := And(l.Assume, facts)
	if !proveEq(ph.Init, head, And(e.Guard, facts)) {
		return fmt.Sprintf("the walk starts at %s", short(ph.Init))
	}
	if n := next(l.Iter, elem); !proveEq(ph.Back, n, And(iter, l.BackG)) {
		return fmt.Sprintf("the walk continues at %s", short(ph.Back))
	}
	end := CondEq(elem, TNilOf(elem.typ))
	for _, x := range l.Exits {
		if sat(And(x.Guard, iter)) && !implies(And(x.Guard, iter), end) {
			return fmt.Sprintf("the walk can end before the last element (when %s)", shortB(x.Guard))
		}
	}
	return ""
}

// indexOf: the index in an element's address (the innermost one).
func indexOf(loc *Term) *Term {
	for loc != nil {
		if loc.op == OIndex {
			return loc.args[1]
		}
		if loc.op == OField || loc.op == OLoad {
			loc = loc.args[0]
			continue
		}
		return nil
	}
	return nil
}
