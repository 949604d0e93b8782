package main

import (
	"go/token"
	"sort"
	"strings"
)

// What a function does to a list it keeps.

// leaves: the values a conditional merge may have.
func leaves(t *Term, g *BDD, f func(g *BDD, v *Term)) {
	if t.op == OIte {
		leaves(t.args[0], And(g, t.cond), f)
		leaves(t.args[1], And(g, Not(t.cond)), f)
		return
	}
	f(g, t)
}

type listOp struct {
	Kind  string // remove: what is looked for is taken out if it is there; append; other
	Guard *BDD   // when
	E     *Event
	Msg   string
}

func emptyList(l *Term, f *BDD) bool {
	return l.op == ONil || proveEq(TLen(l), TInt(0), f)
}

// listOps: what the events of one level do to the list at base.path, el being
// the element meant. Searches are checked to find el wherever it is.
func (c *Ctx) listOps(evs []*Event, base *Term, path string, el *Term, f *BDD) []*listOp {
	var ops []*listOp
	used := map[*Event]bool{}
	class := ""
	for _, e := range evs {
		e := e
		switch e.Kind {
		case "store":
			addr := addrOf(e.Mem, base, path)
			class = locClass(addr)
			if e.Loc != addr {
				continue
			}
			x0 := And(f, e.Guard)
			if e.Assume != nil {
				x0 = And(x0, e.Assume)
			}
			cur := get(e.Mem, base, path)
			leaves(e.Val, bddTrue, func(g *BDD, v *Term) {
				x := And(x0, g)
				if !sat(x) || v == cur || proveEq(v, cur, x) {
					return
				}
				op := &listOp{Kind: "other", Guard: And(e.Guard, g), E: e, Msg: "it becomes " + short(v)}
				ops = append(ops, op)
				switch {
				case v.op == OApp && v.name == "append" && len(v.args) == 2 && (v.args[0] == cur || proveEq(v.args[0], cur, x)):
					if el == nil || proveEq(v.args[1], el, x) {
						op.Kind, op.Msg = "append", ""
					} else {
						op.Msg = short(v.args[1]) + " is appended"
					}
				case c.removal(evs, used, op, v, cur, e, el, x, f):
				case c.filtered(evs, op, v, cur, el, x, f):
				}
			})
		case "loop":
			c.loopRemoval(e, base, path, el, f, used, &ops)
		}
	}
	// nothing else may change the list or its elements
	if class != "" {
		allEvents(evs, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "store" || used[e] || rootOf(e.Loc).op == OAlloc {
				return
			}
			for _, o := range ops {
				if o.E == e {
					return
				}
			}
			if locClass(e.Loc) == class && (len(ls) > 0 || e.Loc != addrOf(e.Mem, base, path)) {
				ops = append(ops, &listOp{Kind: "other", Guard: e.Guard, E: e, Msg: "the list at " + short(e.Loc) + " changes"})
			}
			if e.Loc.op == OIndex && len(ls) == 0 && e.Loc.args[0] == get(e.Mem, base, path) {
				ops = append(ops, &listOp{Kind: "other", Guard: e.Guard, E: e, Msg: "its element " + short(e.Loc.args[1]) + " changes"})
			}
		})
	}
	return ops
}

// taken: the index at which v leaves an element of cur out.
func taken(evs []*Event, used map[*Event]bool, v, cur *Term, e *Event, x *BDD, f func(g *BDD, i *Term)) bool {
	if v.op != OApp {
		return false
	}
	last := TSub(TLen(cur), TInt(1))
	switch {
	case v.name == "delete" && len(v.args) == 2 && (v.args[0] == cur || proveEq(v.args[0], cur, x)):
		leaves(v.args[1], bddTrue, f)
		return true
	case v.name == "appendslice":
		// all before it and all after it
		a, b := v.args[0], v.args[1]
		same := func(l *Term) bool { return l == cur || proveEq(l, cur, x) }
		if a.op != OApp || a.name != "slice" || len(a.args) != 3 || b.op != OApp || b.name != "slice" || !same(a.args[0]) || !same(b.args[0]) {
			return false
		}
		if !proveEq(a.args[1], TInt(0), x) || !proveEq(TAdd(a.args[2], TInt(1)), b.args[1], x) || len(b.args) == 3 && !proveEq(b.args[2], TLen(cur), x) {
			return false
		}
		leaves(a.args[2], bddTrue, f)
		return true
	case v.name == "slice" && len(v.args) == 3 && (v.args[0] == cur || proveEq(v.args[0], cur, x)) && proveEq(v.args[1], TInt(0), x) && proveEq(v.args[2], last, x):
		// those after it have moved down
		for _, s := range evs {
			if s.Kind != "copy" || s.Seq > e.Seq || !implies(x, s.Guard) || len(s.Args) != 2 {
				continue
			}
			d, r := s.Args[0], s.Args[1]
			part := func(t *Term) bool {
				return t.op == OApp && t.name == "slice" && len(t.args) >= 2 && (t.args[0] == cur || proveEq(t.args[0], cur, x)) && (len(t.args) < 3 || proveEq(t.args[2], TLen(t.args[0]), x))
			}
			if part(d) && part(r) && proveEq(TAdd(d.args[1], TInt(1)), r.args[1], x) {
				for _, z := range evs {
					if z.Kind == "store" && z.Loc.op == OIndex && z.Loc.args[0] == cur && z.Val.op == ONil && proveEq(z.Loc.args[1], last, x) && z.Seq > s.Seq {
						used[z] = true
					}
				}
				leaves(d.args[1], bddTrue, f)
				return true
			}
		}
		// the last element has taken its place
		var sw, clr *Event
		for _, s := range evs {
			if s.Kind != "store" || s.Loc.op != OIndex || s.Seq > e.Seq || !implies(x, s.Guard) || !(s.Loc.args[0] == cur || proveEq(s.Loc.args[0], cur, x)) {
				continue
			}
			switch {
			case s.Val.op == ONil && proveEq(s.Loc.args[1], last, x):
				clr = s
			case proveEq(s.Val, s.Mem.Load(TIndexAddr(s.Loc.args[0], last, elemType(cur.typ)), elemType(cur.typ)), x):
				if sw != nil {
					return false
				}
				sw = s
			default:
				return false
			}
		}
		if sw == nil || clr != nil && clr.Seq < sw.Seq {
			return false
		}
		used[sw] = true
		if clr != nil {
			used[clr] = true
		}
		f(bddTrue, sw.Loc.args[1])
		return true
	}
	return false
}

// outside: the part of a condition that does not depend on a loop.
func outside(b *BDD, l *LoopInfo) *BDD {
	sup := map[int]bool{}
	bddSupport(b, sup)
	var vs []int
	for v := range sup {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	for _, v := range vs {
		if strings.Contains(bddVars[v].String(), l.ID+".") {
			b = bddExists(b, v)
		}
	}
	return b
}

// elemIn: a load of list[i] in the facts that is el.
func elemIn(x *BDD, i, el *Term, list func(l *Term) bool) *Term {
	var r *Term
	walkB(x, func(t *Term) {
		if r == nil && t.op == OLoad && t.args[0].op == OIndex && t.args[0].args[1] == i && list(t.args[0].args[0]) && proveEq(t, el, x) {
			r = t
		}
	})
	return r
}

// removal: the store of v takes el out of cur, found by a search before it.
func (c *Ctx) removal(evs []*Event, used map[*Event]bool, op *listOp, v, cur *Term, e *Event, el *Term, x, f *BDD) bool {
	stored := op.Guard
	return taken(evs, used, v, cur, e, x, func(g *BDD, i *Term) {
		x := And(x, g)
		if !sat(x) {
			return
		}
		t := elemIn(x, i, el, func(l *Term) bool { return l == cur || proveEq(l, cur, x) })
		if t == nil {
			op.Msg = "the element taken out, number " + short(i) + ", is not the one meant"
			return
		}
		for _, le := range evs {
			if le.Kind != "loop" {
				continue
			}
			for _, ph := range le.Loop.Phis {
				if ph.Invariant || !containsTerm(i, ph.Var) {
					continue
				}
				l := le.Loop
				bad := CondEq(t, el)
				found := foundFlag(l, bad)
				// what is decided outside of the search
				when := outside(And(stored, g), l)
				f := And(f, when)
				lw := *l
				lw.Assume = And(l.Assume, when)
				l = &lw
				msg := visitsIndexed(&Event{Kind: "loop", Guard: le.Guard, Loop: withoutExits(l, Or(bad, found))}, i, TLen(cur), f)
				if msg == "" && found == bddFalse && sat(AndAll(l.Assume, l.BackG, bad)) {
					msg = "the search goes on past it"
				}
				end := Or(CondLe(TLen(cur), i, true), CondLt(i, TInt(0), true))
				if found != bddFalse {
					end = And(end, Not(found))
				}
				as := AndAll(f, le.Guard, Not(stored))
				if e.Assume != nil {
					as = And(as, e.Assume)
				}
				if msg == "" && !implies(as, end) {
					msg = "it may be found and not taken out"
				}
				op.Guard, op.Msg = And(le.Guard, when), msg
				if msg == "" {
					op.Kind = "remove"
				}
				return
			}
		}
		op.Msg = "no search for the element was found"
	})
}

// filtered: v was collected from all elements of cur but el.
func (c *Ctx) filtered(evs []*Event, op *listOp, v, cur, el *Term, x, f *BDD) bool {
	for _, le := range evs {
		if le.Kind != "loop" {
			continue
		}
		for _, ph := range le.Loop.Phis {
			if ph.Var != v || ph.Invariant || !emptyList(ph.Init, And(f, le.Guard)) {
				continue
			}
			l := le.Loop
			msg := ""
			n := 0
			leaves(ph.Back, bddTrue, func(g *BDD, b *Term) {
				y := AndAll(l.Assume, l.BackG, f, g)
				if !sat(y) {
					return
				}
				if b == v {
					// only el is left out
					var t *Term
					walkB(y, func(u *Term) {
						if list, i := elemOfList(u); list == cur && visitsIndexed(le, i, TLen(cur), f) == "" && proveEq(u, el, y) {
							t = u
						}
					})
					if t == nil {
						msg = "another element is left out"
					}
					return
				}
				if b.op != OApp || b.name != "append" || len(b.args) != 2 || b.args[0] != v {
					msg = "what is collected is not understood"
					return
				}
				list, i := elemOfList(b.args[1])
				if list != cur {
					msg = "something else is collected"
					return
				}
				n++
				if m := visitsIndexed(le, i, TLen(cur), f); m != "" {
					msg = m
				} else if sat(And(y, CondEq(b.args[1], el))) {
					msg = "the element meant may be kept"
				}
			})
			op.Guard, op.Msg = le.Guard, msg
			if msg == "" && n > 0 {
				op.Kind = "remove"
			}
			return true
		}
	}
	return false
}

// loopRemoval: the search loop itself takes el out.
func (c *Ctx) loopRemoval(le *Event, base *Term, path string, el *Term, f *BDD, used map[*Event]bool, ops *[]*listOp) {
	l := le.Loop
	for _, e := range l.Events {
		if e.Kind != "store" || e.Loc != addrOf(e.Mem, base, path) {
			continue
		}
		x := AndAll(f, l.Assume, e.Guard)
		if e.Assume != nil {
			x = And(x, e.Assume)
		}
		op := &listOp{Kind: "other", Guard: le.Guard, E: e, Msg: "in a loop, it becomes " + short(e.Val)}
		*ops = append(*ops, op)
		cur := get(e.Mem, base, path)
		first := get(l.Entry, base, path)
		taken(l.Events, used, e.Val, cur, e, x, func(g *BDD, i *Term) {
			x := And(x, g)
			t := elemIn(x, i, el, func(w *Term) bool { return w == first || w == cur || proveEq(w, first, le.Guard) })
			if t == nil {
				op.Msg = "the element taken out, number " + short(i) + ", is not the one meant"
				return
			}
			list := t.args[0].args[0]
			bad := CondEq(t, el)
			msg := visitsIndexed(&Event{Kind: "loop", Guard: le.Guard, Loop: withoutExits(l, bad)}, i, TLen(list), f)
			in := AndAll(f, l.Assume, bad, CondLt(i, TLen(list), true), CondLe(TInt(0), i, true))
			if msg == "" && !implies(in, e.Guard) {
				msg = "it may be found and not taken out"
			}
			op.Msg = msg
			if msg == "" {
				op.Kind = "remove"
			}
		})
	}
}

// listBecomes: under f the list at base.path loses (gains) el exactly when
// asked, and nothing else happens to it.
func (c *Ctx) listBecomes(rule, name string, evs []*Event, base *Term, path string, el *Term, f, removed, added *BDD, p token.Pos) {
	what := strings.TrimPrefix(path, "space.")
	rg, ag := bddFalse, bddFalse
	for _, o := range c.listOps(evs, base, path, el, f) {
		if !sat(And(f, o.Guard)) {
			continue
		}
		switch o.Kind {
		case "remove":
			rg = Or(rg, o.Guard)
		case "append":
			c.ob(!sat(AndAll(f, o.Guard, ag)), rule, name+" "+what+" once", o.E.Instr.Pos(), "it is added to %s twice", what)
			ag = Or(ag, o.Guard)
		default:
			c.fail(rule, name+" "+what+" change", o.E.Instr.Pos(), "%s is changed in a way not expected: %s", what, o.Msg)
		}
	}
	c.ob(sameCond(rg, removed, f), rule, name+" "+what+" removal", p, "it is taken out of %s when %s, expected when %s", what, shortB(rg), shortB(removed))
	c.ob(sameCond(ag, added, f), rule, name+" "+what+" addition", p, "it is added to %s when %s, expected when %s", what, shortB(ag), shortB(added))
}
