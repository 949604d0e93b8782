package main

import (
	"go/types"
	"strings"
)

// C05: walking a collection visits every element once.

// elemOfList: x is list[i].
func elemOfList(x *Term) (list, i *Term) {
	if x != nil && x.op == OLoad && x.args[0].op == OIndex {
		return x.args[0].args[0], x.args[0].args[1]
	}
	return nil, nil
}

// content: what a slice holds, as named collections; nil if not known.
func (c *Ctx) content(s *Summary, t *Term, name func(t *Term) string, seen map[*Term]bool) (parts []string, ok bool) {
	if seen[t] {
		return nil, false
	}
	seen[t] = true
	defer delete(seen, t)
	if n := name(t); n != "" {
		return []string{n}, true
	}
	if l := TLen(t); t.op == ONil || proveEq(l, TInt(0), s.G) {
		return nil, true
	}
	if t.op == OApp && t.name == "appendslice" {
		a, ok1 := c.content(s, t.args[0], name, seen)
		b, ok2 := c.content(s, t.args[1], name, seen)
		return append(a, b...), ok1 && ok2
	}
	if t.op == OApp && t.name == "slice" && proveEq(t.args[1], TInt(0), s.G) && (len(t.args) < 3 || proveEq(t.args[2], TLen(t.args[0]), s.G)) {
		return c.content(s, t.args[0], name, seen)
	}
	// a fresh slice filled by copy
	var cp []*Term
	filled := false
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "copy" && len(e.Args) == 2 && e.Args[0] == t {
			if len(ls) == 0 && implies(s.G, e.Guard) && proveEq(TLen(t), TLen(e.Args[1]), And(s.G, e.Guard)) {
				cp = append(cp, e.Args[1])
			} else {
				filled = true
			}
		}
	})
	if len(cp) == 1 && !filled {
		return c.content(s, cp[0], name, seen)
	}
	// collected by a loop
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if ok || e.Kind != "loop" {
			return
		}
		for _, ph := range e.Loop.Phis {
			if ph.Var == t && !ph.Invariant {
				if p := c.collects(s, e, ph, name); p != "" {
					if a, k := c.content(s, ph.Init, name, seen); k {
						parts, ok = append(append([]string(nil), a...), p), true
					}
				}
			}
		}
	})
	return parts, ok
}

func userInside(l *LoopInfo) bool {
	bad := false
	allEvents(l.Events, func(e *Event, _ []*LoopInfo) {
		if e.Kind == "user" || e.Kind == "invoke" || e.Kind == "call" || e.Kind == "store" && rootOf(e.Loc).op != OAlloc {
			bad = true
		}
	})
	return bad
}

// collects: the loop appends the elements of a named collection to ph.
func (c *Ctx) collects(s *Summary, e *Event, ph *PhiInfo, name func(t *Term) string) string {
	l := e.Loop
	if userInside(l) || !implies(s.G, e.Guard) {
		return ""
	}
	if ph.Back.op == OApp && ph.Back.name == "append" && ph.Back.args[0] == ph.Var && len(ph.Back.args) == 2 {
		if list, i := elemOfList(ph.Back.args[1]); list != nil && name(list) != "" && visitsIndexed(e, i, TLen(list), bddTrue) == "" {
			return name(list)
		}
		return ""
	}
	// for each component, its bodies
	for _, in := range l.Events {
		if in.Kind != "loop" || in.Loop.Back == nil || !implies(And(l.Assume, l.BackG), in.Guard) {
			continue
		}
		m := in.Loop
		for _, p2 := range m.Phis {
			if p2.Var != ph.Back || p2.Init != ph.Var || p2.Back.op != OApp || p2.Back.name != "append" || len(p2.Back.args) != 2 || p2.Back.args[0] != p2.Var {
				continue
			}
			el := p2.Back.args[1]
			for _, p3 := range m.Phis {
				if p3.Var != el {
					continue
				}
				list, i := elemOfList(p3.Init)
				if list == nil || name(list) != "sleeping components" {
					continue
				}
				next := func(mm *Mem, x *Term) *Term { return get(mm, x, "sleepingNext") }
				if visitsList(in, el, p3.Init, next, bddTrue) == "" && visitsIndexed(e, i, TLen(list), bddTrue) == "" {
					return "bodies of sleeping components"
				}
			}
		}
	}
	return ""
}

func checkC05(c *Ctx) {
	rule := "bodies of a space"
	c.part("Space.EachBody", func() {
		s := c.sum("Space.EachBody", "walk", Config{NoEnter: true, Opaque: opaqueSet("Space.Unlock"), KeepUser: func(e *Event, cl string) bool {
			// bodies are neither added nor removed while the space is locked (C33)
			return cl == "Space.dynamicBodies" || cl == "Space.staticBodies"
		}})
		sp, pos := s.Params[0], s.Fn.Pos()
		name := func(t *Term) string {
			switch t {
			case get(s.Entry, sp, "dynamicBodies"):
				return "dynamic bodies"
			case get(s.Entry, sp, "staticBodies"):
				return "static bodies"
			case get(s.Entry, sp, "rousedBodies"):
				return "bodies woken while locked"
			case get(s.Entry, sp, "sleepingComponents"):
				return "sleeping components"
			}
			return ""
		}
		n := map[string]int{}
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "user" {
				return
			}
			x := e.Args[0]
			list, i := elemOfList(x)
			if list == nil || len(ls) != 1 {
				c.fail(rule, "Space.EachBody walk", e.Instr.Pos(), "the function is called for %s, found by a walk that the function itself may disturb (or that was not understood)", short(x))
				return
			}
			l := ls[0]
			le := loopEvent(s.Events, l)
			parts, ok := c.content(s, list, name, map[*Term]bool{})
			c.ob(ok, rule, "Space.EachBody list", e.Instr.Pos(), "it is not known which bodies are in the list walked: %s", short(list))
			msg := visitsIndexed(le, i, TLen(list), bddTrue)
			key := strings.Join(parts, ", ")
			c.ob(msg == "", rule, "Space.EachBody visits "+key, e.Instr.Pos(), "not all of the %s are visited: %s", key, msg)
			c.ob(implies(And(l.Assume, l.BackG), e.Guard), rule, "Space.EachBody each "+key, e.Instr.Pos(), "some of the %s are passed over: the function is called only when %s", key, shortB(e.Guard))
			c.ob(implies(s.G, le.Guard), rule, "Space.EachBody always "+key, e.Instr.Pos(), "the %s are visited only when %s", key, shortB(le.Guard))
			for _, p := range parts {
				n[p]++
			}
		})
		for _, p := range []string{"dynamic bodies", "static bodies", "bodies woken while locked", "bodies of sleeping components"} {
			c.ob(n[p] == 1, rule, "Space.EachBody "+p, pos, "%s are visited %d times", p, n[p])
			delete(n, p)
		}
		for p := range n {
			c.fail(rule, "Space.EachBody "+p, pos, "%s are visited", p)
		}
	})
	c.atLeast(rule, 8)

	rule = "shapes of a space"
	c.part("Space.EachShape", func() {
		s := c.sum("Space.EachShape", "walk", Config{NoEnter: true, Opaque: opaqueSet("Space.Unlock"), KeepUser: func(e *Event, cl string) bool {
			return strings.HasPrefix(cl, "Space.") || strings.HasPrefix(cl, "SpatialIndex.")
		}})
		sp, f := s.Params[0], s.Params[1]
		for _, e := range c.spaceQueries(rule, "Space.EachShape", "Each", s, sp, typeFact(s)) {
			if e.Sub == nil {
				c.ob(e.Args[0] == f, rule, "Space.EachShape call", e.Instr.Pos(), "what is called for each shape of an index is not the function given")
				continue
			}
			var us []*Event
			allEvents(e.Sub.Events, func(u *Event, ls []*LoopInfo) {
				if u.Kind == "user" {
					us = append(us, u)
				}
			})
			ok := len(us) == 1 && us[0].Callee == f && us[0].Args[0] == e.Sub.Params[0] && implies(e.Guard, us[0].Guard)
			c.ob(ok, rule, "Space.EachShape call", e.Instr.Pos(), "what is called for each shape of an index is not the function given, once, with the shape")
		}
	})
	for _, ix := range []string{"BBTree", "SpaceHash"} {
		c.part(ix+".Each", func() {
			s := c.sum(ix+".Each", "walk", Config{NoEnter: true, KeepUser: keepTable})
			set, obj := get(s.Entry, s.Params[0], map[string]string{"BBTree": "leaves", "SpaceHash": "handleSet"}[ix]), "obj"
			c.walksSet(rule, ix+".Each", s, set, s.Params[1], obj)
		})
	}
	c.part("HashSet.Each", func() {
		s := c.sum("HashSet.Each", "walk", Config{NoEnter: true, KeepUser: keepTable})
		c.walksSet(rule, "HashSet.Each", s, s.Params[0], s.Params[1], "")
	})
	c.part("HashSet.Filter", func() {
		s := c.sum("HashSet.Filter", "walk", Config{NoEnter: true, KeepUser: keepTable})
		c.walksSet(rule, "HashSet.Filter", s, s.Params[0], s.Params[1], "")
	})
	c.atLeast(rule, 20)

	rule = "joints of a space"
	c.part("Space.EachConstraint", func() {
		s := c.sum("Space.EachConstraint", "walk", Config{NoEnter: true, Opaque: opaqueSet("Space.Unlock"), KeepUser: func(e *Event, cl string) bool {
			return cl == "Space.constraints"
		}})
		c.walksSlice(rule, "Space.EachConstraint", s, s.Params[1], func(list *Term) string {
			if list == get(s.Entry, s.Params[0], "constraints") {
				return "list"
			}
			return ""
		})
	})
	c.atLeast(rule, 4)

	rule = "shapes, joints and contacts of a body"
	c.part("Body.EachShape", func() {
		s := c.sum("Body.EachShape", "walk", Config{NoEnter: true})
		shapes := get(s.Entry, s.Params[0], "shapeList")
		c.walksSlice(rule, "Body.EachShape", s, s.Params[1], func(list *Term) string {
			// the list itself changes when a shape is removed
			if list == shapes {
				return ""
			}
			p, ok := c.content(s, list, func(t *Term) string {
				if t == shapes {
					return "shapes"
				}
				return ""
			}, map[*Term]bool{})
			if ok && len(p) == 1 {
				return "copy"
			}
			return ""
		})
	})
	for _, w := range []struct{ name, head, elem, end, nextA, nextB string }{
		{"Body.EachConstraint", "constraintList", "Constraint", "a", "next_a", "next_b"},
		{"Body.EachArbiter", "arbiterList", "Arbiter", "body_a", "thread_a.next", "thread_b.next"},
	} {
		c.part(w.name, func() {
			s := c.sum(w.name, "walk", Config{NoEnter: true})
			body, fn := s.Params[0], s.Params[1]
			n := 0
			allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
				if e.Kind != "user" {
					return
				}
				n++
				c.ob(e.Callee == fn && len(ls) == 1, rule, w.name+" function", e.Instr.Pos(), "what is called is not the function given, in one walk")
				if len(ls) != 1 {
					return
				}
				l := ls[0]
				el := e.Args[0]
				next := func(m *Mem, x *Term) *Term {
					return TIte(CondEq(get(m, x, w.end), body), get(m, x, w.nextA), get(m, x, w.nextB))
				}
				le := loopEvent(s.Events, l)
				msg := visitsList(le, el, get(s.Entry, body, w.head), next, bddTrue)
				c.ob(msg == "", rule, w.name+" walk", e.Instr.Pos(), "not every element is visited if the function takes the one it is called for off the list: %s", msg)
				c.ob(implies(And(l.Assume, l.BackG), e.Guard), rule, w.name+" each", e.Instr.Pos(), "an element is passed over: the function is called only when %s", shortB(e.Guard))
				c.ob(implies(s.G, le.Guard), rule, w.name+" always", e.Instr.Pos(), "elements are visited only when %s", shortB(le.Guard))
			})
			c.ob(n == 1, rule, w.name, s.Fn.Pos(), "%d calls of the function given were found", n)
		})
	}
	c.atLeast(rule, 14)
}

// keepTable: nothing is added to a set while it is walked.
func keepTable(e *Event, cl string) bool {
	return cl == "HashSet.table" || cl == "HashSet.size" || strings.HasPrefix(cl, "[]*HashSetBin") || strings.HasPrefix(cl, "BBTree.") || strings.HasPrefix(cl, "SpaceHash.") || cl == "SpatialIndex.class"
}

// walksSlice: fn is called once for each element of a slice.
func (c *Ctx) walksSlice(rule, name string, s *Summary, fn *Term, right func(list *Term) string) {
	n := 0
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind != "user" {
			return
		}
		n++
		list, i := elemOfList(e.Args[0])
		ok := list != nil && len(ls) == 1 && e.Callee == fn && right(list) != ""
		c.ob(ok, rule, name+" list", e.Instr.Pos(), "the function is called for %s, which is not an element of a list it cannot disturb", short(e.Args[0]))
		if !ok {
			return
		}
		l := ls[0]
		le := loopEvent(s.Events, l)
		msg := visitsIndexed(le, i, TLen(list), bddTrue)
		c.ob(msg == "", rule, name+" visits", e.Instr.Pos(), "not every element is visited: %s", msg)
		c.ob(implies(And(l.Assume, l.BackG), e.Guard), rule, name+" each", e.Instr.Pos(), "an element is passed over: the function is called only when %s", shortB(e.Guard))
		c.ob(implies(s.G, le.Guard), rule, name+" always", e.Instr.Pos(), "elements are visited only when %s", shortB(le.Guard))
	})
	c.ob(n == 1, rule, name, s.Fn.Pos(), "%d calls of the function given were found", n)
}

// walksSet: fn is called once for each element of a hash set; it may take the
// element it is called for out of the set.
func (c *Ctx) walksSet(rule, name string, s *Summary, set, fn *Term, obj string) {
	n := 0
	table := get(s.Entry, set, "table")
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind != "user" {
			return
		}
		n++
		c.ob(e.Callee == fn && len(ls) == 2, rule, name+" function", e.Instr.Pos(), "what is called is not the function given, in a walk over the bins of the table")
		if len(ls) != 2 {
			return
		}
		out, in := ls[0], ls[1]
		oe, ie := loopEvent(s.Events, out), loopEvent(s.Events, in)
		var bin *PhiInfo
		for _, ph := range in.Phis {
			if p, ok := ph.Var.typ.Underlying().(*types.Pointer); ok && strings.HasPrefix(typeName(p.Elem()), "HashSetBin") {
				bin = ph
			}
		}
		if bin == nil {
			c.fail(rule, name+" bins", e.Instr.Pos(), "no walk over the bins of the table was found")
			return
		}
		want := get(in.Iter, bin.Var, "elt")
		if obj != "" {
			want = get(in.Iter, want, obj)
		}
		c.ob(e.Args[0] == want || proveEq(e.Args[0], want, And(in.Assume, e.Guard)), rule, name+" element", e.Instr.Pos(), "the function is called with %s, not with the element in the bin", short(e.Args[0]))
		c.ob(implies(And(in.Assume, in.BackG), e.Guard), rule, name+" each", e.Instr.Pos(), "an element is passed over: the function is called only when %s", shortB(e.Guard))
		list, i := elemOfList(bin.Init)
		if list == nil && bin.Init.op == OLoad {
			list, i = bin.Init.args[0], nil
		}
		ok := list != nil && i != nil && (list == table || proveEq(list, table, out.Assume))
		c.ob(ok, rule, name+" table", e.Instr.Pos(), "the bins walked start at %s, not at an entry of the table", short(bin.Init))
		next := func(m *Mem, x *Term) *Term { return get(m, x, "next") }
		msg := visitsList(ie, bin.Var, bin.Init, next, bddTrue)
		c.ob(msg == "", rule, name+" chain", e.Instr.Pos(), "not every bin of a chain is visited if the function takes the element it is called for out: %s", msg)
		if ok {
			// size is the length of the table (C32)
			inv := proveEqFact(get(s.Entry, set, "size"), TLen(table))
			msg = visitsIndexed(oe, i, TLen(table), inv)
			c.ob(msg == "", rule, name+" chains", e.Instr.Pos(), "not every chain of the table is visited: %s", msg)
			c.ob(implies(And(out.Assume, out.BackG), ie.Guard), rule, name+" every chain", e.Instr.Pos(), "a chain is passed over: %s", shortB(ie.Guard))
			c.ob(implies(s.G, oe.Guard), rule, name+" always", e.Instr.Pos(), "elements are visited only when %s", shortB(oe.Guard))
		}
	})
	c.ob(n == 1, rule, name, s.Fn.Pos(), "%d calls of the function given were found", n)
}

func proveEqFact(a, b *Term) *BDD { return condEq0(TSub(a, b), true) }

func init() {
	register(&Check{ID: "C05", Run: checkC05,
		Assume: []string{
			"callbacks add or remove nothing while the space is locked (debug builds assert it, C33)",
			"the size of a hash set is the length of its table (C32)",
		},
		Explanation: "guarded value summaries of every walk that calls a user function: what list is walked, how the loop advances, and what the function called may have changed in between"})
}
