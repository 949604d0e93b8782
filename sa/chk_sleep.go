package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: falling asleep and waking move a body and all that belongs to it.

type listWalk struct {
	E  *Event
	L  *LoopInfo
	El *Term
	In *BDD // facts inside: an iteration at an element
}

// walks: the loops of one level that walk a linked list from head.
func (c *Ctx) walks(evs []*Event, elemType string, head *Term, next func(m *Mem, x *Term) *Term, f *BDD) (r []*listWalk, why string) {
	for _, e := range evs {
		if e.Kind != "loop" {
			continue
		}
		var cand []*Term
		for _, ph := range e.Loop.Phis {
			cand = append(cand, ph.Var)
		}
		var mv []*Term
		for _, v := range e.Loop.MemVars {
			mv = append(mv, v)
		}
		sort.Slice(mv, func(i, j int) bool { return mv[i].String() < mv[j].String() })
		for _, v := range append(cand, mv...) {
			if typeBaseOf(v.typ) != elemType {
				continue
			}
			if msg := visitsList(e, v, head, next, f); msg != "" {
				why = msg
				continue
			}
			r = append(r, &listWalk{e, e.Loop, v, AndAll(f, e.Loop.Assume, notNil(v))})
			break
		}
	}
	return
}

func nextOf(body *Term, end, na, nb string) func(m *Mem, x *Term) *Term {
	return func(m *Mem, x *Term) *Term {
		return TIte(CondEq(get(m, x, end), body), get(m, x, na), get(m, x, nb))
	}
}

// oneWalk: exactly one loop walks the list, always.
func (c *Ctx) oneWalk(rule, name string, evs []*Event, elemType string, head *Term, next func(m *Mem, x *Term) *Term, f *BDD, pos token.Pos) *listWalk {
	ws, why := c.walks(evs, elemType, head, next, f)
	if !c.ob(len(ws) == 1, rule, name, pos, "%d loops visit every one of them (%s)", len(ws), why) {
		return nil
	}
	w := ws[0]
	c.ob(implies(f, w.E.Guard), rule, name+" always", w.E.Instr.Pos(), "they are visited only when %s", shortB(w.E.Guard))
	return w
}

// movesShapes: every shape of the body leaves one index and enters the other.
func (c *Ctx) movesShapes(rule, name string, s *Summary, sp, body *Term, from, to string, f *BDD) {
	list := get(s.Entry, body, "shapeList")
	n := map[string]int{}
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind != "invoke" {
			return
		}
		if e.Name != "Remove" && e.Name != "Insert" || len(ls) != 1 {
			c.fail(rule, name+" "+e.Name, e.Instr.Pos(), "an index is asked to %s outside a walk over the shapes of the body", e.Name)
			return
		}
		l := ls[0]
		le := loopEvent(s.Events, l)
		in := AndAll(f, l.Assume, e.Guard)
		n[e.Name]++
		ix := map[string]string{"Remove": from, "Insert": to}[e.Name]
		c.ob(proveEq(e.Recv, get(e.Mem, get(e.Mem, sp, ix), "class"), in), rule, name+" "+e.Name+" index", e.Instr.Pos(), "%s is asked of another index than the one of %s", e.Name, ix)
		lst, i := elemOfList(e.Args[0])
		ok := lst != nil && (lst == list || proveEq(lst, list, in))
		c.ob(ok && proveEq(e.Args[1], get(e.Mem, e.Args[0], "hashid"), in), rule, name+" "+e.Name+" shape", e.Instr.Pos(), "%s is asked for %s, expected a shape of the body and its hash", e.Name, short(e.Args[0]))
		if !ok {
			return
		}
		msg := visitsIndexed(le, i, TLen(lst), f)
		c.ob(msg == "", rule, name+" "+e.Name+" visits", e.Instr.Pos(), "not every shape of the body is moved: %s", msg)
		c.ob(implies(AndAll(l.Assume, f, l.BackG), e.Guard), rule, name+" "+e.Name+" each", e.Instr.Pos(), "a shape is moved only when %s", shortB(e.Guard))
		c.ob(implies(f, le.Guard), rule, name+" "+e.Name+" always", e.Instr.Pos(), "shapes are moved only when %s", shortB(le.Guard))
	})
	c.ob(n["Remove"] == 1 && n["Insert"] == 1, rule, name+" shapes", s.Fn.Pos(), "shapes are removed from an index %d times and inserted %d times", n["Remove"], n["Insert"])
}

// onlyTouches: of the fields of these types, only the ones listed are written.
func (c *Ctx) onlyTouches(rule, name string, s *Summary, f *BDD, types_ string, allowed string) {
	ok := map[string]bool{}
	for _, a := range strings.Fields(allowed) {
		ok[a] = true
	}
	own := map[string]bool{}
	for _, a := range strings.Fields(types_) {
		own[a] = true
	}
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind != "store" {
			return
		}
		cl := locClass(e.Loc)
		t := strings.SplitN(cl, ".", 2)[0]
		if !own[t] || ok[cl] || rootOf(e.Loc).op == OAlloc || len(ls) == 0 && !sat(And(f, e.Guard)) {
			return
		}
		// writing back what was there
		if v := e.Mem.Load(e.Loc, e.Val.typ); v == e.Val {
			return
		}
		c.fail(rule, name+" changes "+cl, e.Instr.Pos(), "it changes %s, which is not its business", short(e.Loc))
	})
	c.ob(true, rule, name+" changes", s.Fn.Pos(), "")
}

// arbKey: the hash is the pair hash of the two shapes; returns how one is hashed.
func (c *Ctx) arbKey(evs []*Event, t, a, b *Term) string {
	var r string
	allEvents(evs, func(e *Event, ls []*LoopInfo) {
		if e.Kind != "call" || e.Name != "HashPair" || e.Result != t {
			return
		}
		z := rawTerm(OParam, a.typ, "shape")
		x, y := e.Args[0], e.Args[1]
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if containsTerm(x, p[0]) && containsTerm(y, p[1]) {
				u, v := subst(x, map[*Term]*Term{p[0]: z}), subst(y, map[*Term]*Term{p[1]: z})
				if u == v {
					r = u.String()
				}
			}
		}
	})
	return r
}

func checkC06(c *Ctx) {
	hashes := map[string]string{}
	rule := "waking a component"
	c.part("Body.Activate", func() {
		name := "Body.Activate"
		s := c.sum(name, "sleep", Config{NoEnter: true, Opaque: opaqueSet("Space.Activate"), KeepUser: keepAll, KeepOn: func(fn *ssa.Function, class string) bool {
			if keepThreads(fn, class) {
				return true
			}
			switch class { // shown below of Space.Activate
			case "Body.sleepingIdleTime", "Body.sleepingRoot", "Body.sleepingNext", "Body.arbiterList", "Body.space", "Body.m", "Space.sleepingComponents", "[]*Body":
				return fname(fn) == "Space.Activate"
			}
			return false
		}})
		body, pos := s.Params[0], s.Fn.Pos()
		dyn := dynamicBody(s.Entry, body)
		for _, e := range s.Events {
			c.ob(!sat(And(e.Guard, Not(dyn))), rule, name+" dynamic only "+e.Kind, e.Instr.Pos(), "something happens to a body that is not dynamic")
		}
		f := And(s.G, dyn)
		zeroed := bddFalse
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "store" || locClass(e.Loc) != "Body.sleepingIdleTime" {
				return
			}
			x := AndAll(e.Guard)
			for _, l := range ls {
				x = And(x, l.Assume)
			}
			leaves(e.Val, bddTrue, func(g *BDD, v *Term) {
				y := And(x, g)
				c.ob(!sat(y) || proveEq(v, TNum(0), y) || proveEq(v, e.Mem.Load(e.Loc, v.typ), y), rule, name+" idle time", e.Instr.Pos(), "the idle time of a body becomes %s", short(v))
				if len(ls) == 0 && e.Loc == addrOf(e.Mem, body, "sleepingIdleTime") && proveEq(v, TNum(0), y) {
					zeroed = Or(zeroed, And(e.Guard, g))
				}
			})
		})
		c.ob(implies(f, zeroed), rule, name+" timer", pos, "the idle time of the body woken is reset only when %s", shortB(zeroed))

		root := get(s.Entry, body, "sleepingRoot")
		asleep := And(notNil(root), notNil(get(s.Entry, root, "sleepingRoot")))
		sp := get(s.Entry, root, "space")
		g := And(f, asleep)
		w := c.oneWalk(rule, name+" walk", s.Events, "Body", root, func(m *Mem, x *Term) *Term { return get(m, x, "sleepingNext") }, g, pos)
		if w != nil {
			n := 0
			for _, e := range eventsOf(w.L.Events, "call", "Space.Activate") {
				n++
				x := And(w.In, e.Guard)
				c.ob(proveEq(e.Args[0], sp, x) && proveEq(e.Args[1], w.El, x), rule, name+" wakes", e.Instr.Pos(), "what is given back to the awake is %s in %s", short(e.Args[1]), short(e.Args[0]))
				c.ob(implies(w.In, e.Guard), rule, name+" each", e.Instr.Pos(), "a body of the component is given back to the awake only when %s", shortB(e.Guard))
				c.ob(proveEq(get(e.Mem, w.El, "sleepingRoot"), TNilOf(root.typ), x) && proveEq(get(e.Mem, w.El, "sleepingNext"), TNilOf(root.typ), x), rule, name+" awake", e.Instr.Pos(), "a body woken is still linked to those it slept with")
				c.ob(proveEq(get(w.L.Back, w.El, "sleepingIdleTime"), TNum(0), w.In), rule, name+" component timer", e.Instr.Pos(), "the idle time of a body of the component is not reset")
			}
			c.ob(n == 1, rule, name+" call", pos, "bodies of the component are given back to the awake by %d calls", n)
		}
		c.listBecomes(rule, name, s.Events, sp, "sleepingComponents", root, And(s.G, notNil(body)), And(dyn, asleep), bddFalse, pos)

		w = c.oneWalk(rule, name+" contacts", s.Events, "Arbiter", get(s.Entry, body, "arbiterList"), nextOf(body, "body_a", "thread_a.next", "thread_b.next"), f, pos)
		if w != nil {
			m := w.L.Iter
			A, B := get(m, w.El, "body_a"), get(m, w.El, "body_b")
			other := TIte(CondEq(A, body), B, A)
			x := AndAll(w.In, w.L.BackG, Not(CondEq(get(m, other, "sleepingIdleTime"), TMaxF())))
			c.ob(proveEq(get(w.L.Back, other, "sleepingIdleTime"), TNum(0), x), rule, name+" neighbours", w.E.Instr.Pos(), "the idle time of a body touching the one woken is not reset")
			y := AndAll(w.In, w.L.BackG, CondEq(get(m, other, "sleepingIdleTime"), TMaxF()))
			c.ob(proveEq(get(w.L.Back, other, "sleepingIdleTime"), TMaxF(), y), rule, name+" static neighbours", w.E.Instr.Pos(), "a static body touching the one woken becomes something else")
		}
		c.onlyTouches(rule, name, s, f, "Body Space Shape Arbiter ArbiterThread Constraint", "Body.sleepingIdleTime Body.sleepingRoot Body.sleepingNext Space.sleepingComponents")
	})
	c.atLeast(rule, 18)

	// what belongs to a body
	owner := func(m *Mem, A, body *Term) *BDD {
		return Or(CondEq(A, body), CondEq(get(m, A, "sleepingIdleTime"), TMaxF()))
	}
	cfg := Config{NoEnter: true, Opaque: opaqueSet("Space.ContactBufferGetArray", "Space.PushContacts", "HashSet.Insert", "HashSet.Remove", "HashPair"), KeepUser: keepAll,
		Pure: func(fn *ssa.Function) bool {
			// the set and the indexes change only themselves (C32); the hash nothing
			switch fname(fn) {
			case "HashSet.Insert", "HashSet.Remove", "HashPair":
				return true
			}
			return fn.Name() == "Insert" || fn.Name() == "Remove"
		}}

	rule = "back among the awake"
	c.part("Space.Activate", func() {
		name := "Space.Activate"
		s := c.sum(name, "sleep", cfg)
		sp, body, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := And(s.G, CondEq(get(s.Entry, sp, "locked"), TInt(0)))
		c.listBecomes(rule, name, s.Events, sp, "dynamicBodies", body, f, bddFalse, bddTrue, pos)
		c.movesShapes(rule, name, s, sp, body, "staticShapes", "dynamicShapes", f)
		if w := c.oneWalk(rule, name+" contacts", s.Events, "Arbiter", get(s.Entry, body, "arbiterList"), nextOf(body, "body_a", "thread_a.next", "thread_b.next"), f, pos); w != nil {
			l, el := w.L, w.El
			own := owner(l.Iter, get(l.Iter, el, "body_a"), body)
			c.listBecomes(rule, name, l.Events, sp, "arbiters", el, w.In, bddFalse, own, pos)
			c.ob(proveEq(get(l.Back, el, "stamp"), get(s.Entry, sp, "stamp"), AndAll(w.In, own)), rule, name+" stamp", pos, "a contact kept through sleep is as old as it was before")
			c.arbSet(rule, name, l, w, sp, "Insert", own, hashes, pos)
			// its contacts go back to the buffer of the space
			count := get(l.Iter, el, "count")
			old := get(l.Iter, el, "contacts")
			now := get(l.Back, el, "contacts")
			x := And(w.In, own)
			okNow, okCopy, okPush := false, false, bddFalse
			var buf *Event
			kept := now
			for _, e := range eventsOf(l.Events, "call", "Space.ContactBufferGetArray") {
				leaves(now, bddTrue, func(g *BDD, v *Term) {
					if !sat(And(x, g)) {
						return
					}
					if v.op == OApp && v.name == "slice" && len(v.args) == 3 && v.args[0] == e.Result && proveEq(v.args[1], TInt(0), And(x, g)) && proveEq(v.args[2], count, And(x, g)) && proveEq(e.Args[0], sp, And(x, g)) {
						okNow, buf, kept = true, e, v
					}
				})
			}
			for _, e := range l.Events {
				if e.Kind == "copy" && implies(x, e.Guard) && proveEq(e.Args[0], now, x) && sliceOf(e.Args[1], old, count, x) {
					okCopy = true
				}
				if copiesEach(e, kept, old, count, x) {
					okCopy = true
				}
			}
			for _, e := range eventsOf(l.Events, "call", "Space.PushContacts") {
				y := And(w.In, e.Guard)
				ok := proveEq(e.Args[0], sp, y) && proveEq(e.Args[1], count, y) && buf != nil && buf.Seq < e.Seq && !sat(And(y, okPush))
				c.ob(ok, rule, name+" takes room", e.Instr.Pos(), "the room taken in the contact buffer is not that of the contacts put there")
				okPush = Or(okPush, e.Guard)
			}
			c.ob(okNow, rule, name+" buffer", pos, "the contacts of a pair woken are kept in %s", short(now))
			c.ob(okCopy, rule, name+" copies", pos, "the contacts of a pair woken are not those it fell asleep with")
			c.ob(sameCond(okPush, own, w.In), rule, name+" takes room when", pos, "room in the contact buffer is taken when %s", shortB(okPush))
			c.ob(proveEq(now, old, AndAll(w.In, l.BackG, Not(own))), rule, name+" others", pos, "the contacts of a pair that belongs to the other body change too")
		}
		if w := c.oneWalk(rule, name+" joints", s.Events, "Constraint", get(s.Entry, body, "constraintList"), nextOf(body, "a", "next_a", "next_b"), f, pos); w != nil {
			own := owner(w.L.Iter, get(w.L.Iter, w.El, "a"), body)
			c.listBecomes(rule, name, w.L.Events, sp, "constraints", w.El, w.In, bddFalse, own, pos)
		}
		c.onlyTouches(rule, name, s, f, "Body Space Shape Arbiter ArbiterThread Constraint", "Space.dynamicBodies Space.arbiters Space.constraints Arbiter.stamp Arbiter.contacts")
	})
	c.atLeast(rule, 25)

	rule = "set aside"
	c.part("Space.Deactivate", func() {
		name := "Space.Deactivate"
		s := c.sum(name, "sleep", cfg)
		sp, body, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := s.G
		c.listBecomes(rule, name, s.Events, sp, "dynamicBodies", body, f, bddTrue, bddFalse, pos)
		c.movesShapes(rule, name, s, sp, body, "dynamicShapes", "staticShapes", f)
		if w := c.oneWalk(rule, name+" contacts", s.Events, "Arbiter", get(s.Entry, body, "arbiterList"), nextOf(body, "body_a", "thread_a.next", "thread_b.next"), f, pos); w != nil {
			l, el := w.L, w.El
			own := owner(l.Iter, get(l.Iter, el, "body_a"), body)
			c.listBecomes(rule, name, l.Events, sp, "arbiters", el, w.In, own, bddFalse, pos)
			c.arbSet(rule, name, l, w, sp, "Remove", own, hashes, pos)
			// its contacts leave the buffer of the space
			count := get(l.Iter, el, "count")
			old := get(l.Iter, el, "contacts")
			now := get(l.Back, el, "contacts")
			x := AndAll(w.In, own, l.BackG)
			saved := false
			leaves(now, bddTrue, func(g *BDD, v *Term) {
				y := And(x, g)
				if !sat(y) {
					return
				}
				if v.op == OApp && v.name == "appendslice" && emptyList(v.args[0], y) && sliceOf(v.args[1], old, count, y) {
					saved = true
					return
				}
				saved = false
				for _, e := range l.Events {
					if e.Kind == "copy" && implies(x, e.Guard) && e.Args[0] == v && proveEq(TLen(v), count, y) && sliceOf(e.Args[1], old, count, y) && v != old {
						saved = strings.HasPrefix(v.String(), "make(")
					}
					if proveEq(TLen(v), count, y) && v != old && copiesEach(e, v, old, count, y) {
						saved = strings.HasPrefix(v.String(), "make(")
					}
				}
			})
			c.ob(saved, rule, name+" saves", pos, "the contacts of a pair falling asleep are not kept in memory of their own: %s", short(now))
			c.ob(proveEq(now, old, AndAll(w.In, l.BackG, Not(own))), rule, name+" others", pos, "the contacts of a pair that belongs to the other body change too")
		}
		if w := c.oneWalk(rule, name+" joints", s.Events, "Constraint", get(s.Entry, body, "constraintList"), nextOf(body, "a", "next_a", "next_b"), f, pos); w != nil {
			own := owner(w.L.Iter, get(w.L.Iter, w.El, "a"), body)
			c.listBecomes(rule, name, w.L.Events, sp, "constraints", w.El, w.In, own, bddFalse, pos)
		}
		c.onlyTouches(rule, name, s, f, "Body Space Shape Arbiter ArbiterThread Constraint", "Space.dynamicBodies Space.arbiters Space.constraints Arbiter.contacts")
	})
	c.part("hash", func() {
		forms := map[string]bool{}
		for _, h := range hashes {
			forms[h] = true
		}
		c.ob(len(hashes) == 2 && len(forms) == 1, rule, "hash of a pair", token.NoPos, "a contact is put back under another hash than it is taken out: %v", hashes)
	})
	c.atLeast(rule, 20)
}

// within: the list, the number and the field an address is of.
func within(loc *Term) (list, i *Term, path string) {
	for loc != nil && loc.op == OField {
		path = loc.name[strings.LastIndexByte(loc.name, '.')+1:] + "." + path
		loc = loc.args[0]
	}
	if loc == nil || loc.op != OIndex {
		return nil, nil, ""
	}
	return loc.args[0], loc.args[1], path
}

// copiesEach: the loop e makes every field of each of the first n elements of
// one list that of the other.
func copiesEach(e *Event, dst, src, n *Term, x *BDD) bool {
	if e.Kind != "loop" || e.Loop.Back == nil || !implies(x, e.Guard) {
		return false
	}
	l := e.Loop
	for dst.op == OApp && dst.name == "slice" && proveEq(dst.args[1], TInt(0), x) {
		dst = dst.args[0]
	}
	want := fieldLeaves(rawTerm(OApp, dst.typ.Underlying().(*types.Slice).Elem(), "any"))
	got := map[string]bool{}
	for _, st := range l.Events {
		if st.Kind != "store" {
			continue
		}
		d, i, dp := within(st.Loc)
		if d == nil || d != dst && !proveEq(d, dst, x) || st.Val.op != OLoad {
			continue
		}
		s, j, sp := within(st.Val.args[0])
		in := AndAll(x, l.Assume, l.BackG)
		if s == nil || s != src && !proveEq(s, src, x) || sp != dp || !proveEq(i, j, in) || !implies(in, st.Guard) {
			return false
		}
		if visitsIndexed(e, i, n, x) != "" && visitsIndexed(e, i, TLen(src), x) != "" {
			return false
		}
		got[dp] = true
	}
	return len(got) == len(want)
}

// sliceOf: the first n elements of list (whose length may be n already).
func sliceOf(t, list, n *Term, f *BDD) bool {
	if t == list || proveEq(t, list, f) {
		return true
	}
	return t.op == OApp && t.name == "slice" && len(t.args) == 3 && (t.args[0] == list || proveEq(t.args[0], list, f)) && proveEq(t.args[1], TInt(0), f) && proveEq(t.args[2], n, f)
}

// arbSet: the pair enters or leaves the set of known pairs exactly under own.
func (c *Ctx) arbSet(rule, name string, l *LoopInfo, w *listWalk, sp *Term, op string, own *BDD, hashes map[string]string, pos token.Pos) {
	g := bddFalse
	for _, e := range eventsOf(l.Events, "call", "HashSet."+op) {
		x := And(w.In, e.Guard)
		if !proveEq(e.Args[0], get(e.Mem, sp, "cachedArbiters"), x) {
			c.fail(rule, name+" set", e.Instr.Pos(), "%s of another set", op)
			continue
		}
		a, b := get(l.Iter, w.El, "a"), get(l.Iter, w.El, "b")
		h := c.arbKey(l.Events, e.Args[1], a, b)
		c.ob(h != "", rule, name+" hash", e.Instr.Pos(), "the pair is looked for under the hash %s", short(e.Args[1]))
		if h != "" {
			hashes[name] = h
		}
		k := e.Args[2]
		c.ob(proveEq(fld(k, "a"), a, x) && proveEq(fld(k, "b"), b, x), rule, name+" pair", e.Instr.Pos(), "the pair looked for is %s", short(k))
		if op == "Insert" {
			c.ob(e.Sub != nil && e.Sub.Ret != nil && proveEq(e.Sub.Ret, w.El, x), rule, name+" same contact", e.Instr.Pos(), "what is put back is not the contact itself")
		}
		c.ob(!sat(And(x, g)), rule, name+" set once", e.Instr.Pos(), "it is done twice")
		g = Or(g, e.Guard)
	}
	c.ob(sameCond(g, own, w.In), rule, name+" set when", pos, "the pair is known (or forgotten) when %s", shortB(g))
}

func init() {
	register(&Check{ID: "C06", Run: checkC06,
		Assume: []string{
			"a body that sleeps is linked to the root of its component, which is linked to itself",
			"HashSet.Insert and Remove and the spatial indexes change nothing of bodies, shapes, joints or contacts",
			"an element is in a list at most once",
		},
		Explanation: "guarded value summaries of Body.Activate, Space.Activate and Space.Deactivate: every list, index and set a body's belongings are in, on one side and on the other"})
}
