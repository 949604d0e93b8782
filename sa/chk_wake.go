package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C04: what changes a sleeping body wakes it.

// dynamicBody: the body is not nil, neither static nor kinematic.
func dynamicBody(m *Mem, b *Term) *BDD {
	return AndAll(notNil(b), Not(CondEq(get(m, b, "sleepingIdleTime"), TMaxF())), Not(CondEq(get(m, b, "m"), TMaxF())))
}

func staticBody(m *Mem, b *Term) *BDD {
	return And(notNil(b), CondEq(get(m, b, "sleepingIdleTime"), TMaxF()))
}

// bodyType: the type constant of a body.
func (c *Ctx) bodyType(m *Mem, b *Term) *Term {
	st, ki, dy := constInt(c, "BODY_STATIC"), constInt(c, "BODY_KINEMATIC"), constInt(c, "BODY_DYNAMIC")
	return TIte(CondEq(get(m, b, "sleepingIdleTime"), TMaxF()), TInt(st),
		TIte(CondEq(get(m, b, "m"), TMaxF()), TInt(ki), TInt(dy)))
}

// wakes: calls of fn on target cover every path under f; at each, the paths
// given are still as they were on entry.
func wakeGuards(s *Summary, fn string, target *Term, f *BDD, intact ...string) (*BDD, string) {
	r, why := bddFalse, ""
	for _, e := range eventsOf(s.Events, "call", fn) {
		g := AndAll(f, e.Guard)
		if e.Assume != nil {
			g = And(g, e.Assume)
		}
		if len(e.Args) == 0 || !sat(g) || !proveEq(e.Args[0], target, g) {
			continue
		}
		ok := true
		for _, p := range intact {
			if !proveEq(get(e.Mem, target, p), get(s.Entry, target, p), g) {
				ok, why = false, p
			}
		}
		if ok {
			r = Or(r, e.Guard)
		}
	}
	return r, why
}

func checkC04(c *Ctx) {
	wakers := opaqueSet("Body.Activate", "Body.ActivateStatic", "Space.FilterArbiters")
	cfg := Config{NoEnter: true, Opaque: wakers, KeepUser: keepAll}

	type setter struct {
		name   string
		target []string // field paths from the receiver (or first parameter); "" is itself
		param  int
		intact []string
	}
	mass := []string{"m", "sleepingIdleTime"}
	var list []setter
	for _, n := range []string{"SetAngle", "SetPosition", "SetVelocity", "SetVelocityVector", "SetForce", "SetTorque", "SetAngularVelocity",
		"ApplyForceAtWorldPoint", "ApplyForceAtLocalPoint", "ApplyImpulseAtWorldPoint", "ApplyImpulseAtLocalPoint", "SetMoment"} {
		list = append(list, setter{"Body." + n, []string{""}, 0, nil})
	}
	list = append(list, setter{"Body.SetMass", []string{""}, 0, mass}, setter{"Body.SetType", []string{""}, 0, append([]string{"shapeList", "constraintList", "arbiterList"}, mass...)})
	for _, n := range []string{"SetSensor", "SetMass", "SetDensity", "SetCollisionType", "SetFriction", "SetSurfaceV", "SetElasticity", "SetFilter"} {
		list = append(list, setter{"Shape." + n, []string{"body"}, 0, nil})
	}
	for _, n := range []string{"SetMaxForce", "SetMaxBias", "SetErrorBias", "SetCollideBodies"} {
		list = append(list, setter{"Constraint." + n, []string{"a", "b"}, 0, nil})
	}
	list = append(list,
		setter{"Space.AddConstraint", []string{"a", "b"}, 1, []string{"constraintList"}},
		setter{"Space.RemoveConstraint", []string{"a", "b"}, 1, []string{"constraintList"}},
		setter{"Space.AddShape", []string{"body"}, 1, []string{"shapeList"}},
		setter{"Space.RemoveShape", []string{"body"}, 1, []string{"shapeList", "space"}},
		setter{"Space.RemoveBody", []string{""}, 1, []string{"space"}})

	rule := "wakes"
	for _, w := range list {
		c.part(w.name, func() {
			cf := cfg
			if w.name == "Space.RemoveConstraint" {
				cf.Opaque = opaqueSet("Body.Activate", "Body.ActivateStatic", "Body.RemoveConstraint")
			}
			s := c.sum(w.name, "wake", cf)
			p := s.Params[w.param]
			for _, path := range w.target {
				t, what := p, "the body"
				if path != "" {
					t, what = get(s.Entry, p, path), "its body "+path
				}
				f := AndAll(typeFact(s), notNil(p), dynamicBody(s.Entry, t))
				if w.name == "Body.SetType" {
					f = And(f, Not(CondEq(s.Params[1], c.bodyType(s.Entry, t))))
				}
				g, why := wakeGuards(s, "Body.Activate", t, f, w.intact...)
				key := w.name
				if path != "" {
					key += " " + path
				}
				if why != "" {
					why = " (one that does comes after its " + why + " was changed)"
				}
				c.ob(implies(f, g), rule, key, s.Fn.Pos(), "%s may stay asleep: it is woken when %s%s", what, shortB(g), why)
			}
		})
	}
	c.atLeast(rule, len(list)+6)

	rule = "wakes neighbours"
	c.part("RemoveShape static", func() {
		s := c.sum("Space.RemoveShape", "wake", cfg)
		sh := s.Params[1]
		b := get(s.Entry, sh, "body")
		f := AndAll(typeFact(s), notNil(sh), staticBody(s.Entry, b))
		g := bddFalse
		for _, e := range eventsOf(s.Events, "call", "Body.ActivateStatic") {
			x := And(f, e.Guard)
			if proveEq(e.Args[0], b, x) && (proveEq(e.Args[1], sh, x) || e.Args[1].op == ONil) && proveEq(get(e.Mem, b, "arbiterList"), get(s.Entry, b, "arbiterList"), x) {
				g = Or(g, e.Guard)
			}
		}
		// the contacts of the shape must still be there to find the neighbours by
		for _, e := range eventsOf(s.Events, "call", "Space.FilterArbiters") {
			for _, w := range eventsOf(s.Events, "call", "Body.ActivateStatic") {
				c.ob(w.Seq < e.Seq || !sat(AndAll(f, e.Guard, w.Guard)), rule, "Space.RemoveShape order", e.Instr.Pos(), "contacts are dropped before the bodies touching the shape are woken")
			}
		}
		c.ob(implies(f, g), rule, "Space.RemoveShape", s.Fn.Pos(), "bodies resting on a shape of a static body stay asleep when it is removed: they are woken when %s", shortB(g))
	})
	c.part("ActivateStatic", func() {
		s := c.sum("Body.ActivateStatic", "wake", Config{NoEnter: true, Opaque: opaqueSet("Body.Activate"), KeepUser: keepAll, KeepOn: keepThreads})
		body, flt := s.Params[0], s.Params[1]
		f := staticBody(s.Entry, body)
		n := 0
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "loop" {
				return
			}
			for _, ph := range e.Loop.Phis {
				el := ph.Var
				if typeBaseOf(el.typ) != "Arbiter" {
					continue
				}
				n++
				msg := c.visitsArbiters(e, el, body, get(s.Entry, body, "arbiterList"), f)
				c.ob(msg == "", rule, "Body.ActivateStatic walk", e.Instr.Pos(), "not every contact of the body is looked at: %s", msg)
				l := e.Loop
				m := l.Iter
				A, B := get(m, el, "body_a"), get(m, el, "body_b")
				// el is one of the body's contacts
				in := AndAll(l.Assume, f, notNil(el), Or(CondEq(A, body), CondEq(B, body)), Not(CondEq(A, B)))
				want := OrAll(CondEq(flt, TNilOf(flt.typ)), CondEq(flt, get(m, el, "a")), CondEq(flt, get(m, el, "b")))
				g := bddFalse
				for _, w := range eventsOf(l.Events, "call", "Body.Activate") {
					x := And(in, w.Guard)
					if proveEq(w.Args[0], TIte(CondEq(A, body), B, A), x) {
						g = Or(g, w.Guard)
					}
				}
				c.ob(implies(And(in, want), g), rule, "Body.ActivateStatic wakes", e.Instr.Pos(), "a body touching the shape is not woken; it is when %s", shortB(g))
				c.ob(implies(f, e.Guard), rule, "Body.ActivateStatic always", e.Instr.Pos(), "contacts are looked at only when %s", shortB(e.Guard))
			}
		})
		c.ob(n == 1, rule, "Body.ActivateStatic", s.Fn.Pos(), "%d walks over the contacts of the body were found", n)
	})
	c.atLeast(rule, 6)

	rule = "gravity wakes everything"
	c.part("SetGravity", func() {
		s := c.sum("Space.SetGravity", "wake", cfg)
		sp := s.Params[0]
		f := typeFact(s)
		c.ob(proveEq(get(s.Mem, sp, "gravity.X"), fld(s.Params[1], "X"), f) && proveEq(get(s.Mem, sp, "gravity.Y"), fld(s.Params[1], "Y"), f), rule, "Space.SetGravity value", s.Fn.Pos(), "gravity is not what was set")
		c.ob(len(storesTo(s.Events, "Space.sleepingComponents")) == 0, rule, "Space.SetGravity list", s.Fn.Pos(), "the list of sleeping components is changed other than by waking them")
		done := proveEq(TLen(get(s.Mem, sp, "sleepingComponents")), TInt(0), f) || proveLE(TLen(get(s.Mem, sp, "sleepingComponents")), TInt(0), f)
		why := ""
		list := get(s.Entry, sp, "sleepingComponents")
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "call" || e.Name != "Body.Activate" || len(ls) != 1 || done {
				return
			}
			// a walk over a copy of the list
			x := e.Args[0]
			why = fmt.Sprintf(" (it wakes %s)", short(x))
			if x.op != OLoad || x.args[0].op != OIndex {
				return
			}
			cp := x.args[0].args[0]
			if cp.op != OApp || cp.name != "appendslice" || !proveEq(TLen(cp.args[0]), TInt(0), s.G) || cp.args[1] != list {
				return
			}
			le := loopEvent(s.Events, ls[0])
			msg := visitsIndexed(le, x.args[0].args[1], TLen(cp), bddTrue)
			done = msg == "" && implies(And(ls[0].Assume, ls[0].BackG), e.Guard) && implies(s.G, le.Guard)
		})
		c.ob(done, rule, "Space.SetGravity", s.Fn.Pos(), "bodies may still sleep after gravity was changed%s", why)
	})
	c.atLeast(rule, 3)

	rule = "wakes when unlocked"
	c.part("Space.Activate", func() {
		s := c.sum("Space.Activate", "wake", Config{NoEnter: true, Opaque: opaqueSet("Space.ContactBufferGetArray", "Space.PushContacts", "HashSet.Insert")})
		sp, b := s.Params[0], s.Params[1]
		lk := Not(condEq0(get(s.Entry, sp, "locked"), true))
		locked := And(typeFact(s), lk)
		pos := s.Fn.Pos()
		old := get(s.Entry, sp, "rousedBodies")
		list := addrOf(s.Entry, sp, "rousedBodies")
		g := bddFalse
		nloop := 0
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			reach := And(lk, e.Guard)
			for _, l := range ls {
				reach = And(reach, loopEvent(s.Events, l).Guard)
			}
			if e.Kind == "loop" || !sat(reach) {
				return
			}
			switch e.Kind {
			case "store":
				if rootOf(e.Loc).op == OAlloc {
					return
				}
				ok := e.Loc == list && len(ls) == 0 && e.Val.op == OApp && e.Val.name == "append" && len(e.Val.args) == 2 && proveEq(e.Val.args[1], b, And(locked, e.Guard)) && proveEq(e.Val.args[0], old, And(locked, e.Guard))
				if ok {
					g = Or(g, e.Guard)
				}
				c.ob(ok, rule, "Space.Activate locked "+locClass(e.Loc), e.Instr.Pos(), "waking a body while the space is locked changes %s", short(e.Loc))
			case "call", "invoke", "user":
				c.fail(rule, "Space.Activate locked "+e.Name, e.Instr.Pos(), "waking a body while the space is locked calls %s", e.Name)
			}
		})
		// not queued only if it is queued already
		there, end, b_ := bddFalse, bddTrue, b
		seen := map[*Term]bool{}
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "loop" || !sat(And(lk, e.Guard)) {
				return
			}
			nloop++
			visit := func(b *BDD) {
				walkB(b, func(t *Term) {
					if t.op == OLoad && typeBaseOf(t.typ) == "Body" && t.args[0].op == OIndex && t.args[0].args[0] == old && !seen[t] {
						seen[t] = true
						bad := CondEq(t, b_)
						found := foundFlag(e.Loop, bad)
						there = OrAll(there, bad, found)
						if found != bddFalse {
							there = Or(bddFalse, found)
						}
						end = And(end, Or(CondLe(TLen(old), t.args[0].args[1], true), CondLt(t.args[0].args[1], TInt(0), true)))
						msg := visitsIndexed(&Event{Kind: "loop", Guard: e.Guard, Loop: withoutExits(e.Loop, Or(bad, found))}, t.args[0].args[1], TLen(old), lk)
						c.ob(msg == "", rule, "Space.Activate queued", e.Instr.Pos(), "a body may be queued twice: %s", msg)
						c.ob(!sat(AndAll(e.Loop.Assume, e.Loop.BackG, bad)) || found != bddFalse, rule, "Space.Activate found", e.Instr.Pos(), "a body that is queued already is passed over")
						if found != bddFalse {
							end = And(end, Not(found))
						}
					}
				})
			}
			for _, x := range e.Loop.Exits {
				visit(x.Guard)
			}
			visit(e.Loop.BackG)
			for _, ph := range e.Loop.Phis {
				if ph.Back != nil && ph.Back.typ != nil {
					if bt, ok := ph.Back.typ.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
						visit(toBDD(ph.Back))
					}
				}
			}
		})
		c.ob(implies(locked, Or(g, there)), rule, "Space.Activate queues", pos, "a body woken while the space is locked is queued only when %s", shortB(g))
		c.ob(nloop > 0 && implies(And(locked, g), end), rule, "Space.Activate once", pos, "a body that is queued already is queued again")
	})
	c.part("Space.Unlock", func() {
		s := c.sum("Space.Unlock", "wake", Config{NoEnter: true, Opaque: opaqueSet("Space.Activate"), KeepUser: keepAll, KeepOn: func(fn *ssa.Function, class string) bool {
			// shown above: nothing is queued while the space is unlocked
			return fname(fn) == "Space.Activate" && (class == "Space.rousedBodies" || class == "[]*Body")
		}})
		sp := s.Params[0]
		f := CondEq(get(s.Entry, sp, "locked"), TInt(1))
		n := 0
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "call" || e.Name != "Space.Activate" {
				return
			}
			n++
			if len(ls) != 1 {
				c.fail(rule, "Space.Unlock walk", e.Instr.Pos(), "bodies are not woken in one walk over those queued")
				return
			}
			l := ls[0]
			le := loopEvent(s.Events, l)
			c.ob(proveEq(get(e.Mem, sp, "locked"), TInt(0), And(l.Assume, f)), rule, "Space.Unlock unlocked", e.Instr.Pos(), "queued bodies are woken while the space is still locked")
			c.ob(proveEq(e.Args[0], sp, And(l.Assume, f)), rule, "Space.Unlock space", e.Instr.Pos(), "bodies are woken in another space")
			x := e.Args[1]
			idx := indexOf(x)
			ok := idx != nil && x.op == OLoad && x.args[0].op == OIndex && proveEq(x.args[0].args[0], get(s.Entry, sp, "rousedBodies"), And(l.Assume, f))
			c.ob(ok, rule, "Space.Unlock element", e.Instr.Pos(), "what is woken is not a queued body: %s", short(x))
			if ok {
				msg := visitsIndexed(le, idx, TLen(get(s.Entry, sp, "rousedBodies")), f)
				c.ob(msg == "", rule, "Space.Unlock visits", e.Instr.Pos(), "not every queued body is woken: %s", msg)
				c.ob(implies(AndAll(l.Assume, f, l.BackG), e.Guard), rule, "Space.Unlock each", e.Instr.Pos(), "a queued body is woken only when %s", shortB(e.Guard))
				c.ob(implies(f, le.Guard), rule, "Space.Unlock always", e.Instr.Pos(), "queued bodies are woken only when %s", shortB(le.Guard))
			}
		})
		c.ob(n == 1, rule, "Space.Unlock", s.Fn.Pos(), "queued bodies are woken by %d calls", n)
		ok := false
		for _, st := range storesTo(s.Events, "Space.rousedBodies") {
			if implies(f, st.Guard) && proveEq(TLen(st.Val), TInt(0), And(f, st.Guard)) {
				ok = true
			}
		}
		c.ob(ok, rule, "Space.Unlock empties", s.Fn.Pos(), "the queue of bodies to wake is not emptied")
		for _, st := range storesTo(s.Events, "Space.rousedBodies") {
			c.ob(proveEq(TLen(st.Val), TInt(0), And(f, st.Guard)), rule, "Space.Unlock queue", st.Instr.Pos(), "the queue of bodies to wake is changed to %s", short(st.Val))
		}
	})
	c.atLeast(rule, 12)
}

func loopEvent(evs []*Event, l *LoopInfo) *Event {
	var r *Event
	allEvents(evs, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "loop" && e.Loop == l {
			r = e
		}
	})
	return r
}

// keepAll: what user callbacks do is theirs.
func keepAll(e *Event, class string) bool { return true }

// keepThreads: waking does not change whom contacts are between nor how they
// are strung together (C06).
func keepThreads(fn *ssa.Function, class string) bool {
	switch class {
	case "Arbiter.body_a", "Arbiter.body_b", "Arbiter.a", "Arbiter.b", "Arbiter.thread_a", "Arbiter.thread_b", "ArbiterThread.next", "ArbiterThread.prev":
		return fname(fn) == "Body.Activate" || fname(fn) == "Space.Activate"
	}
	return false
}

// visitsArbiters: the loop walks the contacts of a body.
func (c *Ctx) visitsArbiters(e *Event, el, body, head *Term, f *BDD) string {
	next := func(m *Mem, x *Term) *Term {
		return TIte(CondEq(get(m, x, "body_a"), body), get(m, x, "thread_a.next"), get(m, x, "thread_b.next"))
	}
	return visitsList(e, el, head, next, f)
}

func init() {
	register(&Check{ID: "C04", Run: checkC04,
		Assume: []string{
			"a body that is not dynamic never sleeps (C06, C08), so only dynamic bodies need waking",
			"that Body.Activate wakes the body and all it sleeps with is C06",
		},
		Explanation: "guarded value summaries: on every path of every setter the conditions under which Body.Activate is called on the body concerned cover all inputs"})
}
