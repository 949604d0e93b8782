package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: adding and removing keep every list and index in step.

// wokenFirst: nothing is taken out of base.path before the bodies are woken.
func (c *Ctx) wokenFirst(rule, name string, s *Summary, base *Term, path string, f *BDD) {
	for _, e := range s.Events {
		if e.Kind != "store" || e.Loc != addrOf(e.Mem, base, path) {
			continue
		}
		for _, w := range eventsOf(s.Events, "call", "Body.Activate") {
			c.ob(w.Seq < e.Seq || !sat(AndAll(f, e.Guard, w.Guard)), rule, name+" woken first", e.Instr.Pos(), "%s is changed before the bodies concerned are woken, which may add to it", path)
		}
	}
}

// indexOps: the shape is removed from (inserted in) the index of its body's type.
func (c *Ctx) indexOps(rule, name, op string, s *Summary, sp, shape, body *Term, f *BDD) []*Event {
	static := CondEq(get(s.Entry, body, "sleepingIdleTime"), TMaxF())
	gs, gd := bddFalse, bddFalse
	var es []*Event
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind != "invoke" || e.Name != "Remove" && e.Name != "Insert" {
			return
		}
		x := And(f, e.Guard)
		if !sat(x) {
			return
		}
		es = append(es, e)
		if !c.ob(e.Name == op && len(ls) == 0 && proveEq(e.Args[0], shape, x), rule, name+" index operation", e.Instr.Pos(), "%s of %s", e.Name, short(e.Args[0])) {
			return
		}
		hash := get(e.Mem, shape, "hashid")
		if op == "Remove" {
			hash = get(s.Entry, shape, "hashid")
		}
		c.ob(proveEq(e.Args[1], hash, x), rule, name+" hash", e.Instr.Pos(), "the shape is put under the hash %s", short(e.Args[1]))
		// the receiver may be chosen before
		leaves(e.Recv, bddTrue, func(g *BDD, r *Term) {
			y := And(x, g)
			if !sat(y) {
				return
			}
			if proveEq(r, get(e.Mem, get(e.Mem, sp, "staticShapes"), "class"), y) {
				c.ob(!sat(AndAll(f, e.Guard, g, gs)), rule, name+" once", e.Instr.Pos(), "it is done twice")
				gs = Or(gs, And(e.Guard, g))
			} else if proveEq(r, get(e.Mem, get(e.Mem, sp, "dynamicShapes"), "class"), y) {
				c.ob(!sat(AndAll(f, e.Guard, g, gd)), rule, name+" once", e.Instr.Pos(), "it is done twice")
				gd = Or(gd, And(e.Guard, g))
			} else {
				c.fail(rule, name+" index", e.Instr.Pos(), "the index is %s", short(r))
			}
		})
	})
	c.ob(sameCond(gs, static, f), rule, name+" static index", s.Fn.Pos(), "the index of static shapes is used when %s", shortB(gs))
	c.ob(sameCond(gd, Not(static), f), rule, name+" dynamic index", s.Fn.Pos(), "the index of moving shapes is used when %s", shortB(gd))
	return es
}

// keepWaking: waking a body changes neither its kind nor what is attached to
// it; to the lists of the awake it only adds (C06).
func keepWaking(fn *ssa.Function, class string) bool {
	switch fname(fn) {
	case "Body.Activate", "Body.ActivateStatic":
		switch class {
		case "Space.dynamicBodies", "[]*Body", "Space.rousedBodies", "Space.arbiters", "Space.constraints", "Space.sleepingComponents", "[]*Constraint", "[]*Arbiter":
			return false
		}
		return true
	}
	return false
}

func checkC07(c *Ctx) {
	waking := Config{NoEnter: true, Opaque: opaqueSet("Body.Activate", "Body.ActivateStatic", "Body.AddShape", "Body.RemoveShape", "Body.RemoveConstraint", "Space.FilterArbiters"), KeepUser: keepAll,
		KeepOn: func(fn *ssa.Function, class string) bool {
			switch fname(fn) {
			case "Body.AddShape", "Body.RemoveShape":
				// those change the mass and shapes of the body, which wakes it
				return class != "Body.shapeList"
			case "Body.RemoveConstraint":
				return class != "Body.constraintList" && !strings.HasPrefix(class, "Constraint.next_")
			case "Space.FilterArbiters":
				return !strings.HasPrefix(class, "Arbiter") && class != "Space.arbiters"
			}
			return keepWaking(fn, class)
		},
		Pure: func(fn *ssa.Function) bool {
			return fn.Name() == "Insert" || fn.Name() == "Remove"
		}}
	nilOf := func(t *Term) *Term { return TNilOf(t.typ) }

	rule := "bodies"
	c.part("AddBody", func() {
		s := c.sum("Space.AddBody", "member", waking)
		sp, b, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := AndAll(typeFact(s), notNil(b))
		st := CondEq(get(s.Entry, b, "sleepingIdleTime"), TMaxF())
		c.listBecomes(rule, "Space.AddBody", s.Events, sp, "staticBodies", b, f, bddFalse, st, pos)
		c.listBecomes(rule, "Space.AddBody", s.Events, sp, "dynamicBodies", b, f, bddFalse, Not(st), pos)
		c.ob(proveEq(get(s.Mem, b, "space"), sp, f), rule, "Space.AddBody space", pos, "the body does not know its space")
		c.ob(proveEq(s.Ret, b, f), rule, "Space.AddBody result", pos, "it returns %s", short(s.Ret))
		c.onlyTouches(rule, "Space.AddBody", s, f, "Body Space Shape Arbiter Constraint", "Space.staticBodies Space.dynamicBodies Body.space")
	})
	c.part("RemoveBody", func() {
		s := c.sum("Space.RemoveBody", "member", waking)
		sp, b, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := AndAll(s.G, notNil(b))
		st := CondEq(get(s.Entry, b, "sleepingIdleTime"), TMaxF())
		c.listBecomes(rule, "Space.RemoveBody", s.Events, sp, "staticBodies", b, f, st, bddFalse, pos)
		c.listBecomes(rule, "Space.RemoveBody", s.Events, sp, "dynamicBodies", b, f, Not(st), bddFalse, pos)
		c.wokenFirst(rule, "Space.RemoveBody", s, sp, "dynamicBodies", f)
		sv := get(s.Mem, b, "space")
		c.ob(proveEq(sv, nilOf(sv), f), rule, "Space.RemoveBody space", pos, "the body still knows a space")
		c.onlyTouches(rule, "Space.RemoveBody", s, f, "Body Space Shape Arbiter Constraint", "Space.staticBodies Space.dynamicBodies Body.space")
	})
	c.part("SetStaticBody", func() {
		s := c.sum("Space.SetStaticBody", "member", waking)
		sp, b, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		old := get(s.Entry, sp, "StaticBody")
		f := AndAll(s.G, notNil(b))
		c.ob(proveEq(get(s.Mem, sp, "StaticBody"), b, f) && proveEq(get(s.Mem, b, "space"), sp, f), rule, "Space.SetStaticBody", pos, "the static body of the space is %s, of space %s", short(get(s.Mem, sp, "StaticBody")), short(get(s.Mem, b, "space")))
		sv := get(s.Mem, old, "space")
		c.ob(proveEq(sv, nilOf(sv), AndAll(f, notNil(old), Not(CondEq(old, b)))), rule, "Space.SetStaticBody old", pos, "the static body there was before still knows the space")
	})
	c.atLeast(rule, 14)

	rule = "shapes"
	c.part("AddShape", func() {
		s := c.sum("Space.AddShape", "member", waking)
		sp, sh, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		body := get(s.Entry, sh, "body")
		f := AndAll(s.G, notNil(sh), notNil(body))
		g := bddFalse
		for _, e := range eventsOf(s.Events, "call", "Body.AddShape") {
			x := And(f, e.Guard)
			c.ob(proveEq(e.Args[0], body, x) && proveEq(e.Args[1], sh, x) && !sat(And(x, g)), rule, "Space.AddShape to body", e.Instr.Pos(), "%s is given to %s", short(e.Args[1]), short(e.Args[0]))
			g = Or(g, e.Guard)
		}
		c.ob(implies(f, g), rule, "Space.AddShape body", pos, "the body is told only when %s", shortB(g))
		// a hash no other shape of the space has
		id := get(s.Entry, sp, "shapeIDCounter")
		c.ob(proveEq(get(s.Mem, sp, "shapeIDCounter"), TAdd(id, TInt(1)), f), rule, "Space.AddShape counter", pos, "the number of the next shape becomes %s", short(get(s.Mem, sp, "shapeIDCounter")))
		h := get(s.Mem, sh, "hashid")
		c.ob(proveEq(h, id, f) || h.op == OApp && len(h.args) == 1 && proveEq(h.args[0], id, f), rule, "Space.AddShape number", pos, "the shape is numbered %s", short(h))
		for _, e := range c.indexOps(rule, "Space.AddShape", "Insert", s, sp, sh, body, f) {
			// where it is now
			ok := false
			for _, cd := range eventsOf(s.Events, "invoke", "CacheData") {
				x := AndAll(f, e.Guard)
				if cd.Seq < e.Seq && implies(x, cd.Guard) && proveEq(cd.Recv, get(cd.Mem, sh, "Class"), x) && sameStruct(cd.Args[0], get(s.Entry, body, "transform"), x) && sameStruct(get(e.Mem, sh, "bb"), cd.Result, x) {
					ok = true
				}
			}
			c.ob(ok, rule, "Space.AddShape box", e.Instr.Pos(), "the shape enters the index before its bounding box follows its body")
		}
		c.ob(proveEq(get(s.Mem, sh, "space"), sp, f), rule, "Space.AddShape space", pos, "the shape does not know its space")
		c.ob(proveEq(s.Ret, sh, f), rule, "Space.AddShape result", pos, "it returns %s", short(s.Ret))
		c.onlyTouches(rule, "Space.AddShape", s, f, "Body Space Arbiter Constraint Shape", "Space.shapeIDCounter Shape.hashid Shape.space Shape.bb BB.L BB.B BB.R BB.T")
	})
	c.part("RemoveShape", func() {
		s := c.sum("Space.RemoveShape", "member", waking)
		sp, sh, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		body := get(s.Entry, sh, "body")
		f := AndAll(s.G, notNil(sh), notNil(body))
		for _, call := range []struct {
			fn   string
			want []*Term
			what string
		}{{"Body.RemoveShape", []*Term{body, sh}, "the body keeps the shape"}, {"Space.FilterArbiters", []*Term{sp, body, sh}, "contacts of the shape are kept"}} {
			g := bddFalse
			for _, e := range eventsOf(s.Events, "call", call.fn) {
				x := And(f, e.Guard)
				ok := true
				for i, w := range call.want {
					ok = ok && proveEq(e.Args[i], w, x)
				}
				if c.ob(ok, rule, "Space.RemoveShape "+call.fn, e.Instr.Pos(), "it is called with %v", e.Args) {
					g = Or(g, e.Guard)
				}
			}
			c.ob(implies(f, g), rule, "Space.RemoveShape calls "+call.fn, pos, "%s unless %s", call.what, shortB(g))
		}
		c.indexOps(rule, "Space.RemoveShape", "Remove", s, sp, sh, body, f)
		sv := get(s.Mem, sh, "space")
		c.ob(proveEq(sv, nilOf(sv), f), rule, "Space.RemoveShape space", pos, "the shape still knows a space")
		c.onlyTouches(rule, "Space.RemoveShape", s, f, "Body Space Arbiter Constraint Shape", "Shape.hashid Shape.space")
	})
	c.part("Body.AddShape", func() {
		s := c.sum("Body.AddShape", "member", Config{NoEnter: true, Opaque: opaqueSet("Body.AccumulateMassFromShapes"), KeepUser: keepAll, Pure: func(fn *ssa.Function) bool { return fname(fn) == "Body.AccumulateMassFromShapes" }})
		b, sh, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := AndAll(s.G, notNil(b), notNil(sh))
		c.listBecomes(rule, "Body.AddShape", s.Events, b, "shapeList", sh, f, bddFalse, bddTrue, pos)
		c.reweighs(rule, "Body.AddShape", s, b, sh, f)
	})
	c.part("Body.RemoveShape", func() {
		s := c.sum("Body.RemoveShape", "member", Config{NoEnter: true, Opaque: opaqueSet("Body.AccumulateMassFromShapes"), KeepUser: keepAll, Pure: func(fn *ssa.Function) bool { return fname(fn) == "Body.AccumulateMassFromShapes" }})
		b, sh, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := AndAll(s.G, notNil(b), notNil(sh))
		c.listBecomes(rule, "Body.RemoveShape", s.Events, b, "shapeList", sh, f, bddTrue, bddFalse, pos)
		c.reweighs(rule, "Body.RemoveShape", s, b, sh, f)
	})
	c.atLeast(rule, 34)

	rule = "joints"
	c.part("AddConstraint", func() {
		s := c.sum("Space.AddConstraint", "member", waking)
		sp, k, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		a, b := get(s.Entry, k, "a"), get(s.Entry, k, "b")
		f := AndAll(s.G, notNil(k), notNil(a), notNil(b), Not(CondEq(a, b)))
		c.listBecomes(rule, "Space.AddConstraint", s.Events, sp, "constraints", k, f, bddFalse, bddTrue, pos)
		for _, x := range []struct {
			b    *Term
			next string
		}{{a, "next_a"}, {b, "next_b"}} {
			c.ob(proveEq(get(s.Mem, x.b, "constraintList"), k, f), rule, "Space.AddConstraint list of "+x.next[5:], pos, "the list of joints of body %s starts with %s", x.next[5:], short(get(s.Mem, x.b, "constraintList")))
			c.ob(proveEq(get(s.Mem, k, x.next), get(s.Entry, x.b, "constraintList"), f), rule, "Space.AddConstraint "+x.next, pos, "the joint is followed by %s in the list of body %s", short(get(s.Mem, k, x.next)), x.next[5:])
		}
		c.ob(proveEq(get(s.Mem, k, "space"), sp, f), rule, "Space.AddConstraint space", pos, "the joint does not know its space")
		c.ob(proveEq(s.Ret, k, f), rule, "Space.AddConstraint result", pos, "it returns %s", short(s.Ret))
		c.onlyTouches(rule, "Space.AddConstraint", s, f, "Body Space Arbiter Constraint Shape", "Space.constraints Body.constraintList Constraint.next_a Constraint.next_b Constraint.space")
	})
	c.part("RemoveConstraint", func() {
		s := c.sum("Space.RemoveConstraint", "member", waking)
		sp, k, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := AndAll(s.G, notNil(k))
		c.listBecomes(rule, "Space.RemoveConstraint", s.Events, sp, "constraints", k, f, bddTrue, bddFalse, pos)
		c.wokenFirst(rule, "Space.RemoveConstraint", s, sp, "constraints", f)
		for _, end := range []string{"a", "b"} {
			g := bddFalse
			for _, e := range eventsOf(s.Events, "call", "Body.RemoveConstraint") {
				if x := And(f, e.Guard); proveEq(e.Args[0], get(s.Entry, k, end), x) && proveEq(e.Args[1], k, x) {
					g = Or(g, e.Guard)
				}
			}
			c.ob(implies(f, g), rule, "Space.RemoveConstraint body "+end, pos, "body %s keeps the joint unless %s", end, shortB(g))
		}
		sv := get(s.Mem, k, "space")
		c.ob(proveEq(sv, nilOf(sv), f), rule, "Space.RemoveConstraint space", pos, "the joint still knows a space")
		c.onlyTouches(rule, "Space.RemoveConstraint", s, f, "Body Space Arbiter Constraint Shape", "Space.constraints Constraint.space")
	})
	c.part("Body.RemoveConstraint", func() { c.unlinks(rule) })
	c.atLeast(rule, 20)

	rule = "contacts"
	c.part("CachedArbitersFilter", func() {
		name := "CachedArbitersFilter"
		s := c.sum(name, "member", Config{NoEnter: true, Opaque: opaqueSet("Arbiter.Unthread"), KeepUser: keepAll, KeepOn: func(fn *ssa.Function, class string) bool {
			return !strings.HasPrefix(class, "ArbiterThread") && !strings.HasPrefix(class, "Arbiter.thread") && class != "Body.arbiterList"
		}})
		arb, sp, sh, b, pos := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Fn.Pos()
		any := CondEq(sh, TNilOf(sh.typ))
		m := s.Entry
		match := Or(And(CondEq(b, get(m, arb, "body_a")), Or(any, CondEq(sh, get(m, arb, "a")))), And(CondEq(b, get(m, arb, "body_b")), Or(any, CondEq(sh, get(m, arb, "b")))))
		f := AndAll(s.G, notNil(arb), notNil(sp), notNil(b))
		c.listBecomes(rule, name, s.Events, sp, "arbiters", arb, f, match, bddFalse, pos)
		c.ob(sameCond(toBDD(s.Ret), Not(match), typeFact(s)), rule, name+" keeps", pos, "a contact is kept when %s", shortB(toBDD(s.Ret)))
		g := bddFalse
		for _, e := range eventsOf(s.Events, "call", "Arbiter.Unthread") {
			c.ob(proveEq(e.Args[0], arb, And(f, e.Guard)), rule, name+" unlinks", e.Instr.Pos(), "%s is taken off the lists of its bodies", short(e.Args[0]))
			g = Or(g, e.Guard)
		}
		c.ob(sameCond(g, match, f), rule, name+" unlinks when", pos, "the contact is taken off the lists of its bodies when %s", shortB(g))
		for _, e := range eventsOf(s.Events, "ext", "sync.Pool.Put") {
			c.ob(!sat(AndAll(f, e.Guard, Not(match))), rule, name+" reuse", e.Instr.Pos(), "a contact that is kept may be used again for another pair")
		}
	})
	c.atLeast(rule, 6)

	rule = "membership"
	for _, w := range []string{"Body", "Shape", "Constraint"} {
		c.part("Contains"+w, func() {
			s := c.sum("Space.Contains"+w, "member", Config{NoEnter: true})
			f := And(typeFact(s), notNil(s.Params[1]))
			c.ob(sameCond(toBDD(s.Ret), CondEq(get(s.Entry, s.Params[1], "space"), s.Params[0]), f), rule, "Space.Contains"+w, s.Fn.Pos(), "it says %s", short(s.Ret))
		})
	}
	c.atLeast(rule, 3)
}

func sameStruct(a, b *Term, f *BDD) bool {
	if a == b {
		return true
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		for i := range a.args {
			if !sameStruct(a.args[i], b.args[i], f) {
				return false
			}
		}
		return true
	}
	if a.op == OStruct || b.op == OStruct {
		s, o := a, b
		if s.op != OStruct {
			s, o = b, a
		}
		for i := range s.args {
			if !sameStruct(s.args[i], fieldOf(o, i, s), f) {
				return false
			}
		}
		return true
	}
	return proveEq(a, b, f)
}

// reweighs: the mass is worked out again if the shape has any, after the list changed.
func (c *Ctx) reweighs(rule, name string, s *Summary, b, sh *Term, f *BDD) {
	g := bddFalse
	for _, e := range eventsOf(s.Events, "call", "Body.AccumulateMassFromShapes") {
		c.ob(proveEq(e.Args[0], b, And(f, e.Guard)), rule, name+" mass of", e.Instr.Pos(), "the mass of %s is worked out again", short(e.Args[0]))
		g = Or(g, e.Guard)
		for _, st := range storesTo(s.Events, "Body.shapeList") {
			c.ob(st.Seq < e.Seq || !sat(AndAll(f, st.Guard, e.Guard)), rule, name+" mass order", e.Instr.Pos(), "the mass of the body is worked out before its shapes changed")
		}
	}
	m := get(s.Entry, sh, "massInfo.m")
	want := AndAll(f, CondLt(TNum(0), m, false), Not(CondEq(get(s.Entry, b, "sleepingIdleTime"), TMaxF())), Not(CondEq(get(s.Entry, b, "m"), TMaxF())))
	c.ob(implies(want, g), rule, name+" mass", s.Fn.Pos(), "the mass of the body is worked out again only when %s", shortB(g))
}

// unlinks: Body.RemoveConstraint takes a joint off the list of a body.
func (c *Ctx) unlinks(rule string) {
	name := "Body.RemoveConstraint"
	s := c.sum(name, "member probe", Config{NoEnter: true})
	var rec *Event
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "call" && rec == nil {
			rec = e
		}
	})
	if rec == nil {
		c.unlinkLoop(rule, name, s)
		return
	}
	rn := rec.Name
	s = c.sum(name, "member", Config{NoEnter: true, Opaque: opaqueSet(rn), Pure: pureAll})
	body, k, pos := s.Params[0], s.Params[1], s.Fn.Pos()
	f := s.G
	es := eventsOf(s.Events, "call", rn)
	if !c.ob(len(es) == 1, rule, name, pos, "%s is called %d times", rn, len(es)) {
		return
	}
	node, bi, fi := -1, -1, -1
	for i, a := range es[0].Args {
		switch {
		case a == body:
			bi = i
		case a == k:
			fi = i
		case a == get(s.Entry, body, "constraintList"):
			node = i
		}
	}
	ok := node >= 0 && bi >= 0 && fi >= 0 && implies(f, es[0].Guard) && proveEq(get(s.Mem, body, "constraintList"), es[0].Result, f)
	if !c.ob(ok, rule, name+" list", pos, "the list of the body does not become itself without the joint") {
		return
	}
	r := c.sum(rn, "member", Config{NoEnter: true, Pure: pureAll})
	n, b, flt := r.Params[node], r.Params[bi], r.Params[fi]
	g := And(r.G, notNil(n))
	eq := CondEq(n, flt)
	isA := CondEq(get(r.Entry, n, "a"), b)
	pos = r.Fn.Pos()
	next := TIte(isA, get(r.Entry, n, "next_a"), get(r.Entry, n, "next_b"))
	c.ob(proveEq(r.Ret, TIte(eq, next, n), g), rule, rn+" result", pos, "the list without the joint is said to start with %s", short(r.Ret))
	for _, st := range r.Events {
		if st.Kind != "store" {
			continue
		}
		x := And(g, st.Guard)
		if !sat(x) {
			continue
		}
		link := ""
		for _, p := range []string{"next_a", "next_b"} {
			if st.Loc == addrOf(st.Mem, n, p) {
				link = p
			}
		}
		cond := isA
		if link == "next_b" {
			cond = Not(isA)
		}
		var call *Event
		for _, e := range eventsOf(r.Events, "call", rn) {
			if e.Result == st.Val || proveEq(e.Result, st.Val, x) {
				call = e
			}
		}
		good := link != "" && implies(x, And(cond, Not(eq))) && call != nil && proveEq(call.Args[node], get(r.Entry, n, link), x) && proveEq(call.Args[bi], b, x) && proveEq(call.Args[fi], flt, x)
		c.ob(good, rule, rn+" "+link, st.Instr.Pos(), "%s becomes %s", short(st.Loc), short(st.Val))
	}
	for _, p := range []string{"next_a", "next_b"} {
		cond := isA
		if p == "next_b" {
			cond = Not(isA)
		}
		h := bddFalse
		for _, st := range r.Events {
			if st.Kind == "store" && st.Loc == addrOf(st.Mem, n, p) {
				h = Or(h, st.Guard)
			}
		}
		c.ob(implies(AndAll(g, Not(eq), cond), h), rule, rn+" goes on "+p, pos, "the rest of the list is looked at only when %s", shortB(h))
	}
}

// unlinkLoop: the same by a walk that remembers the joint before.
func (c *Ctx) unlinkLoop(rule, name string, s *Summary) {
	body, k, pos := s.Params[0], s.Params[1], s.Fn.Pos()
	head := get(s.Entry, body, "constraintList")
	next := nextOf(body, "a", "next_a", "next_b")
	after := func(m *Mem, x *Term) *Term { return next(m, x) }
	n := 0
	for _, e := range s.Events {
		if e.Kind != "loop" {
			continue
		}
		l := e.Loop
		for _, ph := range l.Phis {
			if typeBaseOf(ph.Var.typ) != "Constraint" {
				continue
			}
			el := ph.Var
			bad := CondEq(el, k)
			le := &Event{Kind: "loop", Guard: e.Guard, Loop: withoutExits(l, bad)}
			if visitsList(le, el, head, after, bddTrue) != "" {
				continue
			}
			n++
			// the joint before
			var prev *Term
			for _, p := range l.Phis {
				if p.Var != el && p.Init.op == ONil && typeBaseOf(p.Var.typ) == "Constraint" && proveEq(p.Back, el, And(l.Assume, l.BackG)) {
					prev = p.Var
				}
			}
			evs := append(append([]*Event{}, l.Events...), s.Events...)
			done := bddFalse
			for _, st := range evs {
				if st.Kind != "store" {
					continue
				}
				x := AndAll(st.Guard, bad)
				val := after(st.Mem, el)
				isHead := st.Loc == addrOf(st.Mem, body, "constraintList")
				first := CondEq(el, head)
				if prev != nil {
					first = Or(first, CondEq(prev, TNilOf(prev.typ)))
				}
				ok := proveEq(st.Val, val, x) && isHead && implies(And(st.Guard, notNil(k)), Or(first, CondEq(head, k)))
				for _, p := range []string{"next_a", "next_b"} {
					if prev != nil && st.Loc == addrOf(st.Mem, prev, p) {
						isA := CondEq(get(st.Mem, prev, "a"), body)
						if p == "next_b" {
							isA = Not(isA)
						}
						ok = proveEq(st.Val, val, x) && implies(x, isA)
					}
				}
				c.ob(ok, rule, name+" link", st.Instr.Pos(), "%s becomes %s", short(st.Loc), short(st.Val))
				done = Or(done, st.Guard)
			}
			c.ob(implies(AndAll(l.Assume, bad, notNil(el)), done) || implies(AndAll(s.G, s.Assume, bad, notNil(el)), done), rule, name+" unlinks", pos, "the joint is taken off the list only when %s", shortB(done))
		}
	}
	c.ob(n == 1, rule, name, pos, "%d walks over the joints of the body were found", n)
}

var _ = token.NoPos

func init() {
	register(&Check{ID: "C07", Run: checkC07,
		Assume: []string{
			"an element is in a list at most once (debug builds assert it on adding, C33)",
			"waking a body changes what C06 says",
			"the two bodies of a joint are different",
		},
		Explanation: "guarded value summaries of the operations that add and remove: every list, index, link and back pointer before and after"})
}
