package main

import "golang.org/x/tools/go/ssa"

// The preparation of contacts and what an arbiter takes over from a collision.

// loopsChanging: loops (any depth) whose body may change a class.
func loopsChanging(s *Summary, class string) []*Event {
	var out []*Event
	allEvents(s.Events, func(e *Event, _ []*LoopInfo) {
		if e.Kind == "loop" && (changesIn(e.Loop, class) || ownerIn(e.Loop, class) != nil) {
			out = append(out, e)
		}
	})
	return out
}

// ownerIn: the object a loop body stores a field of.
func ownerIn(l *LoopInfo, class string) *Term {
	var o *Term
	allEvents(l.Events, func(e *Event, _ []*LoopInfo) {
		if e.Kind == "store" && locClass(e.Loc) == class && o == nil {
			o = ownerOfLoc(e.Loc, class)
		}
	})
	return o
}

func (c *Ctx) contactPrep() {
	rule := "contact preparation"
	name := "Arbiter.PreStep"
	c.part(name, func() {
		s := c.sum(name, "contact", Config{NoEnter: true})
		ls := loopsChanging(s, "Contact.nMass")
		if len(ls) != 1 {
			c.fail("coverage", name, s.Fn.Pos(), "expected one loop preparing the contacts, found %d", len(ls))
			return
		}
		l := ls[0].Loop
		pos := ls[0].Instr.Pos()
		con := ownerIn(l, "Contact.nMass")
		if con == nil {
			c.fail("coverage", name, s.Fn.Pos(), "the contact prepared is not resolved")
			return
		}
		arb := s.Params[0]
		msg := visitsIndexed(ls[0], indexOf(con), get(l.Iter, arb, "count"), bddTrue)
		c.ob(msg == "", rule, name+" every contact", pos, "not every contact is prepared: %s", msg)
		dt, slop, bias := s.Params[1], s.Params[2], s.Params[3]
		a, b := get(l.Iter, arb, "body_a"), get(l.Iter, arb, "body_b")
		n := getV(l.Iter, arb, "n")
		r1, r2 := getV(l.Iter, con, "r1"), getV(l.Iter, con, "r2")
		k := func(n V2) *Term {
			c1, c2 := r1.cross(n), r2.cross(n)
			return add(get(l.Iter, a, "m_inv"), get(l.Iter, b, "m_inv"), mul(get(l.Iter, a, "i_inv"), c1, c1), mul(get(l.Iter, b, "i_inv"), c2, c2))
		}
		f := And(l.Assume, l.BackG)
		v := func(q string) *Term { return get(l.Back, con, q) }
		c.ob(proveEq(TMul(v("nMass"), k(n)), TNum(1), And(f, nonzero(k(n)))), rule, name+" normal mass", pos, "the normal mass is %s", short(v("nMass")))
		c.ob(proveEq(TMul(v("tMass"), k(n.perp())), TNum(1), And(f, nonzero(k(n.perp())))), rule, name+" tangent mass", pos, "the tangent mass is %s", short(v("tMass")))
		d := r2.sub(r1).add(getV(l.Iter, b, "p").sub(getV(l.Iter, a, "p"))).dot(n)
		want := TNeg(TDiv(TMul(bias, TMin(TNum(0), TAdd(d, slop))), dt))
		c.ob(proveEq(v("bias"), want, And(f, nonzero(dt))), rule, name+" bias", pos, "the corrective velocity is %s: it does not remove the configured fraction of the overlap beyond the slop", short(v("bias")))
		vrn := getV(l.Iter, b, "v").add(r2.perp().mul(get(l.Iter, b, "w"))).sub(getV(l.Iter, a, "v").add(r1.perp().mul(get(l.Iter, a, "w")))).dot(n)
		c.ob(proveEq(v("bounce"), TMul(vrn, get(l.Iter, arb, "e")), f), rule, name+" bounce", pos, "the bounce velocity %s is not the elasticity times the approach velocity", short(v("bounce")))
		c.ob(isZero(v("jBias"), f), rule, name+" jBias", pos, "the accumulated position correction does not start from zero")
	})
	for _, m := range []string{"Arbiter.ApplyImpulse", "Arbiter.ApplyCachedImpulse"} {
		m := m
		c.part(m+" every contact", func() {
			r := c.contactIter(m)
			msg := visitsIndexed(r.e, indexOf(r.con), get(r.l.Iter, r.arb, "count"), bddTrue)
			c.ob(msg == "", rule, m+" every contact", r.e.Instr.Pos(), "not every contact is solved: %s", msg)
		})
	}
	c.part("Arbiter.ApplyImpulse values", func() {
		r := c.contactIter("Arbiter.ApplyImpulse")
		l := r.l
		pos := r.e.Instr.Pos()
		g := func(q string) *Term { return get(l.Iter, r.con, q) }
		n := getV(l.Iter, r.arb, "n")
		r1, r2 := getV(l.Iter, r.con, "r1"), getV(l.Iter, r.con, "r2")
		rel := func(v, w string) V2 {
			return getV(l.Iter, r.b, v).add(r2.perp().mul(get(l.Iter, r.b, w))).sub(getV(l.Iter, r.a, v).add(r1.perp().mul(get(l.Iter, r.a, w))))
		}
		vr := rel("v", "w").add(getV(l.Iter, r.arb, "surface_vr"))
		jn := TMax(TSub(g("jnAcc"), TMul(TAdd(g("bounce"), vr.dot(n)), g("nMass"))), TNum(0))
		c.ob(proveEq(get(l.Back, r.con, "jnAcc"), jn, r.facts), rule, "Arbiter.ApplyImpulse normal", pos, "the normal impulse does not aim at the bounce velocity: %s", short(get(l.Back, r.con, "jnAcc")))
		jb := TMax(TAdd(g("jBias"), TMul(TSub(g("bias"), rel("v_bias", "w_bias").dot(n)), g("nMass"))), TNum(0))
		c.ob(proveEq(get(l.Back, r.con, "jBias"), jb, r.facts), rule, "Arbiter.ApplyImpulse correction", pos, "the position correction does not aim at the bias velocity")
		raw := TSub(g("jtAcc"), TMul(vr.dot(n.perp()), g("tMass")))
		lim := TMul(get(l.Iter, r.arb, "u"), get(l.Back, r.con, "jnAcc"))
		f := AndAll(r.facts, CondLt(TNeg(lim), raw, false), CondLt(raw, lim, false))
		c.ob(proveEq(get(l.Back, r.con, "jtAcc"), raw, f), rule, "Arbiter.ApplyImpulse friction", pos, "inside the friction cone the tangent impulse does not stop the sliding")
	})
	name2 := "Arbiter.Update"
	c.part(name2, func() {
		s := c.sum(name2, "upd", Config{NoEnter: true, KeepOnUser: func(string) bool { return true }, Opaque: func(fn *ssa.Function) bool { return fname(fn) == "Space.LookupHandler" }})
		arb, info := s.Params[0], s.Params[1]
		a, b := get(s.Entry, info, "a"), get(s.Entry, info, "b")
		f := And(s.G, s.Assume)
		pos := s.Fn.Pos()
		g := func(q string) *Term { return get(s.Mem, arb, q) }
		sh := func(x *Term, q string) *Term { return get(s.Entry, x, q) }
		c.ob(proveEq(g("e"), TMul(sh(a, "e"), sh(b, "e")), f), rule, name2+" elasticity", pos, "the elasticity of the pair is %s, not the product", short(g("e")))
		c.ob(proveEq(g("u"), TMul(sh(a, "u"), sh(b, "u")), f), rule, name2+" friction", pos, "the friction of the pair is %s, not the product", short(g("u")))
		n := getV(s.Entry, info, "n")
		sv := getV(s.Entry, b, "surfaceV").sub(getV(s.Entry, a, "surfaceV"))
		got := vec(g("surface_vr"))
		c.ob(got.eq(sv.sub(n.mul(sv.dot(n))), f), rule, name2+" surface velocity", pos, "the surface velocity of the pair is not the tangential part of the difference")
		c.ob(vec(g("n")).eq(n, f), rule, name2+" normal", pos, "the normal is not the collision's")
		c.ob(proveEq(g("count"), sh(info, "count"), f), rule, name2+" count", pos, "the number of contacts is not the collision's")
		c.ob(proveEq(g("a"), a, f) && proveEq(g("b"), b, f) && proveEq(g("body_a"), sh(a, "body"), f) && proveEq(g("body_b"), sh(b, "body"), f), rule, name2+" shapes", pos, "the arbiter's shapes and bodies are not the collision's")
		// contacts: offsets relative to the bodies, impulses from the same contact of the step before
		for _, e := range loopsChanging(s, "Contact.r1") {
			l := e.Loop
			con := ownerIn(l, "Contact.r1")
			if con == nil {
				c.fail(rule, name2, e.Instr.Pos(), "the contact updated is not resolved")
				continue
			}
			fl := And(l.Assume, l.BackG)
			msg := visitsIndexed(e, indexOf(con), get(l.Iter, info, "count"), bddTrue)
			c.ob(msg == "", rule, name2+" every contact", e.Instr.Pos(), "not every contact is updated: %s", msg)
			r1, r2 := getV(l.Back, con, "r1"), getV(l.Back, con, "r2")
			p1, p2 := getV(l.Iter, sh(a, "body"), "p"), getV(l.Iter, sh(b, "body"), "p")
			c.ob(r1.eq(getV(l.Iter, con, "r1").sub(p1), fl) && r2.eq(getV(l.Iter, con, "r2").sub(p2), fl), rule, name2+" offsets", e.Instr.Pos(), "the contact's offsets are not relative to the bodies' centres of gravity")
			for _, ie := range l.Events {
				if ie.Kind == "loop" && (changesIn(ie.Loop, "Contact.jnAcc") || ownerIn(ie.Loop, "Contact.jnAcc") != nil) {
					il := ie.Loop
					c.ob(isZero(get(il.Entry, con, "jnAcc"), And(l.Assume, ie.Guard)) && isZero(get(il.Entry, con, "jtAcc"), And(l.Assume, ie.Guard)), rule, name2+" fresh contact", ie.Instr.Pos(), "a contact without a predecessor does not start from zero impulse")
					// an iteration either keeps the impulses or takes both from one old contact with the same hash
					fi := AndAll(il.Assume, il.BackG, l.Assume)
					n1, t1 := get(il.Back, con, "jnAcc"), get(il.Back, con, "jtAcc")
					n0, t0 := get(il.Iter, con, "jnAcc"), get(il.Iter, con, "jtAcc")
					var old *Term
					walkTerm(n1, func(x *Term) {
						if x.op == OLoad && locClass(x.args[0]) == "Contact.jnAcc" {
							if o := ownerOfLoc(x.args[0], "Contact.jnAcc"); o != nil && o != con {
								old = o
							}
						}
					})
					if old == nil {
						c.fail(rule, name2+" warm start", ie.Instr.Pos(), "the impulses of the step before are not taken over: %s", short(n1))
						continue
					}
					// all old contacts are considered, or the search ends at a match
					msg := visitsIndexed(&Event{Guard: bddTrue, Loop: withoutExits(il, And(fi, CondEq(get(il.Iter, con, "hash"), get(il.Iter, old, "hash")))), Instr: ie.Instr}, indexOf(old), get(il.Iter, arb, "count"), l.Assume)
					c.ob(msg == "", rule, name2+" every old contact", ie.Instr.Pos(), "not every old contact is considered: %s", msg)
					same := CondEq(get(il.Iter, con, "hash"), get(il.Iter, old, "hash"))
					ok := proveEq(n1, get(il.Iter, old, "jnAcc"), And(fi, same)) && proveEq(t1, get(il.Iter, old, "jtAcc"), And(fi, same))
					ok = ok && proveEq(n1, n0, And(fi, Not(same))) && proveEq(t1, t0, And(fi, Not(same)))
					c.ob(ok, rule, name2+" warm start", ie.Instr.Pos(), "a contact does not take over exactly the impulses of the contact with the same hash: %s", short(n1))
				}
			}
		}
	})
	c.atLeast(rule, 21)
}

// withoutExits drops the exits taken only when cond holds.
func withoutExits(l *LoopInfo, cond *BDD) *LoopInfo {
	l2 := *l
	l2.Exits = nil
	for _, x := range l.Exits {
		if !implies(And(x.Guard, l.Assume), cond) {
			l2.Exits = append(l2.Exits, x)
		}
	}
	return &l2
}
