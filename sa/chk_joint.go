package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	real := []string{"real arithmetic (rounding and NaN are not modelled)", "distinct access paths denote distinct objects"}
	register(&Check{ID: "C11", Run: checkC11, Assume: append([]string{"user force and torque functions do not move the bodies"}, real...),
		Explanation: "Exact symbolic change of both bodies' velocities over every method of every constraint type and over the contact solver (polynomial normal form): " +
			"linear changes weighted by the other body's inverse mass must cancel, angular changes must be the moment of the linear ones about the anchor (joints with anchors, contacts) " +
			"or must cancel (rotary joints, the gear with its ratio)."})
	register(&Check{ID: "C12", Run: checkC12, Assume: real,
		Explanation: "The same exact velocity changes with inverse mass and inverse moment of one body set to zero must vanish for that body; " +
			"the default integrator must leave the velocities of a kinematic body alone and impulses and forces must scale with the inverse mass."})
	register(&Check{ID: "C13", Run: checkC13, Assume: real,
		Explanation: "Guarded value of the accumulated impulse after each constraint solver iteration and of the corrective velocity after each preparation: " +
			"every case of the min/max/clamp structure is bounded by the limit; one-sided limits keep their sign."})
	register(&Check{ID: "C14", Run: checkC14, Assume: real,
		Explanation: "Guarded values stored by one iteration of the contact solver: accumulated normal impulse and position correction are non-negative, the friction impulse is inside the friction cone, " +
			"and what is applied to the bodies is the change of the accumulated impulses."})
}

// joint describes one constraint method symbolically.
type jointRun struct {
	s      *Summary
	joint  *Term
	a, b   *Term
	facts  *BDD
	va, vb V2 // change of linear velocity
	wa, wb *Term
	ia, ib *Term
	ma, mb *Term
}

func (c *Ctx) jointRun(t *types.Named, method string) *jointRun {
	return c.jointRunOf(t, method, "joint", Config{NoEnter: true, KeepOnUser: func(string) bool { return true }, Cut: jointCut, CutArgs: true})
}

func (c *Ctx) jointRunOf(t *types.Named, method, key string, cfg Config) *jointRun {
	fn := c.method(t, method)
	s := c.sumFn(fn, key, cfg)
	j := s.Params[0]
	r := &jointRun{s: s, joint: j, a: get(s.Entry, j, "Constraint.a"), b: get(s.Entry, j, "Constraint.b")}
	r.facts = And(s.G, s.Assume)
	d := func(b *Term, f string) *Term { return TSub(get(s.Mem, b, f), get(s.Entry, b, f)) }
	r.va, r.vb = V2{d(r.a, "v.X"), d(r.a, "v.Y")}, V2{d(r.b, "v.X"), d(r.b, "v.Y")}
	r.wa, r.wb = d(r.a, "w"), d(r.b, "w")
	g := func(b *Term, f string) *Term { return get(s.Entry, b, f) }
	r.ma, r.mb, r.ia, r.ib = g(r.a, "m_inv"), g(r.b, "m_inv"), g(r.a, "i_inv"), g(r.b, "i_inv")
	return r
}

// jointCut: intermediate results of a joint's preparation are named.
func jointCut(class string) bool {
	for _, f := range []string{".r1", ".r2", ".n", ".k", ".nMass", ".iSum", ".bias", ".grooveTn", ".vCoef", ".wCoef"} {
		if strings.HasSuffix(class, f) {
			return true
		}
	}
	return false
}

func hasField(t types.Type, name string) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, true, pkgOf(t), name)
	_, ok := obj.(*types.Var)
	return ok
}

var jointMethods = []string{"PreStep", "ApplyCachedImpulse", "ApplyImpulse"}

func checkC11(c *Ctx) {
	n := 0
	for _, t := range c.implementers("Constrainer") {
		t := t
		n++
		for _, m := range jointMethods {
			m := m
			name := t.Obj().Name() + "." + m
			c.part(name, func() {
				r := c.jointRun(t, m)
				pos := r.s.Fn.Pos()
				z := And(bddTrue, r.facts)
				c.ob(isZero(TAdd(TMul(r.va.x, r.mb), TMul(r.vb.x, r.ma)), z) && isZero(TAdd(TMul(r.va.y, r.mb), TMul(r.vb.y, r.ma)), z),
					"linear impulses opposite", name, pos, "the velocity changes of the two bodies, (%s, %s) and (%s, %s), do not come from equal and opposite impulses", short(r.va.x), short(r.va.y), short(r.vb.x), short(r.vb.y))
				if hasField(r.joint.typ, "r1") && hasField(r.joint.typ, "r2") {
					r1, r2 := getV(r.s.Mem, r.joint, "r1"), getV(r.s.Mem, r.joint, "r2")
					c.ob(proveEq(TMul(r.wa, r.ma), TMul(r.ia, r1.cross(r.va)), z), "impulse at the anchor", name+" body a", pos, "the spin of the first body changes by %s: not by the moment of the impulse about its anchor", short(r.wa))
					c.ob(proveEq(TMul(r.wb, r.mb), TMul(r.ib, r2.cross(r.vb)), z), "impulse at the anchor", name+" body b", pos, "the spin of the second body changes by %s: not by the moment of the impulse about its anchor", short(r.wb))
					return
				}
				c.ob(isZero(r.va.x, z) && isZero(r.va.y, z) && isZero(r.vb.x, z) && isZero(r.vb.y, z), "rotary joint", name, pos, "a joint without anchors changes linear velocities")
				k := TNum(1)
				if hasField(r.joint.typ, "ratio") {
					k = get(r.s.Entry, r.joint, "ratio")
					z = And(z, Not(condEq0(k, false)))
					// the stored inverse ratio is the reciprocal (checked at construction)
					if hasField(r.joint.typ, "ratio_inv") {
						ri := get(r.s.Entry, r.joint, "ratio_inv")
						m := map[*Term]*Term{ri: TInv(k)}
						r.wa, r.wb = subst(r.wa, m), subst(r.wb, m)
					}
				}
				c.ob(isZero(TAdd(mul(r.wa, r.ib, k), TMul(r.wb, r.ia)), z), "angular impulses opposite", name, pos, "the spin changes of the two bodies, %s and %s, do not come from equal and opposite angular impulses", short(r.wa), short(r.wb))
			})
		}
		c.part(t.Obj().Name()+" anchors", func() { c.anchorsRule(t) })
	}
	if n < 10 {
		c.fail("coverage", "Constrainer", 0, "only %d constraint types found, at least 10 expected", n)
	}
	c.atLeast("linear impulses opposite", 30)
	c.atLeast("impulse at the anchor", 30)
	c.atLeast("angular impulses opposite", 15)
	c.atLeast("anchor position", 9)
	c.part("NewGearJoint", func() {
		s := c.sum("NewGearJoint", "joint", Config{NoEnter: true})
		// the constraint's class is the joint
		var owner *Term
		allEvents(s.Events, func(e *Event, _ []*LoopInfo) {
			if e.Kind == "store" && locClass(e.Loc) == "GearJoint.ratio_inv" {
				owner = ownerOfLoc(e.Loc, "GearJoint.ratio_inv")
			}
		})
		if owner == nil {
			return // no stored inverse ratio
		}
		c.ob(proveEq(TMul(get(s.Mem, owner, "ratio"), get(s.Mem, owner, "ratio_inv")), TNum(1), And(s.G, Not(condEq0(s.Params[3], false)))),
			"gear ratio", "NewGearJoint", s.Fn.Pos(), "the stored inverse ratio is not the reciprocal of the ratio")
	})
	for _, m := range []string{"Arbiter.ApplyImpulse", "Arbiter.ApplyCachedImpulse"} {
		m := m
		c.part(m, func() { c.contactMomentum(m) })
	}
	c.atLeast("contact impulses opposite", 2)
}

// anchorsRule: the lever arms are the anchors turned with the body, measured
// from the centre of gravity.
func (c *Ctx) anchorsRule(t *types.Named) {
	if !hasField(types.NewPointer(t), "r1") {
		return
	}
	r := c.jointRun(t, "PreStep")
	s := r.s
	name := t.Obj().Name() + ".PreStep"
	vect := func(b *Term, v V2) V2 {
		g := func(f string) *Term { return get(s.Entry, b, "transform."+f) }
		return V2{TAdd(TMul(g("a"), v.x), TMul(g("c"), v.y)), TAdd(TMul(g("b"), v.x), TMul(g("d"), v.y))}
	}
	for _, q := range []struct {
		b      *Term
		an, rr string
	}{{r.a, "AnchorA", "r1"}, {r.b, "AnchorB", "r2"}} {
		if !hasField(r.joint.typ, q.an) {
			continue
		}
		un := func(v V2) V2 { return V2{s.uncut(v.x), s.uncut(v.y)} }
		want := vect(q.b, getV(s.Entry, r.joint, q.an).sub(getV(s.Entry, q.b, "cog")))
		got := un(getV(s.Mem, r.joint, q.rr))
		c.ob(got.eq(want, r.facts), "anchor position", name+" "+q.an, s.Fn.Pos(), "the lever arm to %s is (%s, %s)", q.an, short(got.x), short(got.y))
	}
}

// contactLoops: loops whose body changes the velocity of a body.
func contactLoops(s *Summary) []*Event {
	var out []*Event
	for _, e := range s.Events {
		if e.Kind == "loop" && (changesIn(e.Loop, "Body.v") || changesIn(e.Loop, "Body.w") || changesIn(e.Loop, "Body.v_bias") || changesIn(e.Loop, "Body.w_bias")) {
			out = append(out, e)
		}
	}
	return out
}

type contactRun struct {
	e      *Event
	l      *LoopInfo
	arb    *Term
	a, b   *Term
	con    *Term
	facts  *BDD
	ma, mb *Term
	ia, ib *Term
}

// contactIter describes one iteration of a loop over an arbiter's contacts.
func (c *Ctx) contactIter(name string) *contactRun {
	s := c.sum(name, "contact", Config{NoEnter: true})
	ls := contactLoops(s)
	if len(ls) != 1 {
		c.fail("coverage", name, s.Fn.Pos(), "expected one loop over the contacts that changes velocities, found %d", len(ls))
		panic(abortCheck{})
	}
	l := ls[0].Loop
	r := &contactRun{e: ls[0], l: l, arb: s.Params[0]}
	r.a, r.b = get(l.Iter, r.arb, "body_a"), get(l.Iter, r.arb, "body_b")
	r.facts = And(l.Assume, l.BackG)
	r.ma, r.mb = get(l.Iter, r.a, "m_inv"), get(l.Iter, r.b, "m_inv")
	r.ia, r.ib = get(l.Iter, r.a, "i_inv"), get(l.Iter, r.b, "i_inv")
	// the contact visited: where the lever arms are read
	find := func(t *Term) {
		walkTerm(t, func(x *Term) {
			if x.op == OLoad && locClass(x.args[0]) == "Contact.r1" && r.con == nil {
				r.con = ownerOfLoc(x.args[0], "Contact.r1")
			}
		})
	}
	find(get(l.Back, r.a, "w"))
	if r.con == nil {
		c.fail("coverage", name, s.Fn.Pos(), "the spin change of the first body does not depend on a contact's lever arm: %s", short(get(l.Back, r.a, "w")))
		panic(abortCheck{})
	}
	return r
}

func (c *Ctx) contactMomentum(name string) {
	r := c.contactIter(name)
	l := r.l
	pos := r.e.Instr.Pos()
	r1, r2 := getV(l.Iter, r.con, "r1"), getV(l.Iter, r.con, "r2")
	for _, q := range []struct{ v, w, what string }{{"v", "w", "velocity"}, {"v_bias", "w_bias", "bias velocity"}} {
		d := func(b *Term, f string) *Term { return TSub(get(l.Back, b, f), get(l.Iter, b, f)) }
		va, vb := V2{d(r.a, q.v+".X"), d(r.a, q.v+".Y")}, V2{d(r.b, q.v+".X"), d(r.b, q.v+".Y")}
		wa, wb := d(r.a, q.w), d(r.b, q.w)
		z := r.facts
		ok := isZero(TAdd(TMul(va.x, r.mb), TMul(vb.x, r.ma)), z) && isZero(TAdd(TMul(va.y, r.mb), TMul(vb.y, r.ma)), z)
		c.ob(ok, "contact impulses opposite", name+" "+q.what, pos, "the %s changes of the two bodies do not come from equal and opposite impulses", q.what)
		c.ob(proveEq(TMul(wa, r.ma), TMul(r.ia, r1.cross(va)), z) && proveEq(TMul(wb, r.mb), TMul(r.ib, r2.cross(vb)), z),
			"contact impulse at the contact", name+" "+q.what, pos, "the spin changes of the two bodies are not the moment of the impulse about the contact point")
	}
}

func checkC12(c *Ctx) {
	zero := func(r ...*Term) map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, t := range r {
			m[t] = TNum(0)
		}
		return m
	}
	for _, t := range c.implementers("Constrainer") {
		t := t
		for _, m := range jointMethods {
			m := m
			name := t.Obj().Name() + "." + m
			c.part(name, func() {
				r := c.jointRun(t, m)
				for _, q := range []struct {
					who        string
					mi, ii     *Term
					vx, vy, wd *Term
				}{{"first", r.ma, r.ia, r.va.x, r.va.y, r.wa}, {"second", r.mb, r.ib, r.vb.x, r.vb.y, r.wb}} {
					z := zero(q.mi, q.ii)
					f := substB(r.facts, z)
					ok := isZero(subst(q.vx, z), f) && isZero(subst(q.vy, z), f) && isZero(subst(q.wd, z), f)
					c.ob(ok, "joint leaves immovable body", name+" "+q.who, r.s.Fn.Pos(), "the %s body, of infinite mass and moment, has its velocity changed", q.who)
				}
			})
		}
	}
	c.atLeast("joint leaves immovable body", 60)
	for _, m := range []string{"Arbiter.ApplyImpulse", "Arbiter.ApplyCachedImpulse"} {
		m := m
		c.part(m, func() {
			r := c.contactIter(m)
			for k, b := range []*Term{r.a, r.b} {
				z := zero(get(r.l.Iter, b, "m_inv"), get(r.l.Iter, b, "i_inv"))
				f := substB(r.facts, z)
				for _, q := range []string{"v.X", "v.Y", "w", "v_bias.X", "v_bias.Y", "w_bias"} {
					d := TSub(get(r.l.Back, b, q), get(r.l.Iter, b, q))
					c.ob(isZero(subst(d, z), f), "contact leaves immovable body", m+" "+[]string{"first ", "second "}[k]+q, r.e.Instr.Pos(), "a body of infinite mass has its %s changed by %s", q, short(d))
				}
			}
		})
	}
	c.atLeast("contact leaves immovable body", 24)
	// impulses given by the user
	for _, m := range []string{"Body.ApplyImpulseAtWorldPoint", "Body.ApplyImpulseAtLocalPoint"} {
		m := m
		c.part(m, func() {
			s := c.sum(m, "imp", trackCfg(c.p, "Body.v", "Body.w"))
			b := s.Params[0]
			z := zero(get(s.Entry, b, "m_inv"), get(s.Entry, b, "i_inv"))
			f := substB(And(s.G, s.Assume), z)
			for _, q := range []string{"v.X", "v.Y", "w"} {
				d := TSub(get(s.Mem, b, q), get(s.Entry, b, q))
				c.ob(isZero(subst(d, z), f), "impulse leaves immovable body", m+" "+q, s.Fn.Pos(), "a body of infinite mass has its %s changed by %s", q, short(d))
			}
		})
	}
	// the default integrator
	for _, m := range []string{"BodyUpdateVelocity", "Body.UpdateVelocity"} {
		m := m
		c.part(m, func() {
			s := c.sum(m, "integ", Config{NoEnter: true})
			b := s.Params[0]
			kin := constInt(c, "BODY_KINEMATIC")
			f := AndAll(s.G, s.Assume, CondEq(typeOfBody(c, s.Entry, b), TInt(kin)))
			for _, q := range []string{"v.X", "v.Y", "w", "p.X", "p.Y", "a"} {
				c.ob(proveEq(get(s.Mem, b, q), get(s.Entry, b, q), f), "integrator leaves kinematic body", m+" "+q, s.Fn.Pos(), "gravity, damping or forces change %s of a kinematic body", q)
			}
		})
	}
	c.atLeast("integrator leaves kinematic body", 12)
}

func isSpring(t *types.Named) bool {
	return hasField(types.NewPointer(t), "Damping")
}

func accOf(t *types.Named) string {
	for _, n := range []string{"jAcc", "jnAcc"} {
		if hasField(types.NewPointer(t), n) {
			return n
		}
	}
	return ""
}

func checkC13(c *Ctx) {
	for _, t := range c.implementers("Constrainer") {
		t := t
		if isSpring(t) {
			continue
		}
		tn := t.Obj().Name()
		acc := accOf(t)
		c.part(tn+".ApplyImpulse", func() {
			r := c.jointRun(t, "ApplyImpulse")
			lim := TMul(get(r.s.Entry, r.joint, "maxForce"), r.s.Params[1])
			facts := AndAll(r.facts, CondLe(TNum(0), get(r.s.Entry, r.joint, "maxForce"), false), CondLt(TNum(0), r.s.Params[1], false), CondLe(TNum(0), lim, false))
			old, now := get(r.s.Entry, r.joint, acc), get(r.s.Mem, r.joint, acc)
			if _, ok := old.typ.Underlying().(*types.Struct); ok {
				v := vec(now)
				ok := proveLE(v.dot(v), TMul(lim, lim), facts)
				c.ob(ok, "impulse bounded", tn, r.s.Fn.Pos(), "the accumulated impulse can exceed the force limit times the time step: (%s, %s)", short(v.x), short(v.y))
				return
			}
			// when the solver does nothing in this step the old value stays
			facts = And(facts, Not(condEq0(TSub(now, old), false)))
			if hasField(r.joint.typ, "Ratchet") {
				// both sides times the (non-zero) ratchet
				q := get(r.s.Entry, r.joint, "Ratchet")
				facts = AndAll(facts, Not(condEq0(q, false)), CondLe(TNum(0), TMul(lim, TAbs(q)), false))
				now, lim = TMul(now, q), TMul(lim, TAbs(q))
			}
			ok := proveLE(now, lim, facts) && proveLE(TNeg(lim), now, facts)
			c.ob(ok, "impulse bounded", tn, r.s.Fn.Pos(), "the accumulated impulse %s can exceed the force limit times the time step", short(now))
		})
		if hasField(types.NewPointer(t), "bias") {
			c.part(tn+".PreStep", func() {
				r := c.jointRun(t, "PreStep")
				lim := get(r.s.Entry, r.joint, "maxBias")
				facts := And(r.facts, CondLe(TNum(0), lim, false))
				b := r.s.uncutOnly(get(r.s.Mem, r.joint, "bias"), ".bias")
				if _, ok := b.typ.Underlying().(*types.Struct); ok {
					v := vec(b)
					c.ob(proveLE(v.dot(v), TMul(lim, lim), facts), "correction bounded", tn, r.s.Fn.Pos(), "the corrective velocity can exceed its limit: (%s, %s)", short(v.x), short(v.y))
					return
				}
				c.ob(proveLE(b, lim, facts) && proveLE(TNeg(lim), b, facts), "correction bounded", tn, r.s.Fn.Pos(), "the corrective velocity %s can exceed its limit", short(b))
			})
		}
	}
	c.oneSided()
	c.atLeast("impulse bounded", 8)
	c.atLeast("correction bounded", 7)
}

func (c *Ctx) named(name string) *types.Named {
	tn, ok := c.p.TPkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		c.fail("anchor", name, token.NoPos, "type %s not found", name)
		panic(abortCheck{})
	}
	return tn.Type().(*types.Named)
}

// lever is the separation of the anchors after the preparation.
func (r *jointRun) delta() V2 {
	m := r.s.Mem
	return getV(m, r.b, "p").add(getV(m, r.joint, "r2")).sub(getV(m, r.a, "p").add(getV(m, r.joint, "r1")))
}

// oneSided: joints with limits do nothing inside them and only push back.
func (c *Ctx) oneSided() {
	rule := "one-sided limit"
	side := func(name string, f func(r *jointRun, now *Term, chk func(cond *BDD, ok *Term, what string))) {
		c.part(name+" side", func() {
			t := c.named(name)
			r := c.jointRun(t, "ApplyImpulse")
			now := get(r.s.Mem, r.joint, accOf(t))
			old := get(r.s.Entry, r.joint, accOf(t))
			lim := TMul(get(r.s.Entry, r.joint, "maxForce"), r.s.Params[1])
			base := AndAll(r.facts, Not(condEq0(TSub(now, old), false)), CondLe(TNum(0), lim, false), CondLe(TNum(0), get(r.s.Entry, r.joint, "maxForce"), false), CondLt(TNum(0), r.s.Params[1], false))
			f(r, now, func(cond *BDD, nonneg *Term, what string) {
				c.ob(proveNonNeg(nonneg, And(base, cond), 0), rule, name+" "+what, r.s.Fn.Pos(), "the accumulated impulse %s can pull the wrong way", short(now))
			})
		})
	}
	side("SlideJoint", func(r *jointRun, now *Term, chk func(*BDD, *Term, string)) {
		chk(bddTrue, TNeg(now), "pushes back")
	})
	side("RotaryLimitJoint", func(r *jointRun, now *Term, chk func(*BDD, *Term, string)) {
		b := get(r.s.Entry, r.joint, "bias")
		chk(CondLt(b, TNum(0), false), now, "pushes back above")
		chk(CondLt(TNum(0), b, false), TNeg(now), "pushes back below")
	})
	side("RatchetJoint", func(r *jointRun, now *Term, chk func(*BDD, *Term, string)) {
		q := get(r.s.Entry, r.joint, "Ratchet")
		chk(Not(condEq0(q, false)), TMul(now, q), "pushes back")
	})
	idle := func(name string, free func(r *jointRun) *BDD, zero ...string) {
		c.part(name+" idle", func() {
			t := c.named(name)
			r := c.jointRun(t, "PreStep")
			f := And(r.facts, free(r))
			for _, z := range append([]string{accOf(t)}, zero...) {
				v := get(r.s.Mem, r.joint, z)
				v = r.s.uncutOnly(v, ".bias")
				c.ob(isZero(v, f), rule, name+" idle "+z, r.s.Fn.Pos(), "inside the limits %s is %s, not 0", z, short(v))
			}
		})
	}
	idle("SlideJoint", func(r *jointRun) *BDD {
		d := r.delta().len()
		return And(CondLe(get(r.s.Entry, r.joint, "Min"), d, false), CondLe(d, get(r.s.Entry, r.joint, "Max"), false))
	}, "n.X", "n.Y")
	idle("RotaryLimitJoint", func(r *jointRun) *BDD {
		d := TSub(get(r.s.Entry, r.b, "a"), get(r.s.Entry, r.a, "a"))
		m := get(r.s.Entry, r.joint, "maxBias")
		return AndAll(CondLe(get(r.s.Entry, r.joint, "Min"), d, false), CondLe(d, get(r.s.Entry, r.joint, "Max"), false), CondLe(TNum(0), m, false))
	}, "bias")
	for _, q := range []struct{ t, f string }{{"SlideJoint", "n"}, {"RotaryLimitJoint", "bias"}, {"RatchetJoint", "bias"}} {
		q := q
		c.part(q.t+" idle step", func() {
			r := c.jointRun(c.named(q.t), "ApplyImpulse")
			v := get(r.s.Entry, r.joint, q.f)
			z := bddTrue
			if _, ok := v.typ.Underlying().(*types.Struct); ok {
				z = And(condEq0(fld(v, "X"), false), condEq0(fld(v, "Y"), false))
			} else {
				z = condEq0(v, false)
			}
			f := And(r.facts, z)
			ok := true
			for _, d := range []*Term{r.va.x, r.va.y, r.vb.x, r.vb.y, r.wa, r.wb} {
				ok = ok && isZero(d, f)
			}
			c.ob(ok, rule, q.t+" idle step", r.s.Fn.Pos(), "a joint inside its limits changes velocities")
		})
	}
	c.atLeast(rule, 12)
}

func checkC14(c *Ctx) {
	c.contactPrep()
	name := "Arbiter.ApplyImpulse"
	c.part(name, func() {
		r := c.contactIter(name)
		l := r.l
		g := func(f string) *Term { return get(l.Back, r.con, f) }
		pos := r.e.Instr.Pos()
		facts := And(r.facts, CondLe(TNum(0), get(l.Iter, r.arb, "u"), false))
		c.ob(proveLE(TNum(0), g("jnAcc"), facts), "no pull", name, pos, "the accumulated normal impulse %s can be negative", short(g("jnAcc")))
		c.ob(proveLE(TNum(0), g("jBias"), facts), "no pull", name+" position correction", pos, "the accumulated position correction %s can be negative", short(g("jBias")))
		lim := TMul(get(l.Iter, r.arb, "u"), g("jnAcc"))
		f2 := And(facts, CondLe(TNum(0), lim, false))
		c.ob(proveLE(g("jtAcc"), lim, f2) && proveLE(TNeg(lim), g("jtAcc"), f2), "friction cone", name, pos, "the friction impulse %s can exceed friction times the normal impulse", short(g("jtAcc")))
		// applied = change of the accumulated impulse, along normal and tangent
		n := getV(l.Iter, r.arb, "n")
		d := func(f string) *Term { return TSub(get(l.Back, r.con, f), get(l.Iter, r.con, f)) }
		dv := V2{TSub(get(l.Back, r.b, "v.X"), get(l.Iter, r.b, "v.X")), TSub(get(l.Back, r.b, "v.Y"), get(l.Iter, r.b, "v.Y"))}
		want := n.mul(d("jnAcc")).add(n.perp().mul(d("jtAcc"))).mul(r.mb)
		c.ob(dv.eq(want, r.facts), "applied impulse", name, pos, "the velocity change of the second body is not the change of the accumulated impulse")
		dbv := V2{TSub(get(l.Back, r.b, "v_bias.X"), get(l.Iter, r.b, "v_bias.X")), TSub(get(l.Back, r.b, "v_bias.Y"), get(l.Iter, r.b, "v_bias.Y"))}
		c.ob(dbv.eq(n.mul(d("jBias")).mul(r.mb), r.facts), "applied impulse", name+" position correction", pos, "the bias velocity change of the second body is not the change of the accumulated correction")
	})
	c.part("Arbiter.ApplyCachedImpulse", func() {
		r := c.contactIter("Arbiter.ApplyCachedImpulse")
		l := r.l
		s := c.sum("Arbiter.ApplyCachedImpulse", "contact", Config{})
		n := getV(l.Iter, r.arb, "n")
		dv := V2{TSub(get(l.Back, r.b, "v.X"), get(l.Iter, r.b, "v.X")), TSub(get(l.Back, r.b, "v.Y"), get(l.Iter, r.b, "v.Y"))}
		want := n.mul(get(l.Iter, r.con, "jnAcc")).add(n.perp().mul(get(l.Iter, r.con, "jtAcc"))).mul(TMul(r.mb, s.Params[1]))
		c.ob(dv.eq(want, r.facts), "warm start", "Arbiter.ApplyCachedImpulse", r.e.Instr.Pos(), "the velocity change of the second body is not the cached impulse scaled by the argument")
		// nothing on the first contact
		first := c.callIn("Arbiter.IsFirstContact", s.Entry, s.Params[0])
		c.ob(implies(r.e.Guard, Not(toBDD(first))), "warm start", "first contact", r.e.Instr.Pos(), "cached impulses are applied on the first contact")
	})
}

var _ = (*ssa.Function)(nil)
