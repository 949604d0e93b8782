package main

import (
	"fmt"
	"go/types"
	"strings"
)

// What every joint aims at: the error it sees, the velocity it corrects it
// with, the mass it works against, and the impulse of one solver pass.

type law struct {
	c    *Ctx
	name string
	t    *types.Named
	pre  *jointRun
	app  *jointRun
	// which of its bounds comes first where the corrective velocity and the
	// impulse are limited
	aimLow, lowFirst bool
}

func checkC42(c *Ctx) {
	run := func(name string, f func(l *law)) {
		c.part(name+" law", func() {
			t := c.named(name)
			pre, app := c.lawRun(t, "PreStep"), c.lawRun(t, "ApplyImpulse")
			var ways []func()
			for _, low := range [][2]bool{{}, {true, false}, {false, true}, {true, true}} {
				l := &law{c: c, name: name, t: t, pre: pre, app: app, aimLow: low[0], lowFirst: low[1]}
				ways = append(ways, func() {
					f(l)
					if !isSpring(t) {
						l.keeps()
					}
				})
			}
			c.oneOf(ways...)
		})
	}
	run("PinJoint", func(l *law) {
		d := l.pre.delta()
		dist := d.len()
		l.axis(d, dist, bddTrue, false)
		l.biasIs(TSub(dist, l.in("Dist")), bddTrue)
		l.massAlong("nMass")
		l.linear(TNeg(l.limit()), l.limit(), bddTrue)
	})
	run("SlideJoint", func(l *law) {
		d := l.pre.delta()
		dist := d.len()
		far := CondLt(l.in("Max"), dist, false)
		near := And(Not(far), CondLt(dist, l.in("Min"), false))
		l.axis(d, dist, far, false)
		l.axis(d.neg(), dist, near, false)
		l.biasIs(TSub(dist, l.in("Max")), far)
		l.biasIs(TSub(l.in("Min"), dist), near)
		l.massAlong("nMass")
		n := getV(l.app.s.Entry, l.app.joint, "n")
		off := And(condEq0(n.x, false), condEq0(n.y, false))
		l.linear(TNeg(l.limit()), TNum(0), Not(off))
	})
	run("PivotJoint", func(l *law) {
		l.biasV()
		l.tensor()
		l.plane(func(j V2) V2 { return j })
	})
	run("GrooveJoint", (*law).groove)
	run("RotaryLimitJoint", func(l *law) {
		d := TSub(get(l.pre.s.Entry, l.pre.b, "a"), get(l.pre.s.Entry, l.pre.a, "a"))
		far := CondLt(l.in("Max"), d, false)
		near := And(Not(far), CondLt(d, l.in("Min"), false))
		l.biasIs(TSub(l.in("Max"), d), far)
		l.biasIs(TSub(l.in("Min"), d), near)
		l.turnMass(TNum(1))
		e, j := l.app.s.Entry, l.app.joint
		bias := get(e, j, "bias")
		wr := l.turning(TNum(1))
		acc := get(e, j, "jAcc")
		free := TSub(acc, TMul(TAdd(bias, wr), get(e, j, "iSum")))
		above := CondLt(bias, TNum(0), false)
		want, lemma := l.clamped(free, TNum(0), l.limit())
		l.turns(want, lemma, TNum(1), above)
		want, lemma = l.clamped(free, TNeg(l.limit()), TNum(0))
		l.turns(want, lemma, TNum(1), CondLt(TNum(0), bias, false))
	})
	run("RatchetJoint", (*law).ratchet)
	run("GearJoint", func(l *law) {
		ratio := l.in("ratio")
		ri := get(l.pre.s.Entry, l.pre.joint, "ratio_inv")
		d := TSub(TMul(get(l.pre.s.Entry, l.pre.b, "a"), ratio), get(l.pre.s.Entry, l.pre.a, "a"))
		l.biasIs(TSub(d, l.in("phase")), bddTrue)
		e, j := l.app.s.Entry, l.app.joint
		l.turnMass2(TAdd(TMul(get(l.pre.s.Entry, l.pre.a, "i_inv"), ri), TMul(get(l.pre.s.Entry, l.pre.b, "i_inv"), ratio)))
		wr := TSub(TMul(get(e, l.app.b, "w"), get(e, j, "ratio")), get(e, l.app.a, "w"))
		free := TAdd(get(e, j, "jAcc"), TMul(TSub(get(e, j, "bias"), wr), get(e, j, "iSum")))
		want, lemma := l.clamped(free, TNeg(l.limit()), l.limit())
		l.turns(want, lemma, get(e, j, "ratio_inv"), bddTrue)
	})
	run("SimpleMotor", func(l *law) {
		l.turnMass(TNum(1))
		e, j := l.app.s.Entry, l.app.joint
		free := TSub(get(e, j, "jAcc"), TMul(TAdd(l.turning(TNum(1)), get(e, j, "Rate")), get(e, j, "iSum")))
		want, lemma := l.clamped(free, TNeg(l.limit()), l.limit())
		l.turns(want, lemma, TNum(1), bddTrue)
	})
	run("DampedSpring", (*law).spring)
	run("DampedRotarySpring", (*law).rotarySpring)
	for _, t := range c.implementers("Constrainer") {
		t := t
		c.part(t.Obj().Name()+" again", func() { c.warmStart(t) })
	}
	c.part("made", c.jointsMade)
	c.atLeast("joint aims at", 9)
	c.atLeast("joint mass", 9)
	c.atLeast("joint impulse", 18)
	c.atLeast("joint made", 25)
}

// keeps: what a joint has pushed so far is kept from one step to the next,
// unless it has nothing to do.
func (l *law) keeps() {
	r, acc := l.pre, accOf(l.t)
	idle := bddFalse
	if hasField(types.NewPointer(l.t), "bias") && isFloat(get(r.s.Mem, r.joint, "bias").typ) {
		idle = CondEq(get(r.s.Mem, r.joint, "bias"), TNum(0))
	}
	if l.name == "SlideJoint" {
		dist := r.delta().len()
		idle = And(CondLe(l.in("Min"), dist, false), CondLe(dist, l.in("Max"), false))
	}
	now, old := fieldLeaves(get(r.s.Mem, r.joint, acc)), fieldLeaves(get(r.s.Entry, r.joint, acc))
	rest := l.name == "SlideJoint" || l.name == "RotaryLimitJoint" || l.name == "RatchetJoint"
	for i := range now {
		if rest {
			l.c.ob(isZero(now[i], And(l.facts(), idle)), "joint impulse", l.name+" at rest", r.s.Fn.Pos(), "what it has pushed becomes %s although it has nothing to do", short(now[i]))
		}
		l.c.ob(proveEq(now[i], old[i], And(l.facts(), Not(idle))), "joint impulse", fmt.Sprintf("%s kept %d", l.name, i), r.s.Fn.Pos(), "what it has pushed becomes %s before the next step", short(now[i]))
	}
}

func (c *Ctx) lawRun(t *types.Named, method string) *jointRun {
	return c.jointRunOf(t, method, "law", Config{NoEnter: true, KeepOnUser: func(string) bool { return true }, Cut: jointCut})
}

func (l *law) in(f string) *Term { return get(l.pre.s.Entry, l.pre.joint, f) }

// limit is the most a joint may push in a step.
func (l *law) limit() *Term {
	return TMul(get(l.app.s.Entry, l.app.joint, "maxForce"), l.app.s.Params[1])
}

func (l *law) dt() *Term { return l.pre.s.Params[1] }

// coef is the share of the error corrected per time.
func (l *law) coef() *Term {
	p := TApp("pow", tyFloat, l.in("errorBias"), l.dt())
	return TDiv(TSub(TNum(1), p), l.dt())
}

// after is what PreStep stores to a field, with its own definition put back.
func (l *law) after(f string) *Term {
	return l.pre.s.uncutOnly(get(l.pre.s.Mem, l.pre.joint, f), "."+f)
}

func (l *law) afterV(f string) V2 {
	v := getV(l.pre.s.Mem, l.pre.joint, f)
	return V2{l.pre.s.uncutOnly(v.x, "."+f+"."), l.pre.s.uncutOnly(v.y, "."+f+".")}
}

func (l *law) facts() *BDD {
	return AndAll(l.pre.facts, CondLt(TNum(0), l.dt(), false), CondLe(TNum(0), l.in("maxBias"), false))
}

// biasIs: the corrective velocity is the share of the error, within the limit.
func (l *law) biasIs(err *Term, when *BDD) {
	want, lemma := l.within(l.aimLow, TNeg(TMul(l.coef(), err)), TNeg(l.in("maxBias")), l.in("maxBias"))
	got := l.after("bias")
	l.c.ob(proveEq(got, want, AndAll(l.facts(), when, lemma)), "joint aims at", l.name, l.pre.s.Fn.Pos(), "the corrective velocity is %s", short(got))
}

func (l *law) biasV() {
	k := l.coef()
	d := l.pre.delta()
	e := V2{TNeg(TMul(d.x, k)), TNeg(TMul(d.y, k))}
	want := vec(l.c.apply("Vector.Clamp", l.c.mkVec(e), l.in("maxBias")))
	got := l.afterV("bias")
	l.c.ob(got.eq(want, l.facts()), "joint aims at", l.name, l.pre.s.Fn.Pos(), "the corrective velocity is (%s, %s)", short(got.x), short(got.y))
}

// axis: the joint works along the unit vector of d, along nothing if d is zero.
func (l *law) axis(d V2, dist *Term, when *BDD, rounds bool) {
	f := AndAll(l.facts(), when)
	n := l.afterV("n")
	far := And(f, Not(CondEq(dist, TNum(0))))
	l.c.ob(l.c.unitOf(n, d, far), "joint aims at", l.name+" axis", l.pre.s.Fn.Pos(), "it works along (%s, %s)", short(n.x), short(n.y))
	zero := And(f, CondEq(dist, TNum(0)))
	if sat(zero) {
		ok := true
		for _, x := range []*Term{n.x, n.y} {
			leaves(x, bddTrue, func(g *BDD, v *Term) {
				if never(And(zero, g)) {
					return
				}
				for _, m := range toPoly(v).ts {
					for _, q := range m.m {
						if q.e < 0 && (q.a == dist || proveEq(q.a, dist, zero)) {
							ok = false
						}
					}
				}
			})
		}
		l.c.ob(ok, "joint aims at", l.name+" no axis", l.pre.s.Fn.Pos(), "anchors in the same place are divided by their distance")
	}
}

// massAlong: the mass along the axis, as it comes out of the two bodies.
func (l *law) massAlong(field string) {
	K := l.along()
	m := l.after(field)
	f := And(l.facts(), nonzero(K))
	l.c.ob(proveEq(TMul(m, K), TNum(1), f), "joint mass", l.name, l.pre.s.Fn.Pos(), "the mass along the axis is %s", short(m))
}

func (l *law) along() *Term {
	r := l.pre
	m := r.s.Mem
	n := getV(m, r.joint, "n")
	c1, c2 := getV(m, r.joint, "r1").cross(n), getV(m, r.joint, "r2").cross(n)
	return TAdd(TAdd(TMul(TAdd(r.ma, r.mb), TNum(1)), TNum(0)), TAdd(mul(r.ia, c1, c1), mul(r.ib, c2, c2)))
}

func (l *law) turnMass(k *Term) {
	l.turnMass2(TAdd(l.pre.ia, TMul(l.pre.ib, k)))
}

func (l *law) turnMass2(K *Term) {
	m := l.after("iSum")
	l.c.ob(proveEq(TMul(m, K), TNum(1), And(l.facts(), nonzero(K))), "joint mass", l.name, l.pre.s.Fn.Pos(), "the moment it works against is %s", short(m))
}

// relative velocity of the anchors before a solver pass.
func (r *jointRun) anchorsVel(m *Mem, r1, r2 V2) V2 {
	at := func(b *Term, q V2) V2 {
		v, w := getV(m, b, "v"), get(m, b, "w")
		return v.add(q.perp().mul(w))
	}
	return at(r.b, r2).sub(at(r.a, r1))
}

func (l *law) turning(k *Term) *Term {
	e := l.app.s.Entry
	return TSub(TMul(get(e, l.app.b, "w"), k), get(e, l.app.a, "w"))
}

// gets: the second body receives the impulse j (the first the opposite, C11).
func (l *law) gets(r *jointRun, name string, j V2, f *BDD) {
	ok := proveEq(r.vb.x, TMul(j.x, r.mb), f) && proveEq(r.vb.y, TMul(j.y, r.mb), f)
	ok = ok && proveEq(r.va.x, TNeg(TMul(j.x, r.ma)), f) && proveEq(r.va.y, TNeg(TMul(j.y, r.ma)), f)
	l.c.ob(ok, "joint impulse", l.name+" "+name, r.s.Fn.Pos(), "the bodies do not receive the impulse (%s)", name)
}

// linear: a pass along the axis.
func (l *law) linear(lo, hi *Term, when *BDD) {
	r := l.app
	e, j := r.s.Entry, r.joint
	f := AndAll(r.facts, when, CondLe(TNum(0), l.limit(), false))
	n := getV(e, j, "n")
	vr := r.anchorsVel(e, getV(e, j, "r1"), getV(e, j, "r2")).dot(n)
	acc := accOf(l.t)
	old, now := get(e, j, acc), get(r.s.Mem, j, acc)
	want, lemma := l.clamped(TAdd(old, TMul(TSub(get(e, j, "bias"), vr), get(e, j, "nMass"))), lo, hi)
	f = And(f, lemma)
	l.c.ob(proveEq(now, want, f), "joint impulse", l.name+" sum", r.s.Fn.Pos(), "the impulse becomes %s", short(now))
	l.gets(r, "pass", n.mul(TSub(want, old)), f)
}

// plane: a pass in both directions.
func (l *law) plane(keep func(j V2) V2) {
	r := l.app
	e, j := r.s.Entry, r.joint
	f := And(r.facts, CondLe(TNum(0), l.limit(), false))
	vr := r.anchorsVel(e, getV(e, j, "r1"), getV(e, j, "r2"))
	d := getV(e, j, "bias").sub(vr)
	k := func(q string) *Term { return get(e, j, "k."+q) }
	old := getV(e, j, "jAcc")
	free := old.add(V2{TAdd(TMul(k("a"), d.x), TMul(k("b"), d.y)), TAdd(TMul(k("c"), d.x), TMul(k("d"), d.y))})
	want := vec(l.c.apply("Vector.Clamp", l.c.mkVec(keep(free)), l.limit()))
	now := getV(r.s.Mem, j, "jAcc")
	now = V2{r.s.uncut(now.x), r.s.uncut(now.y)}
	l.c.ob(now.eq(want, f), "joint impulse", l.name+" sum", r.s.Fn.Pos(), "the impulse becomes (%s, %s)", short(now.x), short(now.y))
	l.gets(r, "pass", now.sub(old), f)
}

// tensor: the matrix kept is the inverse of how the anchors give way.
func (l *law) tensor() {
	r := l.pre
	m := r.s.Mem
	r1, r2 := getV(m, r.joint, "r1"), getV(m, r.joint, "r2")
	M := TAdd(r.ma, r.mb)
	k11 := TAdd(M, TAdd(mul(r.ia, r1.y, r1.y), mul(r.ib, r2.y, r2.y)))
	k22 := TAdd(M, TAdd(mul(r.ia, r1.x, r1.x), mul(r.ib, r2.x, r2.x)))
	k12 := TNeg(TAdd(mul(r.ia, r1.x, r1.y), mul(r.ib, r2.x, r2.y)))
	det := TSub(TMul(k11, k22), TMul(k12, k12))
	f := And(l.facts(), nonzero(det))
	k := func(q string) *Term { return r.s.uncutOnly(get(m, r.joint, "k."+q), ".k.") }
	a, b, cc, d := k("a"), k("b"), k("c"), k("d")
	ok := proveEq(TMul(a, det), k22, f) && proveEq(TMul(d, det), k11, f) && proveEq(TMul(b, det), TNeg(k12), f) && proveEq(TMul(cc, det), TNeg(k12), f)
	l.c.ob(ok, "joint mass", l.name, r.s.Fn.Pos(), "the matrix kept is not the inverse of the mass matrix of the anchors")
}

// clamped: what is free kept between lo and hi (lo <= hi), and the lemma that
// nothing is outside both.
func (l *law) clamped(free, lo, hi *Term) (*Term, *BDD) {
	return l.within(l.lowFirst, free, lo, hi)
}

func (l *law) within(low bool, free, lo, hi *Term) (*Term, *BDD) {
	if low {
		m := TSub(free, TPos(TSub(free, hi)))
		return TAdd(lo, TPos(TSub(m, lo))), Or(CondLe(lo, free, false), CondLe(free, hi, false))
	}
	return l.c.apply("Clamp", free, lo, hi), Or(CondLe(lo, free, false), CondLe(free, hi, false))
}

// turns: a pass of a joint that only turns bodies; k scales what the first receives.
func (l *law) turns(want *Term, lemma *BDD, k *Term, when *BDD) {
	r := l.app
	e, j := r.s.Entry, r.joint
	f := AndAll(r.facts, when, lemma, CondLe(TNum(0), l.limit(), false))
	old, now := get(e, j, "jAcc"), get(r.s.Mem, j, "jAcc")
	l.c.ob(proveEq(now, want, f), "joint impulse", l.name+" sum", r.s.Fn.Pos(), "the impulse becomes %s", short(now))
	d := TSub(want, old)
	l.c.ob(proveEq(r.wb, TMul(d, r.ib), f) && proveEq(r.wa, TNeg(mul(d, r.ia, k)), f), "joint impulse", l.name+" pass", r.s.Fn.Pos(), "the spins change by %s and %s", short(r.wa), short(r.wb))
}

func (l *law) ratchet() {
	c := l.c
	angle, phase, ratchet := l.in("Angle"), l.in("Phase"), l.in("Ratchet")
	d := TSub(get(l.pre.s.Entry, l.pre.b, "a"), get(l.pre.s.Entry, l.pre.a, "a"))
	diff := TSub(angle, d)
	back := CondLt(TNum(0), TMul(diff, ratchet), false)
	l.biasIs(diff, back)
	l.biasIs(TNum(0), Not(back))
	now := l.after("Angle")
	f := And(l.facts(), nonzero(ratchet))
	step := TAdd(TMul(TApp("floor", tyFloat, TDiv(TSub(d, phase), ratchet)), ratchet), phase)
	c.ob(proveEq(now, angle, And(f, back)) && proveEq(now, step, And(f, Not(back))), "joint aims at", l.name+" click", l.pre.s.Fn.Pos(), "the angle it holds becomes %s", short(now))
	l.turnMass(TNum(1))
	e, j := l.app.s.Entry, l.app.joint
	q := get(e, j, "Ratchet")
	bias := get(e, j, "bias")
	free := TSub(get(e, j, "jAcc"), TMul(TAdd(bias, l.turning(TNum(1))), get(e, j, "iSum")))
	lim := TMul(l.limit(), TAbs(q))
	want, lemma := l.clamped(TMul(free, q), TNum(0), lim)
	l.turns(TDiv(want, q), lemma, TNum(1), And(Not(CondEq(bias, TNum(0))), nonzero(q)))
}

func (l *law) groove() {
	c, r := l.c, l.pre
	s := r.s
	e := s.Entry
	pos := s.Fn.Pos()
	pt := func(b *Term, v V2) V2 {
		g := func(f string) *Term { return get(e, b, "transform."+f) }
		return V2{TAdd(TAdd(TMul(g("a"), v.x), TMul(g("c"), v.y)), g("tx")), TAdd(TAdd(TMul(g("b"), v.x), TMul(g("d"), v.y)), g("ty"))}
	}
	vc := func(b *Term, v V2) V2 {
		g := func(f string) *Term { return get(e, b, "transform."+f) }
		return V2{TAdd(TMul(g("a"), v.x), TMul(g("c"), v.y)), TAdd(TMul(g("b"), v.x), TMul(g("d"), v.y))}
	}
	ta, tb := pt(r.a, getV(e, r.joint, "GrooveA")), pt(r.a, getV(e, r.joint, "GrooveB"))
	// the normal is named once it is stored
	full := func(v V2) V2 { return V2{s.uncut(v.x), s.uncut(v.y)} }
	nn := full(getV(s.Mem, r.joint, "grooveTn"))
	want := vc(r.a, getV(e, r.joint, "GrooveN"))
	f := l.facts()
	c.ob(nn.eq(want, f), "joint aims at", l.name+" normal", pos, "the normal of the groove is (%s, %s)", short(nn.x), short(nn.y))
	un := func(t *Term) *Term { return s.uncut(t) }
	r2 := full(getV(s.Mem, r.joint, "r2"))
	at := getV(e, r.b, "p").add(r2)
	n := want
	td := at.cross(n)
	low := Not(CondLt(ta.cross(n), td, false))
	high := And(Not(low), Not(CondLt(td, tb.cross(n), false)))
	mid := And(Not(low), Not(high))
	ap := getV(e, r.a, "p")
	m := map[*Term]*Term{}
	for x, v := range s.Ev.cuts {
		if strings.Contains(x.name, ".grooveTn.") || strings.Contains(x.name, ".r2.") {
			m[x] = un(v)
		}
	}
	r1raw := getV(s.Mem, r.joint, "r1")
	r1 := V2{subst(s.uncutOnly(r1raw.x, ".r1."), m), subst(s.uncutOnly(r1raw.y, ".r1."), m)}
	cl := get(s.Mem, r.joint, "clamp")
	cl = subst(s.uncut(cl), m)
	for _, q := range []struct {
		name string
		when *BDD
		at   V2
		cl   int64
	}{{"at one end", low, ta.sub(ap), 1}, {"at the other end", high, tb.sub(ap), -1}, {"in the groove", mid, n.perp().mul(TNeg(td)).add(n.mul(ta.dot(n))).sub(ap), 0}} {
		g := And(f, q.when)
		c.ob(r1.eq(q.at, g) && proveEq(cl, TNum(q.cl), g), "joint aims at", l.name+" "+q.name, pos, "%s the body is held at (%s, %s), towards %s", q.name, short(r1.x), short(r1.y), short(cl))
	}
	l.biasV()
	l.tensor()
	ae, aj := l.app.s.Entry, l.app.joint
	gn := getV(ae, aj, "grooveTn")
	held := func(j V2) *BDD { return CondLt(TNum(0), TMul(get(ae, aj, "clamp"), j.cross(gn)), false) }
	l.plane(func(j V2) V2 {
		p := vec(c.apply("Vector.Project", c.mkVec(j), c.mkVec(gn)))
		h := held(j)
		return V2{TIte(h, j.x, p.x), TIte(h, j.y, p.y)}
	})
}

func (l *law) springPass(vrn *Term, target, coef, mass string, sign int64, hit func(r *jointRun, j *Term, f *BDD)) {
	c, r := l.c, l.app
	e, j := r.s.Entry, r.joint
	f := r.facts
	v := TMul(TSub(get(e, j, target), vrn), get(e, j, coef))
	now := get(r.s.Mem, j, target)
	c.ob(proveEq(now, TAdd(vrn, v), f), "joint impulse", l.name+" target", r.s.Fn.Pos(), "the speed it damps towards becomes %s", short(now))
	imp := TMul(v, get(e, j, mass))
	acc := get(r.s.Mem, j, "jAcc")
	c.ob(proveEq(acc, TAdd(get(e, j, "jAcc"), TScale(imp, sign, 1)), f), "joint impulse", l.name+" sum", r.s.Fn.Pos(), "the impulse becomes %s", short(acc))
	hit(r, imp, f)
}

// springForce: the force comes from the spring's own function, called once.
func (l *law) springForce(field string, arg *Term) *Term {
	var j *Term
	n := 0
	for _, e := range l.pre.s.Events {
		if e.Kind != "user" && e.Kind != "invoke" {
			continue
		}
		n++
		ok := e.Callee != nil && proveEq(e.Callee, l.in(field), l.facts()) && implies(l.facts(), e.Guard) && len(e.Args) == 2 && proveEq(e.Args[0], l.pre.joint, l.facts()) && proveEq(e.Args[1], arg, l.facts())
		l.c.ob(ok, "joint aims at", l.name+" force", e.Instr.Pos(), "the function of the spring is not asked for its force")
		j = e.Result
	}
	if !l.c.ob(n == 1, "joint aims at", l.name+" forces", l.pre.s.Fn.Pos(), "the function of the spring is called %d times", n) {
		panic(abortCheck{})
	}
	return TMul(j, l.dt())
}

func (l *law) spring() {
	c, r := l.c, l.pre
	d := r.delta()
	dist := d.len()
	l.axis(d, dist, bddTrue, false)
	l.massAlong("nMass")
	l.damped("vCoef", l.along(), "targetVrn")
	f := l.facts()
	j := l.springForce("SpringForceFunc", dist)
	acc := get(r.s.Mem, r.joint, "jAcc")
	c.ob(proveEq(acc, j, f), "joint impulse", l.name+" spring", r.s.Fn.Pos(), "the impulse of the spring is %s", short(acc))
	n := getV(r.s.Mem, r.joint, "n")
	l.gets(r, "spring", n.mul(j), f)
	e := l.app.s.Entry
	an := getV(e, l.app.joint, "n")
	vrn := l.app.anchorsVel(e, getV(e, l.app.joint, "r1"), getV(e, l.app.joint, "r2")).dot(an)
	l.springPass(vrn, "targetVrn", "vCoef", "nMass", 1, func(r *jointRun, j *Term, f *BDD) { l.gets(r, "damping", an.mul(j), f) })
	s := c.sum("DefaultSpringForce", "law", Config{NoEnter: true})
	g := func(p string) *Term { return get(s.Entry, s.Params[0], p) }
	c.ob(proveEq(s.Ret, TMul(TSub(g("RestLength"), s.Params[1]), g("Stiffness")), s.G), "joint aims at", l.name+" default force", s.Fn.Pos(), "the force of a spring is %s", short(s.Ret))
}

// damped: the share of the speed lost, and the speed aimed at, at the start of a step.
func (l *law) damped(coef string, K *Term, target string) {
	c, r := l.c, l.pre
	f := l.facts()
	want := TSub(TNum(1), TApp("exp", tyFloat, TNeg(mul(l.in("Damping"), l.dt(), K))))
	got := l.after(coef)
	c.ob(proveEq(got, want, f), "joint aims at", l.name+" damping", r.s.Fn.Pos(), "the share of the speed it takes is %s", short(got))
	c.ob(isZero(get(r.s.Mem, r.joint, target), f), "joint aims at", l.name+" rest", r.s.Fn.Pos(), "a step does not start damping towards rest")
}

func (l *law) rotarySpring() {
	c, r := l.c, l.pre
	l.turnMass(TNum(1))
	l.damped("wCoef", TAdd(r.ia, r.ib), "targetWrn")
	f := l.facts()
	e := r.s.Entry
	j := l.springForce("SpringTorqueFunc", TSub(get(e, r.a, "a"), get(e, r.b, "a")))
	acc := get(r.s.Mem, r.joint, "jAcc")
	c.ob(proveEq(acc, j, f), "joint impulse", l.name+" spring", r.s.Fn.Pos(), "the impulse of the spring is %s", short(acc))
	c.ob(proveEq(r.wa, TNeg(TMul(j, r.ia)), f) && proveEq(r.wb, TMul(j, r.ib), f), "joint impulse", l.name+" torque", r.s.Fn.Pos(), "the spins change by %s and %s", short(r.wa), short(r.wb))
	ae := l.app.s.Entry
	wrn := TSub(get(ae, l.app.a, "w"), get(ae, l.app.b, "w"))
	l.springPass(wrn, "targetWrn", "wCoef", "iSum", -1, func(r *jointRun, j *Term, f *BDD) {
		c.ob(proveEq(r.wa, TMul(j, r.ia), f) && proveEq(r.wb, TNeg(TMul(j, r.ib)), f), "joint impulse", l.name+" damping", r.s.Fn.Pos(), "the spins change by %s and %s", short(r.wa), short(r.wb))
	})
}

// warmStart: the impulse of the step before is applied again, scaled; springs
// have none; and the impulse reported is the size of the one applied.
func (c *Ctx) warmStart(t *types.Named) {
	name := t.Obj().Name()
	r := c.lawRun(t, "ApplyCachedImpulse")
	e, j := r.s.Entry, r.joint
	acc := get(e, j, accOf(t))
	k := r.s.Params[1]
	f := r.facts
	pos := r.s.Fn.Pos()
	switch {
	case isSpring(t):
		ok := true
		for _, d := range []*Term{r.va.x, r.va.y, r.vb.x, r.vb.y, r.wa, r.wb} {
			ok = ok && isZero(d, f)
		}
		c.ob(ok, "joint impulse", name+" again", pos, "a spring applies the impulse of the step before")
	case hasField(types.NewPointer(t), "r1"):
		v := V2{}
		if _, ok := acc.typ.Underlying().(*types.Struct); ok {
			v = vec(acc).mul(k)
		} else {
			v = getV(e, j, "n").mul(TMul(acc, k))
		}
		c.ob(proveEq(r.vb.x, TMul(v.x, r.mb), f) && proveEq(r.vb.y, TMul(v.y, r.mb), f), "joint impulse", name+" again", pos, "what is applied again is not the impulse of the step before")
	default:
		c.ob(proveEq(r.wb, mul(acc, k, r.ib), f), "joint impulse", name+" again", pos, "what is applied again is not the impulse of the step before")
	}
	s := c.sumFn(c.method(t, "GetImpulse"), "law", Config{NoEnter: true})
	a := get(s.Entry, s.Params[0], accOf(t))
	if _, ok := a.typ.Underlying().(*types.Struct); ok {
		c.ob(proveEq(s.Ret, vec(a).len(), s.G), "joint impulse", name+" reported", s.Fn.Pos(), "the impulse reported is %s", short(s.Ret))
	} else {
		c.ob(proveEq(s.Ret, TAbs(a), s.G) || isSpring(t) && proveEq(s.Ret, a, s.G), "joint impulse", name+" reported", s.Fn.Pos(), "the impulse reported is %s", short(s.Ret))
	}
}

// jointsMade: a constructor puts what it is given where it belongs.
func (c *Ctx) jointsMade() {
	for _, q := range []struct {
		fn     string
		fields []string // per parameter after the bodies, "" if derived
	}{
		{"NewPinJoint", []string{"AnchorA", "AnchorB"}},
		{"NewSlideJoint", []string{"AnchorA", "AnchorB", "Min", "Max"}},
		{"NewPivotJoint2", []string{"AnchorA", "AnchorB"}},
		{"NewPivotJoint", []string{""}},
		{"NewGrooveJoint", []string{"GrooveA", "GrooveB", "AnchorB"}},
		{"NewDampedSpring", []string{"AnchorA", "AnchorB", "RestLength", "Stiffness", "Damping"}},
		{"NewDampedRotarySpring", []string{"RestAngle", "Stiffness", "Damping"}},
		{"NewRotaryLimitJoint", []string{"Min", "Max"}},
		{"NewRatchetJoint", []string{"Phase", "Ratchet"}},
		{"NewGearJoint", []string{"phase", "ratio"}},
		{"NewSimpleMotor", []string{"Rate"}},
	} {
		s := c.sum(q.fn, "made", Config{NoEnter: true})
		a, b := s.Params[0], s.Params[1]
		f := AndAll(typeFact(s), notNil(a), notNil(b))
		pos := s.Fn.Pos()
		j := get(s.Mem, s.Ret, "Class")
		for j.op == OIface {
			j = j.args[0]
		}
		g := func(p string) *Term { return get(s.Mem, j, p) }
		ob := func(ok bool, what string, got *Term) {
			c.ob(ok, "joint made", q.fn+" "+what, pos, "%s starts as %s", what, short(got))
		}
		ob(proveEq(get(s.Mem, j, "Constraint"), s.Ret, f), "Constraint", get(s.Mem, j, "Constraint"))
		for i, p := range q.fields {
			if p == "" {
				continue
			}
			got, want := g(p), s.Params[i+2]
			if _, ok := got.typ.Underlying().(*types.Struct); ok {
				ob(vec(got).eq(vec(want), f), p, got)
			} else {
				ob(proveEq(got, want, f), p, got)
			}
		}
		acc := accOf(namedOf(j.typ))
		if got := g(acc); true {
			if _, ok := got.typ.Underlying().(*types.Struct); ok {
				ob(isZero(vec(got).x, f) && isZero(vec(got).y, f), acc, got)
			} else {
				ob(isZero(got, f), acc, got)
			}
		}
		world := func(b *Term, v *Term) V2 {
			w := vec(v)
			t := func(x string) *Term { return get(s.Entry, b, "transform."+x) }
			return V2{TAdd(TAdd(TMul(t("a"), w.x), TMul(t("c"), w.y)), t("tx")), TAdd(TAdd(TMul(t("b"), w.x), TMul(t("d"), w.y)), t("ty"))}
		}
		switch q.fn {
		case "NewPinJoint":
			d := world(b, s.Params[3]).sub(world(a, s.Params[2]))
			ob(proveEq(g("Dist"), d.len(), f), "Dist", g("Dist"))
		case "NewPivotJoint":
			for _, w := range []struct {
				b *Term
				n string
			}{{a, "AnchorA"}, {b, "AnchorB"}} {
				want := vec(c.callIn("Body.WorldToLocal", s.Entry, w.b, s.Params[2]))
				ob(vec(g(w.n)).eq(want, f), w.n, g(w.n))
			}
		case "NewGrooveJoint":
			d := vec(s.Params[3]).sub(vec(s.Params[2])).perp()
			ob(c.unitOf(vec(g("GrooveN")), d, f), "GrooveN", g("GrooveN"))
		case "NewRatchetJoint":
			ob(proveEq(g("Angle"), TSub(get(s.Entry, b, "a"), get(s.Entry, a, "a")), f), "Angle", g("Angle"))
		case "NewGearJoint":
			ob(proveEq(TMul(g("ratio_inv"), s.Params[3]), TNum(1), And(f, nonzero(s.Params[3]))), "ratio_inv", g("ratio_inv"))
		case "NewDampedSpring":
			fn := g("SpringForceFunc")
			ob(fn.op == OFunc && fname(fn.fnOf()) == "DefaultSpringForce", "SpringForceFunc", fn)
		case "NewDampedRotarySpring":
			fn := g("SpringTorqueFunc")
			if fn.op != OFunc || fn.fnOf() == nil {
				ob(false, "SpringTorqueFunc", fn)
				continue
			}
			t := c.sumFn(fn.fnOf(), "law", Config{NoEnter: true})
			h := func(p string) *Term { return get(t.Entry, t.Params[0], p) }
			ob(proveEq(t.Ret, TMul(TSub(t.Params[1], h("RestAngle")), h("Stiffness")), t.G), "SpringTorqueFunc", t.Ret)
		}
	}
}

func init() {
	register(&Check{ID: "C42", Run: checkC42, Explanation: "what every joint aims at, the mass it works against and the impulse of a pass"})
}
