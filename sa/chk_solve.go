package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Check{ID: "C15", Run: checkC15, Assume: []string{"real arithmetic (rounding and NaN are not modelled)", "distinct access paths denote distinct objects", "user force and torque functions do not move the bodies"},
		Explanation: "For every constraint type: the effective mass prepared for the solver is the reciprocal of the constraint's true inverse mass, the corrective velocity is the configured fraction of the position error per step, " +
			"and one solver iteration inside the force limit leaves exactly the corrective relative velocity; all as identities between guarded polynomial values, no execution."})
}

func vr(m *Mem, r *jointRun) V2 {
	r1, r2 := getV(m, r.joint, "r1"), getV(m, r.joint, "r2")
	return getV(m, r.b, "v").add(r2.perp().mul(get(m, r.b, "w"))).sub(getV(m, r.a, "v").add(r1.perp().mul(get(m, r.a, "w"))))
}

func (r *jointRun) kScalar(m *Mem, n V2) *Term {
	c1, c2 := getV(m, r.joint, "r1").cross(n), getV(m, r.joint, "r2").cross(n)
	return add(r.ma, r.mb, mul(r.ia, c1, c1), mul(r.ib, c2, c2))
}

// kTensor is the inverse effective mass for both directions.
func (r *jointRun) kTensor(m *Mem) (k11, k12, k22 *Term) {
	a, b := getV(m, r.joint, "r1"), getV(m, r.joint, "r2")
	k11 = add(r.ma, r.mb, mul(r.ia, a.y, a.y), mul(r.ib, b.y, b.y))
	k22 = add(r.ma, r.mb, mul(r.ia, a.x, a.x), mul(r.ib, b.x, b.x))
	k12 = TNeg(TAdd(mul(r.ia, a.x, a.y), mul(r.ib, b.x, b.y)))
	return
}

func (r *jointRun) coef() *Term {
	return TSub(TNum(1), TApp("pow", tyFloat, get(r.s.Entry, r.joint, "errorBias"), r.s.Params[1]))
}

func nonzero(t *Term) *BDD { return Not(condEq0(t, false)) }

func inside(lo, x, hi *Term) *BDD { return And(CondLt(lo, x, false), CondLt(x, hi, false)) }

func checkC15(c *Ctx) {
	const eff, bia, sol, rep, con = "effective mass", "corrective velocity", "constraint solved", "reported impulse", "constructor"
	lim := func(r *jointRun) *Term { return TMul(get(r.s.Entry, r.joint, "maxForce"), r.s.Params[1]) }
	base := func(r *jointRun) *BDD {
		return AndAll(r.facts, CondLe(TNum(0), get(r.s.Entry, r.joint, "maxForce"), false), CondLt(TNum(0), r.s.Params[1], false), CondLe(TNum(0), lim(r), false))
	}
	pre := func(name string, f func(r *jointRun, pos string)) {
		c.part(name+".PreStep", func() { f(c.jointRun(c.named(name), "PreStep"), name+".PreStep") })
	}
	app := func(name string, f func(r *jointRun, pos string)) {
		c.part(name+".ApplyImpulse", func() { f(c.jointRun(c.named(name), "ApplyImpulse"), name+".ApplyImpulse") })
	}
	ob := func(r *jointRun, ok bool, rule, what, format string, a ...interface{}) {
		c.ob(ok, rule, what, r.s.Fn.Pos(), format, a...)
	}
	// bias value, unclamped: -coef*err/dt
	biasOf := func(r *jointRun) *Term { return r.s.uncutOnly(get(r.s.Mem, r.joint, "bias"), ".bias") }
	biasIs := func(r *jointRun, what string, err *Term, cond *BDD) {
		b := biasOf(r)
		mb := get(r.s.Entry, r.joint, "maxBias")
		want := TNeg(TDiv(TMul(r.coef(), err), r.s.Params[1]))
		f := AndAll(r.facts, cond, nonzero(r.s.Params[1]), CondLe(TNum(0), mb, false), inside(TNeg(mb), want, mb))
		ob(r, proveEq(b, want, f), bia, what, "the corrective velocity is %s, not minus the configured fraction of the error %s per step", short(b), short(err))
	}

	// anchored, along a normal
	for _, q := range []string{"PinJoint", "SlideJoint", "DampedSpring"} {
		q := q
		pre(q, func(r *jointRun, w string) {
			n := getV(r.s.Mem, r.joint, "n")
			k := r.kScalar(r.s.Mem, n)
			nm := r.s.uncutNot(get(r.s.Mem, r.joint, "nMass"), ".r1.", ".r2.", ".n.")
			ob(r, proveEq(TMul(nm, k), TNum(1), And(r.facts, nonzero(k))), eff, w, "the prepared mass is %s: not the reciprocal of %s", short(nm), short(k))
			d := r.delta()
			n = V2{r.s.uncutNot(n.x, ".r1.", ".r2."), r.s.uncutNot(n.y, ".r1.", ".r2.")}
			switch q {
			case "SlideJoint":
				mx, mn := get(r.s.Entry, r.joint, "Max"), get(r.s.Entry, r.joint, "Min")
				over := AndAll(CondLt(mx, d.len(), false), CondLe(mn, mx, false))
				under := AndAll(CondLt(d.len(), mn, false), CondLe(d.len(), mx, false))
				biasIs(r, w+" over", TSub(d.len(), mx), over)
				biasIs(r, w+" under", TSub(mn, d.len()), under)
				ob(r, c.unitOf(n, d, And(r.facts, over)), bia, w+" direction over", "the constraint direction is not along the separation of the anchors")
				ob(r, c.unitOf(n.neg(), d, And(r.facts, under)), bia, w+" direction under", "the constraint direction is not against the separation of the anchors")
				return
			}
			nz := nonzero(d.len())
			ob(r, proveEq(TMul(n.x, d.len()), d.x, And(r.facts, nz)) && proveEq(TMul(n.y, d.len()), d.y, And(r.facts, nz)), bia, w+" direction", "the constraint direction is not the unit separation of the anchors")
			if q == "PinJoint" {
				biasIs(r, w, TSub(d.len(), get(r.s.Entry, r.joint, "Dist")), bddTrue)
			}
		})
	}
	app("PinJoint", func(r *jointRun, w string) {
		n := getV(r.s.Entry, r.joint, "n")
		m := r.unitN(n)
		l := lim(r)
		now := TAdd(get(r.s.Entry, r.joint, "jnAcc"), TMul(TSub(get(r.s.Entry, r.joint, "bias"), vr(r.s.Entry, r).dot(n)), get(r.s.Entry, r.joint, "nMass")))
		f := And(base(r), inside(TNeg(l), now, l))
		ob(r, proveEq(subst(r.s.uncut(vr(r.s.Mem, r).dot(n)), m), get(r.s.Entry, r.joint, "bias"), substB(f, m)), sol, w, "the relative velocity along the pin after an iteration is not the corrective velocity")
	})
	app("SlideJoint", func(r *jointRun, w string) {
		n := getV(r.s.Entry, r.joint, "n")
		m := r.unitN(n)
		now := TAdd(get(r.s.Entry, r.joint, "jnAcc"), TMul(TSub(get(r.s.Entry, r.joint, "bias"), vr(r.s.Entry, r).dot(n)), get(r.s.Entry, r.joint, "nMass")))
		f := AndAll(base(r), inside(TNeg(lim(r)), now, TNum(0)), Not(And(condEq0(n.x, false), condEq0(n.y, false))))
		ob(r, proveEq(subst(r.s.uncut(vr(r.s.Mem, r).dot(n)), m), get(r.s.Entry, r.joint, "bias"), substB(f, m)), sol, w, "the relative velocity along the joint after an iteration is not the corrective velocity")
	})
	app("DampedSpring", func(r *jointRun, w string) {
		n := getV(r.s.Entry, r.joint, "n")
		m := r.unitN(n)
		v0, v1 := subst(vr(r.s.Entry, r).dot(n), m), subst(r.s.uncut(vr(r.s.Mem, r).dot(n)), m)
		t0, t1 := get(r.s.Entry, r.joint, "targetVrn"), subst(r.s.uncut(get(r.s.Mem, r.joint, "targetVrn")), m)
		ob(r, proveEq(TSub(v1, v0), TMul(TSub(t0, v0), get(r.s.Entry, r.joint, "vCoef")), r.facts) && proveEq(t1, v1, r.facts), sol, w, "the damping of one iteration does not take the configured share of the relative velocity")
	})
	pre("DampedSpring", func(r *jointRun, w string) {
		k := r.kScalar(r.s.Mem, getV(r.s.Mem, r.joint, "n"))
		v := r.s.uncutNot(get(r.s.Mem, r.joint, "vCoef"), ".r1.", ".r2.", ".n.")
		want := TSub(TNum(1), TApp("exp", tyFloat, TNeg(mul(get(r.s.Entry, r.joint, "Damping"), r.s.Params[1], k))))
		ob(r, proveEq(v, want, r.facts), bia, w+" damping", "the damping share is %s", short(v))
		n := getV(r.s.Mem, r.joint, "n")
		dv := V2{r.s.uncutNot(r.vb.x, ".r1.", ".r2.", ".n."), r.s.uncutNot(r.vb.y, ".r1.", ".r2.", ".n.")}
		j := get(r.s.Mem, r.joint, "jAcc")
		ob(r, dv.eq(n.mul(TMul(j, r.mb)), r.facts), sol, w+" force", "the spring's impulse is not the force times the time step along the spring")
		c.springCallback(r, "SpringForceFunc", w, r.delta().len(), r.s.Params[1], j)
	})
	// both directions
	for _, q := range []string{"PivotJoint", "GrooveJoint"} {
		q := q
		pre(q, func(r *jointRun, w string) {
			k11, k12, k22 := r.kTensor(r.s.Mem)
			g := func(f string) *Term { return r.s.uncutNot(get(r.s.Mem, r.joint, "k."+f), ".r1.", ".r2.") }
			det := TSub(TMul(k11, k22), TMul(k12, k12))
			f := And(r.facts, nonzero(det))
			// k = K^-1, with rows (a b) and (c d)
			ok := proveEq(TMul(g("a"), det), k22, f) && proveEq(TMul(g("b"), det), TNeg(k12), f) && proveEq(TMul(g("c"), det), TNeg(k12), f) && proveEq(TMul(g("d"), det), k11, f)
			ob(r, ok, eff, w, "the prepared mass matrix is not the inverse of the joint's")
			b := get(r.s.Mem, r.joint, "bias")
			bx, by := r.s.uncut2(fld(b, "X")), r.s.uncut2(fld(b, "Y"))
			d := r.delta()
			s := TNeg(TDiv(r.coef(), r.s.Params[1]))
			e := d.mul(s)
			mb := get(r.s.Entry, r.joint, "maxBias")
			f = AndAll(r.facts, CondLe(e.dot(e), TMul(mb, mb), false), nonzero(r.s.Params[1]))
			ob(r, proveEq(bx, e.x, f) && proveEq(by, e.y, f), bia, w, "the corrective velocity is (%s, %s), not minus the configured fraction of the separation per step", short(bx), short(by))
		})
	}
	app("PivotJoint", func(r *jointRun, w string) {
		k11, k12, k22 := r.kTensor(r.s.Entry)
		inv := TInv(TSub(TMul(k11, k22), TMul(k12, k12)))
		g := func(f string) *Term { return get(r.s.Entry, r.joint, "k."+f) }
		m := map[*Term]*Term{g("a"): TMul(k22, inv), g("b"): TNeg(TMul(k12, inv)), g("c"): TNeg(TMul(k12, inv)), g("d"): TMul(k11, inv)}
		// the impulse that solves the joint
		e := getV(r.s.Entry, r.joint, "bias").sub(vr(r.s.Entry, r))
		j := V2{TAdd(TMul(g("a"), e.x), TMul(g("b"), e.y)), TAdd(TMul(g("c"), e.x), TMul(g("d"), e.y))}
		raw := getV(r.s.Entry, r.joint, "jAcc").add(j)
		l := lim(r)
		acc := get(r.s.Mem, r.joint, "jAcc")
		ax, ay := r.s.uncut2(fld(acc, "X")), r.s.uncut2(fld(acc, "Y"))
		f := And(base(r), CondLe(raw.dot(raw), TMul(l, l), false))
		ob(r, proveEq(ax, raw.x, f) && proveEq(ay, raw.y, f), sol, w+" impulse", "inside the force limit the accumulated impulse does not grow by the joint's mass times the velocity error")
		// applied to the bodies as the change of the accumulated impulse
		acc = TStruct(acc.typ, []*Term{r.s.uncutNot(fld(acc, "X"), ".r1.", ".r2."), r.s.uncutNot(fld(acc, "Y"), ".r1.", ".r2.")})
		dj := vec(acc).sub(getV(r.s.Entry, r.joint, "jAcc"))
		dv := V2{r.s.uncutNot(r.vb.x, ".r1.", ".r2.", ".n."), r.s.uncutNot(r.vb.y, ".r1.", ".r2.", ".n.")}
		ob(r, dv.eq(dj.mul(r.mb), r.facts), sol, w+" applied", "the second body does not receive the change of the accumulated impulse")
		// and that impulse solves the joint
		dvr := V2{}
		{
			r1, r2 := getV(r.s.Entry, r.joint, "r1"), getV(r.s.Entry, r.joint, "r2")
			dvr = j.mul(TAdd(r.ma, r.mb)).add(r2.perp().mul(TMul(r.ib, r2.cross(j)))).add(r1.perp().mul(TMul(r.ia, r1.cross(j))))
		}
		ob(r, proveEq(subst(dvr.x, m), e.x, bddTrue) && proveEq(subst(dvr.y, m), e.y, bddTrue), sol, w, "the impulse does not produce the corrective relative velocity")
	})
	pre("GrooveJoint", func(r *jointRun, w string) { c.grooveRule(r, w) })
	app("GrooveJoint", func(r *jointRun, w string) {
		dj := getV(r.s.Mem, r.joint, "jAcc")
		dj = V2{r.s.uncutNot(dj.x, ".r1.", ".r2."), r.s.uncutNot(dj.y, ".r1.", ".r2.")}.sub(getV(r.s.Entry, r.joint, "jAcc"))
		dv := V2{r.s.uncutNot(r.vb.x, ".r1.", ".r2.", ".n."), r.s.uncutNot(r.vb.y, ".r1.", ".r2.", ".n.")}
		ob(r, dv.eq(dj.mul(r.mb), r.facts), sol, w+" applied", "the second body does not receive the change of the accumulated impulse")
	})
	// rotary
	rot := func(m *Mem, r *jointRun) *Term { return TSub(get(m, r.b, "w"), get(m, r.a, "w")) }
	for _, q := range []string{"RotaryLimitJoint", "RatchetJoint", "SimpleMotor", "GearJoint", "DampedRotarySpring"} {
		q := q
		pre(q, func(r *jointRun, w string) {
			k := TAdd(r.ia, r.ib)
			f := r.facts
			m := map[*Term]*Term{}
			if q == "GearJoint" {
				ra := get(r.s.Entry, r.joint, "ratio")
				k = TAdd(TDiv(r.ia, ra), TMul(r.ib, ra))
				f = And(f, nonzero(ra))
				if hasField(r.joint.typ, "ratio_inv") {
					m[get(r.s.Entry, r.joint, "ratio_inv")] = TInv(ra)
				}
			}
			is := subst(r.s.uncutOnly(get(r.s.Mem, r.joint, "iSum"), ".iSum"), m)
			ob(r, proveEq(TMul(is, k), TNum(1), And(f, nonzero(k))), eff, w, "the prepared moment is %s: not the reciprocal of %s", short(is), short(k))
		})
	}
	pre("GearJoint", func(r *jointRun, w string) {
		err := TSub(TSub(TMul(get(r.s.Entry, r.b, "a"), get(r.s.Entry, r.joint, "ratio")), get(r.s.Entry, r.a, "a")), get(r.s.Entry, r.joint, "phase"))
		biasIs(r, w, err, bddTrue)
	})
	pre("RotaryLimitJoint", func(r *jointRun, w string) {
		d := TSub(get(r.s.Entry, r.b, "a"), get(r.s.Entry, r.a, "a"))
		mx, mn := get(r.s.Entry, r.joint, "Max"), get(r.s.Entry, r.joint, "Min")
		biasIs(r, w+" over", TSub(mx, d), And(CondLt(mx, d, false), CondLe(mn, mx, false)))
		biasIs(r, w+" under", TSub(mn, d), AndAll(CondLt(d, mn, false), CondLe(mn, mx, false), CondLe(d, mx, false)))
	})
	pre("RatchetJoint", func(r *jointRun, w string) {
		d := TSub(get(r.s.Entry, r.b, "a"), get(r.s.Entry, r.a, "a"))
		ang, q, ph := get(r.s.Entry, r.joint, "Angle"), get(r.s.Entry, r.joint, "Ratchet"), get(r.s.Entry, r.joint, "Phase")
		diff := TSub(ang, d)
		back := CondLt(TNum(0), TMul(diff, q), false)
		biasIs(r, w+" back", diff, back)
		biasIs(r, w+" free", TNum(0), Not(back))
		a1 := get(r.s.Mem, r.joint, "Angle")
		want := TAdd(TMul(TApp("floor", tyFloat, TDiv(TSub(d, ph), q)), q), ph)
		ob(r, proveEq(a1, want, AndAll(r.facts, Not(back), nonzero(q))), bia, w+" click", "the ratchet angle becomes %s, not the last click", short(a1))
		ob(r, proveEq(a1, ang, And(r.facts, back)), bia, w+" hold", "the ratchet angle changes while the ratchet holds")
	})
	app("GearJoint", func(r *jointRun, w string) {
		ra := get(r.s.Entry, r.joint, "ratio")
		m := map[*Term]*Term{get(r.s.Entry, r.joint, "iSum"): TInv(TAdd(TDiv(r.ia, ra), TMul(r.ib, ra)))}
		if hasField(r.joint.typ, "ratio_inv") {
			m[get(r.s.Entry, r.joint, "ratio_inv")] = TInv(ra)
		}
		v0 := TSub(TMul(get(r.s.Entry, r.b, "w"), ra), get(r.s.Entry, r.a, "w"))
		now := TAdd(get(r.s.Entry, r.joint, "jAcc"), TMul(TSub(get(r.s.Entry, r.joint, "bias"), v0), get(r.s.Entry, r.joint, "iSum")))
		f := AndAll(base(r), inside(TNeg(lim(r)), now, lim(r)), nonzero(ra))
		v := TSub(TMul(get(r.s.Mem, r.b, "w"), ra), get(r.s.Mem, r.a, "w"))
		ob(r, proveEq(subst(v, m), get(r.s.Entry, r.joint, "bias"), substB(f, m)), sol, w, "the relative spin after an iteration is not the corrective velocity")
	})
	for _, q := range []string{"RotaryLimitJoint", "RatchetJoint", "SimpleMotor"} {
		q := q
		app(q, func(r *jointRun, w string) {
			m := map[*Term]*Term{get(r.s.Entry, r.joint, "iSum"): TInv(TAdd(r.ia, r.ib))}
			f := base(r)
			var want *Term
			l := lim(r)
			if q == "SimpleMotor" {
				want = TNeg(get(r.s.Entry, r.joint, "Rate"))
			} else {
				want = TNeg(get(r.s.Entry, r.joint, "bias"))
			}
			now := TAdd(get(r.s.Entry, r.joint, "jAcc"), TMul(TSub(want, rot(r.s.Entry, r)), get(r.s.Entry, r.joint, "iSum")))
			switch q {
			case "SimpleMotor":
				f = And(f, inside(TNeg(l), now, l))
			case "RatchetJoint":
				k := get(r.s.Entry, r.joint, "Ratchet")
				f = AndAll(f, nonzero(k), nonzero(want), inside(TNum(0), TMul(now, k), TMul(l, TAbs(k))))
			default:
				b := get(r.s.Entry, r.joint, "bias")
				f = AndAll(f, nonzero(b), Or(And(CondLt(b, TNum(0), false), inside(TNum(0), now, l)), And(CondLt(TNum(0), b, false), inside(TNeg(l), now, TNum(0)))))
			}
			ob(r, proveEq(subst(rot(r.s.Mem, r), m), want, substB(f, m)), sol, w, "the relative spin after an iteration is not the corrective velocity")
		})
	}
	app("DampedRotarySpring", func(r *jointRun, w string) {
		m := map[*Term]*Term{get(r.s.Entry, r.joint, "iSum"): TInv(TAdd(r.ia, r.ib))}
		v0, v1 := TNeg(rot(r.s.Entry, r)), subst(TNeg(rot(r.s.Mem, r)), m)
		t0, t1 := get(r.s.Entry, r.joint, "targetWrn"), subst(get(r.s.Mem, r.joint, "targetWrn"), m)
		ob(r, proveEq(TSub(v1, v0), TMul(TSub(t0, v0), get(r.s.Entry, r.joint, "wCoef")), r.facts) && proveEq(t1, v1, r.facts), sol, w, "the damping of one iteration does not take the configured share of the relative spin")
	})
	pre("DampedRotarySpring", func(r *jointRun, w string) {
		v := r.s.uncutOnly(get(r.s.Mem, r.joint, "wCoef"), ".wCoef")
		want := TSub(TNum(1), TApp("exp", tyFloat, TNeg(mul(get(r.s.Entry, r.joint, "Damping"), r.s.Params[1], TAdd(r.ia, r.ib)))))
		ob(r, proveEq(v, want, r.facts), bia, w+" damping", "the damping share is %s", short(v))
		j := get(r.s.Mem, r.joint, "jAcc")
		ob(r, proveEq(r.wb, TMul(j, r.ib), r.facts), sol, w+" torque", "the spring's angular impulse is not the torque times the time step")
		c.springCallback(r, "SpringTorqueFunc", w, TSub(get(r.s.Entry, r.a, "a"), get(r.s.Entry, r.b, "a")), r.s.Params[1], j)
	})
	// what is accumulated is what was applied, and warm starting applies it again
	const war = "accumulated impulse"
	un := func(r *jointRun, v *Term) *Term { return r.s.uncutNot(v, ".r1.", ".r2.", ".n.") }
	for _, q := range []string{"PinJoint", "SlideJoint", "DampedSpring", "PivotJoint", "GrooveJoint", "RotaryLimitJoint", "RatchetJoint", "SimpleMotor", "GearJoint", "DampedRotarySpring"} {
		q := q
		acc := accOf(c.named(q))
		// gives: what the second body gets for an impulse of size x (or the vector x)
		gives := func(r *jointRun, w string, x *Term, xv V2) {
			if acc == "" {
				return
			}
			dv := V2{un(r, r.vb.x), un(r, r.vb.y)}
			switch q {
			case "PivotJoint", "GrooveJoint":
				ob(r, dv.eq(xv.mul(r.mb), r.facts), war, w, "the second body gets (%s, %s)", short(dv.x), short(dv.y))
			case "PinJoint", "SlideJoint", "DampedSpring":
				n := getV(r.s.Entry, r.joint, "n")
				ob(r, dv.eq(n.mul(TMul(x, r.mb)), r.facts), war, w, "the second body gets (%s, %s)", short(dv.x), short(dv.y))
			default:
				ob(r, proveEq(un(r, r.wb), TMul(x, r.ib), r.facts), war, w, "the second body gets %s", short(r.wb))
			}
		}
		app(q, func(r *jointRun, w string) {
			switch q {
			case "PivotJoint", "GrooveJoint":
				a, b := getV(r.s.Entry, r.joint, acc), getV(r.s.Mem, r.joint, acc)
				gives(r, w, nil, V2{un(r, b.x), un(r, b.y)}.sub(a))
			default:
				gives(r, w, TSub(un(r, get(r.s.Mem, r.joint, acc)), get(r.s.Entry, r.joint, acc)), V2{})
			}
		})
		c.part(q+".ApplyCachedImpulse", func() {
			r := c.jointRun(c.named(q), "ApplyCachedImpulse")
			w := q + ".ApplyCachedImpulse"
			dtc := r.s.Params[1]
			switch {
			case isSpring(c.named(q)):
				gives(r, w, TNum(0), V2{})
			case q == "PivotJoint" || q == "GrooveJoint":
				gives(r, w, nil, getV(r.s.Entry, r.joint, acc).mul(dtc))
			default:
				gives(r, w, TMul(get(r.s.Entry, r.joint, acc), dtc), V2{})
			}
			a, b := get(r.s.Entry, r.joint, acc), get(r.s.Mem, r.joint, acc)
			ob(r, sameStruct(a, b, r.facts), war, w+" kept", "the accumulated impulse becomes %s", short(b))
		})
	}
	c.atLeast(war, 30)
	for q, f := range map[string]string{"DampedSpring": "targetVrn", "DampedRotarySpring": "targetWrn"} {
		f := f
		pre(q, func(r *jointRun, w string) {
			ob(r, proveEq(get(r.s.Mem, r.joint, f), TNum(0), r.facts), bia, w+" target", "the damping starts from %s", short(get(r.s.Mem, r.joint, f)))
		})
	}
	app("GrooveJoint", func(r *jointRun, w string) {
		g := func(f string) *Term { return get(r.s.Entry, r.joint, "k."+f) }
		e := getV(r.s.Entry, r.joint, "bias").sub(vr(r.s.Entry, r))
		j := V2{TAdd(TMul(g("a"), e.x), TMul(g("b"), e.y)), TAdd(TMul(g("c"), e.x), TMul(g("d"), e.y))}
		raw := getV(r.s.Entry, r.joint, "jAcc").add(j)
		n := getV(r.s.Entry, r.joint, "grooveTn")
		now := getV(r.s.Mem, r.joint, "jAcc")
		now = V2{r.s.uncutNot(now.x), r.s.uncutNot(now.y)}
		l := lim(r)
		end := CondLt(TNum(0), TMul(get(r.s.Entry, r.joint, "clamp"), raw.cross(n)), false)
		f := AndAll(base(r), end, CondLe(raw.dot(raw), TMul(l, l), false))
		ob(r, now.eq(raw, f), sol, w+" at an end", "inside the force limit the accumulated impulse does not grow by the joint's mass times the velocity error")
		nn := n.dot(n)
		along := n.mul(TDiv(raw.dot(n), nn))
		f = AndAll(base(r), Not(end), nonzero(nn), CondLe(along.dot(along), TMul(l, l), false))
		ob(r, proveEq(TMul(now.x, nn), TMul(n.x, raw.dot(n)), f) && proveEq(TMul(now.y, nn), TMul(n.y, raw.dot(n)), f), sol, w+" along", "between the ends the accumulated impulse is (%s, %s), not the part across the groove", short(now.x), short(now.y))
	})
	for _, t := range c.implementers("Constrainer") {
		t := t
		c.part(t.Obj().Name()+".GetImpulse", func() {
			acc := accOf(t)
			if acc == "" {
				return
			}
			s := c.sumFn(c.method(t, "GetImpulse"), "joint", Config{NoEnter: true})
			v := get(s.Entry, s.Params[0], acc)
			ok := false
			if _, isV := v.typ.Underlying().(*types.Struct); isV {
				ok = proveEq(s.Ret, vec(v).len(), s.G)
			} else {
				ok = proveEq(s.Ret, TAbs(v), s.G) || isSpring(t) && proveEq(s.Ret, v, s.G)
			}
			c.ob(ok, rep, t.Obj().Name(), s.Fn.Pos(), "GetImpulse returns %s, not the size of the accumulated impulse", short(s.Ret))
		})
	}
	c.part("constructors", func() { c.jointConstructors(con) })
	c.atLeast(eff, 10)
	c.atLeast(bia, 16)
	c.atLeast(sol, 14)
	c.atLeast(rep, 10)
	c.atLeast(con, 10)
}

// uncutNot puts everything back except what is stored to the fields named.
func (s *Summary) uncutNot(t *Term, not ...string) *Term {
	m := map[*Term]*Term{}
	for x, v := range s.Ev.cuts {
		keep := false
		for _, n := range not {
			keep = keep || strings.Contains(x.name, n)
		}
		if !keep {
			m[x] = v
		}
	}
	for k := 0; k < 8; k++ {
		n := subst(t, m)
		if n == t {
			break
		}
		t = n
	}
	return t
}

func (s *Summary) uncut2(t *Term) *Term { return s.uncutNot(t, ".r1.", ".r2.") }

// unitOf: u is the unit vector of d (exactly, or as Vector.Normalize rounds it).
func (c *Ctx) unitOf(u, d V2, facts *BDD) bool {
	s := c.sum("Vector.Normalize", "unit", Config{NoEnter: true})
	v := vec(s.Params[0])
	m := map[*Term]*Term{v.x: d.x, v.y: d.y}
	n := V2{subst(fld(s.Ret, "X"), m), subst(fld(s.Ret, "Y"), m)}
	if u.eq(n, facts) {
		return true
	}
	l := d.len()
	return proveEq(TMul(u.x, l), d.x, And(facts, nonzero(l))) && proveEq(TMul(u.y, l), d.y, And(facts, nonzero(l)))
}

// unitN: the constraint direction is a unit vector (prepared so), and the
// prepared mass the reciprocal of the constraint's.
func (r *jointRun) unitN(n V2) map[*Term]*Term {
	t := rawTerm(OVar, tyFloat, "angle of n")
	u := V2{TApp("cos", tyFloat, t), TApp("sin", tyFloat, t)}
	return map[*Term]*Term{n.x: u.x, n.y: u.y, get(r.s.Entry, r.joint, "nMass"): TInv(r.kScalar(r.s.Entry, u))}
}

// springCallback: the user's function gets the spring and its displacement,
// and the impulse is what it returns times the time step.
func (c *Ctx) springCallback(r *jointRun, field, w string, arg, dt, j *Term) {
	n := 0
	allEvents(r.s.Events, func(e *Event, _ []*LoopInfo) {
		if e.Kind != "user" || len(e.Args) < 2 {
			return
		}
		n++
		res := e.Result
		c.ob(e.Args[0] == r.joint && proveEq(e.Args[1], arg, r.facts), "spring force", w+" arguments", e.Instr.Pos(), "the force function is given %s", short(e.Args[1]))
		c.ob(res != nil && proveEq(j, TMul(res, dt), r.facts), "spring force", w+" result", e.Instr.Pos(), "the spring impulse %s is not the force times the time step", short(j))
	})
	if n != 1 {
		c.fail("spring force", w, r.s.Fn.Pos(), "%d calls of the force function, expected one", n)
	}
}

// grooveRule: the lever arm on the first body ends on the groove, at the
// nearest point of the groove to the other anchor.
func (c *Ctx) grooveRule(r *jointRun, w string) {
	s := r.s
	g := func(f string) *Term { return get(s.Entry, r.a, "transform."+f) }
	vect := func(v V2) V2 {
		return V2{TAdd(TMul(g("a"), v.x), TMul(g("c"), v.y)), TAdd(TMul(g("b"), v.x), TMul(g("d"), v.y))}
	}
	point := func(v V2) V2 { return vect(v).add(V2{g("tx"), g("ty")}) }
	ta, tb := point(getV(s.Entry, r.joint, "GrooveA")), point(getV(s.Entry, r.joint, "GrooveB"))
	n := vect(getV(s.Entry, r.joint, "GrooveN"))
	tn := getV(s.Mem, r.joint, "grooveTn")
	tn = V2{s.uncutOnly(tn.x, ".grooveTn"), s.uncutOnly(tn.y, ".grooveTn")}
	c.ob(tn.eq(n, r.facts), "groove", w+" normal", s.Fn.Pos(), "the groove normal in world space is not the local one turned with the body")
	r1 := getV(s.Mem, r.joint, "r1")
	r1 = V2{s.uncutNot(r1.x, ".r2."), s.uncutNot(r1.y, ".r2.")}
	pt := r1.add(getV(s.Mem, r.a, "p"))
	td := getV(s.Mem, r.b, "p").add(getV(s.Mem, r.joint, "r2")).cross(n)
	cl := get(s.Mem, r.joint, "clamp")
	lo, hi := CondLe(td, ta.cross(n), false), CondLe(tb.cross(n), td, false)
	f := And(r.facts, lo)
	c.ob(pt.eq(ta, f) && proveEq(cl, TNum(1), f), "groove", w+" first end", s.Fn.Pos(), "beyond its first end the groove does not hold at that end")
	f = AndAll(r.facts, Not(lo), hi)
	c.ob(pt.eq(tb, f) && proveEq(cl, TNum(-1), f), "groove", w+" second end", s.Fn.Pos(), "beyond its second end the groove does not hold at that end")
	f = AndAll(r.facts, Not(lo), Not(hi))
	nn := n.dot(n)
	c.ob(proveEq(pt.dot(n), TMul(ta.dot(n), nn), f) && proveEq(pt.cross(n), TMul(td, nn), f) && isZero(cl, f), "groove", w+" between", s.Fn.Pos(), "between its ends the groove does not hold at the point nearest to the anchor")
}

func (c *Ctx) jointConstructors(rule string) {
	mk := func(name, typ string, f func(s *Summary, j *Term)) {
		c.part(name, func() {
			s := c.sum(name, "cons", Config{NoEnter: true})
			cls := get(s.Mem, s.Ret, "Class")
			var j *Term
			walkTerm(cls, func(x *Term) {
				if x.op == OAlloc && elemType(x.typ) != nil && typeName(elemType(x.typ)) == typ {
					j = x
				}
			})
			if j == nil {
				// the joint allocated here whose constraint is the result
				allEvents(s.Events, func(e *Event, _ []*LoopInfo) {
					if e.Kind == "store" && strings.HasPrefix(locClass(e.Loc), typ+".") {
						j = ownerOfLoc(e.Loc, locClass(e.Loc))
					}
				})
			}
			if j == nil {
				c.fail(rule, name, s.Fn.Pos(), "the constraint's class is not a new %s: %s", typ, short(cls))
				return
			}
			c.ob(proveEq(get(s.Mem, j, "Constraint"), s.Ret, s.G), rule, name+" link", s.Fn.Pos(), "the %s does not hold the constraint that is returned", typ)
			c.ob(proveEq(get(s.Mem, s.Ret, "a"), s.Params[0], s.G) && proveEq(get(s.Mem, s.Ret, "b"), s.Params[1], s.G), rule, name+" bodies", s.Fn.Pos(), "the bodies of the constraint are not the ones given")
			f(s, j)
		})
	}
	fields := func(name, typ string, fs ...string) {
		mk(name, typ, func(s *Summary, j *Term) {
			for i, q := range fs {
				if q == "" {
					continue
				}
				v := get(s.Mem, j, q)
				c.ob(proveEq(v, s.Params[i+2], s.G), rule, name+" "+q, s.Fn.Pos(), "%s of the new joint is %s, not the argument", q, short(v))
			}
		})
	}
	fields("NewPinJoint", "PinJoint", "AnchorA", "AnchorB")
	fields("NewSlideJoint", "SlideJoint", "AnchorA", "AnchorB", "Min", "Max")
	fields("NewPivotJoint2", "PivotJoint", "AnchorA", "AnchorB")
	fields("NewGrooveJoint", "GrooveJoint", "GrooveA", "GrooveB", "AnchorB")
	fields("NewDampedSpring", "DampedSpring", "AnchorA", "AnchorB", "RestLength", "Stiffness", "Damping")
	fields("NewDampedRotarySpring", "DampedRotarySpring", "RestAngle", "Stiffness", "Damping")
	fields("NewRotaryLimitJoint", "RotaryLimitJoint", "Min", "Max")
	fields("NewRatchetJoint", "RatchetJoint", "Phase", "Ratchet")
	fields("NewGearJoint", "GearJoint", "phase", "ratio")
	fields("NewSimpleMotor", "SimpleMotor", "Rate")
	mk("NewPivotJoint", "PivotJoint", func(s *Summary, j *Term) {
		for k, q := range []string{"AnchorA", "AnchorB"} {
			b := s.Params[k]
			w := c.callIn("Body.LocalToWorld", s.Mem, b, get(s.Mem, j, q))
			f := AndAll(s.G, notNil(b))
			m2 := inSyncFacts(s.Entry, b)
			ok := eqSubst(fld(w, "X"), fld(s.Params[2], "X"), m2, f) && eqSubst(fld(w, "Y"), fld(s.Params[2], "Y"), m2, f)
			c.ob(ok, rule, "NewPivotJoint "+q, s.Fn.Pos(), "the anchor is not at the pivot: %s", short(w))
			f = And(s.G, Not(notNil(b)))
			c.ob(vec(get(s.Mem, j, q)).eq(vec(s.Params[2]), f), rule, "NewPivotJoint "+q+" world", s.Fn.Pos(), "without a body the anchor is not the pivot")
		}
	})
	mk("NewPinJoint", "PinJoint", func(s *Summary, j *Term) {
		a, b := s.Params[0], s.Params[1]
		pa, pb := vec(c.callIn("Body.LocalToWorld", s.Entry, a, s.Params[2])), vec(c.callIn("Body.LocalToWorld", s.Entry, b, s.Params[3]))
		f := AndAll(s.G, notNil(a), notNil(b))
		c.ob(proveEq(get(s.Mem, j, "Dist"), pb.sub(pa).len(), f), rule, "NewPinJoint Dist", s.Fn.Pos(), "the length of the pin is %s, not the distance of the anchors", short(get(s.Mem, j, "Dist")))
	})
	mk("NewRatchetJoint", "RatchetJoint", func(s *Summary, j *Term) {
		a, b := s.Params[0], s.Params[1]
		f := AndAll(s.G, notNil(a), notNil(b))
		c.ob(proveEq(get(s.Mem, j, "Angle"), TSub(get(s.Entry, b, "a"), get(s.Entry, a, "a")), f), rule, "NewRatchetJoint Angle", s.Fn.Pos(), "the ratchet starts at %s, not at the relative angle", short(get(s.Mem, j, "Angle")))
	})
	mk("NewGrooveJoint", "GrooveJoint", func(s *Summary, j *Term) {
		d := vec(s.Params[3]).sub(vec(s.Params[2]))
		n := getV(s.Mem, j, "GrooveN")
		c.ob(c.unitOf(n.rperp(), d, s.G), rule, "NewGrooveJoint GrooveN", s.Fn.Pos(), "the groove's normal (%s, %s) is not perpendicular to the groove, on its left", short(n.x), short(n.y))
	})
}
