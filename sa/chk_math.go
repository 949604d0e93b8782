package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// C29: the algebra of vectors, transforms and bounding boxes.
// C35: how bodies integrate, and what forces, impulses and velocities at a point mean.

func (c *Ctx) typ(name string) *Term { return nil }

// apply gives the value of an exported function for given arguments.
func (c *Ctx) apply(name string, args ...*Term) *Term {
	return c.applyCfg(name, Config{NoEnter: true}, args...)
}

func (c *Ctx) applyCfg(name string, cfg Config, args ...*Term) *Term {
	s, err := SummarizeWith(c.p, c.fn(name), cfg, args, nil)
	if err != nil {
		panic(undecided{err.Error()})
	}
	if s.Ret == nil {
		panic(undecided{name + " returns nothing"})
	}
	return s.Ret
}

func (c *Ctx) paramsOf(name string) []*Term {
	var out []*Term
	for i, p := range c.fn(name).Params {
		out = append(out, paramTerm(fmt.Sprintf("p%d:%s", i, p.Name()), p.Type()))
	}
	return out
}

// param of a named type of the package, for use across functions.
func (c *Ctx) symb(name, typ string) *Term {
	if typ == "float64" {
		return paramTerm(name, tyFloat)
	}
	o := c.p.TPkg.Scope().Lookup(typ)
	if o == nil {
		c.fail("anchor", typ, token.NoPos, "type %s not found", typ)
		panic(abortCheck{})
	}
	return paramTerm(name, o.Type())
}

func (c *Ctx) mkVec(v V2) *Term {
	return TStruct(c.p.TPkg.Scope().Lookup("Vector").Type(), []*Term{v.x, v.y})
}

func checkC29(c *Ctx) {
	u, v, w := c.symb("u", "Vector"), c.symb("v", "Vector"), c.symb("w", "Vector")
	k, t, d, r, a := c.symb("k", "float64"), c.symb("t", "float64"), c.symb("d", "float64"), c.symb("r", "float64"), c.symb("angle", "float64")
	V, U, W := vec(v), vec(u), vec(w)
	T1, T2 := c.symb("T", "Transform"), c.symb("S", "Transform")
	A, B := c.symb("A", "BB"), c.symb("B", "BB")
	one, zero, half := TNum(1), TNum(0), TScale(TNum(1), 1, 2)
	rule := "identity"
	pos := func(n string) token.Pos { return c.fn(n).Pos() }
	eqV := func(name string, got *Term, want V2, facts *BDD, what string) {
		g := vec(got)
		c.ob(g.eq(want, facts), rule, name+": "+what, pos(name), "the result is (%s, %s)", short(g.x), short(g.y))
	}
	eqN := func(name string, got, want *Term, facts *BDD, what string) {
		c.ob(proveEq(got, want, facts), rule, name+": "+what, pos(name), "the result is %s", short(got))
	}
	le := func(name string, a, b *Term, facts *BDD, what string) {
		c.ob(proveLE(a, b, facts), rule, name+": "+what, pos(name), "%s is not known to be at most %s", short(a), short(b))
	}
	iff := func(name string, got, want *BDD, facts *BDD, what string) {
		c.ob(equivUnder(facts, got, want), rule, name+": "+what, pos(name), "the result is true when %s", shortB(got))
	}
	P := func(name string, f func()) { c.part(name, f) }
	noFacts := bddTrue
	cmpLe := func(a, b *Term) *BDD { return CondLe(a, b, false) }
	cos, sin := TApp("cos", tyFloat, a), TApp("sin", tyFloat, a)

	// vectors
	P("Vector", func() {
		eqV("Vector.Add", c.apply("Vector.Add", v, u), V.add(U), noFacts, "sum")
		eqV("Vector.Sub", c.apply("Vector.Sub", v, u), V.sub(U), noFacts, "difference")
		eqV("Vector.Neg", c.apply("Vector.Neg", v), V.neg(), noFacts, "negation")
		eqV("Vector.Mult", c.apply("Vector.Mult", v, k), V.mul(k), noFacts, "scaling")
		eqV("Vector.Clone", c.apply("Vector.Clone", v), V, noFacts, "copy")
		eqN("Vector.Dot", c.apply("Vector.Dot", v, u), V.dot(U), noFacts, "dot product")
		eqN("Vector.Cross", c.apply("Vector.Cross", v, u), V.cross(U), noFacts, "cross product")
		eqV("Vector.Perp", c.apply("Vector.Perp", v), V.perp(), noFacts, "quarter turn to the left")
		eqV("Vector.ReversePerp", c.apply("Vector.ReversePerp", v), V.rperp(), noFacts, "quarter turn to the right")
		eqN("Vector.LengthSq", c.apply("Vector.LengthSq", v), V.dot(V), noFacts, "squared length")
		eqN("Vector.Length", c.apply("Vector.Length", v), V.len(), noFacts, "length")
		eqN("Vector.DistanceSq", c.apply("Vector.DistanceSq", v, u), V.sub(U).dot(V.sub(U)), noFacts, "squared distance")
		eqN("Vector.Distance", c.apply("Vector.Distance", v, u), V.sub(U).len(), noFacts, "distance")
		iff("Vector.Equal", toBDD(c.apply("Vector.Equal", v, u)), And(CondEq(V.x, U.x), CondEq(V.y, U.y)), noFacts, "equality")
		iff("Vector.Near", toBDD(c.apply("Vector.Near", v, u, d)), CondLt(V.sub(U).dot(V.sub(U)), TMul(d, d), false), noFacts, "nearness")
		eqV("Vector.Lerp", c.apply("Vector.Lerp", v, u, t), V.add(U.sub(V).mul(t)), noFacts, "interpolation")
		p := vec(c.apply("Vector.Project", v, u))
		nz := nonzero(U.dot(U))
		c.ob(proveEq(p.cross(U), zero, nz) && proveEq(p.dot(U), V.dot(U), nz), rule, "Vector.Project: projection", pos("Vector.Project"), "the result is not the projection onto the other vector")
		eqV("ForAngle", c.apply("ForAngle", a), V2{cos, sin}, noFacts, "unit vector of an angle")
		eqN("Vector.ToAngle", c.apply("Vector.ToAngle", v), TApp("atan2", tyFloat, V.y, V.x), noFacts, "angle")
		eqV("Vector.Rotate", c.apply("Vector.Rotate", v, c.apply("ForAngle", a)), V2{TSub(TMul(V.x, cos), TMul(V.y, sin)), TAdd(TMul(V.x, sin), TMul(V.y, cos))}, noFacts, "rotation")
		eqV("Vector.Unrotate", c.apply("Vector.Unrotate", c.apply("Vector.Rotate", v, c.apply("ForAngle", a)), c.apply("ForAngle", a)), V, noFacts, "undoes Rotate")
		n := vec(c.apply("Vector.Normalize", v))
		c.ob(proveEq(n.cross(V), zero, noFacts), rule, "Vector.Normalize: direction", pos("Vector.Normalize"), "the direction changes")
		// v / (|v| + 1e-15)
		for _, e := range []*Term{TSub(TDiv(V.x, n.x), V.len()), TSub(TDiv(V.y, n.y), V.len())} {
			c.ob(isTiny(e), rule, "Vector.Normalize: length", pos("Vector.Normalize"), "the length of the result is not one: (%s, %s)", short(n.x), short(n.y))
		}
		cl := vec(c.apply("Vector.Clamp", v, d))
		long := CondLt(TMul(d, d), V.dot(V), false)
		c.ob(cl.eq(V, Not(long)), rule, "Vector.Clamp: short vectors", pos("Vector.Clamp"), "a vector that is short enough changes")
		c.ob(cl.eq(n.mul(d), long), rule, "Vector.Clamp: long vectors", pos("Vector.Clamp"), "a long vector does not get the given length")
		lc := vec(c.apply("Vector.LerpConst", v, u, d))
		lw := V.add(vec(c.apply("Vector.Clamp", c.mkVec(U.sub(V)), d)))
		c.ob(lc.eq(lw, noFacts), rule, "Vector.LerpConst: step", pos("Vector.LerpConst"), "the step towards the other vector is not limited to the distance")
		// a segment of length k that starts at w in the direction of the angle, and
		// a point t lengths along it and r to its side
		along := V2{cos, sin}
		cp := vec(c.apply("Vector.ClosestPointOnSegment", c.mkVec(W.add(along.mul(TMul(t, k))).add(along.perp().mul(r))), c.mkVec(W.add(along.mul(k))), w))
		cw := W.add(along.mul(TMul(k, TMax(zero, TMin(t, one)))))
		c.ob(cp.eq(cw, nonzero(k)), rule, "Vector.ClosestPointOnSegment: nearest point", pos("Vector.ClosestPointOnSegment"), "the result is not the nearest point of the segment")
	})
	P("nearest to the origin", func() {
		// a segment of length k in the direction of the angle, that passes the origin
		// t lengths from its start and r to its side
		along := V2{cos, sin}
		from := along.mul(TNeg(TMul(t, k))).add(along.perp().mul(r))
		a, b := c.mkVec(from), c.mkVec(from.add(along.mul(k)))
		nt := c.apply("Vector.ClosestT", a, b)
		for _, x := range []struct {
			n    string
			when *BDD
			at   *Term
		}{{"beside it", And(CondLt(zero, t, false), CondLt(t, one, false)), t}, {"before its start", CondLt(t, zero, false), zero}, {"past its end", CondLt(one, t, false), one}} {
			f := And(nonzero(k), x.when)
			eqN("Vector.ClosestT", nt, TSub(TScale(x.at, 2, 1), one), f, x.n)
			eqN("Vector.ClosestDist", c.apply("Vector.ClosestDist", a, b), from.add(along.mul(TMul(x.at, k))).dot(from.add(along.mul(TMul(x.at, k)))), f, x.n)
		}
		eqV("Vector.LerpT", c.apply("Vector.LerpT", v, u, TSub(TScale(t, 2, 1), one)), V.add(U.sub(V).mul(t)), noFacts, "interpolation")
		le, lo := V.dot(W), U.dot(W)
		iff("Vector.CheckAxis", toBDD(c.apply("Vector.CheckAxis", v, u, c.mkVec(V2{t, d}), w)), Or(cmpLe((V2{t, d}).dot(W), le), cmpLe((V2{t, d}).dot(W), lo)), noFacts, "not beyond both")
	})
	P("clamping to a box", func() {
		s := c.sum("BB.ClampVect", "", Config{})
		bb, pv := s.Params[0], s.Params[1]
		if !isPtr(pv) {
			return
		}
		g, x := vec(s.Ret), V2{get(s.Entry, pv, "X"), get(s.Entry, pv, "Y")}
		side := func(b string) *Term { return fld(bb, b) }
		for _, m := range []struct {
			n           string
			got, at     *Term
			below, over *Term
		}{{"across", g.x, x.x, side("L"), side("R")}, {"up", g.y, x.y, side("B"), side("T")}} {
			ord := AndAll(typeFact(s), cmpLe(m.below, m.over))
			eqN("BB.ClampVect", m.got, m.at, And(ord, inside(m.below, m.at, m.over)), "inside "+m.n)
			eqN("BB.ClampVect", m.got, m.below, And(ord, cmpLe(m.at, m.below)), "below "+m.n)
			eqN("BB.ClampVect", m.got, m.over, And(ord, cmpLe(m.over, m.at)), "above "+m.n)
		}
	})
	P("turning", func() {
		n1, n2 := vec(c.apply("Vector.Normalize", v)), vec(c.apply("Vector.Normalize", u))
		om := TApp("acos", tyFloat, c.apply("Clamp", n1.dot(n2), TNum(-1), TNum(1)))
		sl := vec(c.apply("Vector.SLerp", v, u, t))
		far := CondLt(floatT(1e-3), om, false)
		den := TInv(TApp("sin", tyFloat, om))
		want := V.mul(TMul(TApp("sin", tyFloat, TMul(TSub(TNum(1), t), om)), den)).add(U.mul(TMul(TApp("sin", tyFloat, TMul(t, om)), den)))
		c.ob(sl.eq(want, far), rule, "Vector.SLerp: turning", pos("Vector.SLerp"), "the result is (%s, %s)", short(sl.x), short(sl.y))
		lw := vec(c.apply("Vector.Lerp", v, u, t))
		c.ob(sl.eq(lw, CondLt(om, floatT(1e-9), false)), rule, "Vector.SLerp: same direction", pos("Vector.SLerp"), "vectors of one direction are not blended linearly: (%s, %s)", short(sl.x), short(sl.y))
		sc := vec(c.apply("Vector.SlerpConst", v, u, d))
		sw := vec(c.apply("Vector.SLerp", v, u, TDiv(TMin(d, om), om)))
		c.ob(sc.eq(sw, far), rule, "Vector.SlerpConst: step", pos("Vector.SlerpConst"), "the result is (%s, %s)", short(sc.x), short(sc.y))
	})
	P("wrapping", func() {
		bb := c.symb("bb", "BB")
		r := vec(c.apply("BB.WrapVect", bb, v))
		for _, x := range []struct {
			lo, hi, at, got *Term
			n               string
		}{{fld(bb, "L"), fld(bb, "R"), V.x, r.x, "x"}, {fld(bb, "B"), fld(bb, "T"), V.y, r.y, "y"}} {
			w := TSub(x.hi, x.lo)
			ord := CondLt(x.lo, x.hi, false)
			seen := 0
			walkTerm(x.got, func(m *Term) {
				if m.op == OApp && m.name == "mod" {
					seen++
					c.ob(proveEq(m.args[0], TSub(x.at, x.lo), ord) && proveEq(m.args[1], w, ord), rule, "BB.WrapVect: offset "+x.n, pos("BB.WrapVect"), "what is wrapped is %s", short(m))
					c.ob(proveEq(x.got, TAdd(x.lo, m), And(ord, CondLt(TNum(0), m, false))), rule, "BB.WrapVect: inside "+x.n, pos("BB.WrapVect"), "the result is %s", short(x.got))
					c.ob(proveEq(x.got, add(x.lo, m, w), And(ord, CondLt(m, TNum(0), false))), rule, "BB.WrapVect: from below "+x.n, pos("BB.WrapVect"), "the result is %s", short(x.got))
					on := And(ord, condEq0(m, false))
					c.ob(proveEq(x.got, x.lo, on) || proveEq(x.got, x.hi, on), rule, "BB.WrapVect: on the border "+x.n, pos("BB.WrapVect"), "the result is %s", short(x.got))
				}
			})
			c.ob(seen > 0, rule, "BB.WrapVect: wraps "+x.n, pos("BB.WrapVect"), "the result is %s", short(x.got))
		}
	})
	P("numbers", func() {
		f := c.symb("f", "float64")
		lo, hi := c.symb("lo", "float64"), c.symb("hi", "float64")
		ord := cmpLe(lo, hi)
		g := c.apply("Clamp", f, lo, hi)
		eqN("Clamp", g, f, And(ord, inside(lo, f, hi)), "values inside")
		eqN("Clamp", g, lo, And(ord, cmpLe(f, lo)), "values below")
		eqN("Clamp", g, hi, And(ord, CondLt(hi, f, false)), "values above")
		g = c.apply("Clamp01", f)
		eqN("Clamp01", g, f, inside(zero, f, one), "values inside")
		eqN("Clamp01", g, zero, cmpLe(f, zero), "values below")
		eqN("Clamp01", g, one, cmpLe(one, f), "values above")
		eqN("Lerp", c.apply("Lerp", lo, hi, t), TAdd(lo, TMul(TSub(hi, lo), t)), noFacts, "interpolation")
		g = c.apply("LerpConst", lo, hi, d)

		pd := cmpLe(zero, d)
		eqN("LerpConst", g, hi, AndAll(pd, CondLt(TSub(hi, lo), d, false), CondLt(TSub(lo, hi), d, false)), "arrives")
		eqN("LerpConst", g, TAdd(lo, d), AndAll(pd, CondLt(lo, hi, false), CondLt(d, TSub(hi, lo), false)), "steps up")
		eqN("LerpConst", g, TSub(lo, d), AndAll(pd, CondLt(hi, lo, false), CondLt(d, TSub(lo, hi), false)), "steps down")
	})
	// transforms
	at := func(tr, p *Term) V2 { return vec(c.apply("Transform.Point", tr, p)) }
	dir := func(tr, p *Term) V2 { return vec(c.apply("Transform.Vect", tr, p)) }
	id := func(x V2) *Term { return c.mkVec(x) }
	P("Transform", func() {
		eqV("NewTransformIdentity", id(at(c.apply("NewTransformIdentity"), v)), V, noFacts, "identity")
		M := c.apply("Transform.Mult", T1, T2)
		eqV("Transform.Mult", id(at(M, v)), at(T1, id(at(T2, v))), noFacts, "composition")
		o := at(T1, id(V2{zero, zero}))
		eqV("Transform.Vect", id(dir(T1, v)), at(T1, v).sub(o), noFacts, "linear part of Point")
		ex, ey := dir(T1, id(V2{one, zero})), dir(T1, id(V2{zero, one}))
		det := ex.cross(ey)
		inv := c.apply("Transform.Inverse", T1)
		eqV("Transform.Inverse", id(at(inv, id(at(T1, v)))), V, nonzero(det), "undoes the transform")
		eqV("Transform.Inverse", id(at(T1, id(at(inv, v)))), V, nonzero(det), "is undone by the transform")
		rig := c.apply("NewTransformRigid", u, a)
		eqV("NewTransformRigid", id(at(rig, v)), V2{TSub(TMul(V.x, cos), TMul(V.y, sin)), TAdd(TMul(V.x, sin), TMul(V.y, cos))}.add(U), noFacts, "rotation and translation")
		ri := c.apply("NewTransformRigidInverse", rig)
		eqV("NewTransformRigidInverse", id(at(ri, id(at(rig, v)))), V, noFacts, "undoes a rigid transform")
		eqV("NewTransformTranslate", id(at(c.apply("NewTransformTranslate", u), v)), V.add(U), noFacts, "translation")
		eqV("NewTransformScale", id(at(c.apply("NewTransformScale", k, t), v)), V2{TMul(V.x, k), TMul(V.y, t)}, noFacts, "scaling")
		eqV("NewTransformRotate", id(at(c.apply("NewTransformRotate", a), v)), V2{TSub(TMul(V.x, cos), TMul(V.y, sin)), TAdd(TMul(V.x, sin), TMul(V.y, cos))}, noFacts, "rotation")
		for _, n := range []string{"NewTransform", "NewTransformTranspose"} {
			var as []*Term
			for _, q := range []string{"a", "c", "tx", "b", "d", "ty"} {
				as = append(as, c.symb("m"+q, "float64"))
			}
			eqV(n, id(at(c.apply(n, as...), v)), V2{add(mul(as[0], V.x), mul(as[1], V.y), as[2]), add(mul(as[3], V.x), mul(as[4], V.y), as[5])}, noFacts, "rows of the matrix")
		}
		wr := c.apply("Transform.Wrap", T1, T2)
		eqV("Transform.Wrap", id(at(T1, id(at(wr, v)))), at(T2, id(at(T1, v))), nonzero(det), "conjugation")
		bs := c.apply("Transform.BoneScale", T1, u, w)
		eqV("Transform.BoneScale", id(at(bs, id(V2{zero, zero}))), U, noFacts, "start of the bone")
		eqV("Transform.BoneScale", id(at(bs, id(V2{one, zero}))), W, noFacts, "end of the bone")
		eqV("Transform.BoneScale", id(dir(bs, id(V2{zero, one}))), W.sub(U).perp(), noFacts, "across the bone")
		as := c.apply("Transform.AxialScale", T1, id(V2{cos, sin}), w, k)
		u, U := id(V2{cos, sin}), V2{cos, sin}
		eqV("Transform.AxialScale", id(at(as, w)), W, noFacts, "the pivot stays")
		eqV("Transform.AxialScale", id(dir(as, u)), U.mul(k), noFacts, "scales along the axis")
		eqV("Transform.AxialScale", id(dir(as, id(U.perp()))), U.perp(), noFacts, "keeps what is across the axis")
		oo := c.apply("Transform.Ortho", T1, A)
		sz := And(nonzero(TSub(fld(A, "R"), fld(A, "L"))), nonzero(TSub(fld(A, "T"), fld(A, "B"))))
		eqV("Transform.Ortho", id(at(oo, id(V2{fld(A, "L"), fld(A, "B")}))), V2{TNum(-1), TNum(-1)}, sz, "one corner")
		eqV("Transform.Ortho", id(at(oo, id(V2{fld(A, "R"), fld(A, "T")}))), V2{one, one}, sz, "the other corner")
	})
	valid := func(b *Term) *BDD { return And(cmpLe(fld(b, "L"), fld(b, "R")), cmpLe(fld(b, "B"), fld(b, "T"))) }
	in := func(name string, inner, outer *Term, facts *BDD, what string) {
		le(name, fld(outer, "L"), fld(inner, "L"), facts, what+" (left)")
		le(name, fld(outer, "B"), fld(inner, "B"), facts, what+" (bottom)")
		le(name, fld(inner, "R"), fld(outer, "R"), facts, what+" (right)")
		le(name, fld(inner, "T"), fld(outer, "T"), facts, what+" (top)")
	}
	eqBB := func(name string, got *Term, l, b, rr, tt *Term, facts *BDD, what string) {
		c.ob(proveEq(fld(got, "L"), l, facts) && proveEq(fld(got, "B"), b, facts) && proveEq(fld(got, "R"), rr, facts) && proveEq(fld(got, "T"), tt, facts), rule, name+": "+what, pos(name), "the result is %s", short(got))
	}
	P("Transform.BB", func() {
		g := c.apply("Transform.BB", T1, A)
		for _, q := range [][2]string{{"L", "B"}, {"L", "T"}, {"R", "B"}, {"R", "T"}} {
			p := at(T1, id(V2{fld(A, q[0]), fld(A, q[1])}))
			le("Transform.BB", fld(g, "L"), p.x, valid(A), "holds corner "+q[0]+q[1]+" (left)")
			le("Transform.BB", p.x, fld(g, "R"), valid(A), "holds corner "+q[0]+q[1]+" (right)")
			le("Transform.BB", fld(g, "B"), p.y, valid(A), "holds corner "+q[0]+q[1]+" (bottom)")
			le("Transform.BB", p.y, fld(g, "T"), valid(A), "holds corner "+q[0]+q[1]+" (top)")
		}
		// and no more: its size is that of the transformed box
		ex, ey := dir(T1, id(V2{TSub(fld(A, "R"), fld(A, "L")), zero})), dir(T1, id(V2{zero, TSub(fld(A, "T"), fld(A, "B"))}))
		eqN("Transform.BB", TSub(fld(g, "R"), fld(g, "L")), TMax(TAbs(TAdd(ex.x, ey.x)), TAbs(TSub(ex.x, ey.x))), noFacts, "width")
		eqN("Transform.BB", TSub(fld(g, "T"), fld(g, "B")), TMax(TAbs(TAdd(ex.y, ey.y)), TAbs(TSub(ex.y, ey.y))), noFacts, "height")
	})
	P("BB", func() {
		q := func(b *Term, n string) *Term { return fld(b, n) }
		n4 := []*Term{c.symb("l", "float64"), c.symb("b", "float64"), c.symb("r2", "float64"), c.symb("t2", "float64")}
		eqBB("NewBB", c.apply("NewBB", n4...), n4[0], n4[1], n4[2], n4[3], noFacts, "sides")
		eqBB("NewBBForExtents", c.apply("NewBBForExtents", v, k, t), TSub(V.x, k), TSub(V.y, t), TAdd(V.x, k), TAdd(V.y, t), noFacts, "centre and half sizes")
		eqBB("NewBBForCircle", c.apply("NewBBForCircle", v, r), TSub(V.x, r), TSub(V.y, r), TAdd(V.x, r), TAdd(V.y, r), noFacts, "centre and radius")
		ov := AndAll(cmpLe(q(A, "L"), q(B, "R")), cmpLe(q(B, "L"), q(A, "R")), cmpLe(q(A, "B"), q(B, "T")), cmpLe(q(B, "B"), q(A, "T")))
		iff("BB.Intersects", toBDD(c.apply("BB.Intersects", A, B)), ov, noFacts, "overlap")
		ct := AndAll(cmpLe(q(A, "L"), q(B, "L")), cmpLe(q(B, "R"), q(A, "R")), cmpLe(q(A, "B"), q(B, "B")), cmpLe(q(B, "T"), q(A, "T")))
		iff("BB.Contains", toBDD(c.apply("BB.Contains", A, B)), ct, noFacts, "containment")
		cv := AndAll(cmpLe(q(A, "L"), V.x), cmpLe(V.x, q(A, "R")), cmpLe(q(A, "B"), V.y), cmpLe(V.y, q(A, "T")))
		iff("BB.ContainsVect", toBDD(c.apply("BB.ContainsVect", A, v)), cv, noFacts, "containment of a point")
		m := c.apply("BB.Merge", A, B)
		in("BB.Merge", A, m, noFacts, "holds the first box")
		in("BB.Merge", B, m, noFacts, "holds the second box")
		eqBB("BB.Merge", m, TMin(q(A, "L"), q(B, "L")), TMin(q(A, "B"), q(B, "B")), TMax(q(A, "R"), q(B, "R")), TMax(q(A, "T"), q(B, "T")), noFacts, "smallest box holding both")
		eqN("BB.MergedArea", c.apply("BB.MergedArea", A, B), c.apply("BB.Area", m), noFacts, "area of the merged box")
		eqN("BB.Area", c.apply("BB.Area", A), TMul(TSub(q(A, "R"), q(A, "L")), TSub(q(A, "T"), q(A, "B"))), noFacts, "area")
		e := c.apply("BB.Expand", A, v)
		in("BB.Expand", A, e, noFacts, "holds the box")
		eqBB("BB.Expand", e, TMin(q(A, "L"), V.x), TMin(q(A, "B"), V.y), TMax(q(A, "R"), V.x), TMax(q(A, "T"), V.y), noFacts, "smallest box holding the point, too")
		eqV("BB.Center", c.apply("BB.Center", A), V2{TMul(half, TAdd(q(A, "L"), q(A, "R"))), TMul(half, TAdd(q(A, "B"), q(A, "T")))}, noFacts, "centre")
		eqBB("BB.Offset", c.apply("BB.Offset", A, v), TAdd(q(A, "L"), V.x), TAdd(q(A, "B"), V.y), TAdd(q(A, "R"), V.x), TAdd(q(A, "T"), V.y), noFacts, "translation")
		eqN("BB.Proximity", c.apply("BB.Proximity", A, B), TAdd(TAbs(add(q(A, "L"), q(A, "R"), TNeg(q(B, "L")), TNeg(q(B, "R")))), TAbs(add(q(A, "B"), q(A, "T"), TNeg(q(B, "B")), TNeg(q(B, "T"))))), noFacts, "distance of the centres")
	})
	P("BB.SegmentQuery", func() {
		name := "BB.SegmentQuery"
		g := c.apply(name, A, u, w)
		inf := TMaxF()
		// the segment is u + t(D), and the box is given by the values of t at
		// which the segment passes its sides
		D := vec(c.symb("D", "Vector"))
		p, q, r, s := c.symb("p", "float64"), c.symb("q", "float64"), c.symb("r", "float64"), c.symb("s", "float64")
		fin := func(x *Term) *BDD { return inside(TNeg(inf), x, inf) }
		box := func(l, b, r, t *Term) *Term {
			return TStruct(c.p.TPkg.Scope().Lookup("BB").Type(), []*Term{l, b, r, t})
		}
		check := func(what string, bb *Term, d V2, f, h *BDD, en *Term) {
			P(name, func() {
				to := id(U.add(d))
				g := c.apply(name, bb, u, to)
				ok := !sat(And(f, h)) || proveEq(g, TMax(en, zero), And(f, h))
				ok2 := !sat(And(f, Not(h))) || proveEq(g, inf, And(f, Not(h)))
				c.ob(ok, rule, name+": "+what+" hit", pos(name), "the fraction is %s", short(g))
				c.ob(ok2, rule, name+": "+what+" miss", pos(name), "a miss gives %s", short(g))
				iff("BB.IntersectsSegment", toBDD(c.apply("BB.IntersectsSegment", bb, u, to)), h, And(f, CondLt(one, inf, false)), what)
			})
		}
		hit := func(en, lv *Term) *BDD { return AndAll(cmpLe(en, lv), cmpLe(zero, lv), cmpLe(en, one)) }
		side := func(u, d, p, q *Term, up bool) (*Term, *Term) {
			if up {
				return TAdd(u, TMul(d, p)), TAdd(u, TMul(d, q))
			}
			return TAdd(u, TMul(d, q)), TAdd(u, TMul(d, p))
		}
		sign := func(d *Term, up bool) *BDD {
			if up {
				return CondLt(zero, d, false)
			}
			return CondLt(d, zero, false)
		}
		for _, up := range []bool{true, false} {
			l, rr := side(U.x, D.x, p, q, up)
			f := AndAll(sign(D.x, up), cmpLe(p, q), fin(p), fin(q))
			lo, hi := c.symb("lo", "float64"), c.symb("hi", "float64")
			flatIn := And(cmpLe(lo, U.y), cmpLe(U.y, hi))
			check("horizontal", box(l, lo, rr, hi), V2{D.x, zero}, And(f, cmpLe(lo, hi)), And(flatIn, hit(p, q)), p)
			b, t := side(U.y, D.y, p, q, up)
			f = AndAll(sign(D.y, up), cmpLe(p, q), fin(p), fin(q))
			flatIn = And(cmpLe(lo, U.x), cmpLe(U.x, hi))
			check("vertical", box(lo, b, hi, t), V2{zero, D.y}, And(f, cmpLe(lo, hi)), And(flatIn, hit(p, q)), p)
			for _, up2 := range []bool{true, false} {
				b, t := side(U.y, D.y, r, s, up2)
				f := AndAll(sign(D.x, up), sign(D.y, up2), cmpLe(p, q), cmpLe(r, s), fin(p), fin(q), fin(r), fin(s))
				for i := 0; i < 4; i++ {
					en, lv, first, last := p, s, CondLe(r, p, false), CondLt(s, q, false)
					if i&1 != 0 {
						en, first = r, CondLt(p, r, false)
					}
					if i&2 != 0 {
						lv, last = q, CondLe(q, s, false)
					}
					check("slanted", box(l, b, rr, t), D, AndAll(f, first, last), hit(en, lv), en)
				}
			}
		}
		iff("BB.IntersectsSegment", toBDD(c.apply("BB.IntersectsSegment", A, u, w)), Not(CondEq(g, inf)), noFacts, "agrees with SegmentQuery")
	})
	c.atLeast(rule, 100)
}

// isTiny: a constant of no more than 1e-10, positive or zero.
func isTiny(t *Term) bool {
	p := toPoly(t)
	for _, m := range p.ts {
		if len(m.m) > 0 {
			return false
		}
		f, _ := m.c.Float64()
		if f < 0 || f > 1e-10 {
			return false
		}
	}
	return true
}

func checkC35(c *Ctx) {
	classes := []string{"Body.v", "Body.w", "Body.f", "Body.t", "Body.p", "Body.a", "Body.v_bias", "Body.w_bias", "Vector.X", "Vector.Y"}
	cfg := trackCfg(c.p, classes...)
	keepTF := cfg.KeepOnUser
	cfg.KeepOnUser = keepTF
	rule := "integration"
	run := func(name string, f func(s *Summary, b *Term, facts *BDD)) {
		c.part(name, func() {
			s := c.sum(name, "integ", cfg)
			f(s, s.Params[0], And(s.G, s.Assume))
		})
	}
	v2 := func(s *Summary, b *Term, q string) (V2, V2) { return getV(s.Entry, b, q), getV(s.Mem, b, q) }
	for _, n := range []string{"Body.UpdateVelocity", "BodyUpdateVelocity"} {
		n := n
		run(n, func(s *Summary, b *Term, f *BDD) {
			kin := CondEq(typeOfBody(c, s.Entry, b), TInt(constInt(c, "BODY_KINEMATIC")))
			f = And(f, Not(kin))
			g, damp, dt := vec(s.Params[1]), s.Params[2], s.Params[3]
			v, v1 := v2(s, b, "v")
			fo, fo1 := v2(s, b, "f")
			want := v.mul(damp).add(g.add(fo.mul(get(s.Entry, b, "m_inv"))).mul(dt))
			c.ob(v1.eq(want, f), rule, n+" velocity", s.Fn.Pos(), "the velocity becomes (%s, %s)", short(v1.x), short(v1.y))
			ww := TAdd(TMul(get(s.Entry, b, "w"), damp), mul(get(s.Entry, b, "t"), get(s.Entry, b, "i_inv"), dt))
			c.ob(proveEq(get(s.Mem, b, "w"), ww, f), rule, n+" spin", s.Fn.Pos(), "the angular velocity becomes %s", short(get(s.Mem, b, "w")))
			c.ob(isZero(fo1.x, f) && isZero(fo1.y, f) && isZero(get(s.Mem, b, "t"), f), rule, n+" forces", s.Fn.Pos(), "the forces are not used up")
		})
	}
	for _, n := range []string{"BodyUpdatePosition"} {
		n := n
		run(n, func(s *Summary, b *Term, f *BDD) {
			dt := s.Params[1]
			p, p1 := v2(s, b, "p")
			v, _ := v2(s, b, "v")
			vb, vb1 := v2(s, b, "v_bias")
			c.ob(p1.eq(p.add(v.add(vb).mul(dt)), f), rule, n+" position", s.Fn.Pos(), "the position becomes (%s, %s)", short(p1.x), short(p1.y))
			want := TAdd(get(s.Entry, b, "a"), TMul(TAdd(get(s.Entry, b, "w"), get(s.Entry, b, "w_bias")), dt))
			c.ob(proveEq(get(s.Mem, b, "a"), want, f), rule, n+" angle", s.Fn.Pos(), "the angle becomes %s", short(get(s.Mem, b, "a")))
			c.ob(isZero(vb1.x, f) && isZero(vb1.y, f) && isZero(get(s.Mem, b, "w_bias"), f), rule, n+" corrections", s.Fn.Pos(), "the corrective velocities are not used up")
			va := getV(s.Mem, b, "v")
			c.ob(va.eq(v, f) && proveEq(get(s.Mem, b, "w"), get(s.Entry, b, "w"), f), rule, n+" keeps velocity", s.Fn.Pos(), "the velocity changes")
		})
	}
	// points of the body
	world := func(m *Mem, b *Term, q V2) V2 {
		tr := get(m, b, "transform")
		return V2{add(mul(fld(tr, "a"), q.x), mul(fld(tr, "c"), q.y), fld(tr, "tx")), add(mul(fld(tr, "b"), q.x), mul(fld(tr, "d"), q.y), fld(tr, "ty"))}
	}
	turn := func(m *Mem, b *Term, q V2) V2 {
		tr := get(m, b, "transform")
		return V2{add(mul(fld(tr, "a"), q.x), mul(fld(tr, "c"), q.y)), add(mul(fld(tr, "b"), q.x), mul(fld(tr, "d"), q.y))}
	}
	type pt struct {
		force V2
		r     V2
	}
	in := func(s *Summary, b *Term, local bool) pt {
		f, p := vec(s.Params[1]), vec(s.Params[2])
		com := world(s.Entry, b, getV(s.Entry, b, "cog"))
		if local {
			f, p = turn(s.Entry, b, f), world(s.Entry, b, p)
		}
		return pt{f, p.sub(com)}
	}
	for _, w := range []string{"World", "Local"} {
		w := w
		run("Body.ApplyForceAt"+w+"Point", func(s *Summary, b *Term, f *BDD) {
			f = And(f, notNil(b))
			x := in(s, b, w == "Local")
			f0, f1 := v2(s, b, "f")
			c.ob(f1.eq(f0.add(x.force), f), rule, fname(s.Fn)+" force", s.Fn.Pos(), "the force becomes (%s, %s)", short(f1.x), short(f1.y))
			c.ob(proveEq(get(s.Mem, b, "t"), TAdd(get(s.Entry, b, "t"), x.r.cross(x.force)), f), rule, fname(s.Fn)+" torque", s.Fn.Pos(), "the torque becomes %s", short(get(s.Mem, b, "t")))
		})
		run("Body.ApplyImpulseAt"+w+"Point", func(s *Summary, b *Term, f *BDD) {
			f = And(f, notNil(b))
			x := in(s, b, w == "Local")
			v, v1 := v2(s, b, "v")
			c.ob(v1.eq(v.add(x.force.mul(get(s.Entry, b, "m_inv"))), f), rule, fname(s.Fn)+" velocity", s.Fn.Pos(), "the velocity becomes (%s, %s)", short(v1.x), short(v1.y))
			c.ob(proveEq(get(s.Mem, b, "w"), TAdd(get(s.Entry, b, "w"), TMul(get(s.Entry, b, "i_inv"), x.r.cross(x.force))), f), rule, fname(s.Fn)+" spin", s.Fn.Pos(), "the angular velocity becomes %s", short(get(s.Mem, b, "w")))
		})
		run("Body.VelocityAt"+w+"Point", func(s *Summary, b *Term, f *BDD) {
			com := world(s.Entry, b, getV(s.Entry, b, "cog"))
			p := vec(s.Params[1])
			if w == "Local" {
				p = world(s.Entry, b, p)
			}
			want := getV(s.Entry, b, "v").add(p.sub(com).perp().mul(get(s.Entry, b, "w")))
			c.ob(vec(s.Ret).eq(want, f), rule, fname(s.Fn), s.Fn.Pos(), "the velocity of the point is (%s, %s)", short(vec(s.Ret).x), short(vec(s.Ret).y))
		})
	}
	run("Body.KineticEnergy", func(s *Summary, b *Term, f *BDD) {
		v := getV(s.Entry, b, "v")
		w := get(s.Entry, b, "w")
		// a body at rest along one of its degrees of freedom has no energy there,
		// whatever its mass (an infinite mass times nothing)
		lin, ang := TMul(v.dot(v), get(s.Entry, b, "m")), mul(w, w, get(s.Entry, b, "i"))
		mv, mw := nonzero(v.dot(v)), nonzero(mul(w, w))
		c.ob(proveEq(s.Ret, TAdd(lin, ang), AndAll(f, mv, mw)), rule, fname(s.Fn)+" moving and turning", s.Fn.Pos(), "the kinetic energy is %s", short(s.Ret))
		c.ob(proveEq(s.Ret, lin, AndAll(f, mv, Not(mw))), rule, fname(s.Fn)+" moving", s.Fn.Pos(), "the kinetic energy is %s", short(s.Ret))
		c.ob(proveEq(s.Ret, ang, AndAll(f, Not(mv), mw)), rule, fname(s.Fn)+" turning", s.Fn.Pos(), "the kinetic energy is %s", short(s.Ret))
		c.ob(isZero(s.Ret, AndAll(f, Not(mv), Not(mw))), rule, fname(s.Fn)+" at rest", s.Fn.Pos(), "the kinetic energy is %s", short(s.Ret))
	})
	// what is set is what is read
	pair := func(set, gets, field string) {
		run(set, func(s *Summary, b *Term, f *BDD) {
			got := get(s.Mem, b, field)
			want := s.Params[1]
			if len(s.Params) == 3 {
				c.ob(vec(got).eq(V2{s.Params[1], s.Params[2]}, f), rule, set, s.Fn.Pos(), "the value kept is %s", short(got))
			} else if _, ok := structOfTerm(want); ok {
				c.ob(vec(got).eq(vec(want), f), rule, set, s.Fn.Pos(), "the value kept is %s", short(got))
			} else {
				c.ob(proveEq(got, want, f), rule, set, s.Fn.Pos(), "the value kept is %s", short(got))
			}
		})
		run(gets, func(s *Summary, b *Term, f *BDD) {
			want := get(s.Entry, b, field)
			if _, ok := structOfTerm(want); ok {
				c.ob(vec(s.Ret).eq(vec(want), f), rule, gets, s.Fn.Pos(), "the value returned is %s", short(s.Ret))
			} else {
				c.ob(proveEq(s.Ret, want, f), rule, gets, s.Fn.Pos(), "the value returned is %s", short(s.Ret))
			}
		})
	}
	pair("Body.SetVelocity", "Body.Velocity", "v")
	pair("Body.SetVelocityVector", "Body.Velocity", "v")
	pair("Body.SetAngularVelocity", "Body.AngularVelocity", "w")
	pair("Body.SetForce", "Body.Force", "f")
	pair("Body.SetTorque", "Body.Torque", "t")
	c.part("callbacks", func() {
		for set, field := range map[string]string{"Body.SetVelocityUpdateFunc": "velocity_func", "Body.SetPositionUpdateFunc": "position_func"} {
			s := c.sum(set, "integ callback", trackCfg(c.p, "Body."+field))
			got := get(s.Mem, s.Params[0], field)
			c.ob(proveEq(got, s.Params[1], And(s.G, s.Assume)), rule, set, s.Fn.Pos(), "the function kept is %s", short(got))
		}
		s := c.sum("NewBody", "integ", Config{NoEnter: true, KeepOnUser: func(string) bool { return true }})
		for field, want := range map[string][]string{"velocity_func": {"BodyUpdateVelocity", "Body.UpdateVelocity"}, "position_func": {"BodyUpdatePosition", "Body.UpdatePosition"}} {
			got := get(s.Mem, s.Ret, field)
			ok := false
			for _, w := range want {
				ok = ok || callsFunc(got, w)
			}
			c.ob(ok, rule, "NewBody "+field, s.Fn.Pos(), "a new body integrates with %s", short(got))
		}
	})
	c.atLeast(rule, 36)
}

func structOfTerm(t *Term) (*Term, bool) {
	defer func() { recover() }()
	if t.typ == nil {
		return nil, false
	}
	return t, typeName(t.typ) == "Vector"
}

var _ = ssa.BuilderMode(0)

func init() {
	register(&Check{ID: "C29", Run: checkC29, Assume: []string{"real arithmetic: rounding is not modelled"},
		Explanation: "Values of the vector, transform and bounding-box functions in polynomial normal form, compared with the algebra they are documented to implement; orderings by sign reasoning over min, max and absolute value."})
	register(&Check{ID: "C35", Run: checkC35, Assume: []string{"real arithmetic: rounding is not modelled", "distinct access paths are distinct objects"},
		Explanation: "Guarded value summaries of the integration functions, of forces, impulses and velocities at a point, and of the velocity and force accessors, compared with the equations of motion."})
}
