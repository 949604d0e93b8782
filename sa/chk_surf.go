package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

// C18: what queries of one shape answer lies on its surface.

type hit struct {
	when   *BDD
	t      *Term
	n, pt  V2
	answer map[string]*Term
}

// floatConst: a constant of the package as the number computed with.
func (c *Ctx) floatConst(name string) *Term {
	k := c.p.Pkg.Const(name)
	if k == nil {
		c.fail("anchor", name, token.NoPos, "constant %s not found", name)
		panic(abortCheck{})
	}
	v, _ := constant.Float64Val(k.Value.Value)
	return TRat(shortest(new(big.Rat).SetFloat64(v)), tyFloat)
}

func notTiny(d *Term) *BDD { return Not(CondEq(d, TNum(0))) }

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// lerp2 is the point of the way from a to b at t.
func lerp2(a, b V2, t *Term) V2 { return a.mul(TSub(TNum(1), t)).add(b.mul(t)) }

func (c *Ctx) unit(v V2) V2 { return vec(c.apply("Vector.Normalize", c.mkVec(v))) }

// circleHit: where a segment of radius r2 first touches a circle.
func (c *Ctx) circleHit(center V2, r1 *Term, a, b V2, r2 *Term) *hit {
	da, d, rs := a.sub(center), b.sub(a), TAdd(r1, r2)
	qa, qb := d.dot(d), da.dot(d)
	det := TSub(TMul(qb, qb), TMul(qa, TSub(da.dot(da), TMul(rs, rs))))
	t := TDiv(TSub(TNeg(qb), TApp("sqrt", tyFloat, det)), qa)
	n := c.unit(lerp2(da, b.sub(center), t))
	return &hit{when: AndAll(CondLe(TNum(0), det, false), CondLe(TNum(0), t, false), CondLe(t, TNum(1), false)), t: t, n: n, pt: lerp2(a, b, t).sub(n.mul(r2))}
}

func checkC18(c *Ctx) {
	eps := func() *Term { return c.floatConst("MAGIC_EPSILON") }
	cfg := Config{NoEnter: true}

	// point queries
	rule := "nearest point"
	around := func(name string, s *Summary, f *BDD, closest V2, d *Term, sign *BDD, r *Term, flat V2) {
		// d: the distance to the skeleton, negated where sign holds
		p, info, pos := vec(s.Params[1]), s.Params[2], s.Fn.Pos()
		sd := TIte(sign, d, TNeg(d))
		c.ob(proveEq(get(s.Mem, info, "Distance"), TSub(sd, r), f), rule, name+" distance", pos, "the distance is %s", short(get(s.Mem, info, "Distance")))
		delta := p.sub(closest)
		far := AndAll(f, notTiny(d))
		g := delta.mul(TInv(sd))
		pt := getV(s.Mem, info, "Point")
		w := closest.add(g.mul(r))
		c.ob(pt.eq(w, far), rule, name+" point", pos, "the point is %s, %s: not on the surface", short(pt.x), short(pt.y))
		at := AndAll(f, CondEq(d, TNum(0)))
		if sat(at) {
			// any point of the surface, as long as it is one
			flatPt := pt.eq(closest, at) || pt.eq(closest.add(flat.mul(r)), at)
			c.ob(flatPt, rule, name+" point inside", pos, "for a point without nearest direction the point is %s, %s", short(pt.x), short(pt.y))
		}
		gr := getV(s.Mem, info, "Gradient")
		wide := AndAll(f, CondLt(eps(), d, false), notTiny(d))
		c.ob(gr.eq(g, wide), rule, name+" gradient", pos, "the gradient is %s, %s: not away from the surface", short(gr.x), short(gr.y))
		near := AndAll(f, Not(CondLt(eps(), d, false)))
		c.ob(gr.eq(flat, And(near, CondEq(d, TNum(0)))), rule, name+" gradient near", pos, "the gradient on the surface is %s, %s", short(gr.x), short(gr.y))
	}
	c.part("Circle.PointQuery", func() {
		name := "Circle.PointQuery"
		s := c.sum(name, "surf", cfg)
		o := s.Params[0]
		tc := getV(s.Entry, o, "tc")
		r := get(s.Entry, o, "r")
		d := vec(s.Params[1]).sub(tc).len()
		around(name, s, typeFact(s), tc, d, bddTrue, r, V2{TNum(0), TNum(1)})
		c.answers(rule, name, s, get(s.Entry, o, "Shape"))
	})
	c.part("Segment.PointQuery", func() {
		name := "Segment.PointQuery"
		s := c.sum(name, "surf", cfg)
		o := s.Params[0]
		p := s.Params[1]
		cl := vec(c.apply("Vector.ClosestPointOnSegment", p, c.mkVec(getV(s.Entry, o, "ta")), c.mkVec(getV(s.Entry, o, "tb"))))
		d := vec(p).sub(cl).len()
		around(name, s, typeFact(s), cl, d, bddTrue, get(s.Entry, o, "r"), getV(s.Entry, o, "tn"))
		c.answers(rule, name, s, get(s.Entry, o, "Shape"))
	})
	c.part("PolyShape.PointQuery", func() {
		name := "PolyShape.PointQuery"
		s := c.sum(name, "surf", cfg)
		o, p, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		planes, count := get(s.Entry, o, "planes"), get(s.Entry, o, "count")
		f := CondLe(TInt(1), count, true)
		why := "no loop goes over the edges"
		for _, e := range s.Events {
			if e.Kind != "loop" || e.Loop.Back == nil {
				continue
			}
			edges, g, msg := planeEdges(e, planes, count, f)
			if msg != "" {
				why = msg
				continue
			}
			var best *planeEdge
			var D, C, N, O *PhiInfo
			for _, ed := range edges {
				cl := vec(c.apply("Vector.ClosestPointOnSegment", p, c.mkVec(ed.prev), c.mkVec(ed.cur)))
				dist := vec(p).sub(cl).len()
				D, C, N, O = nil, nil, nil, nil
				for _, ph := range e.Loop.Phis {
					if ph.Var == nil || ph.Invariant {
						continue
					}
					switch {
					case isFloat(ph.Var.typ):
						less, more := CondLt(dist, ph.Var, false), CondLt(ph.Var, dist, false)
						if proveEq(ph.Init, TMaxF(), bddTrue) && proveEq(ph.Back, dist, And(g, less)) && proveEq(ph.Back, ph.Var, And(g, more)) {
							D = ph
						}
					}
				}
				if D == nil {
					why = "the least distance to an edge is not kept"
					continue
				}
				less, more := AndAll(g, CondLt(dist, D.Var, false)), AndAll(g, CondLt(D.Var, dist, false))
				for _, ph := range e.Loop.Phis {
					if ph.Var == nil || ph.Invariant {
						continue
					}
					if typeName(ph.Var.typ) == "Vector" {
						b := vec(ph.Back)
						keep := b.eq(vec(ph.Var), more)
						if keep && b.eq(cl, less) {
							C = ph
						} else if keep && b.eq(ed.n, less) {
							N = ph
						}
					}
					if isBool(ph.Var.typ) {
						out := CondLt(TNum(0), ed.n.dot(vec(p).sub(ed.cur)), false)
						if toBDD(ph.Init) == bddFalse && sameCond(toBDD(ph.Back), Or(toBDD(ph.Var), out), g) {
							O = ph
						}
					}
				}
				if C == nil || N == nil || O == nil {
					why = "the nearest point, its edge's normal, or whether the point is outside, is not kept"
					continue
				}
				best = ed
				break
			}
			if best == nil {
				continue
			}
			why = ""
			ff := AndAll(typeFact(s), f, CondLe(TNum(0), D.Var, false))
			around(name, s, ff, vec(C.Var), D.Var, toBDD(O.Var), get(s.Entry, o, "r"), vec(N.Var))
			break
		}
		c.ob(why == "", rule, name+" edges", pos, "the nearest edge is not found: %s", why)
		c.answers(rule, name, s, get(s.Entry, o, "Shape"))
	})
	c.atLeast(rule, 18)

	rule = "entry point"
	c.part("CircleSegmentQuery", func() {
		name := "CircleSegmentQuery"
		s := c.sum(name, "surf", cfg)
		P := s.Params
		h := c.circleHit(vec(P[1]), P[2], vec(P[3]), vec(P[4]), P[5])
		c.hitIs(rule, name, s, s.Mem, P[6], typeFact(s), h.when, h, P[0])
		c.unhit(rule, name, s, P[6], And(typeFact(s), Not(h.when)))
	})
	c.part("Circle.SegmentQuery", func() {
		name := "Circle.SegmentQuery"
		s := c.sum(name, "surf", cfg)
		P := s.Params
		h := c.circleHit(getV(s.Entry, P[0], "tc"), get(s.Entry, P[0], "r"), vec(P[1]), vec(P[2]), P[3])
		c.hitIs(rule, name, s, s.Mem, P[4], typeFact(s), h.when, h, get(s.Entry, P[0], "Shape"))
		c.unhit(rule, name, s, P[4], And(typeFact(s), Not(h.when)))
	})
	c.part("Segment.SegmentQuery", func() {
		name := "Segment.SegmentQuery"
		s := c.sum(name, "surf", cfg)
		P := s.Params
		o, a, b, r2, info := P[0], vec(P[1]), vec(P[2]), P[3], P[4]
		f := AndAll(typeFact(s), c.blankHit(s, info, b))
		n, ta, tb := getV(s.Entry, o, "tn"), getV(s.Entry, o, "ta"), getV(s.Entry, o, "tb")
		r1 := get(s.Entry, o, "r")
		r := TAdd(r1, r2)
		d := ta.sub(a).dot(n)
		shape := get(s.Entry, o, "Shape")
		delta := b.sub(a)
		for _, side := range []struct {
			nm   string
			when *BDD
			sg   int64
		}{{"from below", CondLt(TNum(0), d, false), -1}, {"from above", Not(CondLt(TNum(0), d, false)), 1}} {
			fl := n.mul(TNum(side.sg)) // the normal of the side that is met
			off := fl.mul(r)
			across := CondLe(TMul(delta.cross(ta.add(off).sub(a)), delta.cross(tb.add(off).sub(a))), TNum(0), false)
			dOff := TAdd(d, TScale(r, side.sg, 1))
			ad, bd := TNeg(dOff), TSub(delta.dot(n), dOff)
			t := TDiv(ad, TSub(ad, bd))
			h := &hit{when: CondLt(TMul(ad, bd), TNum(0), false), t: t, n: fl, pt: lerp2(a, b, t).sub(fl.mul(r2))}
			x := AndAll(f, side.when, across)
			c.hitIs(rule, name+" "+side.nm, s, s.Mem, info, x, h.when, h, shape)
			c.unhit(rule, name+" "+side.nm, s, info, And(x, Not(h.when)))
			// past an end of the flat side: the rounded ends
			y := AndAll(f, side.when, Not(across))
			h1, h2 := c.circleHit(ta, r1, a, b, r2), c.circleHit(tb, r1, a, b, r2)
			rnd := And(y, Not(CondEq(r, TNum(0))))
			first := CondLt(h1.t, h2.t, false)
			second := CondLt(h2.t, h1.t, false)
			c.hitIs(rule, name+" "+side.nm+" first end", s, s.Mem, info, rnd, And(h1.when, Or(Not(h2.when), first)), h1, shape, TNum(1))
			c.hitIs(rule, name+" "+side.nm+" second end", s, s.Mem, info, rnd, And(h2.when, Or(Not(h1.when), second)), h2, shape, TNum(1))
			c.unhit(rule, name+" "+side.nm+" past the ends", s, info, AndAll(rnd, Not(h1.when), Not(h2.when)))
			c.unhit(rule, name+" "+side.nm+" thin", s, info, And(y, CondEq(r, TNum(0))))
		}
	})
	c.part("PolyShape.SegmentQuery", func() {
		name := "PolyShape.SegmentQuery"
		s := c.sum(name, "surf", cfg)
		P := s.Params
		o, a, b, r2, info := P[0], vec(P[1]), vec(P[2]), P[3], P[4]
		pos := s.Fn.Pos()
		planes, count := get(s.Entry, o, "planes"), get(s.Entry, o, "count")
		r := get(s.Entry, o, "r")
		rs := TAdd(r, r2)
		shape := get(s.Entry, o, "Shape")
		f := And(CondLe(TInt(1), count, true), c.blankHit(s, info, b))
		faces, ends := "no loop goes over the faces", "no loop goes over the vertices"
		for _, e := range s.Events {
			if e.Kind != "loop" || e.Loop.Back == nil {
				continue
			}
			edges, g, msg := planeEdges(e, planes, count, f)
			if msg != "" {
				continue
			}
			l := e.Loop
			for _, ed := range edges {
				if faces == "" && ends == "" {
					break
				}
				// a face
				an, bn := a.dot(ed.n), b.dot(ed.n)
				d := TSub(TSub(an, ed.cur.dot(ed.n)), rs)
				t := TDiv(d, TSub(an, bn))
				pt := lerp2(a, b, t)
				dt := ed.n.cross(pt)
				h := &hit{t: t, n: ed.n, pt: pt.sub(ed.n.mul(r2)), when: AndAll(CondLe(TNum(0), d, false), CondLe(TNum(0), t, false), CondLe(t, TNum(1), false), CondLe(ed.n.cross(ed.prev), dt, false), CondLe(dt, ed.n.cross(ed.cur), false))}
				if faces != "" && implies(f, e.Guard) {
					faces = c.hitInLoop(l, info, g, h.when, h, shape)
				}
				// a rounded corner, if it is met before what was found so far
				v := c.circleHit(ed.cur, r, a, b, r2)
				sooner := CondLt(v.t, get(l.Iter, info, "Alpha"), false)
				first := And(v.when, sooner)
				before := And(CondLe(get(l.Iter, info, "Alpha"), TNum(1), false), Or(Not(sooner), CondLt(v.t, TNum(1), false)))
				if ends != "" && sameCond(e.Guard, CondLt(TNum(0), rs, false), f) {
					ends = c.hitInLoop(l, info, And(g, before), first, v, shape)
				}
			}
		}
		c.ob(faces == "", rule, name+" faces", pos, "hits of the faces: %s", faces)
		c.ob(ends == "", rule, name+" corners", pos, "hits of the rounded corners: %s", ends)
		// and nothing else
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind == "store" && isInfo(locClass(e.Loc)) && len(ls) == 0 {
				c.fail(rule, name+" else", e.Instr.Pos(), "the answer also becomes %s", short(e.Val))
			}
		})
	})
	c.atLeast(rule, 30)
}

// blankHit: the answer handed over is blank.
func (c *Ctx) blankHit(s *Summary, info *Term, b V2) *BDD {
	n, p := getV(s.Entry, info, "Normal"), getV(s.Entry, info, "Point")
	return AndAll(Not(notNil(get(s.Entry, info, "Shape"))), CondEq(get(s.Entry, info, "Alpha"), TNum(1)), CondEq(p.x, b.x), CondEq(p.y, b.y), CondEq(n.x, TNum(0)), CondEq(n.y, TNum(0)))
}

// hitIs: when hit, the answer is that of h.
func (c *Ctx) hitIs(rule, name string, s *Summary, m *Mem, info *Term, f, when *BDD, h *hit, shape *Term, below ...*Term) {
	x := And(f, when)
	for _, b := range below {
		x = And(x, CondLt(h.t, b, false))
	}
	pos := s.Fn.Pos()
	c.ob(sat(x), rule, name+" can hit", pos, "it is never hit")
	c.ob(proveEq(get(m, info, "Shape"), shape, x), rule, name+" shape", pos, "the shape hit is %s", short(get(m, info, "Shape")))
	c.ob(proveEq(get(m, info, "Alpha"), h.t, x), rule, name+" alpha", pos, "the hit is at %s of the way", short(get(m, info, "Alpha")))
	n, p := getV(m, info, "Normal"), getV(m, info, "Point")
	c.ob(n.eq(h.n, x), rule, name+" normal", pos, "the normal is %s, %s", short(n.x), short(n.y))
	c.ob(p.eq(h.pt, x), rule, name+" point", pos, "the point hit is %s, %s", short(p.x), short(p.y))
}

// unhit: the answer stays as it was.
func (c *Ctx) unhit(rule, name string, s *Summary, info *Term, f *BDD) {
	for _, fd := range []string{"Shape", "Alpha", "Point.X", "Point.Y", "Normal.X", "Normal.Y"} {
		got := get(s.Mem, info, fd)
		c.ob(proveEq(got, get(s.Entry, info, fd), f), rule, name+" miss", s.Fn.Pos(), "when it is missed %s becomes %s", fd, short(got))
	}
}

func (c *Ctx) hitInLoop(l *LoopInfo, info *Term, g, when *BDD, h *hit, shape *Term) string {
	x := And(g, when)
	if !sat(x) {
		return "it is never hit"
	}
	n, p := getV(l.Back, info, "Normal"), getV(l.Back, info, "Point")
	switch {
	case !proveEq(get(l.Back, info, "Shape"), shape, x):
		return "the shape is " + short(get(l.Back, info, "Shape"))
	case !proveEq(get(l.Back, info, "Alpha"), h.t, x):
		return "it is hit at " + short(get(l.Back, info, "Alpha"))
	case !n.eq(h.n, x):
		return "the normal is " + short(n.x) + ", " + short(n.y)
	case !p.eq(h.pt, x):
		return "the point is " + short(p.x) + ", " + short(p.y)
	}
	for _, fd := range []string{"Shape", "Alpha", "Point.X", "Point.Y", "Normal.X", "Normal.Y"} {
		if !proveEq(get(l.Back, info, fd), get(l.Iter, info, fd), And(g, Not(when))) {
			return "when it is missed " + fd + " becomes " + short(get(l.Back, info, fd))
		}
	}
	return ""
}

// answers: the answer is about the given shape.
func (c *Ctx) answers(rule, name string, s *Summary, shape *Term) {
	got := get(s.Mem, s.Params[2], "Shape")
	c.ob(proveEq(got, shape, typeFact(s)), rule, name+" shape", s.Fn.Pos(), "the shape answered for is %s", short(got))
}

// planeEdge: an edge of a polygon as its planes hold it.
type planeEdge struct {
	prev, cur, n V2
	i            *Term
}

// planeEdges: the ways the loop may name the edge it is at, if it is at every
// edge once.
func planeEdges(le *Event, planes, count *Term, f *BDD) (out []*planeEdge, g *BDD, why string) {
	l := le.Loop
	at := func(m *Mem, i *Term, fd string) V2 {
		return vec(fld(m.Load(elemAddr(planes, i), planes.typ.Underlying().(*types.Slice).Elem()), fd))
	}
	why = "it counts nothing"
	for _, ph := range l.Phis {
		if ph.Invariant || ph.Var == nil || !isNumType(ph.Var.typ) || isFloat(ph.Var.typ) {
			continue
		}
		for _, off := range []int64{0, 1} {
			i := TAdd(ph.Var, TInt(off))
			msg := visitsIndexed(le, i, count, f)
			if msg != "" && proveEq(TLen(planes), count, f) {
				msg = visitsIndexed(le, i, TLen(planes), f)
			}
			if msg != "" {
				why = msg
				continue
			}
			g = AndAll(f, l.Assume, l.BackG, CondLe(TInt(0), i, true), CondLt(i, count, true))
			last, n1, p1 := TSub(count, TInt(1)), TAdd(i, TInt(1)), TSub(i, TInt(1))
			modT := func(x *Term) *Term { return TApp("mod", x.typ, x, count) }
			mk := func(prev V2, i *Term) {
				out = append(out, &planeEdge{prev, at(l.Iter, i, "v0"), at(l.Iter, i, "n"), i})
			}
			for _, n := range []*Term{modT(n1), TIte(CondLt(n1, count, true), n1, TInt(0))} {
				mk(at(l.Iter, i, "v0"), n)
			}
			for _, p := range []*Term{modT(TAdd(p1, count)), TIte(CondLt(TInt(0), i, true), p1, last)} {
				mk(at(l.Iter, p, "v0"), i)
			}
			for _, pv := range l.Phis {
				if pv.Var == nil || pv.Var.typ == nil || pv.Invariant {
					continue
				}
				if pv != ph && isNumType(pv.Var.typ) && !isFloat(pv.Var.typ) && proveEq(pv.Back, i, g) && proveEq(pv.Init, last, And(f, le.Guard)) {
					mk(at(l.Iter, pv.Var, "v0"), i)
				}
				if typeName(pv.Var.typ) == "Vector" && vec(pv.Back).eq(at(l.Iter, i, "v0"), g) && vec(pv.Init).eq(at(l.Entry, last, "v0"), And(f, le.Guard)) {
					mk(vec(pv.Var), i)
				}
			}
			return out, g, ""
		}
	}
	return nil, nil, why
}

func init() {
	register(&Check{ID: "C18", Run: checkC18, Explanation: "point and segment queries of single shapes"})
}
