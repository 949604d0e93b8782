package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: what colliding two shapes finds.

// dist: a circle against a point of the other shape.
type touching struct {
	when   *BDD // apart from the case that they just touch
	just   *BDD // they just touch: left open
	p1, p2 V2
	n      V2
}

func clampT(c *Ctx, t *Term) *Term { return c.apply("Clamp01", t) }

func cmulV(v, rot V2) V2 {
	return V2{TSub(TMul(v.x, rot.x), TMul(v.y, rot.y)), TAdd(TMul(v.x, rot.y), TMul(v.y, rot.x))}
}

// asShape: the class of a shape as a type.
func (c *Ctx) asShape(mem *Mem, sh *Term, name string) *Term {
	return rawTerm(OApp, types.NewPointer(c.named(name)), "as:*"+name, get(mem, sh, "Class"))
}

func (c *Ctx) isShape(mem *Mem, sh *Term, name string) *BDD {
	T := types.NewPointer(c.named(name))
	is := bddFalse
	leaves(get(mem, sh, "Class"), bddTrue, func(g *BDD, v *Term) {
		is = Or(is, And(g, bddAtom(rawTerm(OApp, tyBool, "typeis", v, rawTerm(OConst, T, "type:"+typeName(T))))))
	})
	return is
}

func sameV(a, b V2) *BDD { return And(CondEq(a.x, b.x), CondEq(a.y, b.y)) }

func checkC19(c *Ctx) {
	pushCfg := Config{NoEnter: true, Opaque: opaqueSet("CollisionInfo.PushContact"), KeepOn: func(fn *ssa.Function, class string) bool { return class != "CollisionInfo.count" }}

	rule := "in order"
	c.part("Collide", func() { c.collideInOrder(rule) })
	c.atLeast(rule, 27)

	rule = "contact stored"
	c.part("CollisionInfo.PushContact", func() {
		name := "CollisionInfo.PushContact"
		s := c.sum(name, "coll", Config{NoEnter: true})
		P, pos := s.Params, s.Fn.Pos()
		info := P[0]
		n := get(s.Entry, info, "count")
		at := elemAddr(get(s.Entry, info, "arr"), n)
		f := typeFact(s)
		for i, fd := range []string{"r1", "r2"} {
			v := getV(s.Mem, at, fd)
			c.ob(v.eq(vec(P[i+1]), f), rule, name+" "+fd, pos, "the contact's %s is %s, %s", fd, short(v.x), short(v.y))
		}
		c.ob(proveEq(get(s.Mem, at, "hash"), P[3], f), rule, name+" hash", pos, "the contact's hash is %s", short(get(s.Mem, at, "hash")))
		c.ob(proveEq(get(s.Mem, info, "count"), TAdd(n, TInt(1)), f), rule, name+" count", pos, "the number of contacts becomes %s", short(get(s.Mem, info, "count")))
	})
	c.atLeast(rule, 4)

	rule = "contact"
	c.part("CircleToCircle", func() {
		name := "CircleToCircle"
		s := c.sum(name, "coll", pushCfg)
		info := s.Params[0]
		a, b := c.asShape(s.Entry, get(s.Entry, info, "a"), "Circle"), c.asShape(s.Entry, get(s.Entry, info, "b"), "Circle")
		c1, c2, r1, r2 := getV(s.Entry, a, "tc"), getV(s.Entry, b, "tc"), get(s.Entry, a, "r"), get(s.Entry, b, "r")
		c.touch(rule, name, s, c1, r1, c2, r2, V2{TNum(1), TNum(0)}, bddTrue, typeFact(s))
	})
	circleToSegment := func(own bool) {
		name := "CircleToSegment"
		s := c.sum(name, "coll", pushCfg)
		info := s.Params[0]
		a, b := c.asShape(s.Entry, get(s.Entry, info, "a"), "Circle"), c.asShape(s.Entry, get(s.Entry, info, "b"), "Segment")
		ctr, r1, r2 := getV(s.Entry, a, "tc"), get(s.Entry, a, "r"), get(s.Entry, b, "r")
		A, B := getV(s.Entry, b, "ta"), getV(s.Entry, b, "tb")
		d := B.sub(A)
		t := clampT(c, TDiv(d.dot(ctr.sub(A)), d.dot(d)))
		closest := A.add(d.mul(t))
		tn := getV(s.Entry, b, "tn")
		delta := closest.sub(ctr)
		dist := delta.len()
		isZ := CondEq(dist, TNum(0))
		n := V2{TIte(isZ, tn.x, TMul(delta.x, TInv(dist))), TIte(isZ, tn.y, TMul(delta.y, TInv(dist)))}
		of := get(s.Entry, b, "Shape")
		if own {
			of = get(s.Entry, info, "b")
		}
		rot := vec(c.callIn("Body.Rotation", s.Entry, get(s.Entry, of, "body")))
		ta, tb := cmulV(getV(s.Entry, b, "a_tangent"), rot), cmulV(getV(s.Entry, b, "b_tangent"), rot)
		open := And(Or(Not(CondEq(t, TNum(0))), CondLe(TNum(0), n.dot(ta), false)), Or(Not(CondEq(t, TNum(1))), CondLe(TNum(0), n.dot(tb), false)))
		c.touch(rule, name, s, ctr, r1, closest, r2, tn, open, typeFact(s))
	}
	c.part("CircleToSegment", func() {
		c.oneOf(func() { circleToSegment(false) }, func() { circleToSegment(true) })
	})
	for _, p := range [][2]string{{"Segment", "Segment"}, {"Circle", "PolyShape"}, {"Segment", "PolyShape"}, {"PolyShape", "PolyShape"}} {
		p := p
		c.part(p[0]+" and "+p[1], func() {
			// the shape a segment belongs to is the one that collides (C36)
			c.oneOf(func() { c.viaSearch(rule, p[0], p[1], false) }, func() { c.viaSearch(rule, p[0], p[1], true) })
		})
	}
	c.atLeast(rule, 40)

	rule = "contact points"
	c.part("ContactPoints", func() { c.contactPoints(rule, pushCfg) })
	c.atLeast(rule, 10)

	rule = "support edge"
	c.part("SupportEdgeForSegment", func() {
		name := "SupportEdgeForSegment"
		s := c.sum(name, "coll", Config{NoEnter: true})
		seg, n := s.Params[0], vec(s.Params[1])
		f := typeFact(s)
		tn := getV(s.Entry, seg, "tn")
		ta, tb := getV(s.Entry, seg, "ta"), getV(s.Entry, seg, "tb")
		id := get(s.Entry, seg, "Shape.hashid")
		front := CondLt(TNum(0), tn.dot(n), false)
		back := CondLt(tn.dot(n), TNum(0), false)
		r := get(s.Entry, seg, "r")
		ends := [2]*Term{TNum(0), TNum(1)}
		c.edgeIs(rule, name+" front", s, And(f, front), ta, tb, ends[0], ends[1], id, r, tn)
		c.edgeIs(rule, name+" back", s, And(f, back), tb, ta, ends[1], ends[0], id, r, tn.neg())
	})
	c.part("SupportEdgeForPoly", func() {
		name := "SupportEdgeForPoly"
		s := c.sum(name, "coll", Config{NoEnter: true, Opaque: opaqueSet("PolySupportPointIndex")})
		poly, n, pos := s.Params[0], vec(s.Params[1]), s.Fn.Pos()
		calls := eventsOf(s.Events, "call", "PolySupportPointIndex")
		count, planes := get(s.Entry, poly, "count"), get(s.Entry, poly, "planes")
		if !c.ob(len(calls) == 1 && proveEq(calls[0].Args[0], count, bddTrue) && proveEq(calls[0].Args[1], planes, bddTrue) && vec(calls[0].Args[2]).eq(n, bddTrue), rule, name+" vertex", pos, "the vertex furthest along the normal is not looked for") {
			return
		}
		i1 := calls[0].Result
		f := AndAll(typeFact(s), CondLe(TInt(0), i1, true), CondLt(i1, count, true))
		at := func(i *Term, fd string) V2 {
			return vec(fld(s.Entry.Load(elemAddr(planes, i), planes.typ.Underlying().(*types.Slice).Elem()), fd))
		}
		id, r := get(s.Entry, poly, "Shape.hashid"), get(s.Entry, poly, "r")
		p1, nx, last := TSub(i1, TInt(1)), TAdd(i1, TInt(1)), TSub(count, TInt(1))
		mod := func(x *Term) *Term { return TApp("mod", x.typ, x, count) }
		var ways []func()
		for _, i0 := range []*Term{mod(TAdd(p1, count)), TIte(CondLt(TInt(0), i1, true), p1, last), TIte(CondEq(i1, TInt(0)), last, p1)} {
			for _, i2 := range []*Term{mod(nx), TIte(CondLt(nx, count, true), nx, TInt(0)), TIte(CondEq(nx, count), TInt(0), nx)} {
				i0, i2 := i0, i2
				ways = append(ways, func() {
					first := CondLt(n.dot(at(i2, "n")), n.dot(at(i1, "n")), false)
					second := CondLt(n.dot(at(i1, "n")), n.dot(at(i2, "n")), false)
					c.edgeIs(rule, name+" before", s, And(f, first), at(i0, "v0"), at(i1, "v0"), i0, i1, id, r, at(i1, "n"))
					c.edgeIs(rule, name+" after", s, And(f, second), at(i1, "v0"), at(i2, "v0"), i1, i2, id, r, at(i2, "n"))
				})
			}
		}
		c.oneOf(ways...)
	})
	c.atLeast(rule, 15)

	rule = "contact set"
	c.part("ShapesCollide", func() { c.contactSet(rule) })
	c.atLeast(rule, 6)
}

// touch: two points with a radius each.
func (c *Ctx) touch(rule, name string, s *Summary, p1 V2, r1 *Term, p2 V2, r2 *Term, same V2, open, f *BDD) {
	d := p2.sub(p1)
	dd, sum := d.dot(d), TAdd(r1, r2)
	dist := TApp("sqrt", tyFloat, dd)
	isZ := CondEq(dist, TNum(0))
	near := CondLt(dd, TMul(sum, sum), false)
	f = And(f, Not(CondEq(dd, TMul(sum, sum))))
	// the direction may be worked out as Vector.Normalize does
	var ways []func()
	for _, eps := range []*Term{TNum(0), floatT(1e-15)} {
		l := TAdd(dist, eps)
		n := V2{TIte(isZ, same.x, TMul(d.x, TInv(l))), TIte(isZ, same.y, TMul(d.y, TInv(l)))}
		ways = append(ways, func() {
			c.pushes(rule, name, s, f, []*pushed{{name: "", when: And(near, open), p1: p1.add(n.mul(r1)), p2: p2.sub(n.mul(r2))}}, &n)
		})
	}
	c.oneOf(ways...)
}

type pushed struct {
	name   string
	when   *BDD
	p1, p2 V2
	hash   *Term
}

// pushes: the contacts found are the given ones, each when it should be.
func (c *Ctx) pushes(rule, name string, s *Summary, f *BDD, want []*pushed, n *V2) {
	info, pos := s.Params[0], s.Fn.Pos()
	for _, p := range s.Params {
		if typeBaseOf(p.typ) == "CollisionInfo" {
			info = p
		}
	}
	evs := eventsOf(s.Events, "call", "CollisionInfo.PushContact")
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if len(ls) > 0 && e.Kind == "call" && e.Name == "CollisionInfo.PushContact" {
			c.fail(rule, name+" loop", e.Instr.Pos(), "contacts are added in a loop")
		}
	})
	any := map[*pushed]*BDD{}
	for _, w := range want {
		any[w] = bddFalse
	}
	for _, e := range evs {
		g := And(f, e.Guard)
		if !sat(g) {
			continue
		}
		var which *pushed
		var p1, p2 V2
		if len(e.Args) == 4 {
			p1, p2 = vec(e.Args[1]), vec(e.Args[2])
			for _, w := range want {
				if len(want) == 1 || p1.eq(w.p1, g) {
					which = w
				}
			}
		}
		if !c.ob(which != nil, rule, name+" first point", e.Instr.Pos(), "a contact is added at %s, %s of the first shape", short(p1.x), short(p1.y)) {
			continue
		}
		nm := name + which.name
		c.ob(proveEq(e.Args[0], info, g), rule, nm+" where", e.Instr.Pos(), "the contact goes to %s", short(e.Args[0]))
		c.ob(p1.eq(which.p1, g), rule, nm+" first point", e.Instr.Pos(), "a contact is added at %s, %s of the first shape", short(p1.x), short(p1.y))
		c.ob(p2.eq(which.p2, g), rule, nm+" second point", e.Instr.Pos(), "the contact is at %s, %s of the second shape", short(p2.x), short(p2.y))
		if which.hash != nil {
			c.ob(proveEq(e.Args[3], which.hash, g), rule, nm+" hash", e.Instr.Pos(), "the contact is known as %s", short(e.Args[3]))
		}
		now := getV(s.Mem, info, "n")
		if n != nil {
			c.ob(now.eq(*n, g), rule, nm+" normal", e.Instr.Pos(), "the normal is %s, %s", short(now.x), short(now.y))
		}
		c.ob(never(AndAll(f, any[which], e.Guard)), rule, nm+" once", e.Instr.Pos(), "the contact is added twice")
		any[which] = Or(any[which], e.Guard)
	}
	for _, w := range want {
		c.ob(sat(And(f, w.when)) && never(AndAll(f, w.when, Not(any[w]))), rule, name+w.name+" found", pos, "shapes that touch have a contact only when %s", shortB(any[w]))
		c.ob(never(AndAll(f, any[w], Not(w.when))), rule, name+w.name+" only then", pos, "shapes that do not touch have a contact when %s", shortB(And(any[w], Not(w.when))))
	}
}

// viaSearch: the pairs of shapes whose closest points are searched for.
func (c *Ctx) viaSearch(rule, ta, tb string, own bool) {
	short1 := map[string]string{"Circle": "Circle", "Segment": "Segment", "PolyShape": "Poly"}
	name := short1[ta] + "To" + short1[tb]
	edges := []string{"SupportEdgeForSegment", "SupportEdgeForPoly"}
	cfg := Config{NoEnter: true,
		Opaque: opaqueSet("GJK", "ContactPoints", "CollisionInfo.PushContact", edges[0], edges[1]),
		KeepOn: func(fn *ssa.Function, class string) bool {
			switch fname(fn) {
			case "GJK":
				return class != "CollisionInfo.collisionId" // C26
			case "CollisionInfo.PushContact":
				return class != "CollisionInfo.count"
			}
			return false
		},
		KeepOnUser: func(string) bool { return true },
	}
	s := c.sum(name, "coll", cfg)
	info, pos := s.Params[0], s.Fn.Pos()
	shA, shB := get(s.Entry, info, "a"), get(s.Entry, info, "b")
	a, b := c.asShape(s.Entry, shA, ta), c.asShape(s.Entry, shB, tb)
	gs := eventsOf(s.Events, "call", "GJK")
	f := typeFact(s)
	if !c.ob(len(gs) == 1 && implies(f, gs[0].Guard), rule, name+" search", pos, "the closest points are searched for %d times", len(gs)) {
		return
	}
	g := gs[0]
	ctx := g.Args[0]
	c.ob(proveEq(fld(ctx, "shape1"), shA, f) && proveEq(fld(ctx, "shape2"), shB, f), rule, name+" searched shapes", pos, "the search is between %s and %s", short(fld(ctx, "shape1")), short(fld(ctx, "shape2")))
	for i, t := range []string{ta, tb} {
		fn := fld(ctx, []string{"func1", "func2"}[i])
		ok := fn.op == OFunc && fn.fn != nil && c.supportsType(fn.fn) == t
		c.ob(ok, rule, name+" support "+t, pos, "shape number %d, a %s, is searched with %s", i+1, t, short(fn))
	}
	c.ob(proveEq(g.Args[1], addrOf(s.Entry, info, "collisionId"), f), rule, name+" cache", pos, "the search is started from and remembered in %s", short(g.Args[1]))
	R := g.Result
	n, d := vec(fld(R, "n")), fld(R, "d")
	pa, pb := vec(fld(R, "a")), vec(fld(R, "b"))
	sum := TAdd(get(s.Entry, a, "r"), get(s.Entry, b, "r"))
	f = And(f, Not(CondEq(d, sum)))
	want := CondLt(d, sum, false)
	end := func(of, sh *Term, p V2, before bool) {
		if !own {
			of = get(s.Entry, sh, "Shape")
		}
		rot := vec(c.callIn("Body.Rotation", s.Entry, get(s.Entry, of, "body")))
		for _, e := range []string{"a", "b"} {
			at := getV(s.Entry, sh, "t"+e)
			tg := n.dot(cmulV(getV(s.Entry, sh, e+"_tangent"), rot))
			ok := CondLe(tg, TNum(0), false)
			if !before {
				ok = CondLe(TNum(0), tg, false)
			}
			want = And(want, Or(Not(sameV(p, at)), ok))
		}
	}
	if ta == "Segment" {
		end(shA, a, pa, true)
	}
	if tb == "Segment" {
		end(shB, b, pb, false)
	}
	if ta == "Circle" {
		r1, r2 := get(s.Entry, a, "r"), get(s.Entry, b, "r")
		c.pushes(rule, name, s, f, []*pushed{{when: want, p1: pa.add(n.mul(r1)), p2: pb.sub(n.mul(r2))}}, &n)
		return
	}
	any := bddFalse
	for _, e := range eventsOf(s.Events, "call", "ContactPoints") {
		x := And(f, e.Guard)
		if !sat(x) {
			continue
		}
		c.ob(never(And(any, x)), rule, name+" once", e.Instr.Pos(), "the contact points are worked out twice")
		any = Or(any, e.Guard)
		c.ob(proveEq(e.Args[2], R, x), rule, name+" points", e.Instr.Pos(), "contact points are worked out from %s", short(e.Args[2]))
		c.ob(proveEq(e.Args[3], info, x), rule, name+" where", e.Instr.Pos(), "contact points go to %s", short(e.Args[3]))
		for i, sh := range []*Term{a, b} {
			m := n
			if i == 1 {
				m = n.neg()
			}
			var from *Event
			for _, nm := range edges {
				for _, x := range eventsOf(s.Events, "call", nm) {
					if proveEq(e.Args[i], x.Result, And(f, e.Guard)) {
						from = x
					}
				}
			}
			ok := from != nil && proveEq(from.Args[0], sh, x) && vec(from.Args[1]).eq(m, x)
			c.ob(ok, rule, name+" edge", e.Instr.Pos(), "edge %d is %s, not that of the shape towards the other one", i+1, short(e.Args[i]))
		}
	}
	c.ob(sat(And(f, want)) && never(AndAll(f, want, Not(any))), rule, name+" found", pos, "shapes that touch have contacts only when %s", shortB(any))
	c.ob(never(AndAll(f, any, Not(want))), rule, name+" only then", pos, "shapes that do not touch have contacts when %s", shortB(And(any, Not(want))))
}

// supportsType: the type of shape a support function is for.
func (c *Ctx) supportsType(fn *ssa.Function) string {
	s := c.sumFn(fn, "coll", Config{NoEnter: true, Opaque: opaqueSet("PolySupportPointIndex")})
	f := typeFact(s)
	if len(s.Params) == 0 || !isPtr(s.Params[0]) {
		return ""
	}
	for _, t := range c.implementers("ShapeClass") {
		nm := t.Obj().Name()
		if sat(f) && implies(f, c.isShape(s.Entry, s.Params[0], nm)) {
			return nm
		}
	}
	return ""
}

func (c *Ctx) contactPoints(rule string, cfg Config) {
	name := "ContactPoints"
	s := c.sum(name, "coll", cfg)
	e1, e2, pts := s.Params[0], s.Params[1], s.Params[2]
	n, d := vec(fld(pts, "n")), fld(pts, "d")
	eps := floatT(1e-15)
	end := func(e *Term, k string) (V2, *Term, *Term) {
		p := vec(fld(e, k+".p"))
		return p, p.cross(n), fld(e, k+".hash")
	}
	a1, da1, ha1 := end(e1, "a")
	b1, db1, hb1 := end(e1, "b")
	a2, da2, ha2 := end(e2, "a")
	b2, db2, hb2 := end(e2, "b")
	r1, r2 := fld(e1, "r"), fld(e2, "r")
	i1, i2 := TInv(TAdd(TSub(db1, da1), eps)), TInv(TAdd(TSub(db2, da2), eps))
	f := And(typeFact(s), CondLe(d, TAdd(r1, r2), false))
	mk := func(nm string, at1, at2, hash *Term) *pushed {
		p1 := lerp2(a1, b1, clampT(c, TMul(TSub(at1, da1), i1))).add(n.mul(r1))
		p2 := lerp2(a2, b2, clampT(c, TMul(TSub(at2, da2), i2))).sub(n.mul(r2))
		dist := p2.sub(p1).dot(n)
		return &pushed{name: nm, when: CondLe(dist, TNum(0), false), p1: p1, p2: p2, hash: hash}
	}
	want := []*pushed{
		mk(" a to b", db2, da1, c.apply("HashPair", ha1, hb2)),
		mk(" b to a", da2, db1, c.apply("HashPair", hb1, ha2)),
	}
	c.pushes(rule, name, s, f, want, &n)
}

// edgeIs: the edge returned.
func (c *Ctx) edgeIs(rule, name string, s *Summary, f *BDD, a, b V2, ia, ib, id, r *Term, n V2) {
	pos := s.Fn.Pos()
	if !c.ob(sat(f), rule, name, pos, "the case never happens") {
		return
	}
	hash := c.named("HashValue")
	as := func(i *Term) *Term {
		return retype(i, hash)
	}
	for k, e := range []struct {
		fd string
		p  V2
		i  *Term
	}{{"a", a, ia}, {"b", b, ib}} {
		p := vec(fld(s.Ret, e.fd+".p"))
		c.ob(p.eq(e.p, f), rule, name+" end "+e.fd, pos, "end %d of the edge is %s, %s", k+1, short(p.x), short(p.y))
		h := fld(s.Ret, e.fd+".hash")
		c.ob(proveEq(h, c.apply("HashPair", id, as(e.i)), f), rule, name+" name "+e.fd, pos, "end %d of the edge is known as %s", k+1, short(h))
	}
	c.ob(proveEq(fld(s.Ret, "r"), r, f), rule, name+" radius", pos, "the radius is %s", short(fld(s.Ret, "r")))
	m := vec(fld(s.Ret, "n"))
	c.ob(m.eq(n, f), rule, name+" normal", pos, "the normal of the edge is %s, %s", short(m.x), short(m.y))
}

// collideInOrder: for every pair of types the right function gets the shapes
// in the order it expects.
func (c *Ctx) collideInOrder(rule string) {
	name := "Collide"
	var fns []*ssa.Function // what may be called
	sig := c.named("CollisionFunc").Underlying()
	for _, fn := range c.p.All {
		if fn.Signature.Recv() == nil && types.Identical(fn.Signature, sig) && fn.Parent() == nil {
			fns = append(fns, fn)
		}
	}
	is := map[*ssa.Function]bool{}
	for _, fn := range fns {
		is[fn] = true
	}
	s := c.sum(name, "coll", Config{NoEnter: true, Opaque: func(fn *ssa.Function) bool { return is[fn] }, KeepOnUser: func(string) bool { return true }, KeepOn: func(*ssa.Function, string) bool { return true }})
	P, pos := s.Params, s.Fn.Pos()
	kinds := c.implementers("ShapeClass")
	for _, ta := range kinds {
		for _, tb := range kinds {
			na, nb := ta.Obj().Name(), tb.Obj().Name()
			f := AndAll(typeFact(s), c.isShape(s.Entry, P[0], na), c.isShape(s.Entry, P[1], nb))
			for _, o := range kinds {
				for i, n := range []string{na, nb} {
					if o.Obj().Name() != n {
						f = And(f, Not(c.isShape(s.Entry, P[i], o.Obj().Name())))
					}
				}
			}
			pair := name + " " + na + " " + nb
			n := 0
			for _, e := range s.Events {
				if e.Kind != "user" && !(e.Kind == "call" && is[e.Callee.fnOf()]) || !sat(And(f, e.Guard)) {
					continue
				}
				n++
				x := And(f, e.Guard)
				c.ob(implies(f, e.Guard), rule, pair+" always", e.Instr.Pos(), "the shapes are tested only when %s", shortB(e.Guard))
				fn := e.Callee.fnOf()
				if e.Kind == "user" {
					fn = c.tableEntry(e.Callee, x)
				}
				if !c.ob(fn != nil && len(e.Args) == 1, rule, pair+" function", e.Instr.Pos(), "which function is called for the pair is not known: %s", short(e.Callee)) {
					continue
				}
				t := c.sumFn(fn, "order", Config{NoEnter: true, Opaque: opaqueSet("GJK", "ContactPoints"), KeepOnUser: func(string) bool { return true }, KeepOn: func(*ssa.Function, string) bool { return true }})
				arg := e.Args[0]
				sa, sb := get(e.Mem, arg, "a"), get(e.Mem, arg, "b")
				ok := proveEq(sa, P[0], x) && proveEq(sb, P[1], x) || proveEq(sa, P[1], x) && proveEq(sb, P[0], x)
				c.ob(ok, rule, pair+" shapes", e.Instr.Pos(), "the shapes tested are %s and %s", short(sa), short(sb))
				// what the function takes for granted
				tf := t.Assume
				for i, fd := range []string{"a", "b"} {
					in := get(t.Entry, t.Params[0], fd)
					sh := []*Term{sa, sb}[i]
					ok := false
					for _, o := range kinds {
						nm := o.Obj().Name()
						if implies(tf, c.isShape(t.Entry, in, nm)) && sat(tf) {
							ok = implies(x, c.isShape(e.Mem, sh, nm))
						}
					}
					c.ob(ok, rule, pair+" types", e.Instr.Pos(), "%s is called for shape %d, %s, of another type", fname(fn), i+1, short(sh))
				}
				c.ob(proveEq(get(e.Mem, arg, "count"), TInt(0), x), rule, pair+" count", e.Instr.Pos(), "the number of contacts starts at %s", short(get(e.Mem, arg, "count")))
				c.ob(proveEq(get(e.Mem, arg, "arr"), P[3], x), rule, pair+" room", e.Instr.Pos(), "contacts go to %s", short(get(e.Mem, arg, "arr")))
				c.ob(proveEq(get(e.Mem, arg, "collisionId"), P[2], x), rule, pair+" cache", e.Instr.Pos(), "the search starts from %s", short(get(e.Mem, arg, "collisionId")))
			}
			c.ob(n == 1, rule, pair, pos, "%d functions are called for the pair", n)
		}
	}
	// what is returned is what the function left
	var arg *Term
	for _, e := range s.Events {
		if len(e.Args) == 1 && (e.Kind == "user" || e.Kind == "call" && is[e.Callee.fnOf()]) {
			arg = e.Args[0]
		}
	}
	if c.ob(arg != nil, rule, name+" result", pos, "nothing is called") {
		for _, fd := range []string{"a", "b", "count", "collisionId", "n.X", "n.Y", "arr"} {
			c.ob(proveEq(fld(s.Ret, fd), get(s.Mem, arg, fd), typeFact(s)), rule, name+" result", pos, "the %s returned is %s", fd, short(fld(s.Ret, fd)))
		}
	}
}

func (t *Term) fnOf() *ssa.Function {
	if t == nil || t.op != OFunc {
		return nil
	}
	return t.fn
}

// tableEntry: the function at a place of a table filled in once, when the
// package is loaded.
func (c *Ctx) tableEntry(v *Term, f *BDD) *ssa.Function {
	var pick *ssa.Function
	var g *ssa.Global
	var idx *Term
	walkTerm(v, func(t *Term) {
		if t.op == OIndex && len(t.args) == 2 && t.args[0].op == OGlobal {
			for _, m := range c.p.Pkg.Members {
				if x, ok := m.(*ssa.Global); ok && x.Name() == strings.TrimPrefix(t.args[0].String(), "global:") {
					g, idx = x, t.args[1]
				}
			}
		}
	})
	if g == nil {
		return nil
	}
	for k, fn := range c.filledTable(g) {
		if fn != nil && proveEq(idx, TInt(int64(k)), f) {
			pick = fn
		}
	}
	return pick
}

// filledTable: what the package's initialization puts into an array of
// functions; nothing else may change it.
func (c *Ctx) filledTable(g *ssa.Global) map[int]*ssa.Function {
	out := map[int]*ssa.Function{}
	from := map[ssa.Value]bool{g: true} // the array, and what it is a copy of
	for _, fn := range c.p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				var lit *ssa.Alloc
				if u, ok := st.Val.(*ssa.UnOp); ok {
					lit, _ = u.X.(*ssa.Alloc)
				}
				if lit == nil || fn.Name() != "init" || fn.Parent() != nil {
					c.fail("in order", g.Name(), in.Pos(), "%s replaces the table %s", fname(fn), g.Name())
					continue
				}
				from[lit] = true
			}
		}
	}
	for _, fn := range c.p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || !from[ia.X] {
					continue
				}
				k, ok := ia.Index.(*ssa.Const)
				if fn.Name() != "init" || fn.Parent() != nil || !ok {
					c.fail("in order", g.Name(), in.Pos(), "%s changes the table %s", fname(fn), g.Name())
					continue
				}
				v := st.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				f, _ := v.(*ssa.Function)
				out[int(k.Int64())] = f
			}
		}
	}
	return out
}

// contactSet: what ShapesCollide makes of the contacts.
func (c *Ctx) contactSet(rule string) {
	name := "ShapesCollide"
	s := c.sum(name, "coll", Config{NoEnter: true, Opaque: opaqueSet("Collide")})
	P, pos := s.Params, s.Fn.Pos()
	calls := eventsOf(s.Events, "call", "Collide")
	if !c.ob(len(calls) == 1 && implies(bddTrue, calls[0].Guard), rule, name+" test", pos, "the shapes are tested %d times", len(calls)) {
		return
	}
	e := calls[0]
	R, arr := e.Result, e.Args[3]
	inOrder := proveEq(e.Args[0], P[0], bddTrue) && proveEq(e.Args[1], P[1], bddTrue)
	c.ob(inOrder || proveEq(e.Args[0], P[1], bddTrue) && proveEq(e.Args[1], P[0], bddTrue), rule, name+" shapes", pos, "the shapes tested are %s and %s", short(e.Args[0]), short(e.Args[1]))
	max := constInt(c, "MAX_CONTACTS_PER_ARBITER")
	c.ob(proveLE(TNum(max), TLen(arr), bddTrue), rule, name+" room", pos, "there is room for %s contacts", short(TLen(arr)))
	// Collide: its a and b are the two shapes (rule "in order")
	same := CondEq(P[0], fld(R, "a"))
	f := bddTrue
	count := fld(R, "count")
	f = And(f, CondLe(TInt(0), count, true))
	n := vec(fld(R, "n"))
	c.ob(proveEq(fld(s.Ret, "Count"), count, f), rule, name+" count", pos, "%s contacts are reported", short(fld(s.Ret, "Count")))
	m := vec(fld(s.Ret, "Normal"))
	c.ob(sat(And(f, same)) && sat(And(f, Not(same))), rule, name+" cases", pos, "the cases cannot be told apart")
	c.ob(m.eq(n, And(f, same)), rule, name+" normal", pos, "the normal is %s, %s", short(m.x), short(m.y))
	c.ob(m.eq(n.neg(), And(f, Not(same))), rule, name+" normal turned", pos, "the normal is %s, %s although the shapes were swapped", short(m.x), short(m.y))
	why := "no loop goes over the contacts"
	for _, le := range s.Events {
		if le.Kind == "store" && containsField(le.Loc, "Points") {
			c.fail(rule, name+" else", le.Instr.Pos(), "a reported contact also becomes %s", short(le.Val))
		}
		if le.Kind != "loop" || le.Loop.Back == nil {
			continue
		}
		l := le.Loop
		var base, idx *Term
		for _, h := range l.HavocL {
			walkTerm(h, func(t *Term) {
				if t.op == OIndex && lastField(t.args[0]) == "Points" {
					base = t.args[0]
				}
			})
		}
		if base == nil {
			continue
		}
		why = "nothing counts"
		for _, ph := range l.Phis {
			if ph.Var != nil && !ph.Invariant && isNumType(ph.Var.typ) && !isFloat(ph.Var.typ) {
				for _, off := range []int64{0, 1} {
					i := TAdd(ph.Var, TInt(off))
					if msg := visitsIndexed(le, i, count, f); msg == "" {
						idx, why = i, ""
					} else if why != "" {
						why = msg
					}
				}
			}
		}
		if idx == nil {
			continue
		}
		g := AndAll(f, l.Assume, l.BackG, CondLe(TInt(0), idx, true), CondLt(idx, count, true), CondLt(idx, TNum(max), true))
		var et types.Type
		if at, ok := base.typ.Underlying().(*types.Pointer); ok {
			et = at.Elem().Underlying().(*types.Array).Elem()
		} else {
			et = base.typ.Underlying().(*types.Array).Elem()
		}
		pt := TIndexAddr(base, idx, et)
		p1, p2 := getV(l.Iter, elemAddr(arr, idx), "r1"), getV(l.Iter, elemAddr(arr, idx), "r2")
		A, B := getV(l.Back, pt, "PointA"), getV(l.Back, pt, "PointB")
		c.ob(A.eq(p1, And(g, same)) && B.eq(p2, And(g, same)), rule, name+" points", le.Instr.Pos(), "point A is %s, %s", short(A.x), short(A.y))
		c.ob(A.eq(p2, And(g, Not(same))) && B.eq(p1, And(g, Not(same))), rule, name+" points turned", le.Instr.Pos(), "point A is %s, %s although the shapes were swapped", short(A.x), short(A.y))
		d := get(l.Back, pt, "Distance")
		c.ob(proveEq(d, p2.sub(p1).dot(n), g), rule, name+" distance", le.Instr.Pos(), "the distance is %s", short(d))
	}
	c.ob(why == "", rule, name+" contacts", pos, "not every contact is reported: %s", why)
}

func containsField(loc *Term, name string) bool {
	found := false
	walkTerm(loc, func(t *Term) {
		if t.op == OField && lastField(t) == name {
			found = true
		}
	})
	return found
}

func init() {
	_ = token.NoPos
	register(&Check{ID: "C19", Run: checkC19, Explanation: "colliding two shapes"})
}
