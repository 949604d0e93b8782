package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: moments, areas and centroids.
// C31: changing the geometry of a shape is like making it that way.
// C36: the cached place of a shape follows its body.

var tPi = floatT(math.Pi)

// edgesOf: the ways the loop may name the two ends of the edge it is at.
func edgesOf(le *Event, verts, count *Term, f *BDD) (out [][2]V2, g *BDD, why string) {
	l := le.Loop
	load := func(i *Term) V2 { return loadV(l.Iter, verts, i) }
	for _, ph := range l.Phis {
		if ph.Invariant || !isNumType(ph.Var.typ) || isFloat(ph.Var.typ) {
			continue
		}
		for _, off := range []int64{0, 1} { // range loops count from -1
			i := TAdd(ph.Var, TInt(off))
			if msg := visitsIndexed(le, i, count, f); msg != "" {
				why = msg
				continue
			}
			g = AndAll(f, l.Assume, l.BackG, CondLe(TInt(0), i, true), CondLt(i, count, true))
			last, n1, p1 := TSub(count, TInt(1)), TAdd(i, TInt(1)), TSub(i, TInt(1))
			modT := func(x *Term) *Term { return TApp("mod", x.typ, x, count) }
			for _, n := range []*Term{modT(n1), TIte(CondLt(n1, count, true), n1, TInt(0))} {
				out = append(out, [2]V2{load(i), load(n)})
			}
			for _, p := range []*Term{modT(TAdd(p1, count)), TIte(CondLt(TInt(0), i, true), p1, last)} {
				out = append(out, [2]V2{load(p), load(i)})
			}
			for _, pv := range l.Phis {
				if pv != ph && pv.Var != nil && isNumType(pv.Var.typ) && !isFloat(pv.Var.typ) && proveEq(pv.Back, i, g) && proveEq(pv.Init, last, And(f, le.Guard)) {
					out = append(out, [2]V2{load(pv.Var), load(i)})
				}
				if pv.Var == nil || pv.Var.typ == nil || typeName(pv.Var.typ) != "Vector" {
					continue
				}
				if vec(pv.Back).eq(load(i), g) && vec(pv.Init).eq(loadV(l.Entry, verts, last), And(f, le.Guard)) {
					out = append(out, [2]V2{vec(pv.Var), load(i)})
				}
			}
			return out, g, ""
		}
	}
	if why == "" {
		why = "it counts nothing"
	}
	return nil, nil, why
}

// edgeSums replaces, in t, what the loops add up by symbols for sums over the
// edges of the polygon of the given functions.
func (c *Ctx) edgeSums(rule, name string, s *Summary, t, verts, count *Term, f *BDD, fs map[string]func(p, q V2) *Term) *Term {
	m := map[*Term]*Term{}
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind != "loop" || !sat(And(f, e.Guard)) {
			return
		}
		edges, g, why := edgesOf(e, verts, count, And(f, e.Guard))
		if !c.ob(why == "" && len(ls) == 0, rule, name+" edges", e.Instr.Pos(), "the edges are not each visited once: %s", why) {
			return
		}
		one := func(v, init, back *Term) {
			if !containsTerm(t, v) {
				return
			}
			step := TSub(back, v)
			if !proveEq(init, TNum(0), And(f, e.Guard)) {
				c.fail(rule, name+" sum", e.Instr.Pos(), "the sum starts at %s", short(init))
				return
			}
			for n, fn := range fs {
				for _, ed := range edges {
					w := fn(ed[0], ed[1])
					for _, k := range []int64{1, 2, 3, 4, 6, 12} {
						for _, sg := range []int64{1, -1} {
							if proveEq(step, TScale(w, sg, k), g) {
								m[v] = TScale(paramTerm("Σ"+n, tyFloat), sg, k)
								return
							}
						}
					}
				}
			}
			c.fail(rule, name+" sum", e.Instr.Pos(), "what is added for an edge is %s", short(step))
		}
		for _, ph := range e.Loop.Phis {
			if ph.Invariant || ph.Var == nil || ph.Back == nil {
				continue
			}
			if typeName(ph.Var.typ) == "Vector" {
				for _, x := range []string{"X", "Y"} {
					one(fld(ph.Var, x), fld(ph.Init, x), fld(ph.Back, x))
				}
			} else if isFloat(ph.Var.typ) {
				one(ph.Var, ph.Init, ph.Back)
			}
		}
	})
	return subst(t, m)
}

func checkC30(c *Ctx) {
	m, r, r1, r2 := c.symb("m", "float64"), c.symb("r", "float64"), c.symb("r1", "float64"), c.symb("r2", "float64")
	w, h := c.symb("w", "float64"), c.symb("h", "float64")
	a, b, o := c.symb("a", "Vector"), c.symb("b", "Vector"), c.symb("o", "Vector")
	A, B, O := vec(a), vec(b), vec(o)
	box := c.symb("box", "BB")
	rule := "closed form"
	eq := func(name, what string, got, want *Term, facts *BDD) {
		c.ob(proveEq(got, want, facts), rule, name+": "+what, c.fn(name).Pos(), "the result is %s", short(got))
	}
	sq := func(t *Term) *Term { return TMul(t, t) }
	c.part("closed forms", func() {
		eq("MomentForBox", "moment", c.apply("MomentForBox", m, w, h), TScale(TMul(m, TAdd(sq(w), sq(h))), 1, 12), bddTrue)
		bw, bh := TSub(fld(box, "R"), fld(box, "L")), TSub(fld(box, "T"), fld(box, "B"))
		mid := V2{TScale(TAdd(fld(box, "R"), fld(box, "L")), 1, 2), TScale(TAdd(fld(box, "T"), fld(box, "B")), 1, 2)}
		eq("MomentForBox2", "moment", c.apply("MomentForBox2", m, box), TAdd(TScale(TMul(m, TAdd(sq(bw), sq(bh))), 1, 12), TMul(m, mid.dot(mid))), bddTrue)
		eq("MomentForCircle", "moment", c.apply("MomentForCircle", m, r1, r2, o), TMul(m, TAdd(TScale(TAdd(sq(r1), sq(r2)), 1, 2), O.dot(O))), bddTrue)
		d := A.sub(B).len()
		c1 := A.add(B).mul(TScale(TNum(1), 1, 2))
		l := TAdd(d, TScale(r, 2, 1))
		eq("MomentForSegment", "moment", c.apply("MomentForSegment", m, a, b, r), TMul(m, TAdd(TScale(TAdd(sq(l), sq(TScale(r, 2, 1))), 1, 12), c1.dot(c1))), bddTrue)
		ac, dq := c.apply("AreaForCircle", r1, r2), TSub(sq(r1), sq(r2))
		for i, sg := range []*BDD{CondLt(dq, TNum(0), false), CondLe(TNum(0), dq, false)} {
			v := dq
			if i == 0 {
				v = TNeg(dq)
			}
			eq("AreaForCircle", fmt.Sprintf("area %d", i), ac, TMul(tPi, v), sg)
		}
		eq("AreaForSegment", "area", c.apply("AreaForSegment", a, b, r), TAdd(TMul(tPi, sq(r)), TScale(TMul(r, d), 2, 1)), bddTrue)
	})
	c.atLeast(rule, 7)

	rule = "polygons"
	cross := func(p, q V2) *Term { return p.cross(q) }
	c.part("MomentForPoly", func() {
		s := c.sum("MomentForPoly", "poly", Config{NoEnter: true})
		ms, n, vs, off, pos := s.Params[0], s.Params[1], s.Params[2], vec(s.Params[3]), s.Fn.Pos()
		f := And(CondLe(TInt(3), n, true), bddTrue)
		got := c.edgeSums(rule, "MomentForPoly", s, s.Ret, vs, n, f, map[string]func(p, q V2) *Term{
			"cross": func(p, q V2) *Term { return p.add(off).cross(q.add(off)) },
			"second": func(p, q V2) *Term {
				p, q = p.add(off), q.add(off)
				return TMul(p.cross(q), add(p.dot(p), p.dot(q), q.dot(q)))
			}})
		S1, S2 := paramTerm("Σsecond", tyFloat), paramTerm("Σcross", tyFloat)
		fr := And(f, nonzero(S2))
		c.ob(proveEq(got, TDiv(TMul(ms, S1), TScale(S2, 6, 1)), fr), rule, "MomentForPoly moment", pos, "the moment is %s", short(got))
		// two vertices are a line
		f2 := CondEq(n, TInt(2))
		v0, v1 := loadV(s.Entry, vs, TInt(0)), loadV(s.Entry, vs, TInt(1))
		c.ob(proveEq(s.Ret, c.apply("MomentForSegment", ms, c.mkVec(v0), c.mkVec(v1), TNum(0)), f2) ||
			proveEq(s.Ret, c.apply("MomentForSegment", ms, c.mkVec(v0.add(off)), c.mkVec(v1.add(off)), TNum(0)), f2), rule, "MomentForPoly line", pos, "the moment of a line is %s", short(s.Ret))
	})
	c.part("AreaForPoly", func() {
		s := c.sum("AreaForPoly", "poly", Config{NoEnter: true})
		n, vs, rad, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
		f := CondLe(TInt(1), n, true)
		got := c.edgeSums(rule, "AreaForPoly", s, s.Ret, vs, n, f, map[string]func(p, q V2) *Term{
			"cross":  cross,
			"length": func(p, q V2) *Term { return p.sub(q).len() }})
		S, L := paramTerm("Σcross", tyFloat), paramTerm("Σlength", tyFloat)
		for i, sg := range []*BDD{CondLt(rad, TNum(0), false), CondLe(TNum(0), rad, false)} {
			v := rad
			if i == 0 {
				v = TNeg(rad)
			}
			want := add(TMul(rad, TAdd(TMul(tPi, v), L)), TScale(S, 1, 2))
			c.ob(proveEq(got, want, And(f, sg)), rule, "AreaForPoly area", pos, "the area is %s", short(got))
		}
	})
	c.part("CentroidForPoly", func() {
		s := c.sum("CentroidForPoly", "poly", Config{NoEnter: true})
		n, vs, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := CondLe(TInt(1), n, true)
		fs := map[string]func(p, q V2) *Term{
			"cross":  cross,
			"firstX": func(p, q V2) *Term { return TMul(TAdd(p.x, q.x), p.cross(q)) },
			"firstY": func(p, q V2) *Term { return TMul(TAdd(p.y, q.y), p.cross(q)) }}
		S := paramTerm("Σcross", tyFloat)
		fr := And(f, nonzero(S))
		for _, x := range []string{"X", "Y"} {
			got := c.edgeSums(rule, "CentroidForPoly", s, fld(s.Ret, x), vs, n, f, fs)
			c.ob(proveEq(got, TDiv(paramTerm("Σfirst"+x, tyFloat), TScale(S, 3, 1)), fr), rule, "CentroidForPoly "+x, pos, "it is at %s", short(got))
		}
	})
	c.atLeast(rule, 8)

	rule = "shapes"
	c.part("accessors", func() {
		for _, x := range []struct {
			fn   string
			want func(m *Mem, s *Term) *Term
		}{
			{"Shape.Mass", func(m *Mem, s *Term) *Term { return get(m, s, "massInfo.m") }},
			{"Shape.Area", func(m *Mem, s *Term) *Term { return get(m, s, "massInfo.area") }},
			{"Shape.Moment", func(m *Mem, s *Term) *Term { return TMul(get(m, s, "massInfo.m"), get(m, s, "massInfo.i")) }},
			{"Shape.Density", func(m *Mem, s *Term) *Term { return TDiv(get(m, s, "massInfo.m"), get(m, s, "massInfo.area")) }},
		} {
			s := c.sum(x.fn, "acc", Config{NoEnter: true})
			f := AndAll(typeFact(s), notNil(s.Params[0]), nonzero(get(s.Entry, s.Params[0], "massInfo.area")))
			c.ob(proveEq(s.Ret, x.want(s.Entry, s.Params[0]), f), rule, x.fn, s.Fn.Pos(), "it returns %s", short(s.Ret))
		}
		s := c.sum("Shape.CenterOfGravity", "acc", Config{NoEnter: true})
		c.ob(vec(s.Ret).eq(getV(s.Entry, s.Params[0], "massInfo.cog"), And(typeFact(s), notNil(s.Params[0]))), rule, "Shape.CenterOfGravity", s.Fn.Pos(), "it returns %s", short(s.Ret))
	})
	c.part("mass and density", func() {
		for _, name := range []string{"Shape.SetMass", "Shape.SetDensity"} {
			s := c.sum(name, "geo", shapeCfg())
			sh, v, pos := s.Params[0], s.Params[1], s.Fn.Pos()
			f := AndAll(s.G, notNil(sh))
			want := v
			if name == "Shape.SetDensity" {
				want = TMul(v, get(s.Entry, sh, "massInfo.area"))
			}
			c.ob(proveEq(get(s.Mem, sh, "massInfo.m"), want, f), rule, name+" mass", pos, "the mass becomes %s", short(get(s.Mem, sh, "massInfo.m")))
			c.accumulates(rule, name, s, sh, bddTrue, f)
			c.onlyTouches(rule, name, s, f, "Shape ShapeMassInfo Body", "ShapeMassInfo.m")
		}
	})
	c.atLeast(rule, 11)
}

func elemAddr(list, i *Term) *Term {
	return TIndexAddr(list, i, list.typ.Underlying().(*types.Slice).Elem())
}

func loadV(m *Mem, verts, i *Term) V2 {
	return vec(m.Load(elemAddr(verts, i), verts.typ.Underlying().(*types.Slice).Elem()))
}

// shapeCfg: working out the mass of a body again, and waking it, leave the
// geometry and mass of its shapes alone (C06, C09).
func shapeCfg() Config {
	return Config{NoEnter: true, Opaque: opaqueSet("CentroidForPoly", "MomentForPoly", "AreaForPoly", "Body.AccumulateMassFromShapes", "Body.Activate", "Body.ActivateStatic"),
		KeepUser: keepAll, KeepOn: func(fn *ssa.Function, class string) bool { return true }}
}

// accumulates: the body's mass is worked out again when g, after the shape has its new one.
func (c *Ctx) accumulates(rule, name string, s *Summary, sh *Term, g, f *BDD) {
	have := bddFalse
	for _, e := range eventsOf(s.Events, "call", "Body.AccumulateMassFromShapes") {
		x := And(f, e.Guard)
		c.ob(proveEq(e.Args[0], get(s.Entry, sh, "body"), x), rule, name+" body's mass", e.Instr.Pos(), "the mass of %s is worked out", short(e.Args[0]))
		late := ""
		allEvents(s.Events, func(o *Event, ls []*LoopInfo) {
			if o.Kind == "store" && o.Seq > e.Seq && rootOf(o.Loc).op != OAlloc && sat(AndAll(f, e.Guard, o.Guard)) {
				late = short(o.Loc)
			}
		})
		c.ob(late == "", rule, name+" body's mass order", e.Instr.Pos(), "the mass of the body is worked out before %s is set", late)
		have = Or(have, e.Guard)
	}
	c.ob(implies(And(f, g), have), rule, name+" body's mass is worked out", s.Fn.Pos(), "the mass of the body is worked out again only when %s", shortB(have))
}

type massWant struct {
	m, i, area *Term
	cog        V2
}

func (c *Ctx) massIs(rule, name string, s *Summary, sh *Term, w massWant, f *BDD) {
	pos := s.Fn.Pos()
	ob := func(what string, got, want *Term) {
		c.ob(proveEq(got, want, f), rule, name+" "+what, pos, "%s becomes %s", what, short(got))
	}
	ob("mass", get(s.Mem, sh, "massInfo.m"), w.m)
	ob("moment", get(s.Mem, sh, "massInfo.i"), w.i)
	ob("area", get(s.Mem, sh, "massInfo.area"), w.area)
	ob("centre x", get(s.Mem, sh, "massInfo.cog.X"), w.cog.x)
	ob("centre y", get(s.Mem, sh, "massInfo.cog.Y"), w.cog.y)
}

// newShapeIs: what every constructor leaves in a shape besides geometry.
func (c *Ctx) newShapeIs(rule, name string, s *Summary, body *Term, class string, f *BDD) (sh, obj *Term) {
	sh = s.Ret
	pos := s.Fn.Pos()
	obj = get(s.Mem, sh, "Class")
	if obj.op == OIface {
		obj = obj.args[0]
	}
	if !c.ob(obj.op == OAlloc && typeBaseOf(obj.typ) == class, rule, name+" class", pos, "the class of the shape is %s", short(obj)) {
		panic(abortCheck{})
	}
	c.ob(proveEq(get(s.Mem, obj, "Shape"), sh, f), rule, name+" shape", pos, "the %s is that of %s", class, short(get(s.Mem, obj, "Shape")))
	c.ob(proveEq(get(s.Mem, sh, "body"), body, f), rule, name+" body", pos, "the body is %s", short(get(s.Mem, sh, "body")))
	for _, p := range []string{"e", "u", "surfaceV.X", "surfaceV.Y"} {
		c.ob(proveEq(get(s.Mem, sh, p), TNum(0), f), rule, name+" "+p, pos, "%s is %s", p, short(get(s.Mem, sh, p)))
	}
	for _, p := range []string{"collisionType", "hashid"} {
		c.ob(proveEq(get(s.Mem, sh, p), TInt(0), f), rule, name+" "+p, pos, "%s is %s", p, short(get(s.Mem, sh, p)))
	}
	sp := get(s.Mem, sh, "space")
	c.ob(proveEq(sp, TNilOf(sp.typ), f) && !sat(And(f, toBDD(get(s.Mem, sh, "sensor")))), rule, name+" space", pos, "the new shape is in %s, sensor %s", short(sp), short(get(s.Mem, sh, "sensor")))
	no, all := c.global(s.Mem, "NO_GROUP"), c.global(s.Mem, "ALL_CATEGORIES")
	c.ob(proveEq(get(s.Mem, sh, "Filter.Group"), no, f) && proveEq(get(s.Mem, sh, "Filter.Categories"), all, f) && proveEq(get(s.Mem, sh, "Filter.Mask"), all, f),
		rule, name+" filter", pos, "the new shape does not collide with everything")
	return sh, obj
}

func (c *Ctx) segMass(m *Term, a, b V2, r *Term) massWant {
	d := a.sub(b).len()
	l := TAdd(d, TScale(r, 2, 1))
	return massWant{m: m, i: TScale(TAdd(TMul(l, l), TScale(TMul(r, r), 4, 1)), 1, 12), area: TAdd(TMul(tPi, TMul(r, r)), TScale(TMul(r, d), 2, 1)), cog: a.add(b).mul(TScale(TNum(1), 1, 2))}
}

func (c *Ctx) circleMass(m, r *Term, o V2) massWant {
	return massWant{m: m, i: TScale(TMul(r, r), 1, 2), area: TMul(tPi, TMul(r, r)), cog: o}
}

func (c *Ctx) segNormal(a, b V2) V2 {
	return vec(c.apply("Vector.Normalize", c.mkVec(b.sub(a).rperp())))
}

// polyMass: the mass properties are those of the polygon with these vertices.
func (c *Ctx) polyMass(rule, name string, s *Summary, sh, m, count, r *Term, isVerts func(t *Term, e *Event) bool, keep bool, f *BDD) {
	pos := s.Fn.Pos()
	g := func(p string) *Term { return get(s.Mem, sh, p) }
	c.ob(proveEq(g("massInfo.m"), m, f), rule, name+" mass", pos, "the mass becomes %s", short(g("massInfo.m")))
	kept := func(ps ...string) bool {
		for _, p := range ps {
			if !keep || !proveEq(g(p), get(s.Entry, sh, p), f) {
				return false
			}
		}
		return true
	}
	ret := func(fn string, fits func(e *Event) bool, ok func(e *Event) bool) *Event {
		for _, e := range eventsOf(s.Events, "call", fn) {
			if implies(f, e.Guard) && fits(e) && ok(e) {
				return e
			}
		}
		return nil
	}
	cog := V2{g("massInfo.cog.X"), g("massInfo.cog.Y")}
	ce := ret("CentroidForPoly", func(e *Event) bool { return e.Result != nil }, func(e *Event) bool {
		return proveEq(e.Args[0], count, f) && isVerts(e.Args[1], e)
	})
	isCentroid := ce != nil && cog.eq(vec(ce.Result), f) || kept("massInfo.cog.X", "massInfo.cog.Y")
	c.ob(isCentroid, rule, name+" centre", pos, "the centre of gravity, %s, is not the centroid of the vertices", short(cog.x))
	me := ret("MomentForPoly", func(e *Event) bool { return proveEq(e.Result, g("massInfo.i"), f) }, func(e *Event) bool {
		return proveEq(e.Args[0], TNum(1), f) && proveEq(e.Args[1], count, f) && isVerts(e.Args[2], e) && vec(e.Args[3]).eq(cog.neg(), f)
	})
	c.ob(me != nil || kept("massInfo.i"), rule, name+" moment", pos, "the moment %s is not that of the vertices around the centroid", short(g("massInfo.i")))
	ae := ret("AreaForPoly", func(e *Event) bool { return proveEq(e.Result, g("massInfo.area"), f) }, func(e *Event) bool {
		return proveEq(e.Args[0], count, f) && isVerts(e.Args[1], e) && proveEq(e.Args[2], r, f)
	})
	c.ob(ae != nil, rule, name+" area", pos, "the area %s is not that of the vertices and the radius", short(g("massInfo.area")))
}

// polyPlanes: planes[count:] hold the vertices and the normals of the edges that end there.
func (c *Ctx) polyPlanes(rule, name string, s *Summary, obj, count, verts *Term, f *BDD) {
	pos := s.Fn.Pos()
	c.ob(proveEq(get(s.Mem, obj, "count"), count, f), rule, name+" count", pos, "the number of vertices becomes %s", short(get(s.Mem, obj, "count")))
	pl := get(s.Mem, obj, "planes")
	c.ob(proveEq(TLen(pl), TAdd(count, count), f), rule, name+" planes", pos, "there is room for %s planes", short(TLen(pl)))
	have := map[string]bool{}
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind != "store" || len(ls) != 1 {
			return
		}
		cl := locClass(e.Loc)
		i := indexOf(e.Loc)
		if i == nil || !containsTerm(e.Loc, pl) {
			return
		}
		// at planes[count+k], k the vertex visited
		l := ls[0]
		var le *Event
		for _, x := range s.Events {
			if x.Loop == l {
				le = x
			}
		}
		if le == nil {
			return
		}
		k := TSub(i, count)
		msg := visitsIndexed(le, k, count, f)
		if !c.ob(msg == "", rule, name+" vertices", e.Instr.Pos(), "not every vertex is set once: %s", msg) {
			return
		}
		g := AndAll(f, l.Assume, l.BackG, CondLe(TInt(0), k, true), CondLt(k, count, true))
		c.ob(implies(g, e.Guard), rule, name+" always "+cl, e.Instr.Pos(), "it is set only when %s", shortB(e.Guard))
		edges, _, why := edgesOf(le, verts, count, And(f, le.Guard))
		if !c.ob(why == "", rule, name+" edges", e.Instr.Pos(), "%s", why) {
			return
		}
		plane := ownerOfLoc(e.Loc, "SplittingPlane.v0")
		isV0 := plane != nil
		if plane == nil {
			plane = ownerOfLoc(e.Loc, "SplittingPlane.n")
		}
		if plane == nil {
			c.fail(rule, name+" other store", e.Instr.Pos(), "%s is set", short(e.Loc))
			return
		}
		ax := lastField(e.Loc)
		ok := false
		for _, ed := range edges {
			if !ed[1].eq(loadV(l.Iter, verts, k), g) {
				continue
			}
			w := ed[1]
			if !isV0 {
				w = c.segNormalPoly(ed[0], ed[1])
			}
			want := w.x
			if ax == "Y" {
				want = w.y
			}
			if proveEq(e.Val, want, g) {
				ok = true
			}
		}
		key := fmt.Sprintf("v0 %v %s", isV0, ax)
		c.ob(ok, rule, name+" "+key, e.Instr.Pos(), "vertex %s gets %s", short(k), short(e.Val))
		have[key] = true
	})
	c.ob(len(have) == 4, rule, name+" all set", pos, "only %v are set", have)
}

func (c *Ctx) segNormalPoly(a, b V2) V2 {
	return vec(c.apply("Vector.Normalize", c.mkVec(b.sub(a).rperp())))
}

func checkC31(c *Ctx) {
	cfg := shapeCfg()
	rule := "constructors"
	c.part("NewCircle", func() {
		s := c.sum("NewCircle", "geo", cfg)
		f := typeFact(s)
		sh, obj := c.newShapeIs(rule, "NewCircle", s, s.Params[0], "Circle", f)
		c.ob(proveEq(get(s.Mem, obj, "r"), s.Params[1], f) && getV(s.Mem, obj, "c").eq(vec(s.Params[2]), f), rule, "NewCircle geometry", s.Fn.Pos(), "radius %s, centre %s", short(get(s.Mem, obj, "r")), short(get(s.Mem, obj, "c.X")))
		c.massIs(rule, "NewCircle", s, sh, c.circleMass(TNum(0), s.Params[1], vec(s.Params[2])), f)
	})
	c.part("NewSegment", func() {
		s := c.sum("NewSegment", "geo", cfg)
		f := typeFact(s)
		sh, obj := c.newShapeIs(rule, "NewSegment", s, s.Params[0], "Segment", f)
		A, B, r := vec(s.Params[1]), vec(s.Params[2]), s.Params[3]
		c.ob(proveEq(get(s.Mem, obj, "r"), r, f) && getV(s.Mem, obj, "a").eq(A, f) && getV(s.Mem, obj, "b").eq(B, f) && getV(s.Mem, obj, "n").eq(c.segNormal(A, B), f), rule, "NewSegment geometry", s.Fn.Pos(), "radius %s, from %s, to %s, normal %s", short(get(s.Mem, obj, "r")), short(get(s.Mem, obj, "a.X")), short(get(s.Mem, obj, "b.X")), short(get(s.Mem, obj, "n.X")))
		c.massIs(rule, "NewSegment", s, sh, c.segMass(TNum(0), A, B, r), f)
		// not joined to other segments
		c.ob(getV(s.Mem, obj, "a_tangent").eq(V2{TNum(0), TNum(0)}, f) && getV(s.Mem, obj, "b_tangent").eq(V2{TNum(0), TNum(0)}, f), rule, "NewSegment neighbours", s.Fn.Pos(), "the new segment has neighbours")
	})
	c.part("NewPolyShapeRaw", func() {
		s := c.sum("NewPolyShapeRaw", "geo", cfg)
		n, vs, r := s.Params[1], s.Params[2], s.Params[3]
		f := AndAll(s.G, CondLe(TInt(1), n, true))
		sh, obj := c.newShapeIs(rule, "NewPolyShapeRaw", s, s.Params[0], "PolyShape", f)
		c.ob(proveEq(get(s.Mem, obj, "r"), r, f), rule, "NewPolyShapeRaw radius", s.Fn.Pos(), "radius %s", short(get(s.Mem, obj, "r")))
		c.polyMass(rule, "NewPolyShapeRaw", s, sh, TNum(0), n, r, func(t *Term, e *Event) bool { return proveEq(t, vs, f) }, false, f)
		c.polyPlanes(rule, "NewPolyShapeRaw", s, obj, n, vs, f)
	})
	c.part("boxes", func() {
		for _, name := range []string{"NewBox", "NewBox2"} {
			s := c.sum(name, "geo", Config{NoEnter: true, Opaque: opaqueSet("NewPolyShapeRaw")})
			es := eventsOf(s.Events, "call", "NewPolyShapeRaw")
			if !c.ob(len(es) == 1, rule, name, s.Fn.Pos(), "it makes %d shapes", len(es)) {
				continue
			}
			e, f := es[0], typeFact(s)
			var l, b, r, t, rad *Term
			if name == "NewBox" {
				w, h := s.Params[1], s.Params[2]
				r, t, rad = TScale(w, 1, 2), TScale(h, 1, 2), s.Params[3]
				l, b = TNeg(r), TNeg(t)
			} else {
				bb := s.Params[1]
				l, b, r, t, rad = fld(bb, "L"), fld(bb, "B"), fld(bb, "R"), fld(bb, "T"), s.Params[2]
			}
			c.ob(proveEq(s.Ret, e.Result, f) && implies(f, e.Guard) && proveEq(e.Args[0], s.Params[0], f) && proveEq(e.Args[3], rad, f) && proveEq(e.Args[1], TInt(4), f), rule, name+" arguments", e.Instr.Pos(), "the shape is made from %v", e.Args)
			corners := []V2{{r, b}, {r, t}, {l, t}, {l, b}}
			ok := false
			for k := range corners { // counter-clockwise, from any corner
				all := true
				for i := range corners {
					all = all && loadV(e.Mem, e.Args[2], TInt(int64(i))).eq(corners[(i+k)%4], f)
				}
				ok = ok || all
			}
			c.ob(ok, rule, name+" corners", e.Instr.Pos(), "the vertices are not the corners, counter-clockwise")
		}
	})
	c.part("hulls", func() {
		for _, name := range []string{"NewPolyShape", "PolyShape.SetVertsUnsafe"} {
			next := "NewPolyShapeRaw"
			if name != "NewPolyShape" {
				next = "PolyShape.SetVertsRaw"
			}
			s := c.sum(name, "geo", Config{NoEnter: true, Opaque: opaqueSet("NewPolyShapeRaw", "PolyShape.SetVertsRaw", "ConvexHull")})
			hs, es := eventsOf(s.Events, "call", "ConvexHull"), eventsOf(s.Events, "call", next)
			if !c.ob(len(hs) == 1 && len(es) == 1, rule, name, s.Fn.Pos(), "it works out %d hulls and uses %d", len(hs), len(es)) {
				continue
			}
			h, e, f := hs[0], es[0], s.G
			n, vs, tr := s.Params[1], s.Params[2], s.Params[3]
			f = And(f, CondLe(TInt(1), n, true))
			c.ob(implies(f, h.Guard) && proveEq(h.Args[0], n, f) && proveEq(h.Args[3], TNum(0), f), rule, name+" hull", h.Instr.Pos(), "the hull is that of %s vertices, tolerance %s", short(h.Args[0]), short(h.Args[3]))
			k := 1
			c.ob(h.Seq < e.Seq && implies(f, e.Guard) && proveEq(e.Args[0], s.Params[0], f) && proveEq(e.Args[k], h.Result, f) && proveEq(e.Args[k+1], h.Args[1], f), rule, name+" uses the hull", e.Instr.Pos(), "the shape is made of %s of %s", short(e.Args[k]), short(e.Args[k+1]))
			if name == "NewPolyShape" {
				c.ob(proveEq(e.Args[3], s.Params[4], f) && proveEq(s.Ret, e.Result, f), rule, name+" radius", e.Instr.Pos(), "the radius is %s", short(e.Args[3]))
			}
			why := c.transformed(s, h.Args[1], vs, n, tr, f)
			c.ob(why == "", rule, name+" vertices", h.Instr.Pos(), "the hull is not that of the transformed vertices: %s", why)
		}
	})
	c.atLeast(rule, 40)

	rule = "setters"
	type setter struct {
		name string
		run  func(name string, s *Summary, obj, sh *Term, f *BDD)
		keep string
	}
	for _, st := range []setter{
		{"Circle.SetRadius", func(name string, s *Summary, obj, sh *Term, f *BDD) {
			r := s.Params[1]
			c.ob(proveEq(get(s.Mem, obj, "r"), r, f), rule, name+" radius", s.Fn.Pos(), "the radius becomes %s", short(get(s.Mem, obj, "r")))
			cog := getV(s.Entry, obj, "c")
			if old := getV(s.Entry, sh, "massInfo.cog"); getV(s.Mem, sh, "massInfo.cog").eq(old, f) {
				cog = old // the centre, which never changes
			}
			c.massIs(rule, name, s, sh, c.circleMass(get(s.Entry, sh, "massInfo.m"), r, cog), f)
		}, "Circle.r"},
		{"Segment.SetRadius", func(name string, s *Summary, obj, sh *Term, f *BDD) {
			r := s.Params[1]
			c.ob(proveEq(get(s.Mem, obj, "r"), r, f), rule, name+" radius", s.Fn.Pos(), "the radius becomes %s", short(get(s.Mem, obj, "r")))
			c.massIs(rule, name, s, sh, c.segMass(get(s.Entry, sh, "massInfo.m"), getV(s.Entry, obj, "a"), getV(s.Entry, obj, "b"), r), f)
		}, "Segment.r"},
		{"Segment.SetEndpoints", func(name string, s *Summary, obj, sh *Term, f *BDD) {
			A, B := vec(s.Params[1]), vec(s.Params[2])
			c.ob(getV(s.Mem, obj, "a").eq(A, f) && getV(s.Mem, obj, "b").eq(B, f), rule, name+" ends", s.Fn.Pos(), "the segment goes from %s to %s", short(get(s.Mem, obj, "a.X")), short(get(s.Mem, obj, "b.X")))
			c.ob(getV(s.Mem, obj, "n").eq(c.segNormal(A, B), f), rule, name+" normal", s.Fn.Pos(), "the normal becomes %s", short(get(s.Mem, obj, "n.X")))
			c.massIs(rule, name, s, sh, c.segMass(get(s.Entry, sh, "massInfo.m"), A, B, get(s.Entry, obj, "r")), f)
		}, "Segment.a Segment.b Segment.n"},
		{"PolyShape.SetRadius", func(name string, s *Summary, obj, sh *Term, f *BDD) {
			r := s.Params[1]
			c.ob(proveEq(get(s.Mem, obj, "r"), r, f), rule, name+" radius", s.Fn.Pos(), "the radius becomes %s", short(get(s.Mem, obj, "r")))
			n := get(s.Entry, obj, "count")
			why := ""
			c.polyMass(rule, name, s, sh, get(s.Entry, sh, "massInfo.m"), n, r, func(t *Term, e *Event) bool {
				why = c.ownVertices(s, t, obj, n, f)
				return why == ""
			}, true, f)
			c.ob(why == "", rule, name+" vertices", s.Fn.Pos(), "the vertices used are not those of the polygon: %s", why)
		}, "PolyShape.r"},
		{"PolyShape.SetVertsRaw", func(name string, s *Summary, obj, sh *Term, f *BDD) {
			n, vs := s.Params[1], s.Params[2]
			f = And(f, CondLe(TInt(1), n, true))
			c.polyMass(rule, name, s, sh, get(s.Entry, sh, "massInfo.m"), n, get(s.Entry, obj, "r"), func(t *Term, e *Event) bool { return proveEq(t, vs, f) }, false, f)
			c.polyPlanes(rule, name, s, obj, n, vs, f)
		}, "PolyShape.count PolyShape.planes"},
	} {
		st := st
		c.part(st.name, func() {
			s := c.sum(st.name, "geo", cfg)
			obj := s.Params[0]
			sh := get(s.Entry, obj, "Shape")
			f := AndAll(s.G, notNil(obj), notNil(sh))
			st.run(st.name, s, obj, sh, f)
			c.accumulates(rule, st.name, s, sh, CondLt(TNum(0), get(s.Entry, sh, "massInfo.m"), false), f)
			c.onlyTouches(rule, st.name, s, f, "Circle Segment PolyShape Shape ShapeMassInfo Body Space", st.keep+" Shape.massInfo ShapeMassInfo.m ShapeMassInfo.i ShapeMassInfo.cog ShapeMassInfo.area")
		})
	}
	c.atLeast(rule, 50)
}

// transformed: the list holds the transformed vertices, in order.
func (c *Ctx) transformed(s *Summary, list, verts, n, tr *Term, f *BDD) string {
	T := func(v V2) V2 { return vec(c.apply("Transform.Point", tr, c.mkVec(v))) }
	return c.filled(s, list, n, f, func(m *Mem, k *Term) V2 { return T(loadV(m, verts, k)) })
}

// ownVertices: the list holds the polygon's own vertices.
func (c *Ctx) ownVertices(s *Summary, list, obj, n *Term, f *BDD) string {
	pl := get(s.Entry, obj, "planes")
	return c.filled(s, list, n, f, func(m *Mem, k *Term) V2 {
		return getV(m, elemAddr(pl, TAdd(k, n)), "v0")
	})
}

// filled: a loop gives every element of the list its value, in place or by
// appending to an empty list.
func (c *Ctx) filled(s *Summary, list, n *Term, f *BDD, want func(m *Mem, k *Term) V2) string {
	why := "it is " + short(list)
	for _, e := range s.Events {
		if e.Kind != "loop" || !sat(And(f, e.Guard)) {
			continue
		}
		l := e.Loop
		got := map[string]bool{}
		for _, st := range l.Events {
			if st.Kind != "store" {
				continue
			}
			i := indexOf(st.Loc)
			if i == nil || !containsTerm(st.Loc, list) {
				continue
			}
			if msg := visitsIndexed(e, i, n, f); msg != "" {
				why = msg
				continue
			}
			g := AndAll(f, l.Assume, l.BackG, CondLe(TInt(0), i, true), CondLt(i, n, true))
			w := want(l.Iter, i)
			v, ax := w.x, lastField(st.Loc)
			if ax == "Y" {
				v = w.y
			}
			if !implies(g, st.Guard) || !proveEq(st.Val, v, g) {
				return fmt.Sprintf("element %s is %s", short(i), short(st.Val))
			}
			got[ax] = true
		}
		if got["X"] && got["Y"] && implies(f, e.Guard) {
			return ""
		}
		// appended
		for _, ph := range l.Phis {
			if ph.Var != list || ph.Back.op != OApp || ph.Back.name != "append" || ph.Back.args[0] != ph.Var {
				continue
			}
			if !proveEq(TLen(ph.Init), TInt(0), And(f, e.Guard)) {
				return "the list is not empty to begin with"
			}
			for _, k := range l.Phis {
				if k.Invariant || !isNumType(k.Var.typ) {
					continue
				}
				for _, off := range []int64{0, 1} {
					i := TAdd(k.Var, TInt(off))
					if visitsIndexed(e, i, n, f) != "" || !proveEq(k.Step, TInt(1), f) {
						continue
					}
					g := AndAll(f, l.Assume, l.BackG, CondLe(TInt(0), i, true), CondLt(i, n, true))
					if vec(ph.Back.args[1]).eq(want(l.Iter, i), g) {
						return ""
					}
					return fmt.Sprintf("element %s is %s", short(i), short(ph.Back.args[1]))
				}
			}
		}
	}
	return why
}

func checkC36(c *Ctx) {
	rule := "cached"
	P := func(tr *Term, v V2) V2 { return vec(c.apply("Transform.Point", tr, c.mkVec(v))) }
	Vt := func(tr *Term, v V2) V2 { return vec(c.apply("Transform.Vect", tr, c.mkVec(v))) }
	boxIs := func(name string, bb *Term, s *Summary, l, b, r, t *Term, f *BDD) {
		for _, x := range []struct {
			n string
			w *Term
		}{{"L", l}, {"B", b}, {"R", r}, {"T", t}} {
			c.ob(proveEq(fld(bb, x.n), x.w, f), rule, name+" box "+x.n, s.Fn.Pos(), "side %s of the box is %s", x.n, short(fld(bb, x.n)))
		}
	}
	min := func(a, b *Term) *Term { return TIte(CondLt(a, b, false), a, b) }
	max := func(a, b *Term) *Term { return TIte(CondLt(a, b, false), b, a) }
	c.part("Circle.CacheData", func() {
		s := c.sum("Circle.CacheData", "cache", Config{NoEnter: true})
		o, tr, f := s.Params[0], s.Params[1], And(typeFact(s), notNil(s.Params[0]))
		p, r := P(tr, getV(s.Entry, o, "c")), get(s.Entry, o, "r")
		c.ob(getV(s.Mem, o, "tc").eq(p, f), rule, "Circle.CacheData centre", s.Fn.Pos(), "the centre is cached as %s", short(get(s.Mem, o, "tc.X")))
		boxIs("Circle.CacheData", s.Ret, s, TSub(p.x, r), TSub(p.y, r), TAdd(p.x, r), TAdd(p.y, r), f)
		c.onlyTouches(rule, "Circle.CacheData", s, f, "Circle Shape Body", "Circle.tc Shape.bb")
	})
	c.part("Segment.CacheData", func() {
		s := c.sum("Segment.CacheData", "cache", Config{NoEnter: true})
		o, tr, f := s.Params[0], s.Params[1], And(typeFact(s), notNil(s.Params[0]))
		a, b, r := P(tr, getV(s.Entry, o, "a")), P(tr, getV(s.Entry, o, "b")), get(s.Entry, o, "r")
		c.ob(getV(s.Mem, o, "ta").eq(a, f) && getV(s.Mem, o, "tb").eq(b, f) && getV(s.Mem, o, "tn").eq(Vt(tr, getV(s.Entry, o, "n")), f), rule, "Segment.CacheData ends", s.Fn.Pos(), "the ends are cached as %s and %s, the normal as %s", short(get(s.Mem, o, "ta.X")), short(get(s.Mem, o, "tb.X")), short(get(s.Mem, o, "tn.X")))
		boxIs("Segment.CacheData", s.Ret, s, TSub(min(a.x, b.x), r), TSub(min(a.y, b.y), r), TAdd(max(a.x, b.x), r), TAdd(max(a.y, b.y), r), f)
		c.onlyTouches(rule, "Segment.CacheData", s, f, "Segment Shape Body", "Segment.ta Segment.tb Segment.tn Shape.bb")
	})
	c.part("PolyShape.CacheData", func() {
		s := c.sum("PolyShape.CacheData", "cache", Config{NoEnter: true})
		o, tr, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		n, pl, rad := get(s.Entry, o, "count"), get(s.Entry, o, "planes"), get(s.Entry, o, "r")
		// twice as many planes as vertices (C31)
		f := AndAll(s.G, notNil(o), CondLe(TInt(1), n, true), CondEq(TLen(pl), TAdd(n, n)))
		sides := map[string]*Term{}
		stored := map[string]bool{}
		for _, e := range s.Events {
			if e.Kind != "loop" || !sat(And(f, e.Guard)) {
				continue
			}
			l := e.Loop
			var idx *Term
			why := "it counts nothing"
			for _, ph := range l.Phis {
				if ph.Invariant || !isNumType(ph.Var.typ) || isFloat(ph.Var.typ) {
					continue
				}
				for _, off := range []int64{0, 1} {
					if why = visitsIndexed(e, TAdd(ph.Var, TInt(off)), n, f); why == "" && idx == nil {
						idx = TAdd(ph.Var, TInt(off))
					}
				}
			}
			if !c.ob(idx != nil, rule, "PolyShape.CacheData vertices", e.Instr.Pos(), "not every vertex is visited once: %s", why) {
				continue
			}
			g := AndAll(f, l.Assume, l.BackG, CondLe(TInt(0), idx, true), CondLt(idx, n, true))
			src := elemAddr(pl, TAdd(idx, n))
			v, nn := P(tr, getV(l.Iter, src, "v0")), Vt(tr, getV(l.Iter, src, "n"))
			// the local data are never written
			for _, st := range l.Events {
				if st.Kind != "store" {
					continue
				}
				i := indexOf(st.Loc)
				if i == nil || ownerOfLoc(st.Loc, "SplittingPlane.v0") == nil && ownerOfLoc(st.Loc, "SplittingPlane.n") == nil {
					continue
				}
				w, k := v, "v0."
				if ownerOfLoc(st.Loc, "SplittingPlane.v0") == nil {
					w, k = nn, "n."
				}
				x := w.x
				if lastField(st.Loc) == "Y" {
					x = w.y
				}
				key := k + lastField(st.Loc)
				c.ob(proveEq(i, idx, g) && containsTerm(st.Loc, pl), rule, "PolyShape.CacheData place "+key, st.Instr.Pos(), "plane %s is written", short(i))
				c.ob(proveEq(st.Val, x, g) && implies(g, st.Guard), rule, "PolyShape.CacheData "+key, st.Instr.Pos(), "%s of plane %s becomes %s", key, short(i), short(st.Val))
				stored[key] = true
			}
			for _, ph := range l.Phis {
				if ph.Invariant || !isFloat(ph.Var.typ) {
					continue
				}
				inf := TMaxF()
				for _, x := range []struct {
					n    string
					init *Term
					w    *Term
				}{{"L", inf, min(ph.Var, v.x)}, {"B", inf, min(ph.Var, v.y)}, {"R", TNeg(inf), max(ph.Var, v.x)}, {"T", TNeg(inf), max(ph.Var, v.y)}} {
					if proveEq(ph.Init, x.init, And(f, e.Guard)) && proveEq(ph.Back, x.w, g) {
						sides[x.n] = ph.Var
					}
				}
			}
		}
		c.ob(len(stored) == 4, rule, "PolyShape.CacheData stores", pos, "only %v are cached", stored)
		if c.ob(len(sides) == 4, rule, "PolyShape.CacheData extremes", pos, "the extremes of the vertices are known only for sides %v", sides) {
			boxIs("PolyShape.CacheData", s.Ret, s, TSub(sides["L"], rad), TSub(sides["B"], rad), TAdd(sides["R"], rad), TAdd(sides["T"], rad), f)
		}
		c.onlyTouches(rule, "PolyShape.CacheData", s, f, "PolyShape Shape Body", "Shape.bb")
	})
	c.atLeast(rule, 26)

	rule = "refreshed"
	caches := func(name string, s *Summary, sh, tr *Term, f *BDD) *Event {
		es := eventsOf(s.Events, "invoke", "CacheData")
		if !c.ob(len(es) == 1, rule, name+" caches", s.Fn.Pos(), "the class is told %d times", len(es)) {
			return nil
		}
		e := es[0]
		c.ob(implies(f, e.Guard) && proveEq(e.Recv, get(s.Entry, sh, "Class"), f) && sameStruct(e.Args[0], tr, f), rule, name+" transform", e.Instr.Pos(), "%s is told %s", short(e.Recv), short(e.Args[0]))
		c.ob(sameStruct(get(s.Mem, sh, "bb"), e.Result, f), rule, name+" box", e.Instr.Pos(), "the box kept is %s", short(get(s.Mem, sh, "bb")))
		return e
	}
	keepBB := Config{NoEnter: true, KeepUser: keepAll}
	c.part("updates", func() {
		s := c.sum("Shape.Update", "cache", keepBB)
		f := And(typeFact(s), notNil(s.Params[0]))
		caches("Shape.Update", s, s.Params[0], s.Params[1], f)
		c.ob(sameStruct(s.Ret, get(s.Mem, s.Params[0], "bb"), f), rule, "Shape.Update result", s.Fn.Pos(), "it returns %s", short(s.Ret))
		s = c.sum("Shape.CacheBB", "cache", keepBB)
		f = And(typeFact(s), notNil(s.Params[0]))
		caches("Shape.CacheBB", s, s.Params[0], get(s.Entry, s.Params[0], "body.transform"), f)
		c.ob(sameStruct(s.Ret, get(s.Mem, s.Params[0], "bb"), f), rule, "Shape.CacheBB result", s.Fn.Pos(), "it returns %s", short(s.Ret))
		s = c.sumFn(c.funcVar("ShapeUpdateFunc"), "cache", keepBB)
		f = And(typeFact(s), notNil(s.Params[0]))
		caches("ShapeUpdateFunc", s, s.Params[0], get(s.Entry, s.Params[0], "body.transform"), f)
		s = c.sum("ShapeGetBB", "cache", keepBB)
		c.ob(sameStruct(s.Ret, get(s.Entry, s.Params[0], "bb"), And(typeFact(s), notNil(s.Params[0]))), rule, "ShapeGetBB", s.Fn.Pos(), "it returns %s", short(s.Ret))
	})
	c.part("ReindexShape", func() {
		s := c.sum("Space.ReindexShape", "cache", Config{NoEnter: true, KeepUser: keepAll, Pure: func(fn *ssa.Function) bool { return fn.Name() == "ReindexObject" }})
		sp, sh := s.Params[0], s.Params[1]
		f := AndAll(s.G, notNil(sh))
		ce := caches("Space.ReindexShape", s, sh, get(s.Entry, sh, "body.transform"), f)
		for _, ix := range []string{"dynamicShapes", "staticShapes"} {
			g := bddFalse
			for _, e := range eventsOf(s.Events, "invoke", "ReindexObject") {
				x := And(f, e.Guard)
				if proveEq(e.Recv, get(s.Entry, get(s.Entry, sp, ix), "class"), x) {
					c.ob(proveEq(e.Args[0], sh, x) && proveEq(e.Args[1], get(s.Entry, sh, "hashid"), x) && ce != nil && ce.Seq < e.Seq, rule, "Space.ReindexShape "+ix+" shape", e.Instr.Pos(), "shape %s, hash %s is indexed again", short(e.Args[0]), short(e.Args[1]))
					g = Or(g, e.Guard)
				}
			}
			c.ob(implies(f, g), rule, "Space.ReindexShape "+ix, s.Fn.Pos(), "it is indexed again only when %s", shortB(g))
		}
	})
	c.part("UseSpatialHash", func() {
		s := c.sum("Space.UseSpatialHash", "cache", Config{NoEnter: true, Opaque: opaqueSet("NewSpaceHash", "SpaceHash.Insert"), KeepUser: keepAll, Pure: func(fn *ssa.Function) bool { return fn.Name() == "Insert" || fn.Name() == "Each" }})
		sp, f := s.Params[0], s.G
		mk := eventsOf(s.Events, "call", "NewSpaceHash")
		if !c.ob(len(mk) == 2, rule, "Space.UseSpatialHash indexes", s.Fn.Pos(), "it makes %d", len(mk)) {
			return
		}
		made := map[string]*Event{}
		for _, ix := range []string{"staticShapes", "dynamicShapes"} {
			for _, e := range mk {
				if proveEq(get(s.Mem, sp, ix), e.Result, f) && implies(f, e.Guard) {
					made[ix] = e
				}
			}
			c.ob(made[ix] != nil, rule, "Space.UseSpatialHash "+ix, s.Fn.Pos(), "it becomes %s", short(get(s.Mem, sp, ix)))
		}
		if len(made) != 2 || made["staticShapes"] == made["dynamicShapes"] {
			c.fail(rule, "Space.UseSpatialHash two indexes", s.Fn.Pos(), "there are not two indexes")
			return
		}
		for ix, e := range made {
			st := e.Args[3]
			ok := st.op == ONil || proveEq(st, TNilOf(st.typ), f)
			if ix == "dynamicShapes" {
				ok = proveEq(st, made["staticShapes"].Result, f)
			}
			c.ob(ok && proveEq(e.Args[0], s.Params[1], f) && proveEq(e.Args[1], s.Params[2], f), rule, "Space.UseSpatialHash arguments "+ix, e.Instr.Pos(), "it is made with %v", e.Args)
			c.ob(strings.HasSuffix(e.Args[2].String(), "ShapeGetBB"), rule, "Space.UseSpatialHash boxes "+ix, e.Instr.Pos(), "boxes come from %s", short(e.Args[2]))
			// every shape of the old one goes into the new one
			n := 0
			for _, ev := range eventsOf(s.Events, "invoke", "Each") {
				if !proveEq(ev.Recv, get(s.Entry, get(s.Entry, sp, ix), "class"), f) || ev.Sub == nil {
					continue
				}
				c.ob(implies(f, ev.Guard), rule, "Space.UseSpatialHash copies "+ix, ev.Instr.Pos(), "shapes are taken over only when %s", shortB(ev.Guard))
				arg := ev.Sub.Params[0]
				g := bddFalse
				for _, in := range ev.Sub.Events {
					if (in.Kind == "invoke" || in.Kind == "call") && (in.Name == "Insert" || in.Name == "SpaceHash.Insert") {
						rc, as := in.Recv, in.Args
						if rc == nil {
							rc, as = as[0], as[1:]
						}
						x := And(f, in.Guard)
						c.ob(proveEq(rc, get(in.Mem, e.Result, "class"), x) && proveEq(as[0], arg, x) && proveEq(as[1], get(in.Mem, arg, "hashid"), x), rule, "Space.UseSpatialHash shape "+ix, in.Instr.Pos(), "%s is put into %s under %s", short(as[0]), short(rc), short(as[1]))
						g = Or(g, in.Guard)
					}
				}
				c.ob(implies(f, g), rule, "Space.UseSpatialHash every shape "+ix, ev.Instr.Pos(), "a shape is taken over only when %s", shortB(g))
				n++
			}
			c.ob(n == 1, rule, "Space.UseSpatialHash all shapes "+ix, s.Fn.Pos(), "the shapes are taken over %d times", n)
		}
		c.onlyTouches(rule, "Space.UseSpatialHash", s, f, "Space Shape Body", "Space.staticShapes Space.dynamicShapes")
	})
	c.atLeast(rule, 28)

	rule = "read"
	c.part("accessors", func() {
		for _, x := range []struct {
			fn, path string
		}{
			{"Circle.TransformC", "tc"}, {"Segment.TransformA", "ta"}, {"Segment.TransformB", "tb"}, {"Segment.A", "a"}, {"Segment.B", "b"}, {"Segment.Normal", "n"},
			{"Circle.Radius", "r"}, {"Segment.Radius", "r"}, {"PolyShape.Radius", "r"}, {"PolyShape.Count", "count"}, {"Shape.BB", "bb"},
		} {
			s := c.sum(x.fn, "acc", Config{NoEnter: true})
			f := And(typeFact(s), ptrFact(s.Params[0]))
			want := getP(s.Entry, s.Params[0], x.path)
			c.ob(isNumType(s.Ret.typ) && proveEq(s.Ret, want, f) || sameStruct(s.Ret, want, f), rule, x.fn, s.Fn.Pos(), "it returns %s", short(s.Ret))
		}
		for _, fn := range []string{"PolyShape.Vert", "PolyShape.TransformVert"} {
			s := c.sum(fn, "acc", Config{NoEnter: true})
			o, i := s.Params[0], s.Params[1]
			f := And(typeFact(s), ptrFact(o))
			pl := getP(s.Entry, o, "planes")
			k := i
			if fn == "PolyShape.Vert" {
				k = TAdd(i, getP(s.Entry, o, "count"))
			}
			c.ob(vec(s.Ret).eq(getV(s.Entry, elemAddr(pl, k), "v0"), f), rule, fn, s.Fn.Pos(), "it returns %s", short(s.Ret))
		}
	})
	c.atLeast(rule, 13)
}

func ptrFact(t *Term) *BDD {
	if _, ok := t.typ.Underlying().(*types.Pointer); ok {
		return notNil(t)
	}
	return bddTrue
}

// getP: a field of a struct or of what a pointer points to.
func getP(m *Mem, t *Term, path string) *Term {
	if _, ok := t.typ.Underlying().(*types.Pointer); ok {
		return get(m, t, path)
	}
	return fld(t, path)
}

func lastField(loc *Term) string {
	if loc.op == OField {
		return loc.name[strings.LastIndexByte(loc.name, '.')+1:]
	}
	return ""
}

func init() {
	register(&Check{ID: "C30", Run: checkC30, Explanation: "moments, areas and centroids"})
	register(&Check{ID: "C31", Run: checkC31, Explanation: "geometry setters and constructors agree"})
	register(&Check{ID: "C36", Run: checkC36, Explanation: "cached geometry follows the body"})
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// funcVar: the function an exported variable holds, which nothing in the
// library replaces.
func (c *Ctx) funcVar(name string) *ssa.Function {
	var fn *ssa.Function
	n := 0
	for _, f := range c.p.All {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Name() != name {
					continue
				}
				n++
				fn, _ = st.Val.(*ssa.Function)
			}
		}
	}
	if n != 1 || fn == nil {
		c.fail("anchor", name, token.NoPos, "the exported variable %s is not set once, to a function", name)
		panic(abortCheck{})
	}
	return fn
}
