package main

import (
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: which shapes may collide. C21: what the queries of a space find.

// bitAnd is the term of x & y.
func bitAnd(x, y *Term) *Term { return TApp("and", x.typ, x, y) }

// filterRejects: the documented rule of two shape filters.
func filterRejects(a, b *Term) *BDD {
	z := TInt(0)
	group := And(Not(CondEq(fld(a, "Group"), z)), CondEq(fld(a, "Group"), fld(b, "Group")))
	return Or(group, Or(CondEq(bitAnd(fld(a, "Categories"), fld(b, "Mask")), z), CondEq(bitAnd(fld(b, "Categories"), fld(a, "Mask")), z)))
}

func bbMeets(a, b *Term) *BDD {
	le := func(x, y *Term) *BDD { return CondLe(x, y, false) }
	return AndAll(le(fld(a, "L"), fld(b, "R")), le(fld(b, "L"), fld(a, "R")), le(fld(a, "B"), fld(b, "T")), le(fld(b, "B"), fld(a, "T")))
}

func checkC20(c *Ctx) {
	rule := "filters"
	c.part("ShapeFilter.Reject", func() {
		s := c.sum("ShapeFilter.Reject", "query", Config{NoEnter: true})
		ok := sameCond(toBDD(s.Ret), filterRejects(s.Params[0], s.Params[1]), typeFact(s))
		c.ob(ok, rule, "ShapeFilter.Reject", s.Fn.Pos(), "filters reject each other when %s", shortB(toBDD(s.Ret)))
	})
	c.part("NewShape", func() {
		s := c.sum("NewShape", "query", Config{NoEnter: true})
		f := typeFact(s)
		flt := get(s.Mem, s.Ret, "Filter")
		all, none := c.global(s.Mem, "ALL_CATEGORIES"), c.global(s.Mem, "NO_GROUP")
		ok := (proveEq(fld(flt, "Group"), none, f) || proveEq(fld(flt, "Group"), TInt(0), f)) && proveEq(fld(flt, "Categories"), all, f) && proveEq(fld(flt, "Mask"), all, f)
		c.ob(ok, rule, "NewShape", s.Fn.Pos(), "a new shape does not start in no group and in every category: %s", short(flt))
	})
	c.part("filter values", func() {
		s := c.sum("init", "query", Config{NoEnter: true})
		f := AndAll(typeFact(s), Not(toBDD(c.global(s.Entry, "init$guard"))))
		all := TRat(new(big.Rat).SetInt(new(big.Int).SetUint64(math.MaxUint64)), tyInt)
		c.ob(proveEq(c.global(s.Mem, "NO_GROUP"), TInt(0), f), rule, "NO_GROUP", s.Fn.Pos(), "no group is group %s", short(c.global(s.Mem, "NO_GROUP")))
		c.ob(proveEq(c.global(s.Mem, "ALL_CATEGORIES"), all, f), rule, "ALL_CATEGORIES", s.Fn.Pos(), "all categories are %s", short(c.global(s.Mem, "ALL_CATEGORIES")))
		for _, w := range []struct {
			name string
			bits *Term
		}{{"SHAPE_FILTER_ALL", all}, {"SHAPE_FILTER_NONE", TInt(0)}} {
			v := c.global(s.Mem, w.name)
			c.ob(proveEq(fld(v, "Group"), TInt(0), f) && proveEq(fld(v, "Categories"), w.bits, f) && proveEq(fld(v, "Mask"), w.bits, f), rule, w.name, s.Fn.Pos(), "it is %s", short(v))
		}
	})
	c.part("Shape.SetFilter", func() {
		s := c.sum("Shape.SetFilter", "query", Config{NoEnter: true, Opaque: opaqueSet("Body.Activate")})
		f := typeFact(s)
		flt := get(s.Mem, s.Params[0], "Filter")
		for _, p := range []string{"Group", "Categories", "Mask"} {
			c.ob(proveEq(fld(flt, p), fld(s.Params[1], p), f), rule, "Shape.SetFilter "+p, s.Fn.Pos(), "the filter set is not the one given: %s is %s", p, short(fld(flt, p)))
		}
	})
	c.part("Constraint.SetCollideBodies", func() {
		s := c.sum("Constraint.SetCollideBodies", "query", Config{NoEnter: true, Opaque: opaqueSet("Body.Activate")})
		f := typeFact(s)
		got := get(s.Mem, s.Params[0], "collideBodies")
		c.ob(sameCond(toBDD(got), toBDD(s.Params[1]), f), rule, "Constraint.SetCollideBodies", s.Fn.Pos(), "whether the bodies of a constraint collide is not what was asked for")
	})
	c.part("NewConstraint", func() {
		s := c.sum("NewConstraint", "query", Config{NoEnter: true})
		c.ob(implies(typeFact(s), toBDD(get(s.Mem, s.Ret, "collideBodies"))), rule, "NewConstraint", s.Fn.Pos(), "the bodies of a new constraint do not collide")
	})
	c.atLeast(rule, 9)

	rule = "pairs rejected"
	c.part("QueryReject", func() {
		s := c.sum("QueryReject", "query", Config{NoEnter: true})
		a, b := s.Params[0], s.Params[1]
		pos := s.Fn.Pos()
		ba, bb := get(s.Entry, a, "body"), get(s.Entry, b, "body")
		f := AndAll(typeFact(s), notNil(a), notNil(b), notNil(ba), notNil(bb))
		ret := toBDD(s.Ret)
		same := CondEq(ba, bb)
		flt := filterRejects(get(s.Entry, a, "Filter"), get(s.Entry, b, "Filter"))
		apart := Not(bbMeets(get(s.Entry, a, "bb"), get(s.Entry, b, "bb")))
		c.ob(implies(And(f, same), ret), rule, "QueryReject one body", pos, "two shapes of one body may collide")
		c.ob(implies(And(f, flt), ret), rule, "QueryReject filter", pos, "shapes whose filters reject each other may collide")
		c.ob(implies(And(f, apart), ret), rule, "QueryReject apart", pos, "shapes whose bounding boxes do not meet may collide")
		simple := Or(same, Or(flt, apart))
		f = And(f, Not(simple))
		n := 0
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind == "store" && rootOf(e.Loc).op != OAlloc {
				c.fail(rule, "QueryReject pure", e.Instr.Pos(), "asking whether shapes may collide changes %s", short(e.Loc))
			}
			if e.Kind != "loop" {
				return
			}
			for _, ph := range e.Loop.Phis {
				el := ph.Var
				if typeBaseOf(el.typ) != "Constraint" {
					continue
				}
				n++
				l := e.Loop
				m := l.Iter
				ka, kb := get(m, el, "a"), get(m, el, "b")
				bad := And(Not(toBDD(get(m, el, "collideBodies"))), Or(And(CondEq(ka, ba), CondEq(kb, bb)), And(CondEq(ka, bb), CondEq(kb, ba))))
				found := foundFlag(l, bad)
				var msg string
				for i, own := range []*Term{ba, bb} {
					next := func(m *Mem, x *Term) *Term {
						return TIte(CondEq(get(m, x, "a"), own), get(m, x, "next_a"), get(m, x, "next_b"))
					}
					lw := *e
					lw.Loop = withoutExits(l, Or(bad, found))
					mg := visitsList(&lw, el, get(e.Mem, own, "constraintList"), next, bddTrue)
					if i == 0 || mg == "" {
						msg = mg
					}
					if mg == "" {
						break
					}
				}
				c.ob(msg == "", rule, "QueryReject constraints", e.Instr.Pos(), "not every constraint of the body is looked at: %s", msg)
				c.ob(implies(f, e.Guard), rule, "QueryReject when", e.Instr.Pos(), "constraints between the bodies are looked at only when %s", shortB(e.Guard))
				// leaving at a constraint that forbids it, or continuing past one
				c.ob(!sat(AndAll(l.Assume, l.BackG, bad)) || found != bddFalse, rule, "QueryReject forbidden", e.Instr.Pos(), "a constraint whose bodies must not collide is passed over")
				in := And(f, e.Guard)
				c.ob(implies(AndAll(in, Not(ret)), And(CondEq(el, TNilOf(el.typ)), Not(found))), rule, "QueryReject not rejected", pos, "the shapes may collide though not all constraints of the body were looked at")
				c.ob(implies(AndAll(in, ret), Or(bad, found)), rule, "QueryReject rejected", pos, "shapes of different bodies, not rejected by filters, touching, and without a constraint that forbids it may not collide")
			}
		})
		c.ob(n == 1, rule, "QueryReject constraint walk", pos, "%d walks over the constraints of a body were found", n)
	})
	c.atLeast(rule, 9)
}

// foundFlag: a flag of the loop that tells whether an element so far was bad;
// false if there is none.
func foundFlag(l *LoopInfo, bad *BDD) *BDD {
	for _, ph := range l.Phis {
		if !types.Identical(ph.Var.typ.Underlying(), tyBool) || ph.Back == nil || ph.Init == nil || sat(toBDD(ph.Init)) {
			continue
		}
		f := And(l.Assume, l.BackG)
		if v := toBDD(ph.Var); sameCond(toBDD(ph.Back), Or(v, bad), f) {
			return v
		}
	}
	return bddFalse
}

func typeBaseOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return typeName(p.Elem())
	}
	return ""
}

// spaceQueries: the queries of the two indexes, checked to ask each once.
func (c *Ctx) spaceQueries(rule, name, method string, s *Summary, sp *Term, f *BDD) []*Event {
	es := eventsOf(s.Events, "invoke", method)
	pos := s.Fn.Pos()
	inLoop := 0
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "invoke" && e.Name == method && len(ls) > 0 {
			inLoop++
		}
	})
	c.ob(len(es) == 2 && inLoop == 0, rule, name+" indexes", pos, "%d queries of spatial indexes are made, expected one of the static and one of the dynamic shapes", len(es)+inLoop)
	seen := map[string]int{}
	for _, e := range es {
		for _, ix := range []string{"staticShapes", "dynamicShapes"} {
			if proveEq(e.Recv, get(e.Mem, get(e.Mem, sp, ix), "class"), And(f, e.Guard)) {
				seen[ix]++
			}
		}
		c.ob(implies(f, e.Guard), rule, name+" always", e.Instr.Pos(), "an index is queried only when %s", shortB(e.Guard))
	}
	for _, ix := range []string{"staticShapes", "dynamicShapes"} {
		c.ob(seen[ix] == 1, rule, name+" "+ix, pos, "the shapes of %s are queried %d times", ix, seen[ix])
	}
	var r []*Event
	for _, e := range es {
		if e.Sub == nil && method == "Each" && len(e.Args) > 0 && e.Args[0].op == OParam {
			r = append(r, e)
			continue
		}
		if e.Sub == nil {
			c.fail(rule, name+" callback", e.Instr.Pos(), "the function called for each shape is not known")
			continue
		}
		r = append(r, e)
	}
	return r
}

// passThrough: an index hands its callback the object and the data it was given.
func passThrough(e *Event, i int) *Term {
	switch e.Name {
	case "Query":
		if i == 0 {
			return e.Args[0]
		}
		if i == 3 {
			return e.Args[3]
		}
	case "SegmentQuery":
		if i == 0 {
			return e.Args[0]
		}
		if i == 2 && len(e.Args) == 6 {
			return e.Args[5]
		}
	}
	return nil
}

func checkC21(c *Ctx) {
	base := Config{NoEnter: true, CBArg: passThrough, Opaque: opaqueSet("Shape.PointQuery", "Shape.SegmentQuery", "Space.Lock", "Space.Unlock", "ShapesCollide", "Shape.Update"),
		KeepOnUser: func(cl string) bool {
			return cl == "Space.staticShapes" || cl == "Space.dynamicShapes" || cl == "SpatialIndex.class" || cl == "*bool"
		},
		// shown below: a shape's answers go where the caller says
		ArgOut: func(fn *ssa.Function, cl string) bool {
			return isInfo(cl) && (fname(fn) == "Shape.PointQuery" || fname(fn) == "Shape.SegmentQuery")
		},
		// the callbacks run while the index is asked, not when it is unlocked
		KeepOn: func(fn *ssa.Function, cl string) bool {
			return (isInfo(cl) || cl == "*bool") && (fname(fn) == "Space.Lock" || fname(fn) == "Space.Unlock")
		}}
	rejects := func(m *Mem, sh, flt *Term) *BDD { return filterRejects(get(m, sh, "Filter"), flt) }
	one := func(rule, name string, x *SubEval, kind, call string, pos *Event) *Event {
		var es []*Event
		n := 0
		allEvents(x.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind == kind && (call == "" || e.Name == call) {
				n++
				es = append(es, e)
				if len(ls) > 0 {
					n++
				}
			}
		})
		c.ob(n == 1, rule, name, pos.Instr.Pos(), "for each shape found there are %d calls of %s, expected one", n, call+kind)
		if n != 1 {
			panic(abortCheck{})
		}
		return es[0]
	}
	// infoAt: the fields of the record kept at b.
	ptFields := []string{"Shape", "Point.X", "Point.Y", "Distance", "Gradient.X", "Gradient.Y"}
	sgFields := []string{"Shape", "Point.X", "Point.Y", "Normal.X", "Normal.Y", "Alpha"}
	// bestOf: the record the query keeps: the object written by the callbacks
	bestOf := func(es []*Event, class string) *Term {
		var r *Term
		for _, e := range es {
			for _, w := range e.Sub.Events {
				if w.Kind == "store" && strings.HasPrefix(locClass(w.Loc), class+".") {
					b := rootOf(w.Loc)
					if b.op == OAlloc && e.Mem.cells[addrOf(e.Mem, b, "Shape")] != nil {
						r = b
					}
				}
			}
		}
		return r
	}
	infoArg := func(m *Mem, t *Term, p string) *Term {
		if _, ok := t.typ.Underlying().(*types.Pointer); ok {
			return get(m, t, p)
		}
		return fld(t, p)
	}

	rule := "nearest point"
	name := "Space.PointQueryNearest"
	c.part(name, func() {
		s := c.sum(name, "query", base)
		sp, p, d, flt := s.Params[0], s.Params[1], s.Params[2], s.Params[3]
		f := And(typeFact(s), notNil(sp))
		pos := s.Fn.Pos()
		es := c.spaceQueries(rule, name, "Query", s, sp, f)
		best := bestOf(es, "PointQueryInfo")
		if best == nil || len(es) != 2 {
			c.fail(rule, name+" result", pos, "the nearest point found is not kept")
			return
		}
		first := es[0].Mem
		init := map[string]*Term{"Shape": nil, "Point.X": TNum(0), "Point.Y": TNum(0), "Distance": d, "Gradient.X": TNum(0), "Gradient.Y": TNum(0)}
		for _, x := range []string{"Shape", "Distance"} {
			v := get(first, best, x)
			w := init[x]
			if w == nil {
				w = TNilOf(v.typ)
			}
			c.ob(proveEq(v, w, f), rule, name+" start "+x, pos, "the search starts with %s %s", x, short(v))
		}
		for i, e := range es {
			bb := e.Args[1]
			r := TIte(CondLt(d, TNum(0), false), TNum(0), d)
			pt := vec(p)
			ok := proveLE(fld(bb, "L"), TSub(pt.x, r), f) && proveLE(fld(bb, "B"), TSub(pt.y, r), f) && proveLE(TAdd(pt.x, r), fld(bb, "R"), f) && proveLE(TAdd(pt.y, r), fld(bb, "T"), f)
			c.ob(ok, rule, name+" box", e.Instr.Pos(), "the box asked for does not cover all points up to the maximum distance: %s", short(bb))
			x := e.Sub
			sh := x.Params[1]
			q := one(rule, name+" distance", x, "call", "Shape.PointQuery", e)
			g := And(f, notNil(sh))
			c.ob(proveEq(q.Args[0], sh, g) && vec(q.Args[1]).eq(vec(p), g), rule, name+" point", q.Instr.Pos(), "the distance is not that of the shape found to the point given")
			want := AndAll(Not(rejects(x.Entry, sh, flt)), Not(toBDD(get(x.Entry, sh, "sensor"))))
			c.ob(implies(And(g, want), q.Guard), rule, name+" considered", q.Instr.Pos(), "a shape is considered only when %s", shortB(q.Guard))
			take := And(want, CondLt(infoArg(q.After, q.Result, "Distance"), get(x.Entry, best, "Distance"), false))
			for _, pth := range ptFields {
				got := get(x.Mem, best, pth)
				c.ob(proveEq(got, infoArg(q.After, q.Result, pth), And(g, take)), rule, name+" taken "+pth, q.Instr.Pos(), "a nearer shape, allowed by the filter and no sensor, is not taken: %s stays %s", pth, short(got))
				c.ob(proveEq(got, get(x.Entry, best, pth), And(g, Not(take))), rule, name+" kept "+pth, q.Instr.Pos(), "a shape that is not nearer, a sensor or rejected by the filter changes the result: %s is %s", pth, short(got))
				if i == 1 {
					c.ob(proveEq(get(e.Mem, best, pth), get(es[0].After, best, pth), f), rule, name+" carried "+pth, e.Instr.Pos(), "what the first index found is changed before the second is asked")
				}
			}
		}
		for _, pth := range ptFields {
			c.ob(proveEq(infoArg(s.Mem, s.Ret, pth), get(es[1].After, best, pth), f), rule, name+" result "+pth, pos, "the result is not the nearest point found: %s is %s", pth, short(infoArg(s.Mem, s.Ret, pth)))
		}
	})
	c.atLeast(rule, 40)

	rule = "first along a segment"
	name = "Space.SegmentQueryFirst"
	c.part(name, func() {
		s := c.sum(name, "query", base)
		sp, start, end, rad, flt := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Params[4]
		f := And(typeFact(s), notNil(sp))
		pos := s.Fn.Pos()
		es := c.spaceQueries(rule, name, "SegmentQuery", s, sp, f)
		best := bestOf(es, "SegmentQueryInfo")
		if best == nil || len(es) != 2 {
			c.fail(rule, name+" result", pos, "the first shape found is not kept")
			return
		}
		first := es[0].Mem
		for _, x := range sgFields {
			w := TNum(0)
			switch x {
			case "Shape":
				w = TNilOf(get(first, best, x).typ)
			case "Point.X":
				w = fld(end, "X")
			case "Point.Y":
				w = fld(end, "Y")
			case "Alpha":
				w = TNum(1)
			}
			c.ob(proveEq(get(first, best, x), w, f), rule, name+" start "+x, pos, "the search starts with %s %s", x, short(get(first, best, x)))
		}
		for i, e := range es {
			c.ob(vec(e.Args[1]).eq(vec(start), f) && vec(e.Args[2]).eq(vec(end), f), rule, name+" segment", e.Instr.Pos(), "the index is not asked about the segment given")
			c.ob(proveLE(get(e.Mem, best, "Alpha"), e.Args[3], f) || proveLE(TNum(1), e.Args[3], f), rule, name+" range", e.Instr.Pos(), "the index is asked only up to %s of the segment", short(e.Args[3]))
			x := e.Sub
			sh := x.Params[1]
			q := one(rule, name+" hit", x, "call", "Shape.SegmentQuery", e)
			g := And(f, notNil(sh))
			c.ob(proveEq(q.Args[0], sh, g) && vec(q.Args[1]).eq(vec(start), g) && vec(q.Args[2]).eq(vec(end), g) && proveEq(q.Args[3], rad, g), rule, name+" asked", q.Instr.Pos(), "the shape found is not asked about the segment and radius given")
			want := AndAll(Not(rejects(x.Entry, sh, flt)), Not(toBDD(get(x.Entry, sh, "sensor"))))
			c.ob(implies(And(g, want), q.Guard), rule, name+" considered", q.Instr.Pos(), "a shape is considered only when %s", shortB(q.Guard))
			info := q.Args[4]
			take := AndAll(want, toBDD(q.Result), CondLt(get(q.After, info, "Alpha"), get(x.Entry, best, "Alpha"), false))
			for _, pth := range sgFields {
				got := get(x.Mem, best, pth)
				c.ob(proveEq(got, get(q.After, info, pth), And(g, take)), rule, name+" taken "+pth, q.Instr.Pos(), "a shape hit earlier, allowed by the filter and no sensor, is not taken: %s stays %s", pth, short(got))
				c.ob(proveEq(got, get(x.Entry, best, pth), And(g, Not(take))), rule, name+" kept "+pth, q.Instr.Pos(), "a shape that is not hit earlier, a sensor or rejected by the filter changes the result: %s is %s", pth, short(got))
				if i == 1 {
					c.ob(proveEq(get(e.Mem, best, pth), get(es[0].After, best, pth), f), rule, name+" carried "+pth, e.Instr.Pos(), "what the first index found is changed before the second is asked")
				}
			}
			c.ob(proveLE(get(x.Mem, best, "Alpha"), x.Ret, g), rule, name+" limit", q.Instr.Pos(), "the search is cut off at %s, before the best hit", short(x.Ret))
		}
		for _, pth := range sgFields {
			c.ob(proveEq(infoArg(s.Mem, s.Ret, pth), get(es[1].After, best, pth), f), rule, name+" result "+pth, pos, "the result is not the first hit: %s is %s", pth, short(infoArg(s.Mem, s.Ret, pth)))
		}
	})
	c.atLeast(rule, 40)

	rule = "all along a segment"
	name = "Space.SegmentQuery"
	c.part(name, func() {
		s := c.sum(name, "query", base)
		sp, start, end, rad, flt, data := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Params[4], s.Params[6]
		f := And(typeFact(s), notNil(sp))
		for _, e := range c.spaceQueries(rule, name, "SegmentQuery", s, sp, f) {
			c.ob(vec(e.Args[1]).eq(vec(start), f) && vec(e.Args[2]).eq(vec(end), f), rule, name+" segment", e.Instr.Pos(), "the index is not asked about the segment given")
			c.ob(proveLE(TNum(1), e.Args[3], f), rule, name+" range", e.Instr.Pos(), "the index is asked only up to %s of the segment", short(e.Args[3]))
			x := e.Sub
			sh := x.Params[1]
			q := one(rule, name+" hit", x, "call", "Shape.SegmentQuery", e)
			u := one(rule, name+" reported", x, "user", "", e)
			g := And(f, notNil(sh))
			c.ob(proveEq(q.Args[0], sh, g) && vec(q.Args[1]).eq(vec(start), g) && vec(q.Args[2]).eq(vec(end), g) && proveEq(q.Args[3], rad, g), rule, name+" asked", q.Instr.Pos(), "the shape found is not asked about the segment and radius given")
			want := Not(rejects(x.Entry, sh, flt))
			c.ob(implies(And(g, want), q.Guard), rule, name+" considered", q.Instr.Pos(), "a shape is considered only when %s", shortB(q.Guard))
			c.ob(sameCond(u.Guard, And(want, toBDD(q.Result)), g), rule, name+" exactly", u.Instr.Pos(), "a shape is reported when %s", shortB(u.Guard))
			g = And(g, u.Guard)
			info := q.Args[4]
			c.ob(proveEq(u.Callee, s.Params[5], g) && proveEq(u.Args[0], sh, g) && vec(u.Args[1]).eq(getV(q.After, info, "Point"), g) && vec(u.Args[2]).eq(getV(q.After, info, "Normal"), g) && proveEq(u.Args[3], get(q.After, info, "Alpha"), g) && proveEq(u.Args[4], data, g), rule, name+" arguments", u.Instr.Pos(), "the callback is not given the shape hit, where, the normal, how far along, and the caller's data")
			c.ob(proveLE(TNum(1), x.Ret, f), rule, name+" limit", u.Instr.Pos(), "after a hit the search is cut off at %s", short(x.Ret))
		}
	})
	c.atLeast(rule, 18)

	rule = "box"
	name = "Space.BBQuery"
	c.part(name, func() {
		s := c.sum(name, "query", base)
		sp, bb, flt, data := s.Params[0], s.Params[1], s.Params[2], s.Params[4]
		f := And(typeFact(s), notNil(sp))
		for _, e := range c.spaceQueries(rule, name, "Query", s, sp, f) {
			ok := true
			for _, x := range []string{"L", "B", "R", "T"} {
				ok = ok && proveEq(fld(e.Args[1], x), fld(bb, x), f)
			}
			c.ob(ok, rule, name+" asked", e.Instr.Pos(), "the index is asked for another box: %s", short(e.Args[1]))
			x := e.Sub
			sh := x.Params[1]
			u := one(rule, name+" reported", x, "user", "", e)
			g := And(f, notNil(sh))
			want := And(Not(rejects(x.Entry, sh, flt)), bbMeets(get(x.Entry, sh, "bb"), bb))
			c.ob(sameCond(u.Guard, want, g), rule, name+" exactly", u.Instr.Pos(), "a shape is reported when %s", shortB(u.Guard))
			g = And(g, u.Guard)
			c.ob(proveEq(u.Callee, s.Params[3], g) && proveEq(u.Args[0], sh, g) && proveEq(u.Args[1], data, g), rule, name+" arguments", u.Instr.Pos(), "the callback is not given the shape found and the caller's data")
		}
	})
	c.atLeast(rule, 12)

	rule = "shape"
	name = "Space.ShapeQuery"
	c.part(name, func() {
		s := c.sum(name, "query", base)
		sp, shape, cb := s.Params[0], s.Params[1], s.Params[2]
		f := AndAll(typeFact(s), notNil(sp), notNil(shape))
		pos := s.Fn.Pos()
		body := get(s.Entry, shape, "body")
		up := eventsOf(s.Events, "call", "Shape.Update")
		placed := bddFalse
		if len(up) == 1 {
			placed = up[0].Guard
		}
		c.ob(len(up) == 1 && sameCond(placed, notNil(body), f) && proveEq(up[0].Args[0], shape, And(f, placed)), rule, name+" placed", pos, "the shape given is not moved to where its body is")
		if len(up) == 1 {
			tr := up[0].Args[1]
			ok := true
			for _, x := range []string{"a", "b", "c", "d", "tx", "ty"} {
				ok = ok && proveEq(fld(tr, x), get(up[0].Mem, body, "transform."+x), And(f, placed))
			}
			c.ob(ok, rule, name+" transform", up[0].Instr.Pos(), "the shape is placed by another transform than its body's")
		}
		es := c.spaceQueries(rule, name, "Query", s, sp, f)
		var acc *Term
		for _, e := range es {
			for _, w := range e.Sub.Events {
				if w.Kind == "store" && rootOf(w.Loc).op == OAlloc && types.Identical(elemTypeOf(w), tyBool) {
					acc = w.Loc
				}
			}
			for _, x := range []string{"L", "B", "R", "T"} {
				got := fld(e.Args[1], x)
				if len(up) == 1 {
					c.ob(proveEq(got, fld(up[0].Result, x), And(f, placed)), rule, name+" box "+x, e.Instr.Pos(), "the index is not asked for the bounding box of the placed shape but %s", short(got))
				}
				c.ob(proveEq(got, get(s.Entry, shape, "bb."+x), And(f, Not(placed))), rule, name+" own box "+x, e.Instr.Pos(), "the index is not asked for the bounding box of the shape but %s", short(got))
			}
		}
		if acc == nil || len(es) != 2 {
			c.fail(rule, name+" result", pos, "whether a shape overlaps is not kept")
			return
		}
		val := func(m *Mem) *BDD { return toBDD(m.Load(acc, tyBool)) }
		c.ob(!sat(And(f, val(es[0].Mem))), rule, name+" start", pos, "the result does not start out false")
		c.ob(sameCond(val(es[1].Mem), val(es[0].After), f), rule, name+" carried", pos, "the result is changed between the two indexes")
		c.ob(sameCond(toBDD(s.Ret), val(es[1].After), f), rule, name+" result", pos, "the result is not whether a shape overlaps")
		for _, e := range es {
			x := e.Sub
			b := x.Params[1]
			q := one(rule, name+" collide", x, "call", "ShapesCollide", e)
			u := one(rule, name+" reported", x, "user", "", e)
			g := AndAll(f, notNil(b))
			want := AndAll(Not(rejects(x.Entry, b, get(x.Entry, shape, "Filter"))), Not(CondEq(b, shape)))
			c.ob(implies(And(g, want), q.Guard), rule, name+" considered", q.Instr.Pos(), "a shape is considered only when %s", shortB(q.Guard))
			gq := And(g, q.Guard)
			c.ob(proveEq(q.Args[0], shape, gq) && proveEq(q.Args[1], b, gq), rule, name+" pair", q.Instr.Pos(), "the shapes collided are not the one given and the one found")
			n := fld(q.Result, "Count")
			g = AndAll(g, CondLe(TInt(0), n, true), q.Assume)
			hit := And(want, Not(CondEq(n, TInt(0))))
			c.ob(sameCond(u.Guard, And(hit, notNil(cb)), g), rule, name+" exactly", u.Instr.Pos(), "a shape is reported when %s", shortB(u.Guard))
			gu := And(g, u.Guard)
			c.ob(proveEq(u.Callee, cb, gu) && proveEq(u.Args[0], b, gu), rule, name+" arguments", u.Instr.Pos(), "the callback is not given the shape found")
			if pt := u.Args[1]; true {
				c.ob(proveEq(get(u.Mem, pt, "Count"), n, gu) && getV(u.Mem, pt, "Normal").eq(vec(fld(q.Result, "Normal")), gu), rule, name+" points", u.Instr.Pos(), "the callback is not given the contact points found")
			}
			solid := AndAll(hit, Not(toBDD(get(x.Mem, shape, "sensor"))), Not(toBDD(get(x.Mem, b, "sensor"))))
			before := val(x.Entry)
			gn := And(g, Not(u.Guard))
			c.ob(sameCond(val(x.Mem), Or(before, solid), gn), rule, name+" overlap", q.Instr.Pos(), "the result is not whether a shape that is no sensor overlaps: %s", shortB(val(x.Mem)))
			c.ob(sameCond(val(x.Mem), Or(val(u.After), solid), gu), rule, name+" overlap reported", q.Instr.Pos(), "the result is not whether a shape that is no sensor overlaps: %s", shortB(val(x.Mem)))
		}
	})
	c.atLeast(rule, 30)

	rule = "answers"
	for _, t := range c.implementers("ShapeClass") {
		for _, mn := range []string{"PointQuery", "SegmentQuery"} {
			fn := c.method(t, mn)
			c.part(fname(fn), func() {
				s := c.sumFn(fn, "query", Config{NoEnter: true})
				out := s.Params[len(s.Params)-1]
				n := 0
				allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
					if e.Kind != "store" || rootOf(e.Loc).op == OAlloc {
						return
					}
					r := rootOf(e.Loc)
					if r == out {
						n++
					}
					if r != out {
						c.fail(rule, fname(fn)+" "+locClass(e.Loc), e.Instr.Pos(), "asking a shape changes %s", short(e.Loc))
					}
				})
				c.ob(n > 0, rule, fname(fn), s.Fn.Pos(), "nothing is answered")
			})
		}
	}
	c.atLeast(rule, 6)

	rule = "one shape"
	c.part("Shape.PointQuery", func() {
		s := c.sum("Shape.PointQuery", "query", Config{NoEnter: true})
		f := And(typeFact(s), notNil(s.Params[0]))
		es := eventsOf(s.Events, "invoke", "PointQuery")
		c.ob(len(es) == 1, rule, "Shape.PointQuery", s.Fn.Pos(), "the shape's class is asked %d times", len(es))
		if len(es) != 1 {
			return
		}
		e := es[0]
		c.ob(implies(f, e.Guard) && proveEq(e.Recv, get(s.Entry, s.Params[0], "Class"), f) && vec(e.Args[0]).eq(vec(s.Params[1]), f), rule, "Shape.PointQuery asked", e.Instr.Pos(), "the shape's class is not asked about the point given")
		for _, pth := range ptFields {
			c.ob(proveEq(infoArg(s.Mem, s.Ret, pth), get(e.After, e.Args[1], pth), f), rule, "Shape.PointQuery "+pth, e.Instr.Pos(), "the answer is not the one of the shape's class: %s", pth)
		}
	})
	c.part("Shape.SegmentQuery", func() {
		s := c.sum("Shape.SegmentQuery", "query", Config{NoEnter: true})
		sh, a, b, rad, out := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Params[4]
		f := AndAll(typeFact(s), notNil(sh), notNil(out))
		pos := s.Fn.Pos()
		pq, sq := eventsOf(s.Events, "invoke", "PointQuery"), eventsOf(s.Events, "invoke", "SegmentQuery")
		c.ob(len(pq) == 1 && len(sq) == 1, rule, "Shape.SegmentQuery", pos, "the shape's class is asked %d times about the start and %d times about the segment", len(pq), len(sq))
		if len(pq) != 1 || len(sq) != 1 {
			return
		}
		p, q := pq[0], sq[0]
		cls := get(s.Entry, sh, "Class")
		c.ob(implies(f, p.Guard) && proveEq(p.Recv, cls, f) && vec(p.Args[0]).eq(vec(a), f), rule, "Shape.SegmentQuery start", p.Instr.Pos(), "the shape's class is not asked how far it is from the start")
		inside := CondLe(get(p.After, p.Args[1], "Distance"), rad, false)
		c.ob(sameCond(q.Guard, Not(inside), f), rule, "Shape.SegmentQuery outside", q.Instr.Pos(), "the shape's class is asked about the segment when %s", shortB(q.Guard))
		any := AndAll(typeFact(s), notNil(sh), q.Guard)
		c.ob(implies(any, notNil(q.Args[3])), rule, "Shape.SegmentQuery without answer", q.Instr.Pos(), "without a place for the answer the shape's class is asked to write to nil")
		g := And(f, q.Guard)
		c.ob(proveEq(q.Recv, cls, g) && vec(q.Args[0]).eq(vec(a), g) && vec(q.Args[1]).eq(vec(b), g) && proveEq(q.Args[2], rad, g) && proveEq(q.Args[3], out, g), rule, "Shape.SegmentQuery asked", q.Instr.Pos(), "the shape's class is not asked about the segment and radius given")
		for _, pth := range sgFields {
			w := TNum(0)
			switch pth {
			case "Shape":
				w = TNilOf(get(q.Mem, out, pth).typ)
			case "Point.X":
				w = fld(b, "X")
			case "Point.Y":
				w = fld(b, "Y")
			case "Alpha":
				w = TNum(1)
			}
			c.ob(proveEq(get(q.Mem, out, pth), w, g), rule, "Shape.SegmentQuery blank "+pth, q.Instr.Pos(), "the class is not given a blank answer: %s is %s", pth, short(get(q.Mem, out, pth)))
			c.ob(proveEq(get(s.Mem, out, pth), get(q.After, out, pth), g), rule, "Shape.SegmentQuery answer "+pth, q.Instr.Pos(), "the answer is not the one of the shape's class: %s is %s", pth, short(get(s.Mem, out, pth)))
		}
		in := And(f, inside)
		c.ob(proveEq(get(s.Mem, out, "Shape"), sh, in) && proveEq(get(s.Mem, out, "Alpha"), TNum(0), in), rule, "Shape.SegmentQuery inside", pos, "a segment that starts inside the shape does not hit it at its start")
		c.ob(sameCond(toBDD(s.Ret), notNil(get(s.Mem, out, "Shape")), f), rule, "Shape.SegmentQuery result", pos, "the result is not whether the shape was hit")
		// without a record, the same answer
		f0 := AndAll(typeFact(s), notNil(sh), Not(notNil(out)))
		g0 := And(f0, q.Guard)
		tmp := q.Args[3]
		c.ob(implies(And(f0, inside), toBDD(s.Ret)) && sameCond(toBDD(s.Ret), notNil(get(q.After, tmp, "Shape")), g0), rule, "Shape.SegmentQuery no record", pos, "without a record to fill the result is another one")
	})
	c.atLeast(rule, 25)
}

func isInfo(cl string) bool {
	return strings.HasPrefix(cl, "PointQueryInfo.") || strings.HasPrefix(cl, "SegmentQueryInfo.")
}

func elemTypeOf(e *Event) types.Type {
	if e.Val == nil || e.Val.typ == nil {
		return nil
	}
	return e.Val.typ.Underlying()
}

func init() {
	register(&Check{ID: "C20", Run: checkC20, Explanation: "which shapes may collide: filters and QueryReject"})
	register(&Check{ID: "C21", Run: checkC21, Explanation: "the queries of a space"})
}
