package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is drawn of a space: every shape, joint and contact once, where it is.
func init() {
	register(&Check{ID: "C43", Run: checkC43, Explanation: "Decides, on guarded value summaries of DrawShape, DrawConstraint and DrawSpace, which calls of the drawer are made for each class of shape and joint and with which world coordinates, and that the walks of DrawSpace reach every shape, joint and contact once."})
}

type drawn struct {
	e  *Event
	ls []*LoopInfo
}

func drawings(evs []*Event) (out []drawn) {
	allEvents(evs, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "invoke" && strings.HasPrefix(e.Name, "Draw") {
			out = append(out, drawn{e, append([]*LoopInfo(nil), ls...)})
		}
	})
	return
}

// under: the guard of a drawing, with those of the loops it is in.
func (d drawn) under(s *Summary) *BDD {
	g := d.e.Guard
	for _, l := range d.ls {
		g = And(g, l.Assume)
		if le := loopEvent(s.Events, l); le != nil {
			g = And(g, le.Guard)
		}
	}
	return g
}

func sameArg(a, b *Term, f *BDD) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || !types.Identical(a.typ, b.typ) {
		return false
	}
	if _, ok := a.typ.Underlying().(*types.Struct); ok {
		x, y := fieldLeaves(a), fieldLeaves(b)
		for i := range x {
			if !sameArg(x[i], y[i], f) {
				return false
			}
		}
		return true
	}
	return proveEq(a, b, f)
}

func checkC43(c *Ctx) {
	rule := "shape drawn"
	cfg := Config{NoEnter: true, KeepUser: keepAll}
	shapes := c.implementers("ShapeClass")
	colour := func(s *Summary, name string) *Term {
		for _, e := range eventsOf(s.Events, "invoke", name) {
			if e.Guard == bddTrue {
				return e.Result
			}
		}
		return nil
	}
	c.part("DrawShape", func() {
		name := "DrawShape"
		s := c.sum(name, "draw", cfg)
		sh := s.Params[0]
		base := And(notNil(sh), notNil(get(s.Entry, sh, "body")))
		for _, e := range eventsOf(s.Events, "invoke", "ShapeColor") {
			c.ob(e.Args[0] == sh, rule, name+" colour", e.Instr.Pos(), "the colour is that of %s", short(e.Args[0]))
		}
		outline, fill, data := colour(s, "OutlineColor"), colour(s, "ShapeColor"), colour(s, "Data")
		c.ob(outline != nil && fill != nil && data != nil, rule, name+" colours", s.Fn.Pos(), "the drawer is not asked for the colours")
		for _, T := range shapes {
			kind := T.Obj().Name()
			f := And(base, c.isShape(s.Entry, sh, kind))
			for _, o := range shapes {
				if o != T {
					f = And(f, Not(c.isShape(s.Entry, sh, o.Obj().Name())))
				}
			}
			x := c.asShape(s.Entry, sh, kind)
			f = And(f, notNil(x))
			at := func(p string) *Term { return get(s.Entry, x, p) }
			var call string
			var args []*Term
			switch kind {
			case "Circle":
				call, args = "DrawCircle", []*Term{at("tc"), get(s.Entry, get(s.Entry, sh, "body"), "a"), at("r")}
			case "Segment":
				call, args = "DrawFatSegment", []*Term{at("ta"), at("tb"), at("r")}
			case "PolyShape":
				call, args = "DrawPolygon", []*Term{at("count"), nil, at("r")}
				f = And(f, CondLt(TInt(0), at("count"), true))
			default:
				c.fail(rule, name+" "+kind, s.Fn.Pos(), "it is not known how a %s is to be drawn", kind)
				continue
			}
			args = append(args, outline, fill, data)
			n := 0
			for _, d := range drawings(s.Events) {
				if !sat(And(f, d.under(s))) {
					continue
				}
				n++
				e := d.e
				if !c.ob(e.Name == call && len(d.ls) == 0 && len(e.Args) == len(args), rule, name+" "+kind+" how", e.Instr.Pos(), "%s is called for a %s", e.Name, kind) {
					continue
				}
				c.ob(implies(And(f, s.G), e.Guard) && implies(f, s.G), rule, name+" "+kind+" always", e.Instr.Pos(), "it is drawn only when %s", shortB(e.Guard))
				for i, w := range args {
					if w == nil {
						why := c.filled(s, e.Args[i], at("count"), And(f, e.Guard), func(m *Mem, k *Term) V2 { return getV(m, elemAddr(at("planes"), k), "v0") })
						c.ob(why == "", rule, name+" "+kind+" vertices", e.Instr.Pos(), "what is drawn is not the polygon: %s", why)
						continue
					}
					c.ob(sameArg(e.Args[i], w, And(f, e.Guard)), rule, name+" "+kind+" "+e.Name, e.Instr.Pos(), "argument %d is %s", i+1, short(e.Args[i]))
				}
			}
			c.ob(n == 1, rule, name+" "+kind, s.Fn.Pos(), "a %s is drawn %d times", kind, n)
		}
	})
	c.atLeast(rule, 25)

	rule = "joint drawn"
	joints := c.implementers("Constrainer")
	for _, T := range joints {
		T := T
		c.part("DrawConstraint "+T.Obj().Name(), func() { c.drawsJoint(rule, T, joints, cfg, colour) })
	}
	c.atLeast(rule, 30)

	rule = "space drawn"
	c.part("DrawSpace", func() {
		name := "DrawSpace"
		cfg := cfg
		cfg.Opaque = opaqueSet("DrawShape", "DrawConstraint")
		cfg.KeepOn = func(*ssa.Function, string) bool { return true }
		s := c.sum(name, "draw", cfg)
		sp, opt := s.Params[0], s.Params[1]
		facts := And(s.G, notNil(sp))
		for _, e := range c.spaceQueries(rule, name, "Each", s, sp, facts) {
			if e.Sub == nil {
				c.fail(rule, name+" shapes", e.Instr.Pos(), "what is called for each shape is not known")
				continue
			}
			n := 0
			allEvents(e.Sub.Events, func(x *Event, ls []*LoopInfo) {
				if x.Kind == "call" && x.Name == "DrawShape" {
					n++
					c.ob(len(ls) == 0 && x.Args[0] == e.Sub.Params[0] && unwrap(x.Args[1]) == opt && implies(And(e.Guard, notNil(e.Sub.Params[0])), x.Guard), rule, name+" each shape", x.Instr.Pos(), "what is drawn for a shape is %s, when %s", short(x.Args[0]), shortB(x.Guard))
				}
			})
			c.ob(n == 1, rule, name+" shapes", e.Instr.Pos(), "a shape is drawn %d times", n)
		}
		n := 0
		walked := func(l *LoopInfo, list, i *Term, field, what string, in *BDD) {
			le := loopEvent(s.Events, l)
			if !c.ob(le != nil && list == get(s.Entry, sp, field), rule, name+" "+what, s.Fn.Pos(), "the %s drawn are those of %s", what, short(list)) {
				return
			}
			msg := visitsIndexed(le, i, TLen(list), facts)
			c.ob(msg == "", rule, name+" every "+what, le.Instr.Pos(), "not all %s are visited: %s", what, msg)
			c.ob(implies(facts, le.Guard), rule, name+" always "+what, le.Instr.Pos(), "the %s are drawn only when %s", what, shortB(le.Guard))
			c.ob(implies(And(l.Assume, l.BackG), in), rule, name+" each "+what, le.Instr.Pos(), "some of the %s are passed over: only when %s", what, shortB(in))
		}
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "call" || e.Name != "DrawConstraint" {
				return
			}
			n++
			list, i := elemOfList(e.Args[0])
			if c.ob(len(ls) == 1 && list != nil && unwrap(e.Args[1]) == opt, rule, name+" joint", e.Instr.Pos(), "%s is drawn", short(e.Args[0])) {
				walked(ls[0], list, i, "constraints", "joints", e.Guard)
			}
		})
		c.ob(n == 1, rule, name+" joints once", s.Fn.Pos(), "the joints are drawn in %d places", n)
		n = 0
		for _, d := range drawings(s.Events) {
			e := d.e
			n++
			if !c.ob(e.Name == "DrawSegment" && len(d.ls) == 2, rule, name+" contact", e.Instr.Pos(), "%s is called in %d loops", e.Name, len(d.ls)) {
				continue
			}
			out, in := d.ls[0], d.ls[1]
			ie := loopEvent(s.Events, in)
			var arb *Term
			walkTerm(e.Args[0], func(x *Term) {
				if x.op == OLoad && strings.HasSuffix(typeName(x.typ), "*Arbiter") {
					if l, _ := elemOfList(x); l != nil {
						arb = x
					}
				}
			})
			if !c.ob(arb != nil && ie != nil, rule, name+" contact of", e.Instr.Pos(), "what is drawn is not a contact of an arbiter of the space") {
				continue
			}
			list, i := elemOfList(arb)
			walked(out, list, i, "arbiters", "arbiters", ie.Guard)
			m := in.Iter
			k, kg, why := countsTo(ie, get(m, arb, "count"), facts)
			if !c.ob(why == "", rule, name+" contacts", e.Instr.Pos(), "not all contacts of an arbiter are visited: %s", why) {
				continue
			}
			c.ob(implies(And(in.Assume, kg), e.Guard), rule, name+" each contact", e.Instr.Pos(), "some contacts are passed over: only when %s", shortB(e.Guard))
			con := elemAddr(get(m, arb, "contacts"), k)
			p1 := getV(m, get(m, arb, "body_a"), "p").add(getV(m, con, "r1"))
			p2 := getV(m, get(m, arb, "body_b"), "p").add(getV(m, con, "r2"))
			nrm := getV(m, arb, "n")
			a, b := vec(e.Args[0]).sub(p1), vec(e.Args[1]).sub(p2)
			f := And(in.Assume, e.Guard)
			c.ob(proveEq(a.cross(nrm), TNum(0), f) && a.eq(b.neg(), f), rule, name+" contact at", e.Instr.Pos(), "a contact is drawn from %s to %s", short(e.Args[0]), short(e.Args[1]))
		}
		c.ob(n == 1, rule, name+" contacts once", s.Fn.Pos(), "contacts are drawn in %d places", n)
	})
	c.atLeast(rule, 18)
}

func (c *Ctx) drawsJoint(rule string, T *types.Named, joints []*types.Named, cfg Config, colour func(*Summary, string) *Term) {
	name := "DrawConstraint"
	s := c.sum(name, "draw", cfg)
	j := s.Params[0]
	kind := T.Obj().Name()
	class := get(s.Entry, j, "Class")
	is := func(n *types.Named) *BDD {
		P := types.NewPointer(n)
		return bddAtom(rawTerm(OApp, tyBool, "typeis", class, rawTerm(OConst, P, "type:"+typeName(P))))
	}
	ba, bb := get(s.Entry, j, "a"), get(s.Entry, j, "b")
	f := AndAll(notNil(j), notNil(ba), notNil(bb), is(T))
	for _, o := range joints {
		if o != T {
			f = And(f, Not(is(o)))
		}
	}
	x := rawTerm(OApp, types.NewPointer(T), "as:*"+kind, class)
	f = And(f, notNil(x))
	pt := func(b *Term, fd string) V2 {
		v := getV(s.Entry, x, fd)
		g := func(f string) *Term { return get(s.Entry, b, "transform."+f) }
		return V2{TAdd(TAdd(TMul(g("a"), v.x), TMul(g("c"), v.y)), g("tx")), TAdd(TAdd(TMul(g("b"), v.x), TMul(g("d"), v.y)), g("ty"))}
	}
	var dots []V2
	var line [][2]V2
	zig := false
	switch kind {
	case "PinJoint", "SlideJoint":
		dots = []V2{pt(ba, "AnchorA"), pt(bb, "AnchorB")}
		line = [][2]V2{{dots[0], dots[1]}}
	case "PivotJoint":
		dots = []V2{pt(ba, "AnchorA"), pt(bb, "AnchorB")}
	case "GrooveJoint":
		dots = []V2{pt(bb, "AnchorB")}
		line = [][2]V2{{pt(ba, "GrooveA"), pt(ba, "GrooveB")}}
	case "DampedSpring":
		dots = []V2{pt(ba, "AnchorA"), pt(bb, "AnchorB")}
		zig = true
	}
	pos := s.Fn.Pos()
	c.ob(implies(f, s.G), rule, kind+" returns", pos, "drawing it returns only when %s", shortB(s.G))
	col, data := colour(s, "ConstraintColor"), colour(s, "Data")
	gotD, gotL := make([]*BDD, len(dots)), make([]*BDD, len(line))
	zags := 0
	for _, d := range drawings(s.Events) {
		e := d.e
		g := And(f, d.under(s))
		if !sat(g) {
			continue
		}
		n := len(e.Args)
		c.ob(n >= 2 && sameArg(e.Args[n-2], col, g) && sameArg(e.Args[n-1], data, g), rule, kind+" colour", e.Instr.Pos(), "the colour is %s", short(e.Args[n-2]))
		ok := false
		switch {
		case e.Name == "DrawDot" && len(d.ls) == 0:
			for i, p := range dots {
				if vec(e.Args[1]).eq(p, g) {
					c.ob(gotD[i] == nil || !sat(And(f, And(gotD[i], e.Guard))), rule, kind+" dot twice", e.Instr.Pos(), "an anchor is drawn twice")
					gotD[i], ok = orNil(gotD[i], e.Guard), true
					break
				}
			}
		case e.Name == "DrawSegment" && len(d.ls) == 0:
			for i, l := range line {
				a, b := vec(e.Args[0]), vec(e.Args[1])
				if a.eq(l[0], g) && b.eq(l[1], g) || a.eq(l[1], g) && b.eq(l[0], g) {
					gotL[i], ok = orNil(gotL[i], e.Guard), true
				}
			}
		case e.Name == "DrawSegment" && len(d.ls) == 1 && zig:
			zags++
			ok = c.zigzag(rule, s, d, dots[0], dots[1], f)
		}
		c.ob(ok, rule, kind+" "+e.Name, e.Instr.Pos(), "%s is called with %s", e.Name, short(e.Args[0])+", "+short(e.Args[1]))
	}
	for i, g := range gotD {
		c.ob(g != nil && implies(f, g), rule, kind+" dot "+strconv.Itoa(i), pos, "an anchor is not drawn where it is, or only sometimes")
	}
	for i, g := range gotL {
		c.ob(g != nil && implies(f, g), rule, kind+" line "+strconv.Itoa(i), pos, "the line of the joint is not drawn where it is, or only sometimes")
	}
	if zig {
		c.ob(zags == 1, rule, kind+" coil", pos, "the coil is drawn in %d places", zags)
	}
}

func orNil(a, b *BDD) *BDD {
	if a == nil {
		return b
	}
	return Or(a, b)
}

// zigzag: the coil of a spring goes along the line between its anchors, each
// vertex of the pattern joined to the next one.
func (c *Ctx) zigzag(rule string, s *Summary, d drawn, a, b V2, f *BDD) bool {
	e, l := d.e, d.ls[0]
	le := loopEvent(s.Events, l)
	dl := b.sub(a)
	p0, p1 := e.Args[0], e.Args[1]
	if le == nil {
		return false
	}
	list0, i0 := elemOfList(unpack(p0))
	list1, i1 := elemOfList(unpack(p1))
	if list0 == nil || list0 != list1 {
		return false
	}
	if !proveEq(TSub(i1, i0), TInt(1), bddTrue) {
		return false
	}
	n := TLen(c.global(s.Entry, "springVerts"))
	if n == nil {
		return false
	}
	pat := c.global(s.Entry, "springVerts")
	far := And(f, Not(CondEq(dl.len(), TNum(0))))
	msg := visitsIndexed(le, i0, TSub(n, TInt(1)), f)
	c.ob(msg == "", rule, "DampedSpring coil whole", le.Instr.Pos(), "not every piece of the coil is drawn: %s", msg)
	c.ob(implies(f, le.Guard) && implies(And(l.Assume, l.BackG), e.Guard), rule, "DampedSpring coil always", le.Instr.Pos(), "pieces of the coil are drawn only when %s", shortB(And(le.Guard, e.Guard)))
	why := c.filled(s, list0, n, far, func(m *Mem, k *Term) V2 {
		v := loadV(m, pat, k)
		q := TDiv(v.y, dl.len())
		return V2{TAdd(a.x, TSub(TMul(v.x, dl.x), TMul(q, dl.y))), TAdd(a.y, TAdd(TMul(v.x, dl.y), TMul(q, dl.x)))}
	})
	c.ob(why == "", rule, "DampedSpring coil", le.Instr.Pos(), "the coil is not drawn between the anchors: %s", why)
	return true
}

// unpack: the element a vector's coordinates are those of.
func unpack(v *Term) *Term {
	x := fieldLeaves(v)[0]
	if x.op == OLoad && x.args[0].op == OField && x.args[0].args[0].op == OIndex {
		return rawTerm(OLoad, v.typ, "", x.args[0].args[0])
	}
	return v
}
