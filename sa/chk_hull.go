package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// C44: the convex hull of points, step by step: where it begins, how points are split by a line,
// and how a side is worked out from its two parts.

func checkC44(c *Ctx) {
	c.part("extremes", c.loopIndexes)
	c.part("start", c.hullStart)
	c.part("side", c.hullSide)
	c.part("splitting", c.hullSplit)
	c.atLeast("hull", 40)
}

func init() {
	register(&Check{ID: "C44", Run: checkC44})
}

// tailOf: the slice is list from an index on.
func tailOf(t, list, from *Term, f *BDD) bool {
	if proveEq(from, TInt(0), f) && proveEq(t, list, f) {
		return true
	}
	return isSlice(t, list, from, f)
}

func (c *Ctx) hullStart() {
	rule, name := "hull", "ConvexHull"
	s := c.sum(name, "hull", Config{NoEnter: true, Opaque: opaqueSet("LoopIndexes", "QHullReduce"), Pure: func(fn *ssa.Function) bool { return fname(fn) == "LoopIndexes" }})
	count, verts, first, tol, pos := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Fn.Pos()
	f := And(s.G, CondLt(TInt(0), count, true))
	var start, end *Term
	for _, e := range eventsOf(s.Events, "call", "LoopIndexes") {
		if c.ob(proveEq(e.Args[0], verts, f) && proveEq(e.Args[1], count, f), rule, name+" extremes", e.Instr.Pos(), "the extremes are looked for in %s points of %s", short(e.Args[1]), short(e.Args[0])) {
			start, end = elem(e.Result, 0), elem(e.Result, 1)
		}
	}
	if !c.ob(start != nil, rule, name+" extremes", pos, "the extremes are not looked for") {
		return
	}
	for _, x := range []*Term{start, end} {
		f = AndAll(f, CondLe(TInt(0), x, true), CondLt(x, count, true))
	}
	one := And(f, CondEq(start, end))
	// the least and the greatest are the same only if it is the first that is both
	one = And(one, CondEq(start, TInt(0)))
	many := And(f, Not(CondEq(start, end)))
	c.ob(proveEq(s.Ret, TInt(1), one), rule, name+" one point", pos, "a single point has a hull of %s", short(s.Ret))
	c.ob(proveEq(s.Mem.Load(first, s.Ret.typ), TInt(0), And(one, notNil(first))), rule, name+" first of one", pos, "the first of a single point is %s", short(s.Mem.Load(first, s.Ret.typ)))
	c.ob(proveEq(s.Mem.Load(first, s.Ret.typ), start, And(many, notNil(first))), rule, name+" first", pos, "the index of the first vertex is %s", short(s.Mem.Load(first, s.Ret.typ)))
	es := eventsOf(s.Events, "call", "QHullReduce")
	c.ob(len(es) > 0 && implies(many, orGuards(es)), rule, name+" sides", pos, "the sides are not always worked out")
	V := func(i *Term) V2 { return loadV(s.Entry, verts, i) }
	for _, e := range es {
		c.ob(never(And(one, e.Guard)), rule, name+" sides of one", e.Instr.Pos(), "sides of a single point are worked out")
		g := And(many, e.Guard)
		a := e.Args
		c.ob(proveEq(a[0], tol, g), rule, name+" tolerance", e.Instr.Pos(), "the tolerance is %s", short(a[0]))
		c.ob(tailOf(a[1], verts, TInt(2), g) && proveEq(a[2], TSub(count, TInt(2)), g), rule, name+" rest", e.Instr.Pos(), "%s points of %s are divided", short(a[2]), short(a[1]))
		c.ob(vec(a[3]).eq(V(start), g) && vec(a[5]).eq(V(start), g), rule, name+" from the least", e.Instr.Pos(), "the sides do not start and end at the least point")
		c.ob(vec(a[4]).eq(V(end), g), rule, name+" by the greatest", e.Instr.Pos(), "the sides do not meet at the greatest point")
		c.ob(tailOf(a[6], verts, TInt(1), g), rule, name+" result", e.Instr.Pos(), "the vertices are put in %s", short(a[6]))
		c.ob(proveEq(s.Ret, TAdd(e.Result, TInt(1)), g), rule, name+" number", e.Instr.Pos(), "the number of vertices is %s", short(s.Ret))
		// what is left to divide are the other points
		at := func(i *Term) V2 { return loadV(e.Mem, verts, i) }
		two := TInt(2)
		c.ob(at(TInt(0)).eq(V(start), g), rule, name+" first vertex", e.Instr.Pos(), "the first vertex is not the least point")
		k := paramTerm("k", tyInt)
		keep := AndAll(g, CondLe(two, k, true), Not(CondEq(k, start)), Not(CondEq(k, end)))
		c.ob(at(k).eq(V(k), keep), rule, name+" others", e.Instr.Pos(), "points are lost or moved")
		far := func(x *Term) *BDD { return CondLe(two, x, true) }
		for z := int64(0); z < 2; z++ {
			g1 := AndAll(g, far(start), CondEq(end, TInt(z)))
			c.ob(at(start).eq(V(TInt(1-z)), g1), rule, fmt.Sprintf("%s moved for the least %d", name, z), e.Instr.Pos(), "a point is lost when the least is moved to the front")
			g2 := AndAll(g, far(end), CondEq(start, TInt(z)))
			c.ob(at(end).eq(V(TInt(1-z)), g2), rule, fmt.Sprintf("%s moved for the greatest %d", name, z), e.Instr.Pos(), "a point is lost when the greatest is moved to the front")
		}
		g3 := AndAll(g, far(start), far(end))
		zero, first := V(TInt(0)), V(TInt(1))
		c.ob(at(start).eq(zero, g3) && at(end).eq(first, g3) || at(start).eq(first, g3) && at(end).eq(zero, g3), rule, name+" moved for both", e.Instr.Pos(), "a point is lost when the extremes are moved to the front")
	}
}

func (c *Ctx) hullSide() {
	rule, name := "hull", "QHullReduce"
	s := c.sum(name, "hull", Config{NoEnter: true, Opaque: opaqueSet("QHullPartition", "QHullReduce")})
	tol, verts, count, a, pv, b, result, pos := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Params[4], s.Params[5], s.Params[6], s.Fn.Pos()
	G := And(s.G, CondLe(TInt(0), count, true))
	A, P, B := vec(a), vec(pv), vec(b)
	none := And(G, CondEq(count, TInt(0)))
	some := And(G, CondLt(TInt(0), count, true))
	c.ob(proveEq(s.Ret, TInt(1), none) && loadV(s.Mem, result, TInt(0)).eq(P, none), rule, name+" no points", pos, "beside a line with no points there is not just its end")
	parts := eventsOf(s.Events, "call", "QHullPartition")
	subs := eventsOf(s.Events, "call", "QHullReduce")
	for _, e := range append(append([]*Event(nil), parts...), subs...) {
		c.ob(never(And(none, e.Guard)), rule, name+" nothing to split", e.Instr.Pos(), "no points are split")
	}
	var p1, p2 *Event
	for _, e := range parts {
		g := And(some, e.Guard)
		switch {
		case vec(e.Args[2]).eq(A, g) && vec(e.Args[3]).eq(P, g):
			p1 = e
		case vec(e.Args[2]).eq(P, g) && vec(e.Args[3]).eq(B, g):
			p2 = e
		default:
			c.ob(false, rule, name+" lines", e.Instr.Pos(), "points are split by a line that is neither from the start to the farthest point nor from there to the end")
		}
	}
	if !c.ob(p1 != nil && p2 != nil && len(parts) == 2, rule, name+" both lines", pos, "the points are not split by both lines") {
		return
	}
	for _, e := range parts {
		c.ob(implies(some, e.Guard), rule, name+" always split", e.Instr.Pos(), "the points are not always split")
		c.ob(proveEq(e.Args[4], tol, some), rule, name+" tolerance", e.Instr.Pos(), "the tolerance is %s", short(e.Args[4]))
	}
	left, right := p1.Result, p2.Result
	some = AndAll(some, CondLe(TInt(0), left, true), CondLe(left, count, true), CondLe(TInt(0), right, true), CondLe(right, TSub(count, left), true))
	c.ob(proveEq(p1.Args[0], verts, some) && proveEq(p1.Args[1], count, some), rule, name+" all points", p1.Instr.Pos(), "not all points are split by the first line")
	c.ob(tailOf(p2.Args[0], verts, left, some) && proveEq(p2.Args[1], TSub(count, left), some), rule, name+" other points", p2.Instr.Pos(), "not the points on the inner side of the first line are split by the second")
	c.ob(p1.Seq < p2.Seq, rule, name+" order", p2.Instr.Pos(), "the points are split by the second line before the first")
	isL, isR := And(some, CondLt(TInt(0), left, true)), And(some, CondLt(TInt(0), right, true))
	var r1, r2 *Event
	for _, e := range subs {
		switch {
		case vec(e.Args[3]).eq(A, And(some, e.Guard)):
			r1 = e
		case vec(e.Args[3]).eq(P, And(some, e.Guard)):
			r2 = e
		}
	}
	if !c.ob(r1 != nil && r2 != nil && len(subs) == 2, rule, name+" both sides", pos, "the two sides are not worked out") {
		return
	}
	c.ob(implies(isL, r1.Guard) && never(AndAll(some, CondEq(left, TInt(0)), r1.Guard)), rule, name+" left side", r1.Instr.Pos(), "the side of the first line is not worked out exactly if there are points on it")
	c.ob(implies(isR, r2.Guard) && never(AndAll(some, CondEq(right, TInt(0)), r2.Guard)), rule, name+" right side", r2.Instr.Pos(), "the side of the second line is not worked out exactly if there are points on it")
	index := TIte(CondLt(TInt(0), left, true), r1.Result, TInt(0))
	isL, isR = And(isL, CondLe(TInt(0), r1.Result, true)), AndAll(isR, CondLe(TInt(0), r1.Result, true))
	for _, x := range []struct {
		n        string
		e        *Event
		g        *BDD
		from     *Term
		num      *Term
		a, b     V2
		out      *Term
		splitter *Event
	}{{"left", r1, isL, TInt(0), left, A, P, TInt(0), p1}, {"right", r2, isR, left, right, P, B, TAdd(index, TInt(1)), p2}} {
		g := x.g
		if x.e == r2 {
			// the first side has been worked out or there is none
			g = And(g, bddTrue)
		}
		n := name + " " + x.n
		ar := x.e.Args
		c.ob(x.splitter.Seq < x.e.Seq, rule, n+" after split", x.e.Instr.Pos(), "a side is worked out before its points are known")
		c.ob(proveEq(ar[0], tol, g), rule, n+" tolerance", x.e.Instr.Pos(), "the tolerance is %s", short(ar[0]))
		c.ob(tailOf(ar[1], verts, TAdd(x.from, TInt(1)), g) && proveEq(ar[2], TSub(x.num, TInt(1)), g), rule, n+" points", x.e.Instr.Pos(), "%s points of %s are divided", short(ar[2]), short(ar[1]))
		top := loadV(x.e.Mem, verts, x.from)
		top2 := loadV(x.splitter.After, verts, x.from)
		c.ob(vec(ar[3]).eq(x.a, g) && (vec(ar[4]).eq(top, g) || vec(ar[4]).eq(top2, g)) && vec(ar[5]).eq(x.b, g), rule, n+" corners", x.e.Instr.Pos(), "the side is not worked out between its ends and its farthest point")
		for _, w := range []*BDD{And(g, CondLt(TInt(0), left, true)), And(g, CondEq(left, TInt(0)))} {
			c.ob(tailOf(ar[6], result, x.out, w) || never(w), rule, n+" result", x.e.Instr.Pos(), "the vertices are put in %s", short(ar[6]))
		}
	}
	for _, w := range []*BDD{CondLt(TInt(0), left, true), CondEq(left, TInt(0))} {
		for _, v := range []struct {
			g    *BDD
			want *Term
		}{{CondLt(TInt(0), right, true), TAdd(TAdd(index, TInt(1)), r2.Result)}, {CondEq(right, TInt(0)), TAdd(index, TInt(1))}} {
			c.ob(proveEq(s.Ret, v.want, AndAll(some, w, v.g)), rule, name+" number", pos, "the number of vertices is %s", short(s.Ret))
		}
		// the farthest point stands between the two sides
		g := AndAll(some, w, CondLe(TInt(0), r1.Result, true))
		has := func(m *Mem, f *BDD) bool {
			return m != nil && (loadV(m, result, TInt(0)).eq(P, And(f, CondEq(index, TInt(0)))) && loadV(m, result, index).eq(P, f))
		}
		c.ob(has(p2.Mem, g) && p2.Seq > r1.Seq || has(r2.Mem, And(g, CondLt(TInt(0), right, true))) && has(s.Mem, And(g, CondEq(right, TInt(0)))), rule, name+" middle", pos, "the farthest point does not stand between the two sides")
	}
	c.ob(r1.Seq < r2.Seq, rule, name+" sides in order", r2.Instr.Pos(), "the sides are not worked out in order")
}

func (c *Ctx) hullSplit() {
	rule, name := "hull", "QHullPartition"
	s := c.sum(name, "hull", Config{NoEnter: true})
	verts, count, a, b, tol, pos := s.Params[0], s.Params[1], vec(s.Params[2]), vec(s.Params[3]), s.Params[4], s.Fn.Pos()
	all := And(s.G, CondLe(TInt(0), count, true))
	c.ob(proveEq(s.Ret, TInt(0), And(all, CondEq(count, TInt(0)))), rule, name+" none", pos, "of no points %s are beside the line", short(s.Ret))
	some := And(all, CondLt(TInt(0), count, true))
	var le *Event
	for _, e := range s.Events {
		if e.Kind == "loop" {
			c.ob(le == nil, rule, name+" one loop", e.Instr.Pos(), "there are several loops")
			le = e
		}
	}
	if !c.ob(le != nil, rule, name+" loop", pos, "nothing looks at the points") {
		return
	}
	c.ob(implies(some, le.Guard), rule, name+" always", pos, "the points are not always looked at")
	l := le.Loop
	f := And(some, l.Assume)
	var head, headB, tail, tailB, best, bestB, at, atB *Term
	for _, ph := range l.Phis {
		if ph.Invariant || !isNumType(ph.Var.typ) {
			continue
		}
		switch {
		case isFloat(ph.Var.typ):
			if proveEq(ph.Init, TInt(0), f) {
				best, bestB = ph.Var, ph.Back
			}
		case proveEq(s.Ret, ph.Var, some):
			if proveEq(ph.Init, TInt(0), f) {
				head, headB = ph.Var, ph.Back
			}
		default:
			for off := int64(0); off < 2; off++ {
				if proveEq(ph.Init, TSub(count, TInt(1-off)), f) {
					tail, tailB = TSub(ph.Var, TInt(off)), TSub(ph.Back, TInt(off))
				}
			}
			if proveEq(ph.Init, TInt(0), f) {
				at, atB = ph.Var, ph.Back
			}
		}
	}
	if !c.ob(head != nil && tail != nil && best != nil && at != nil, rule, name+" variables", pos, "the points on the outer side are not counted up from none, the others down from the last, or the farthest is not kept") {
		return
	}
	f = AndAll(f, CondLe(TInt(0), head, true), CondLe(head, TAdd(tail, TInt(1)), true), CondLt(tail, count, true), CondLe(TInt(0), at, true))
	open := CondLe(head, tail, true)
	c.ob(equivUnder(f, l.BackG, open), rule, name+" all points", le.Instr.Pos(), "it goes on if %s", shortB(l.BackG))
	d := b.sub(a)
	P := loadV(l.Iter, verts, head)
	far := P.sub(a).cross(d)
	out := CondLt(TMul(tol, d.len()), far, false)
	k := paramTerm("k", tyInt)
	in := AndAll(f, open, out)
	B := func(i *Term) V2 { return loadV(l.Back, verts, i) }
	I := func(i *Term) V2 { return loadV(l.Iter, verts, i) }
	c.ob(proveEq(headB, TAdd(head, TInt(1)), in) && proveEq(tailB, tail, in), rule, name+" outside", le.Instr.Pos(), "a point on the outer side is not counted")
	c.ob(B(k).eq(I(k), in), rule, name+" outside kept", le.Instr.Pos(), "points are moved")
	more, less := And(in, CondLt(best, far, false)), And(in, CondLt(far, best, false))
	c.ob(proveEq(bestB, far, more) && proveEq(atB, head, more), rule, name+" farthest", le.Instr.Pos(), "a point farther than the farthest does not become it")
	c.ob(proveEq(bestB, best, less) && proveEq(atB, at, less), rule, name+" nearer", le.Instr.Pos(), "a point nearer than the farthest becomes it")
	in = AndAll(f, open, Not(out))
	c.ob(proveEq(headB, head, in) && proveEq(tailB, TSub(tail, TInt(1)), in), rule, name+" inside", le.Instr.Pos(), "a point on the inner side is counted, or not put aside")
	c.ob(B(head).eq(I(tail), in) && B(tail).eq(I(head), in), rule, name+" inside put aside", le.Instr.Pos(), "a point on the inner side does not change places with the last one not looked at")
	c.ob(B(k).eq(I(k), AndAll(in, Not(CondEq(k, head)), Not(CondEq(k, tail)))), rule, name+" others", le.Instr.Pos(), "other points are moved")
	c.ob(proveEq(bestB, best, in) && proveEq(atB, at, in), rule, name+" inside not farthest", le.Instr.Pos(), "a point on the inner side becomes the farthest")
	// the farthest goes to the front
	end := And(f, Not(open))
	E := func(i *Term) V2 { return loadV(s.Mem, verts, i) }
	c.ob(E(TInt(0)).eq(I(at), end) && E(at).eq(I(TInt(0)), end), rule, name+" front", pos, "the farthest point does not change places with the first")
	c.ob(E(k).eq(I(k), AndAll(end, Not(CondEq(k, at)), Not(CondEq(k, TInt(0))))), rule, name+" rest", pos, "other points are moved at the end")
}
