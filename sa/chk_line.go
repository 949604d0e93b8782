package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Lines gathered from segments, and their simplification.

func checkC27(c *Ctx) {
	c.part("ends", func() {
		c.findLine("PolyLineSet.FindEnds", func(m *Mem, vs *Term) *Term { return TSub(TLen(vs), TInt(1)) })
		c.findLine("PolyLineSet.FindStarts", func(m *Mem, vs *Term) *Term { return TInt(0) })
	})
	c.part("pushing", c.pushVerts)
	c.part("collecting", c.collectSegment)
	c.part("joining", c.joinLines)
	c.part("closed lines", c.lineClosed)
	c.part("straight pieces", c.simplifyVertexes)
	c.part("short pieces", c.shortPiece)
	c.part("splitting", c.splitCurve)
	c.part("curves", c.simplifyCurves)
	c.part("extremes", c.loopIndexes)
	c.atLeast("line-collect", 15)
	c.atLeast("line-simplify", 40)
}

func vertsOf(m *Mem, line *Term) *Term { return get(m, line, "Verts") }

func (c *Ctx) findLine(name string, end func(m *Mem, vs *Term) *Term) {
	rule := "line-collect"
	s := c.sum(name, "line", Config{NoEnter: true})
	set, v, pos, f := s.Params[0], vec(s.Params[1]), s.Fn.Pos(), s.G
	lines := get(s.Entry, set, "Lines")
	n := 0
	for _, e := range s.Events {
		if e.Kind != "loop" {
			continue
		}
		n++
		l := e.Loop
		var idx *Term
		why := "it counts nothing"
		for _, ph := range l.Phis {
			for _, off := range []int64{0, 1} {
				if i := TAdd(ph.Var, TInt(off)); isNumType(ph.Var.typ) && !ph.Invariant && why != "" {
					if why = visitsIndexed(withoutFound(e, i, TLen(lines)), i, TLen(lines), f); why == "" {
						idx = i
					}
				}
			}
		}
		c.ob(why == "", rule, name+" all", e.Instr.Pos(), "not every line is looked at: %s", why)
		if idx == nil {
			return
		}
		line := l.Iter.Load(elemAddr(lines, idx), lines.typ.Underlying().(*types.Slice).Elem())
		vs := vertsOf(l.Iter, line)
		in := AndAll(f, l.Assume, CondLe(TInt(0), idx, true), CondLt(idx, TLen(lines), true), CondLt(TInt(0), TLen(vs), true), Not(CondEq(vs, TNilOf(vs.typ))))
		at := loadV(l.Iter, vs, end(l.Iter, vs))
		is := And(CondEq(at.x, v.x), CondEq(at.y, v.y))
		found := bddFalse
		for _, x := range l.Exits {
			if !never(AndAll(in, x.Guard)) {
				found = Or(found, x.Guard)
				c.ob(proveEq(pickExit(s.Ret, x), idx, AndAll(in, x.Guard)), rule, name+" index", pos, "line %s is found and %s returned", short(idx), short(pickExit(s.Ret, x)))
			}
		}
		c.ob(equivUnder(in, found, is), rule, name+" found", pos, "a line counts as found if %s", shortB(found))
		// none
		for _, x := range l.Exits {
			g := AndAll(f, l.Assume, Not(CondLt(idx, TLen(lines), true)))
			if !never(And(g, x.Guard)) {
				c.ob(proveEq(pickExit(s.Ret, x), TInt(-1), And(g, x.Guard)), rule, name+" none", pos, "%s is returned if there is no such line", short(pickExit(s.Ret, x)))
			}
		}
	}
	c.ob(n == 1, rule, name, pos, "it is not one walk over the lines")
}

// pickExit: the value of t if the loop was left this way.
func pickExit(t *Term, x *ExitInfo) *Term {
	return pick(t, x.Sel)
}

// withoutFound: the loop without the exits taken before the end.
func withoutFound(e *Event, i, n *Term) *Event {
	e2, l2 := *e, *e.Loop
	l2.Exits = nil
	for _, x := range e.Loop.Exits {
		if !implies(x.Guard, CondLt(i, n, true)) {
			l2.Exits = append(l2.Exits, x)
		}
	}
	e2.Loop = &l2
	return &e2
}

func (c *Ctx) pushVerts() {
	rule := "line-collect"
	s := c.sum("PolyLine.Push", "line", Config{NoEnter: true})
	f := typeFact(s)
	st := storesTo(s.Events, "PolyLine.Verts")
	vs := vertsOf(s.Entry, s.Params[0])
	want := rawTerm(OApp, vs.typ, "append", vs, s.Params[1])
	c.ob(len(st) == 1 && implies(f, st[0].Guard) && st[0].Loc == addrOf(s.Entry, s.Params[0], "Verts") && proveEq(st[0].Val, want, f), rule, "Push", s.Fn.Pos(), "Push does not add the vertex at the end")
	c.ob(proveEq(s.Ret, s.Params[0], f), rule, "Push returns", s.Fn.Pos(), "Push returns %s", short(s.Ret))
	s = c.sum("PolyLine.Enqueue", "line", Config{NoEnter: true})
	f = typeFact(s)
	st = storesTo(s.Events, "PolyLine.Verts")
	ok := len(st) == 1 && implies(f, st[0].Guard) && st[0].Loc == addrOf(s.Entry, s.Params[0], "Verts")
	ok = ok && c.isPrepended(st[0], vertsOf(s.Entry, s.Params[0]), vec(s.Params[1]), f)
	c.ob(ok, rule, "Enqueue", s.Fn.Pos(), "Enqueue does not add the vertex before the first")
	c.ob(proveEq(s.Ret, s.Params[0], f), rule, "Enqueue returns", s.Fn.Pos(), "Enqueue returns %s", short(s.Ret))
	s = c.sum("PolyLineSet.Push", "line", Config{NoEnter: true})
	f = typeFact(s)
	st = storesTo(s.Events, "PolyLineSet.Lines")
	ls := get(s.Entry, s.Params[0], "Lines")
	want = rawTerm(OApp, ls.typ, "append", ls, s.Params[1])
	c.ob(len(st) == 1 && implies(f, st[0].Guard) && st[0].Loc == addrOf(s.Entry, s.Params[0], "Lines") && proveEq(st[0].Val, want, f), rule, "PolyLineSet.Push", s.Fn.Pos(), "Push does not add the line at the end")
}

// isPrepended: the list stored is v followed by the old list.
func (c *Ctx) isPrepended(st *Event, old *Term, v V2, f *BDD) bool {
	t := st.Val
	if t.op != OApp || t.name != "appendslice" || !proveEq(t.args[1], old, f) {
		return false
	}
	if a := t.args[0]; a.op == OApp && a.name == "append" && len(a.args) == 2 && newList(a) {
		return proveEq(TLen(a.args[0]), TInt(0), f) && vec(a.args[1]).eq(v, f)
	}
	if !proveEq(TLen(t.args[0]), TInt(1), f) {
		return false
	}
	return loadV(st.Mem, t.args[0], TInt(0)).eq(v, f)
}

func (c *Ctx) collectSegment() {
	rule := "line-collect"
	name := "PolyLineCollectSegment"
	s := c.sum(name, "line", Config{NoEnter: true, Opaque: opaqueSet("PolyLineSet.FindEnds", "PolyLineSet.FindStarts", "PolyLineSet.Join"), Pure: func(fn *ssa.Function) bool {
		return fname(fn) == "PolyLineSet.FindEnds" || fname(fn) == "PolyLineSet.FindStarts"
	}})
	v0, v1, set, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
	f := typeFact(s)
	find := func(fn string, v *Term) *Term {
		for _, e := range eventsOf(s.Events, "call", fn) {
			if implies(f, e.Guard) && proveEq(e.Args[0], set, f) && vec(e.Args[1]).eq(vec(v), f) {
				return e.Result
			}
		}
		c.fail(rule, name+" "+fn, pos, "it does not look for a line with the vertex using %s", fn)
		return nil
	}
	before, after := find("PolyLineSet.FindEnds", v0), find("PolyLineSet.FindStarts", v1)
	if before == nil || after == nil {
		return
	}
	lines := get(s.Entry, set, "Lines")
	et := lines.typ.Underlying().(*types.Slice).Elem()
	line := func(i *Term) *Term { return s.Entry.Load(elemAddr(lines, i), et) }
	hasB, hasA := CondLe(TInt(0), before, true), CondLe(TInt(0), after, true)
	// what is found is a line of the set
	f = AndAll(f, Or(Not(hasB), CondLt(before, TLen(lines), true)), Or(Not(hasA), CondLt(after, TLen(lines), true)))
	same := CondEq(before, after)
	cases := []struct {
		what string
		when *BDD
		is   func(e *Event, g *BDD) bool
	}{
		{"closing", AndAll(hasB, hasA, same), func(e *Event, g *BDD) bool {
			return e.Kind == "store" && e.Loc == addrOf(s.Entry, line(before), "Verts") && c.isAppended(e, vertsOf(s.Entry, line(before)), v1, g)
		}},
		{"joining", AndAll(hasB, hasA, Not(same)), func(e *Event, g *BDD) bool {
			return e.Kind == "call" && e.Name == "PolyLineSet.Join" && proveEq(e.Args[0], set, g) && proveEq(e.Args[1], before, g) && proveEq(e.Args[2], after, g)
		}},
		{"at the end", And(hasB, Not(hasA)), func(e *Event, g *BDD) bool {
			return e.Kind == "store" && e.Loc == addrOf(s.Entry, line(before), "Verts") && c.isAppended(e, vertsOf(s.Entry, line(before)), v1, g)
		}},
		{"at the start", And(Not(hasB), hasA), func(e *Event, g *BDD) bool {
			return e.Kind == "store" && e.Loc == addrOf(s.Entry, line(after), "Verts") && c.isPrepended(e, vertsOf(s.Entry, line(after)), vec(v0), g)
		}},
		{"new", And(Not(hasB), Not(hasA)), func(e *Event, g *BDD) bool {
			if e.Kind != "store" || e.Loc != addrOf(s.Entry, set, "Lines") || e.Val.op != OApp || e.Val.name != "append" || len(e.Val.args) != 2 || !proveEq(e.Val.args[0], lines, g) {
				return false
			}
			nl := e.Val.args[1]
			vs := vertsOf(e.Mem, nl)
			return rootOf(nl).op == OAlloc && proveEq(TLen(vs), TInt(2), g) && loadV(e.Mem, vs, TInt(0)).eq(vec(v0), g) && loadV(e.Mem, vs, TInt(1)).eq(vec(v1), g)
		}},
	}
	for _, k := range cases {
		g := And(f, k.when)
		done := bddFalse
		for _, e := range s.Events {
			if e.Kind == "call" && (e.Name == "PolyLineSet.FindEnds" || e.Name == "PolyLineSet.FindStarts") || e.Kind == "store" && rootOf(e.Loc).op == OAlloc {
				continue
			}
			ge := And(g, e.Guard)
			if never(ge) {
				continue
			}
			c.ob(k.is(e, ge), rule, name+" "+k.what, e.Instr.Pos(), "%s: a segment %s does something else (%s)", name, k.what, e.Kind)
			c.ob(never(And(done, ge)), rule, name+" "+k.what+" once", e.Instr.Pos(), "%s: a segment %s is added twice", name, k.what)
			done = Or(done, e.Guard)
		}
		c.ob(implies(g, done) || never(And(g, Not(done))), rule, name+" "+k.what+" done", pos, "%s: a segment %s is lost", name, k.what)
	}
}

func (c *Ctx) isAppended(e *Event, old, v *Term, g *BDD) bool {
	t := pick(e.Val, g)
	return t.op == OApp && t.name == "append" && len(t.args) == 2 && proveEq(t.args[0], old, g) && vec(t.args[1]).eq(vec(v), g)
}

func (c *Ctx) joinLines() {
	rule := "line-collect"
	s := c.sum("PolyLineSet.Join", "line", Config{NoEnter: true})
	set, before, after, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
	lines := get(s.Entry, set, "Lines")
	in := func(i *Term) *BDD { return And(CondLe(TInt(0), i, true), CondLt(i, TLen(lines), true)) }
	f := AndAll(typeFact(s), in(before), And(in(after), Not(CondEq(before, after))))
	et := lines.typ.Underlying().(*types.Slice).Elem()
	line := func(i *Term) *Term { return s.Entry.Load(elemAddr(lines, i), et) }
	joined, removed, shifted := false, false, false
	for _, e := range s.Events {
		switch {
		case e.Kind == "store" && e.Loc == addrOf(s.Entry, line(before), "Verts"):
			a, b := vertsOf(s.Entry, line(before)), vertsOf(s.Entry, line(after))
			t := e.Val
			joined = !joined && implies(f, e.Guard) && t.op == OApp && t.name == "appendslice" && proveEq(t.args[0], a, f) && proveEq(t.args[1], b, f)
			c.ob(joined, rule, "Join vertices", e.Instr.Pos(), "the joined line has %s", short(t))
		case e.Kind == "copy":
			from, to := e.Args[1], e.Args[0]
			shifted = isSlice(to, lines, after, f) && isSlice(from, lines, TAdd(after, TInt(1)), f) && implies(f, e.Guard) && !removed
			c.ob(shifted, rule, "Join shift", e.Instr.Pos(), "the lines behind the one joined are not moved up by one")
		case e.Kind == "store" && e.Loc == addrOf(s.Entry, set, "Lines"):
			t := e.Val
			ok := t.op == OApp && t.name == "delete" && proveEq(t.args[0], lines, f) && proveEq(t.args[1], after, f)
			ok = ok || shifted && t.op == OApp && t.name == "slice" && proveEq(t.args[0], lines, f) && proveEq(t.args[1], TInt(0), f) && proveEq(t.args[2], TSub(TLen(lines), TInt(1)), f)
			removed = ok && !removed && implies(f, e.Guard)
			c.ob(removed, rule, "Join removes", e.Instr.Pos(), "the lines become %s", short(t))
		case e.Kind == "store" && rootOf(e.Loc).op == OAlloc:
		default:
			c.fail(rule, "Join else", e.Instr.Pos(), "joining two lines does more (%s)", e.Kind)
		}
	}
	c.ob(joined && removed, rule, "Join", pos, "the lines are not joined into the first, or the second is not dropped")
}

func isSlice(t, list, from *Term, f *BDD) bool {
	return t.op == OApp && t.name == "slice" && proveEq(t.args[0], list, f) && proveEq(t.args[1], from, f) && proveEq(t.args[2], TLen(list), f)
}

func (c *Ctx) lineClosed() {
	rule := "line-simplify"
	s := c.sum("PolyLine.IsClosed", "line", Config{NoEnter: true})
	vs := vertsOf(s.Entry, s.Params[0])
	a, b := loadV(s.Entry, vs, TInt(0)), loadV(s.Entry, vs, TSub(TLen(vs), TInt(1)))
	want := AndAll(CondLt(TInt(1), TLen(vs), true), CondEq(a.x, b.x), CondEq(a.y, b.y))
	c.ob(equivUnder(typeFact(s), toBDD(s.Ret), want), rule, "IsClosed", s.Fn.Pos(), "a line counts as closed if %s", shortB(toBDD(s.Ret)))
	s = c.sum("Next", "line", Config{NoEnter: true})
	f := typeFact(s)
	c.ob(proveEq(s.Ret, TApp("mod", s.Ret.typ, TAdd(s.Params[0], TInt(1)), s.Params[1]), f), rule, "Next", s.Fn.Pos(), "the index after another is %s", short(s.Ret))
	s = c.sum("Sharpness", "line", Config{NoEnter: true})
	p, q, r := vec(s.Params[0]), vec(s.Params[1]), vec(s.Params[2])
	c.ob(proveEq(s.Ret, c.unit(p.sub(q)).dot(c.unit(r.sub(q))), typeFact(s)), rule, "Sharpness", s.Fn.Pos(), "the sharpness of a corner is %s", short(s.Ret))
}

// growing finds the list of vertices a loop works on: a variable, or in memory.
func growing(s *Summary, l *LoopInfo) (init, iter, back *Term) {
	for _, ph := range l.Phis {
		if sl, ok := ph.Var.typ.Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "Vector" && !ph.Invariant {
			return ph.Init, ph.Var, ph.Back
		}
	}
	if isPtr(s.Ret) && rootOf(s.Ret).op == OAlloc {
		return vertsOf(l.Entry, s.Ret), vertsOf(l.Iter, s.Ret), vertsOf(l.Back, s.Ret)
	}
	return nil, nil, nil
}

func (c *Ctx) simplifyVertexes() {
	rule := "line-simplify"
	name := "SimplifyVertexes"
	s := c.sum("PolyLine."+name, "line", Config{NoEnter: true, Opaque: opaqueSet("Sharpness"), Pure: pureAll})
	pl, tol, pos := s.Params[0], s.Params[1], s.Fn.Pos()
	vs := vertsOf(s.Entry, pl)
	n := TLen(vs)
	limit := TNeg(TApp("cos", tyFloat, tol))
	// the list built is a new one (see below): storing in it leaves the line alone
	in := s.Entry
	V := func(i *Term) V2 { return loadV(in, vs, i) }
	two := TInt(2)
	f := And(s.G, CondLe(two, n, true))
	sharp := func(evs []*Event, a, b, d V2, g *BDD) *Term {
		for _, e := range eventsOf(evs, "call", "Sharpness") {
			if vec(e.Args[0]).eq(a, g) && vec(e.Args[1]).eq(b, g) && vec(e.Args[2]).eq(d, g) {
				return e.Result
			}
		}
		return nil
	}
	var le *Event
	for _, e := range s.Events {
		if e.Kind == "loop" {
			c.ob(le == nil, rule, name+" one loop", e.Instr.Pos(), "there are several loops")
			le = e
		}
	}
	if !c.ob(le != nil, rule, name+" loop", pos, "nothing looks at the vertices") {
		return
	}
	l := le.Loop
	init, R, back := growing(s, l)
	if !c.ob(init != nil, rule, name+" list", pos, "no list of vertices is built") {
		return
	}
	var i *Term
	why := "nothing counts"
	for _, ph := range l.Phis {
		if !ph.Invariant && isNumType(ph.Var.typ) && !isFloat(ph.Var.typ) && i == nil {
			for _, off := range []int64{0, 1, 2} {
				k := TAdd(ph.Var, TInt(off))
				if proveEq(subst(k, map[*Term]*Term{ph.Var: ph.Init}), two, f) && proveEq(ph.Step, TInt(1), f) {
					i, why = k, ""
				}
			}
		}
	}
	c.ob(why == "", rule, name+" from third", pos, "the vertices from the third on are not all looked at: %s", why)
	if i == nil {
		return
	}
	end := Not(CondLt(i, n, true))
	for _, x := range l.Exits {
		c.ob(equivUnder(AndAll(f, l.Assume), x.Guard, end), rule, name+" to last", pos, "it stops before the last vertex")
	}
	c.ob(proveEq(TLen(init), two, f) && loadV(l.Entry, init, TInt(0)).eq(V(TInt(0)), f) && loadV(l.Entry, init, TInt(1)).eq(V(TInt(1)), f), rule, name+" start", pos, "the result does not begin with the first two vertices")
	c.ob(init.op == OApp && (init.name == "slice" || init.name == "append" || init.name == "appendslice") && newList(init), rule, name+" new list", pos, "the result shares the vertices of the line")
	in = l.Iter
	// by induction the last vertex kept is the one before, and two are kept at least
	last := TSub(TLen(R), TInt(1))
	A, B := loadV(l.Iter, R, TSub(TLen(R), two)), loadV(l.Iter, R, last)
	g := AndAll(f, l.BackG, CondLe(two, TLen(R), true))
	sh := sharp(l.Events, A, B, V(i), g)
	if c.ob(sh != nil, rule, name+" corner", pos, "the last two vertices kept and the next one are not compared") {
		straight := CondLe(sh, limit, false)
		gs, gk := And(g, straight), And(g, Not(straight))
		c.ob(proveEq(TLen(back), TLen(R), gs) && loadV(l.Back, back, last).eq(V(i), gs), rule, name+" straight", pos, "a vertex on a straight piece does not take the place of the last one kept")
		t := pick(back, gk)
		c.ob(t.op == OApp && t.name == "append" && len(t.args) == 2 && proveEq(t.args[0], R, gk) && vec(t.args[1]).eq(V(i), gk), rule, name+" kept", pos, "a vertex at a corner is not added (%s)", short(t))
		for _, st := range l.Events {
			if st.Kind != "store" || indexOf(st.Loc) == nil {
				continue
			}
			c.ob(proveEq(indexOf(st.Loc), last, And(g, st.Guard)) && never(AndAll(gk, st.Guard)), rule, name+" earlier", st.Instr.Pos(), "a vertex kept before is changed")
		}
	}
	// the vertex a closed line begins with
	in = exitMem(s, l)
	f = typeFact(s)
	Rx := R
	m := in
	f = AndAll(f, CondLe(two, n, true), CondLe(two, TLen(Rx), true))
	a0, z0 := V(TInt(0)), V(TSub(n, TInt(1)))
	closed := AndAll(CondLt(TInt(1), n, true), CondEq(a0.x, z0.x), CondEq(a0.y, z0.y))
	prev := loadV(m, Rx, TSub(TLen(Rx), two))
	sh = sharp(s.Events, prev, loadV(m, Rx, TInt(0)), loadV(m, Rx, TInt(1)), And(f, closed))
	if !c.ob(sh != nil, rule, name+" closing corner", pos, "the corner a closed line begins with is not looked at") {
		return
	}
	drop := And(closed, CondLt(sh, limit, false))
	tie := CondEq(sh, limit)
	f = And(f, Not(tie))
	fin := s.Ret
	if isPtr(fin) {
		fin = vertsOf(s.Mem, s.Ret)
	}
	gd, gk := And(f, drop), And(f, Not(drop))
	t := pick(fin, gd)
	ok := t.op == OApp && t.name == "slice" && proveEq(t.args[0], Rx, gd)
	lo := TInt(0)
	if ok {
		lo = t.args[1]
		ok = proveEq(TSub(t.args[2], lo), TSub(TLen(Rx), TInt(1)), gd)
	}
	c.ob(ok, rule, name+" first dropped", pos, "the vertex a closed line begins and ends with lies on a straight piece and is not dropped (%s)", short(t))
	if ok {
		// either the last is dropped and the first replaced, or the other way round
		w := s.Mem
		ok = proveEq(lo, TInt(0), gd) && loadV(w, Rx, TInt(0)).eq(prev, gd)
		ok = ok || proveEq(lo, TInt(1), gd) && loadV(w, Rx, TSub(TLen(Rx), TInt(1))).eq(loadV(m, Rx, TInt(1)), gd)
		c.ob(ok, rule, name+" stays closed", pos, "a closed line does not end where it begins after its first vertex was dropped")
	}
	c.ob(proveEq(pick(fin, gk), Rx, gk), rule, name+" result", pos, "the result is %s", short(pick(fin, gk)))
	for _, e := range s.Events {
		if e.Kind == "store" && indexOf(e.Loc) != nil && rootOf(e.Loc).op != OAlloc {
			c.ob(never(And(gk, e.Guard)), rule, name+" untouched", e.Instr.Pos(), "a vertex of the result is changed though none is dropped")
		}
	}
}

// newList: built from nothing but new memory.
func newList(t *Term) bool {
	for t.op == OApp && (t.name == "slice" || t.name == "append" || t.name == "appendslice") {
		t = t.args[0]
	}
	return t.op == OAlloc || t.op == ONil || t.op == OApp && t.name == "make"
}

func exitMem(s *Summary, l *LoopInfo) *Mem {
	for _, x := range l.Exits {
		if x.Mem != nil {
			return x.Mem
		}
	}
	return s.Mem
}

// ringLoop: a loop over first, next(first), … up to end.
func (c *Ctx) ringLoop(rule, name string, e *Event, first, count, end *Term, f *BDD) *Term {
	l := e.Loop
	for _, ph := range l.Phis {
		if ph.Invariant || !isNumType(ph.Var.typ) || isFloat(ph.Var.typ) {
			continue
		}
		next := TApp("mod", ph.Var.typ, TAdd(ph.Var, TInt(1)), count)
		if !proveEq(ph.Init, first, And(f, e.Guard)) || !proveEq(ph.Back, next, AndAll(f, l.Assume, l.BackG)) {
			continue
		}
		atEnd := CondEq(ph.Var, end)
		c.ob(never(AndAll(f, l.BackG, atEnd)), rule, name+" ends", e.Instr.Pos(), "the walk round goes past its end")
		return ph.Var
	}
	c.fail(rule, name+" walk", e.Instr.Pos(), "it does not go from %s to %s vertex by vertex", short(first), short(end))
	return nil
}

func theLoop(s *Summary) *Event {
	var le *Event
	for _, e := range s.Events {
		if e.Kind == "loop" {
			if le != nil {
				return nil
			}
			le = e
		}
	}
	return le
}

func (c *Ctx) shortPiece() {
	rule, name := "line-simplify", "IsShort"
	s := c.sum("PolyLine.IsShort", "line", Config{NoEnter: true})
	P, pos := s.Params, s.Fn.Pos()
	vs := vertsOf(s.Entry, P[0])
	count, start, end, min := P[1], P[2], P[3], P[4]
	le := theLoop(s)
	if !c.ob(le != nil, rule, name, pos, "it is not one walk") {
		return
	}
	l, f := le.Loop, s.G
	i := c.ringLoop(rule, name, le, start, count, end, f)
	if i == nil {
		return
	}
	next := TApp("mod", i.typ, TAdd(i, TInt(1)), count)
	step := loadV(l.Iter, vs, i).sub(loadV(l.Iter, vs, next)).len()
	done := false
	for _, ph := range l.Phis {
		if ph.Invariant || !isFloat(ph.Var.typ) {
			continue
		}
		done = true
		g := AndAll(f, l.Assume, Not(CondEq(i, end)))
		// counted up, or down from what is allowed
		sum := TAdd(TSub(ph.Var, ph.Init), step)
		next := TAdd(ph.Var, step)
		if down := TSub(ph.Var, step); proveEq(ph.Back, down, And(g, l.BackG)) {
			sum, next = TAdd(TSub(ph.Init, ph.Var), step), down
		}
		c.ob(proveEq(ph.Back, next, And(g, l.BackG)), rule, name+" length", pos, "the length of a piece is %s", short(ph.Back))
		long := CondLt(min, sum, false)
		tie := Not(CondEq(min, sum))
		c.ob(never(AndAll(g, l.BackG, long)), rule, name+" long", pos, "it goes on though the piece is too long")
		for _, x := range l.Exits {
			ret := toBDD(pickExit(s.Ret, x))
			gx := AndAll(g, x.Guard, tie)
			if !never(gx) {
				c.ob((implies(gx, long) || never(And(gx, Not(long)))) && (implies(And(gx, x.Sel), Not(ret)) || never(AndAll(gx, x.Sel, ret))), rule, name+" too long", pos, "a piece that is short enough is not short")
			}
			ge := AndAll(f, x.Guard, CondEq(i, end))
			if !never(ge) {
				c.ob(implies(And(ge, x.Sel), ret) || never(AndAll(ge, x.Sel, Not(ret))), rule, name+" short", pos, "a piece that was short up to its end is not short")
			}
		}
	}
	c.ob(done, rule, name+" sum", pos, "no length is summed")
}

func (c *Ctx) splitCurve() {
	rule, name := "line-simplify", "DouglasPeucker"
	s := c.sum(name, "line", Config{NoEnter: true, Opaque: opaqueSet("PolyLine.IsShort", name), Pure: func(fn *ssa.Function) bool { return fname(fn) == "PolyLine.IsShort" }})
	P, pos := s.Params, s.Fn.Pos()
	vs, red, length, start, end, min, tol := P[0], P[1], P[2], P[3], P[4], P[5], P[6]
	f := s.G
	a, b := loadV(s.Entry, vs, start), loadV(s.Entry, vs, end)
	near := CondLt(TApp("mod", length.typ, TAdd(TSub(end, start), length), length), TInt(2), true)
	// a piece that is short altogether
	brief := bddFalse
	for _, e := range eventsOf(s.Events, "call", "PolyLine.IsShort") {
		ok := proveEq(e.Args[1], length, f) && proveEq(e.Args[2], start, f) && proveEq(e.Args[3], end, f) && proveEq(e.Args[4], min, f) && proveEq(vertsOf(e.Mem, e.Args[0]), vs, f)
		c.ob(ok, rule, name+" short", e.Instr.Pos(), "it is not the piece meant that is measured")
		brief = Or(brief, And(e.Guard, toBDD(e.Result)))
	}
	d := a.sub(b)
	brief = And(brief, CondLt(d.dot(d), TMul(min, min), false))
	le := theLoop(s)
	if !c.ob(le != nil, rule, name, pos, "the vertices of the piece are not looked at in one loop") {
		return
	}
	l := le.Loop
	look := And(Not(near), Not(brief))
	tieD := Not(CondEq(d.dot(d), TMul(min, min)))
	c.ob(equivUnder(And(f, tieD), le.Guard, look), rule, name+" looked at", le.Instr.Pos(), "a piece is split not exactly if it has vertices in between and is not short")
	i := c.ringLoop(rule, name, le, TApp("mod", start.typ, TAdd(start, TInt(1)), length), length, end, f)
	if i == nil {
		return
	}
	n := c.unit(b.sub(a).perp())
	dist := TAbs(n.dot(loadV(l.Iter, vs, i).sub(a)))
	var far, at *PhiInfo
	for _, ph := range l.Phis {
		if ph.Invariant || ph.Var == i {
			continue
		}
		if isFloat(ph.Var.typ) {
			far = ph
		} else if isNumType(ph.Var.typ) {
			at = ph
		}
	}
	if !c.ob(far != nil && at != nil, rule, name+" farthest", pos, "the farthest vertex is not searched") {
		return
	}
	g := AndAll(f, l.BackG, CondLe(TNum(0), far.Var, false))
	more := And(g, CondLt(far.Var, dist, false))
	less := And(g, CondLt(dist, far.Var, false))
	c.ob(proveEq(far.Init, TNum(0), f), rule, name+" farthest start", pos, "the search starts at distance %s", short(far.Init))
	c.ob(proveEq(far.Back, dist, more) && proveEq(at.Back, i, more), rule, name+" farther", pos, "a vertex farther from the line than those before is not taken")
	c.ob(proveEq(far.Back, far.Var, less) && proveEq(at.Back, at.Var, less), rule, name+" nearer", pos, "a vertex nearer to the line than one before is taken")
	// split there
	f = typeFact(s)
	maxi, max := at.Var, far.Var
	split := And(look, CondLt(tol, max, false))
	ft := And(f, And(tieD, Not(CondEq(tol, max))))
	calls := eventsOf(s.Events, "call", name)
	if !c.ob(len(calls) == 2, rule, name+" halves", pos, "the piece is split into %d", len(calls)) {
		return
	}
	same := func(e *Event, from, to *Term) bool {
		return proveEq(e.Args[0], vs, f) && proveEq(e.Args[2], length, f) && proveEq(e.Args[3], from, f) && proveEq(e.Args[4], to, f) && proveEq(e.Args[5], min, f) && proveEq(e.Args[6], tol, f)
	}
	for k, e := range calls {
		c.ob(equivUnder(ft, e.Guard, split), rule, name+" split", e.Instr.Pos(), "a piece is split not exactly if a vertex is farther from the line than tolerated")
		if k == 0 {
			c.ob(same(e, start, maxi) && proveEq(e.Args[1], red, f), rule, name+" first half", e.Instr.Pos(), "the first half is not simplified")
		} else {
			before := vertsOf(calls[0].After, calls[0].Result)
			t := vertsOf(e.Mem, e.Args[1])
			ge := And(f, e.Guard)
			ok := t.op == OApp && t.name == "append" && len(t.args) == 2 && proveEq(t.args[0], before, ge) && vec(t.args[1]).eq(loadV(calls[0].After, vs, maxi), ge)
			c.ob(ok, rule, name+" vertex", e.Instr.Pos(), "the farthest vertex is not added between the halves (%s)", short(t))
			c.ob(same(e, maxi, end), rule, name+" second half", e.Instr.Pos(), "the second half is not simplified")
			gs := And(ft, split)
			c.ob(proveEq(pick(s.Ret, gs), e.Result, gs), rule, name+" result", pos, "the result is %s", short(pick(s.Ret, gs)))
		}
	}
	gn := And(ft, Not(split))
	c.ob(proveEq(s.Ret, red, gn), rule, name+" unchanged", pos, "a piece that is not split is returned as %s", short(pick(s.Ret, gn)))
	for _, e := range s.Events {
		if e.Kind == "store" && rootOf(e.Loc).op != OAlloc {
			c.ob(never(And(gn, e.Guard)), rule, name+" nothing added", e.Instr.Pos(), "something is added for a piece that is not split")
		}
	}
}

func (c *Ctx) simplifyCurves() {
	rule, name := "line-simplify", "SimplifyCurves"
	s := c.sum("PolyLine."+name, "line", Config{NoEnter: true, Opaque: opaqueSet("DouglasPeucker", "LoopIndexes"), Pure: func(fn *ssa.Function) bool { return fname(fn) == "LoopIndexes" }})
	pl, tol, pos := s.Params[0], s.Params[1], s.Fn.Pos()
	vs := vertsOf(s.Entry, pl)
	n := TLen(vs)
	f := And(typeFact(s), CondLt(TInt(0), n, true))
	one := TInt(1)
	a0, z0 := loadV(s.Entry, vs, TInt(0)), loadV(s.Entry, vs, TSub(n, one))
	closed := AndAll(CondLt(one, n, true), CondEq(a0.x, z0.x), CondEq(a0.y, z0.y))
	// simplifying a piece writes to the new line only
	same := func(m *Mem, t *Term) *Term {
		return subst(t, map[*Term]*Term{vertsOf(m, pl): vs})
	}
	piece := func(e *Event, length, from, to *Term, g *BDD) bool {
		return proveEq(e.Args[0], vertsOf(e.Mem, pl), g) && proveEq(same(e.Mem, e.Args[2]), length, g) && proveEq(e.Args[3], from, g) && proveEq(same(e.Mem, e.Args[4]), to, g) && proveEq(e.Args[5], TScale(tol, 1, 2), g) && proveEq(e.Args[6], tol, g)
	}
	// the list is what it was with one vertex more
	added := func(m, at *Mem, line, before *Term, i *Term, g *BDD) bool {
		t := pick(vertsOf(m, line), g)
		if t.op != OApp || t.name != "append" || len(t.args) != 2 {
			return false
		}
		if before == nil && !emptyList(pick(t.args[0], g), g) || before != nil && !proveEq(t.args[0], before, g) {
			return false
		}
		v, w := vec(t.args[1]), loadV(at, vertsOf(at, pl), i)
		w2 := loadV(at, vertsOf(at, pl), subst(i, map[*Term]*Term{n: TLen(vertsOf(at, pl))}))
		return v.eq(w, g) || v.eq(w2, g)
	}
	calls := func(g *BDD) (r []*Event) {
		for _, e := range eventsOf(s.Events, "call", "DouglasPeucker") {
			if !never(And(g, e.Guard)) {
				r = append(r, e)
			}
		}
		return
	}
	g := And(f, Not(closed))
	if cs := calls(g); c.ob(len(cs) == 1 && implies(g, cs[0].Guard), rule, name+" open", pos, "an open line is not simplified in one piece") {
		e := cs[0]
		c.ob(piece(e, n, TInt(0), TSub(n, one), g), rule, name+" open piece", e.Instr.Pos(), "an open line is not simplified from its first to its last vertex")
		c.ob(added(e.Mem, s.Entry, e.Args[1], nil, TInt(0), g), rule, name+" open first", e.Instr.Pos(), "an open line does not begin with its first vertex")
		ret := pick(s.Ret, g)
		c.ob(proveEq(ret, e.Result, g) && added(s.Mem, e.After, e.Result, vertsOf(e.After, e.Result), TSub(n, one), g), rule, name+" open last", pos, "an open line does not end with its last vertex")
	}
	g = And(f, closed)
	var from, to *Term
	for _, e := range eventsOf(s.Events, "call", "LoopIndexes") {
		if !never(And(g, e.Guard)) {
			c.ob(proveEq(e.Args[0], vs, g) && proveEq(e.Args[1], TSub(n, one), g), rule, name+" extremes", e.Instr.Pos(), "the extremes are not those of the vertices of the closed line")
			from, to = elem(e.Result, 0), elem(e.Result, 1)
		}
	}
	if cs := calls(g); c.ob(from != nil && len(cs) == 2 && implies(g, And(cs[0].Guard, cs[1].Guard)), rule, name+" closed", pos, "a closed line is not simplified in two pieces between its extremes") {
		m1 := TSub(n, one)
		c.ob(piece(cs[0], m1, from, to, g), rule, name+" one way", cs[0].Instr.Pos(), "the first piece of a closed line does not lead from the one extreme to the other")
		c.ob(piece(cs[1], m1, to, from, g), rule, name+" back", cs[1].Instr.Pos(), "the second piece of a closed line does not lead back")
		c.ob(added(cs[0].Mem, s.Entry, cs[0].Args[1], nil, from, g), rule, name+" closed first", cs[0].Instr.Pos(), "a closed line does not begin with an extreme")
		c.ob(added(cs[1].Mem, cs[0].After, cs[1].Args[1], vertsOf(cs[0].After, cs[0].Result), to, g), rule, name+" closed middle", cs[1].Instr.Pos(), "the other extreme is missing from a closed line")
		ret := pick(s.Ret, g)
		c.ob(proveEq(ret, cs[1].Result, g) && added(s.Mem, cs[1].After, cs[1].Result, vertsOf(cs[1].After, cs[1].Result), from, g), rule, name+" closed last", pos, "a closed line does not end where it begins")
	}
}

// loopIndexes: the lowest and the highest vertex in lexicographic order.
func (c *Ctx) loopIndexes() {
	rule, name := "line-simplify", "LoopIndexes"
	s := c.sum(name, "line", Config{NoEnter: true})
	vs, count, pos := s.Params[0], s.Params[1], s.Fn.Pos()
	le := theLoop(s)
	if !c.ob(le != nil, rule, name, pos, "it is not one loop") {
		return
	}
	l, f := le.Loop, s.G
	lo, hi := elem(s.Ret, 0), elem(s.Ret, 1)
	var i *Term
	for _, ph := range l.Phis {
		if ph.Var == lo || ph.Var == hi || ph.Invariant || !isNumType(ph.Var.typ) || isFloat(ph.Var.typ) {
			continue
		}
		for _, off := range []int64{0, 1} {
			k := TAdd(ph.Var, TInt(off))
			first := subst(k, map[*Term]*Term{ph.Var: ph.Init})
			if (proveEq(first, TInt(1), f) || proveEq(first, TInt(0), f)) && proveEq(ph.Step, TInt(1), f) {
				i = k
			}
		}
	}
	if !c.ob(i != nil, rule, name+" all", pos, "not all vertices are looked at") {
		return
	}
	for _, x := range l.Exits {
		c.ob(equivUnder(AndAll(f, l.Assume), x.Guard, Not(CondLt(i, count, true))), rule, name+" to last", pos, "it stops before the last vertex")
	}
	less := func(a, b V2) *BDD {
		return Or(CondLt(a.x, b.x, false), And(CondEq(a.x, b.x), CondLt(a.y, b.y, false)))
	}
	// the vertices kept are those the indexes belong to: both are variables of
	// the loop, or read through the index
	var lows, highs []V2
	phi := func(t *Term) *PhiInfo {
		for _, ph := range l.Phis {
			if ph.Var == t {
				return ph
			}
		}
		return nil
	}
	pl, ph := phi(lo), phi(hi)
	if !c.ob(pl != nil && ph != nil, rule, name+" indexes", pos, "the indexes are not found in the loop") {
		return
	}
	c.ob(proveEq(pl.Init, TInt(0), f) && proveEq(ph.Init, TInt(0), f), rule, name+" first", pos, "the search does not start at the first vertex")
	V := func(k *Term) V2 { return loadV(s.Entry, vs, k) }
	lows, highs = append(lows, V(lo)), append(highs, V(hi))
	g := AndAll(f, l.BackG, Not(less(V(hi), V(lo))))
	// values carried along: pairs of coordinates equal to those at the index
	eqs := bddTrue
	carry := func(cur, back, init V2) {
		x, y, bx, by := cur.x, cur.y, back.x, back.y
		ex, ey := init.x, init.y
		v0 := V(TInt(0))
		if !(V2{ex, ey}).eq(v0, f) {
			return
		}
		for _, idx := range []*PhiInfo{pl, ph} {
			at := V(idx.Var)
			hyp := AndAll(f, l.BackG, CondEq(x, at.x), CondEq(y, at.y))
			changed := bddFalse
			leaves(idx.Back, bddTrue, func(g *BDD, t *Term) {
				if t != idx.Var {
					changed = Or(changed, g)
				}
			})
			bi := V2{bx, by}
			took := And(hyp, changed)
			if (implies(hyp, Not(changed)) || bi.eq(V(i), took)) && bi.eq(V2{x, y}, And(hyp, Not(changed))) {
				eqs = AndAll(eqs, CondEq(x, at.x), CondEq(y, at.y))
				return
			}
		}
	}
	for _, h := range l.HavocL {
		if lastField(h) == "X" {
			at := func(m *Mem) V2 { return V2{get(m, h.args[0], "X"), get(m, h.args[0], "Y")} }
			carry(at(l.Iter), at(l.Back), at(l.Entry))
		}
	}
	for _, p := range l.Phis {
		if st, ok := p.Var.typ.Underlying().(*types.Struct); ok && st.NumFields() == 2 && p.Init != nil && p.Back != nil {
			carry(vec(p.Var), vec(p.Back), vec(p.Init))
		}
	}
	g = And(g, eqs)
	below, above := less(V(i), V(lo)), less(V(hi), V(i))
	gb := And(g, below)
	c.ob(proveEq(pl.Back, i, gb), rule, name+" lowest", pos, "a vertex lower than the lowest so far is not taken")
	gn := And(g, Not(Or(below, And(CondEq(V(i).x, V(lo).x), CondEq(V(i).y, V(lo).y)))))
	c.ob(proveEq(pl.Back, lo, gn), rule, name+" not lower", pos, "a vertex is taken for the lowest that is not")
	ga := AndAll(g, above, Not(below))
	c.ob(proveEq(ph.Back, i, ga), rule, name+" highest", pos, "a vertex higher than the highest so far is not taken")
	gm := And(g, Not(Or(above, And(CondEq(V(i).x, V(hi).x), CondEq(V(i).y, V(hi).y)))))
	c.ob(proveEq(ph.Back, hi, gm), rule, name+" not higher", pos, "a vertex is taken for the highest that is not")
	_ = token.NoPos
}

func init() {
	register(&Check{ID: "C27", Run: checkC27, Explanation: "lines gathered from segments, and their simplification"})
}
