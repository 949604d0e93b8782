package main

import (
	"fmt"
	"go/token"
)

// The outline of a sampled field: which cells are looked at, and which
// segments a cell contributes.

type marchSide struct {
	name   string
	lo, hi int // corners
	hard   V2
	soft   V2
	starts int // starts here if this corner is the one above the threshold
}

func checkC28(c *Ctx) {
	c.part("sampling", c.marchCells)
	c.part("soft cell", func() { c.marchCell("MarchCellSoft", true) })
	c.part("hard cell", func() { c.marchCell("MarchCellHard", false) })
	c.part("entry points", c.marchEntries)
	c.atLeast("march-cells", 12)
	c.atLeast("march-segments", 60)
}

func (c *Ctx) marchCell(name string, soft bool) {
	rule := "march-segments"
	s := c.sum(name, "march", Config{})
	P, pos := s.Params, s.Fn.Pos()
	t, x0, x1, y0, y1 := P[0], P[5], P[6], P[7], P[8]
	corner := P[1:5]
	half := func(a, b *Term) *Term { return TScale(TAdd(a, b), 1, 2) }
	mid := V2{half(x0, x1), half(y0, y1)}
	at := func(a, b, sa, sb *Term) *Term {
		return TAdd(a, TMul(TSub(b, a), TDiv(TSub(t, sa), TSub(sb, sa))))
	}
	xs, ys := [4]*Term{x0, x1, x0, x1}, [4]*Term{y0, y0, y1, y1}
	sides := []marchSide{{name: "lower", lo: 0, hi: 1, starts: 0}, {name: "left", lo: 0, hi: 2, starts: 2}, {name: "right", lo: 1, hi: 3, starts: 1}, {name: "upper", lo: 2, hi: 3, starts: 3}}
	for i := range sides {
		d := &sides[i]
		if d.name == "lower" || d.name == "upper" {
			d.soft = V2{at(x0, x1, corner[d.lo], corner[d.hi]), ys[d.lo]}
			d.hard = V2{mid.x, ys[d.lo]}
		} else {
			d.soft = V2{xs[d.lo], at(y0, y1, corner[d.lo], corner[d.hi])}
			d.hard = V2{xs[d.lo], mid.y}
		}
	}
	for _, e := range s.Events {
		switch {
		case e.Kind == "user" && proveEq(e.Callee, P[9], typeFact(s)):
			c.ob(len(e.Args) == 3 && proveEq(e.Args[2], P[10], And(typeFact(s), e.Guard)), rule, name+" set", e.Instr.Pos(), "a segment is handed over with %s", short(e.Args[len(e.Args)-1]))
		case e.Kind == "user" || e.Kind == "loop" || e.Kind == "store" && rootOf(e.Loc).op != OAlloc:
			c.fail(rule, name+" else", e.Instr.Pos(), "looking at a cell does more than hand over segments (%s)", e.Kind)
		}
	}
	for bits := 0; bits < 16; bits++ {
		k := typeFact(s)
		for i, v := range corner {
			above := CondLt(t, v, false)
			if bits>>i&1 == 0 {
				above = Not(above)
			}
			k = And(k, above)
		}
		cell := fmt.Sprintf("%s cell %x", name, bits)
		type end struct {
			side int
			p    V2
		}
		var from, to []end
		for i, d := range sides {
			lo, hi := bits>>d.lo&1, bits>>d.hi&1
			if lo == hi {
				continue
			}
			p := d.hard
			if soft {
				p = d.soft
			}
			if bits>>d.starts&1 == 1 {
				from = append(from, end{i, p})
			} else {
				to = append(to, end{i, p})
			}
		}
		// the segments of this cell
		var evs []*Event
		for _, e := range s.Events {
			if e.Kind == "user" && !never(And(e.Guard, k)) {
				evs = append(evs, e)
			}
		}
		is := func(e *Event, a, b V2) string {
			f := And(k, e.Guard)
			if !vec(e.Args[0]).eq(a, f) || !vec(e.Args[1]).eq(b, f) {
				return "other"
			}
			differ := Not(And(CondEq(a.x, b.x), CondEq(a.y, b.y)))
			if !equivUnder(k, e.Guard, differ) {
				return "the segment is not handed over exactly if it has a length"
			}
			return ""
		}
		// want: every one of these, and nothing else
		has := func(want [][2]V2) string {
			if len(want) != len(evs) {
				return fmt.Sprintf("there are %d segments, %d wanted", len(evs), len(want))
			}
			used := map[*Event]bool{}
			for _, w := range want {
				why := fmt.Sprintf("none leads from %s,%s to %s,%s", short(w[0].x), short(w[0].y), short(w[1].x), short(w[1].y))
				for _, e := range evs {
					if used[e] {
						continue
					}
					m := is(e, w[0], w[1])
					if m == "" {
						used[e], why = true, ""
						break
					} else if m != "other" {
						why = m
					}
				}
				if why != "" {
					return why
				}
			}
			return ""
		}
		var ways [][][2]V2
		through := func() (w [][2]V2) {
			for _, a := range from {
				w = append(w, [2]V2{a.p, mid})
			}
			for _, b := range to {
				w = append(w, [2]V2{mid, b.p})
			}
			return
		}
		opposite := func(a, b int) bool { return a+b == 3 }
		direct := func(perm []int) (w [][2]V2) {
			for i, a := range from {
				w = append(w, [2]V2{a.p, to[perm[i]].p})
			}
			return
		}
		switch {
		case len(from) == 0:
			ways = append(ways, nil)
		case soft && len(from) == 1:
			ways = append(ways, direct([]int{0}))
		case soft:
			ways = append(ways, direct([]int{0, 1}), direct([]int{1, 0}))
		case len(from) == 1 && opposite(from[0].side, to[0].side):
			ways = append(ways, through(), direct([]int{0}))
		default:
			ways = append(ways, through())
		}
		why := ""
		for _, w := range ways {
			if why = has(w); why == "" {
				break
			}
		}
		p := pos
		if len(evs) > 0 {
			p = evs[0].Instr.Pos()
		}
		c.ob(sat(k), rule, cell, p, "there is no such cell")
		c.ob(why == "", rule, cell+" segments", p, "corners above the threshold %04b: %s", bits, why)
		for i := range evs {
			c.ob(why == "", rule, fmt.Sprint(cell, " segment ", i), p, "%s", why)
		}
	}
}

func (c *Ctx) marchCells() {
	rule := "march-cells"
	var sample *Term
	s := c.sum("MarchCells", "march", Config{PureUser: func(fn *Term) bool { return true }, KeepOnUser: func(string) bool { return true }})
	P, pos := s.Params, s.Fn.Pos()
	if len(P) < 7 {
		c.fail(rule, "MarchCells", pos, "MarchCells has %d parameters", len(P))
		return
	}
	bb, nx, ny, t, segment, cell := P[0], P[1], P[2], P[3], P[4], P[6]
	sample = P[5]
	f := s.G
	one := TInt(1)
	grid := func(lo, hi string, n, k *Term) *Term {
		a, b := fld(bb, lo), fld(bb, hi)
		return TAdd(a, TMul(TSub(b, a), TMul(k, TInv(TSub(n, one)))))
	}
	X := func(k *Term) *Term { return grid("L", "R", nx, k) }
	Y := func(k *Term) *Term { return grid("B", "T", ny, k) }
	fty := fld(bb, "L").typ
	S := func(x, y *Term) *Term {
		return TApp("user", fty, sample, TStruct(c.named("Vector"), []*Term{X(x), Y(y)}))
	}
	// the call for one cell
	var outer, inner, call *Event
	n := 0
	for _, eo := range s.Events {
		if eo.Kind == "user" && proveEq(eo.Callee, cell, f) {
			n += 2
		}
		if eo.Kind != "loop" {
			continue
		}
		for _, ei := range eo.Loop.Events {
			if ei.Kind == "user" && proveEq(ei.Callee, cell, f) {
				n += 2
			}
			if ei.Kind != "loop" {
				continue
			}
			for _, e := range ei.Loop.Events {
				if e.Kind == "user" && proveEq(e.Callee, cell, f) {
					outer, inner, call = eo, ei, e
					n++
				}
			}
		}
	}
	if !c.ob(n == 1, rule, "cells", pos, "the cells are not looked at by one call in a loop over columns in a loop over rows") {
		return
	}
	counter := func(e *Event, count *Term) (*Term, string) {
		why := "nothing counts"
		for _, ph := range e.Loop.Phis {
			if ph.Invariant || !isNumType(ph.Var.typ) || isFloat(ph.Var.typ) {
				continue
			}
			for _, off := range []int64{0, 1, -1} {
				k := TAdd(ph.Var, TInt(off))
				if why = visitsIndexed(e, k, count, And(f, e.Guard)); why == "" {
					return k, ""
				}
			}
		}
		return nil, why
	}
	j, why := counter(outer, TSub(ny, one))
	c.ob(why == "", rule, "rows", outer.Instr.Pos(), "not every row of cells is looked at: %s", why)
	if j == nil {
		return
	}
	i, why := counter(inner, TSub(nx, one))
	c.ob(why == "", rule, "columns", inner.Instr.Pos(), "not every cell of a row is looked at: %s", why)
	if i == nil {
		return
	}
	lo, li := outer.Loop, inner.Loop
	gi := AndAll(f, inner.Guard, li.Assume, li.BackG)
	c.ob(implies(f, outer.Guard) && implies(And(f, And(lo.Assume, lo.BackG)), inner.Guard) && implies(gi, call.Guard), rule, "every cell", call.Instr.Pos(), "some cells are skipped")
	jn, in := TAdd(j, one), TAdd(i, one)

	// what the loops carry, as samples
	inv := map[*Term]*Term{}
	ap := func(t *Term) *Term { return subst(t, inv) }
	var bufs []*Term
	addBuf := func(loc *Term) *Term {
		for r := loc; r != nil; {
			if r.op == OIndex {
				return r.args[0]
			}
			if len(r.args) == 0 {
				return nil
			}
			r = r.args[0]
		}
		return nil
	}
	var stores []*Event
	allEvents(s.Events, func(e *Event, loops []*LoopInfo) {
		if e.Kind != "store" {
			return
		}
		b := addBuf(e.Loc)
		if b == nil {
			if rootOf(e.Loc).op != OAlloc {
				c.fail(rule, "else", e.Instr.Pos(), "looking at the cells changes %s", short(e.Loc))
			}
			return
		}
		stores = append(stores, e)
		for _, x := range bufs {
			if x == b {
				return
			}
		}
		bufs = append(bufs, b)
	})
	for _, b := range bufs {
		c.marchBuffer(rule, s, b, outer, inner, i, j, nx, ny, S, inv)
	}
	for _, ph := range li.Phis {
		if !isFloat(ph.Var.typ) || ph.Invariant {
			continue
		}
		ok := false
		for _, y := range []*Term{j, jn} {
			for _, x := range []*Term{i, in} {
				cand := S(x, y)
				first := subst(cand, map[*Term]*Term{countVar(i): TSub(TInt(0), TSub(i, countVar(i)))})
				inv[ph.Var] = cand
				gb := AndAll(f, inner.Guard, CondLt(one, nx, true))
				if proveEq(ap(ph.Init), first, gb) {
					ok = true
					break
				}
				delete(inv, ph.Var)
			}
			if ok {
				break
			}
		}
		c.ob(ok, rule, "carried "+ph.Var.name, inner.Instr.Pos(), "a row starts with %s for a sample", short(ap(ph.Init)))
	}
	for _, ph := range li.Phis {
		if cand := inv[ph.Var]; cand != nil {
			next := subst(cand, map[*Term]*Term{countVar(i): TAdd(countVar(i), one)})
			c.ob(proveEq(ap(ph.Back), next, gi), rule, "carried on "+ph.Var.name, inner.Instr.Pos(), "the sample handed on to the next cell is %s", short(ap(ph.Back)))
		}
	}
	want := []*Term{t, S(i, j), S(in, j), S(i, jn), S(in, jn), X(i), X(in), Y(j), Y(jn), segment}
	what := []string{"threshold", "lower left sample", "lower right sample", "upper left sample", "upper right sample", "left", "right", "bottom", "top", "segment function"}
	for k, w := range want {
		c.ob(proveEq(ap(call.Args[k]), w, gi), rule, what[k], call.Instr.Pos(), "the %s of a cell is %s", what[k], short(ap(call.Args[k])))
	}
	set := call.Args[10]
	c.ob(proveEq(set, s.Ret, typeFact(s)), rule, "set", call.Instr.Pos(), "the segments go to %s, not what is returned", short(set))
	r := rootOf(s.Ret)
	c.ob(r.op == OAlloc && !mayStore(s.Events, r), rule, "new set", pos, "what is returned is not a new set of lines")
}

func mayStore(evs []*Event, r *Term) bool {
	bad := false
	allEvents(evs, func(e *Event, _ []*LoopInfo) {
		if e.Kind == "store" && rootOf(e.Loc) == r && e.Val.op != ONil {
			bad = true
		}
	})
	return bad
}

func countVar(t *Term) *Term {
	var v *Term
	walkTerm(t, func(x *Term) {
		if x.op == OVar {
			v = x
		}
	})
	return v
}

// marchBuffer: when a row of cells begins, the buffer has the samples of its
// lower side; what is stored in it is the upper side.
func (c *Ctx) marchBuffer(rule string, s *Summary, buf *Term, outer, inner *Event, i, j, nx, ny *Term, S func(x, y *Term) *Term, inv map[*Term]*Term) {
	f := s.G
	one := TInt(1)
	fty := s.Params[3].typ
	lo, li := outer.Loop, inner.Loop
	name := "samples kept"
	// filled at the start
	filled := "nothing fills it"
	for _, e := range s.Events {
		if e == outer {
			break
		}
		if e.Kind != "loop" {
			continue
		}
		for _, st := range e.Loop.Events {
			if st.Kind != "store" || rootOf(st.Loc) != rootOf(buf) {
				continue
			}
			k := indexOf(st.Loc)
			g := AndAll(f, e.Loop.Assume, e.Loop.BackG, CondLe(TInt(0), k, true))
			if filled = visitsIndexed(e, k, nx, f); filled == "" && !(implies(g, st.Guard) && proveEq(st.Val, S(k, TInt(0)), g)) {
				filled = "a sample is " + short(st.Val)
			}
		}
	}
	c.ob(filled == "", rule, name+" first row", token.NoPos, "the samples of the first row: %s", filled)
	// what is stored during a row is the sample of the upper side
	jn := TAdd(j, one)
	seen := map[string]bool{}
	visit := func(evs []*Event, g *BDD, in bool) {
		for _, st := range evs {
			if st.Kind != "store" || rootOf(st.Loc) != rootOf(buf) {
				continue
			}
			k := indexOf(st.Loc)
			if k == nil {
				c.fail(rule, name, st.Instr.Pos(), "the samples kept are lost")
				continue
			}
			gg := And(g, st.Guard)
			v := subst(st.Val, inv)
			c.ob(proveEq(v, S(k, jn), gg), rule, name+" stored", st.Instr.Pos(), "the sample stored is %s", short(v))
			if !in && proveEq(k, TInt(0), gg) && implies(g, st.Guard) {
				seen["first"] = true
			}
			if in && proveEq(k, TAdd(i, one), gg) && implies(g, st.Guard) {
				seen["next"] = true
			}
		}
	}
	go0 := And(f, inner.Guard)
	visit(lo.Events, go0, false)
	visit(li.Events, AndAll(go0, li.Assume, li.BackG), true)
	c.ob(seen["first"] && seen["next"], rule, name+" next row", inner.Instr.Pos(), "not every sample of the upper side is kept for the next row")
	if elem := fty; elem != nil {
		inv[lo.Iter.Load(elemAddr(buf, TInt(0)), elem)] = S(TInt(0), j)
		inv[li.Iter.Load(elemAddr(buf, TAdd(i, one)), elem)] = S(TAdd(i, one), j)
	}
}

func (c *Ctx) marchEntries() {
	rule := "march-cells"
	for _, e := range [][2]string{{"MarchSoft", "MarchCellSoft"}, {"MarchHard", "MarchCellHard"}} {
		s := c.sum(e[0], "march", Config{Opaque: opaqueSet("MarchCells"), NoEnter: true})
		calls := eventsOf(s.Events, "call", "MarchCells")
		f := s.G
		ok := len(calls) == 1 && implies(f, calls[0].Guard) && proveEq(calls[0].Result, s.Ret, f)
		if ok {
			for k := 0; k < 6; k++ {
				ok = ok && proveEq(calls[0].Args[k], s.Params[k], f)
			}
			fn := calls[0].Args[6].fnOf()
			ok = ok && fn != nil && fname(fn) == e[1]
		}
		c.ob(ok, rule, e[0], s.Fn.Pos(), "%s does not look at the cells of what it is given with %s", e[0], e[1])
	}
}

func init() {
	register(&Check{ID: "C28", Run: checkC28, Explanation: "the outline of a sampled field"})
}
