package main

import (
	"go/token"
	"go/types"
)

// C41: the spatial hash asks about everything that shares a cell, once.

var hashOpaque = []string{"HashSet.Insert", "HashSet.Remove", "HashSet.Find", "HashSet.Each", "HashSet.Count", "SpatialIndex.CollideStatic"}

type hashCheck struct {
	*Ctx
	cell  *Term // the number of the chain of cell (X, Y)
	X, Y  *Term
	N     *Term
	endOf *PhiInfo
}

func (c *Ctx) hashSum(name string) *Summary {
	return c.sum(name, "hash", Config{NoEnter: true, KeepUser: keepAll, KeepOn: keepTable2, Opaque: opaqueSet(hashOpaque...)})
}

// floorOf: t is the biggest whole number not above x.
func floorOf(t, x *Term, g *BDD) bool {
	for _, r := range floors(t.typ, x) {
		if proveEq(t, r, g) {
			return true
		}
	}
	return false
}

// floors: ways to write the biggest whole number not above x.
func floors(typ types.Type, x *Term) []*Term {
	tr := TApp("trunc", typ, x)
	fl := TApp("floor", tyFloat, x)
	below := TSub(tr, TInt(1))
	return []*Term{
		TIte(And(CondLt(x, TNum(0), false), Not(CondEq(tr, x))), below, tr),
		TIte(CondLt(x, tr, false), below, tr),
		TApp("trunc", typ, fl), fl,
	}
}

// cells: the iteration that visits every cell from (l, b) to (r, t).
type cells struct {
	Out, In *Event
	X, Y    *Term
	G       *BDD // what holds in one of its iterations, at its end
	R       *BDD // the cell is one of those
	X0, Y0  *Term
}

func (h *hashCheck) cells(rule, name string, evs []*Event, bb, dim *Term, f *BDD, pos token.Pos) *cells {
	why := "no loop"
	type axis struct {
		ph *PhiInfo
		x  bool
	}
	lo := func(x bool) (*Term, *Term) {
		if x {
			return TDiv(fld(bb, "L"), dim), TDiv(fld(bb, "R"), dim)
		}
		return TDiv(fld(bb, "B"), dim), TDiv(fld(bb, "T"), dim)
	}
	find := func(e *Event, x bool, f *BDD) (*PhiInfo, *BDD) {
		a, b := lo(x)
		l := e.Loop
		for _, ph := range l.Phis {
			if ph.Var == nil || ph.Back == nil || ph.Invariant || !isNumType(ph.Var.typ) {
				continue
			}
			in := And(f, l.Assume)
			step := TSub(ph.Back, ph.Var)
			up := proveEq(step, TInt(1), And(in, l.BackG))
			from, to := a, b
			if !up {
				from, to = b, a
				if !proveEq(step, TInt(-1), And(in, l.BackG)) {
					continue
				}
			}
			if !floorOf(ph.Init, from, And(f, e.Guard)) {
				why = "a loop over cells starts at " + short(ph.Init)
				continue
			}
			// it ends only after the last cell
			var past *BDD
			for _, end := range floors(ph.Var.typ, to) {
				p := CondLt(end, ph.Var, true)
				if !up {
					p = CondLt(ph.Var, end, true)
				}
				ok := true
				for _, x := range l.Exits {
					if g := And(in, x.Guard); sat(g) && !implies(g, p) {
						ok = false
					}
				}
				if ok {
					past = p
					break
				}
			}
			if past == nil {
				why = "a loop over cells can end before the last one"
				continue
			}
			return ph, Not(past)
		}
		return nil, nil
	}
	for _, e := range evs {
		if e.Kind != "loop" || e.Loop.Back == nil || !sat(And(f, e.Guard)) {
			continue
		}
		for _, x := range []bool{true, false} {
			p, rp := find(e, x, f)
			if p == nil {
				continue
			}
			g := AndAll(f, e.Loop.Assume, e.Loop.BackG)
			for _, i := range e.Loop.Events {
				if i.Kind != "loop" || i.Loop.Back == nil {
					continue
				}
				q, rq := find(i, !x, AndAll(f, rp))
				if q == nil {
					continue
				}
				h.ob(implies(f, e.Guard) && implies(g, i.Guard), rule, name+" always", i.Instr.Pos(), "the cells are visited only when %s", shortB(i.Guard))
				r := &cells{Out: e, In: i, X: p.Var, Y: q.Var, R: AndAll(f, rp, rq), G: AndAll(f, e.Loop.Assume, i.Loop.Assume, i.Loop.BackG)}
				if !x {
					r.X, r.Y = q.Var, p.Var
				}
				h.ob(true, rule, name+" cells", i.Instr.Pos(), "")
				return r
			}
		}
	}
	h.fail(rule, name+" cells", pos, "not every cell the box meets is visited: %s", why)
	panic(abortCheck{})
}

// chain: the address of the chain of the cell (x, y), if t is an address in the table.
func (h *hashCheck) chain(rule, name string, t, table, hash, x, y *Term, m *Mem, pos token.Pos) bool {
	if t == nil || t.op != OIndex || t.args[0] != table {
		return false
	}
	i := t.args[1]
	n := get(m, hash, "numCells")
	if h.X == nil {
		h.X, h.Y, h.N = paramTerm("cell x", x.typ), paramTerm("cell y", y.typ), paramTerm("cells", n.typ)
	}
	inRange := i.op == OApp && i.name == "mod" && (i.args[1] == n || i.args[1] == TLen(table))
	h.ob(inRange, rule, name+" chain in range", pos, "the chain looked at is number %s", short(i))
	k := subst(i, map[*Term]*Term{x: h.X, y: h.Y, n: h.N, TLen(table): h.N})
	if h.cell == nil {
		h.cell = k
	}
	h.ob(k == h.cell, rule, name+" same chain", pos, "the chain of cell x, y is number %s here, and %s elsewhere", short(k), short(h.cell))
	return true
}

// chainOf: the chain of the cell in what happens in one iteration; locals holds
// the addresses of copies of its head.
func (h *hashCheck) chainOf(rule, name string, l *LoopInfo, hash, x, y *Term, pos token.Pos) *Term {
	table := get(l.Iter, hash, "table")
	var r *Term
	see := func(t *Term) {
		walkTerm(t, func(u *Term) {
			if u.op == OIndex && u.args[0] == table && r == nil && containsTerm(u, x) && containsTerm(u, y) {
				r = u
			}
		})
	}
	allEvents(l.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "loop" {
			for _, ph := range e.Loop.Phis {
				if ph.Init != nil {
					see(ph.Init)
				}
			}
		}
		if e.Kind == "store" {
			see(e.Loc)
			see(e.Val)
		}
	})
	if r == nil || !h.chain(rule, name, r, table, hash, x, y, l.Iter, pos) {
		h.fail(rule, name+" chain", pos, "no chain of the table is visited for the cell")
		panic(abortCheck{})
	}
	return r
}

// asks: the chains below are asked: f is called for what is in them, unless asked already.
func (h *hashCheck) asks(rule, name string, s *Summary, l *LoopInfo, chain, hash, obj, fn, data, self *Term, seg bool, f *BDD) (walked bool) {
	var walk, again *Event
	n := 0
	var asked *Event
	for _, e := range l.Events {
		if e.Kind != "loop" {
			if e.Kind == "user" && e.Callee == fn {
				h.fail(rule, name+" asks", e.Instr.Pos(), "it asks outside of the chain")
			}
			continue
		}
		has := func(evs []*Event) *Event {
			var r *Event
			for _, x := range evs {
				if x.Kind == "user" && x.Callee == fn {
					r = x
					n++
				}
			}
			return r
		}
		if x := has(e.Loop.Events); x != nil {
			walk, asked = e, x
			again = nil
			continue
		}
		for _, i := range e.Loop.Events {
			if i.Kind == "loop" {
				if x := has(i.Loop.Events); x != nil {
					again, walk, asked = e, i, x
				}
			}
		}
	}
	pos := s.Fn.Pos()
	if !h.ob(walk != nil && n == 1, rule, name+" asks", pos, "%d calls ask about what is in a chain", n) {
		panic(abortCheck{})
	}
	w := walk.Loop
	in0 := f
	// the walk: from the head of the chain, bin by bin
	var el, next *Term
	for _, ph := range w.Phis {
		if ph.Var == nil || ph.Back == nil || !isBin(ph.Var.typ) {
			continue
		}
		ok := false
		for _, at := range h.heads(l, chain, f) {
			ok = ok || proveEq(ph.Init, w.Entry.Load(at, ph.Var.typ), And(in0, walk.Guard))
		}
		if ok {
			el, next = ph.Var, ph.Back
		}
	}
	if !h.ob(el != nil, rule, name+" walk", walk.Instr.Pos(), "the walk does not start at the head of the chain") {
		panic(abortCheck{})
	}
	in := AndAll(in0, w.Assume, notNil(el))
	hand := get(w.Iter, el, "handle")
	other := get(w.Iter, hand, "obj")
	here := notNil(other)
	stamp := get(w.Iter, hand, "stamp")
	now := get(w.Iter, hash, "stamp")
	back := And(in, w.BackG)
	h.ob(proveEq(next, get(w.Iter, el, "next"), back), rule, name+" walk goes on", walk.Instr.Pos(), "the walk goes on at %s", short(next))
	for _, x := range w.Exits {
		g := And(in, x.Guard)
		h.ob(!sat(g) || again != nil && implies(g, Not(here)), rule, name+" whole chain", walk.Instr.Pos(), "the chain may be left early, when %s", shortB(x.Guard))
		if again != nil && sat(g) {
			for _, y := range again.Loop.Exits {
				h.ob(!sat(AndAll(in, x.Guard, again.Loop.Assume, y.Guard)), rule, name+" starts over", walk.Instr.Pos(), "what is behind a removed shape may not be asked about")
			}
		}
	}
	if again != nil {
		h.ob(implies(f, again.Guard) && implies(f, walk.Guard), rule, name+" every chain", walk.Instr.Pos(), "a chain is walked only when %s", shortB(again.Guard))
		h.purges(rule, name, again.Loop, l, chain, hash, f)
	} else {
		h.ob(implies(f, walk.Guard), rule, name+" every chain", walk.Instr.Pos(), "a chain is walked only when %s", shortB(walk.Guard))
	}
	// who is asked about
	want := And(here, Not(CondEq(stamp, now)))
	if !seg {
		same := CondEq(self, other)
		if _, ok := self.typ.Underlying().(*types.Interface); ok {
			same = CondEq(self, rawTerm(OIface, other.typ, typeName(other.typ), other))
		}
		want = And(want, Not(same))
	}
	h.ob(sameCond(asked.Guard, want, in), rule, name+" asks when", asked.Instr.Pos(), "it asks when %s", shortB(asked.Guard))
	g := And(in, asked.Guard)
	args := asked.Args
	ok := len(args) >= 3 && proveEq(unwrap(args[0]), unwrap(obj), g) && proveEq(args[1], other, g) && args[len(args)-1] == data
	h.ob(ok, rule, name+" asks about", asked.Instr.Pos(), "it asks about %s", shortAll(args))
	h.ob(proveEq(get(w.Back, hand, "stamp"), now, And(g, w.BackG)), rule, name+" once", asked.Instr.Pos(), "what was asked about gets the stamp %s", short(get(w.Back, hand, "stamp")))
	// nothing else is marked as asked
	for _, e := range w.Events {
		if e.Kind == "store" && locClass(e.Loc) == "Handle.stamp" {
			h.ob(!sat(AndAll(in, e.Guard, Not(asked.Guard))), rule, name+" marks", e.Instr.Pos(), "%s is marked as asked about, but it was not", short(e.Loc))
		}
	}
	if seg {
		h.shortens(rule, name, s, l, again, walk, asked, in)
	}
	return true
}

func unwrap(t *Term) *Term {
	if t != nil && t.op == OIface {
		return t.args[0]
	}
	return t
}

// heads: the chain itself and local copies of its head.
func (h *hashCheck) heads(l *LoopInfo, chain *Term, f *BDD) []*Term {
	r := []*Term{chain}
	for _, e := range l.Events {
		if e.Kind != "store" || rootOf(e.Loc).op != OAlloc {
			continue
		}
		if isBin(e.Val.typ) && proveEq(e.Val, l.Iter.Load(chain, e.Val.typ), And(f, e.Guard)) {
			r = append(r, e.Loc)
		}
	}
	allEvents(l.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "loop" {
			first := e.Loop
			if len(ls) > 0 {
				first = ls[0]
			}
			for _, ph := range e.Loop.Phis {
				if ph.Init == nil || !isBinAddr(ph.Init.typ) || ph.Init.op != OAlloc {
					continue
				}
				bt := ph.Init.typ.Underlying().(*types.Pointer).Elem()
				if proveEq(l.Iter.Load(chain, bt), first.Entry.Load(ph.Init, bt), f) {
					r = append(r, ph.Init)
				}
			}
		}
	})
	return r
}

// purges: bins of removed shapes leave the chain, others stay.
func (h *hashCheck) purges(rule, name string, r, l *LoopInfo, chain, hash *Term, f *BDD) {
	for _, e := range r.Events {
		if e.Kind == "store" && locClass(e.Loc) == "SpaceHashBin.next" {
			h.fail(rule, name+" removed shapes", e.Instr.Pos(), "%s changes outside of a walk", short(e.Loc))
		}
	}
	head := func(x *LoopInfo) *Term {
		var a *Term
		for _, ph := range x.Phis {
			if ph.Init != nil && isBinAddr(ph.Init.typ) {
				a = ph.Init
			}
			if ph.Init != nil && a == nil && isBin(ph.Init.typ) {
				for _, at := range h.heads(l, chain, f) {
					if ph.Init == x.Entry.Load(at, ph.Init.typ) {
						a = at
					}
				}
			}
		}
		return a
	}
	var evs []*Event
	for _, e := range r.Events {
		if e.Kind == "loop" && len(storesTo(e.Loop.Events, "SpaceHashBin.next"))+len(storesTo(e.Loop.Events, "SpaceHash.pooledBins")) > 0 {
			evs = append(evs, e)
		}
	}
	ws, why := h.binWalks(evs, head, f)
	if len(evs) == 0 {
		return // what is removed is not taken out here
	}
	if !h.ob(len(ws) == 1 && len(evs) == 1, rule, name+" removed shapes", evs[0].Instr.Pos(), "the walk that takes out removed shapes: %s", why) {
		return
	}
	w := ws[0]
	hd := head(w.L)
	ok := hd == chain
	for _, at := range h.heads(l, chain, f) {
		ok = ok || hd == at
	}
	h.ob(ok, rule, name+" removed shapes chain", w.E.Instr.Pos(), "it takes out bins of %s", short(hd))
	in := AndAll(f, w.L.Assume, notNil(w.El), w.L.BackG)
	obj := get(w.L.Iter, get(w.L.Iter, w.El, "handle"), "obj")
	stay, gone := And(in, notNil(obj)), And(in, Not(notNil(obj)))
	ok = false
	for _, k := range w.Links {
		ok = ok || w.keeps(k, stay) && w.drops(k, gone)
	}
	h.ob(ok, rule, name+" removed shapes leave", w.E.Instr.Pos(), "what was removed does not leave its chain, or what is there does")
	for _, x := range w.L.Exits {
		h.ob(!sat(AndAll(f, w.L.Assume, notNil(w.El), x.Guard)), rule, name+" all removed shapes", w.E.Instr.Pos(), "the walk ends early, when %s", shortB(x.Guard))
	}
	for _, e := range w.L.Events {
		if e.Kind == "store" {
			h.ob(!sat(AndAll(stay, e.Guard)), rule, name+" shapes stay", e.Instr.Pos(), "%s changes although the shape is there", short(e.Loc))
		}
	}
	h.recycles(rule, name+" removed shapes", w.L.Events, w.L.Iter, w.L.Back, hash, w.El, gone, w.E.Instr.Pos())
	h.lets(rule, name, w.L, hash, get(w.L.Iter, w.El, "handle"), gone)
}

// lets: a bin lets go of its handle, which goes back when nothing holds it any more.
func (h *hashCheck) lets(rule, name string, l *LoopInfo, hash, hand *Term, gone *BDD) {
	n := get(l.Iter, hand, "retains")
	got := get(l.Back, hand, "retains")
	h.ob(proveEq(got, TSub(n, TInt(1)), gone) || proveEq(got, n, gone), rule, name+" lets go", token.NoPos, "one bin fewer holds the handle, its count goes from %s to %s", short(n), short(got))
	h.putsBack(rule, name, l.Events, hash, hand, n, gone)
}

func (h *hashCheck) putsBack(rule, name string, evs []*Event, hash, hand, n *Term, gone *BDD) {
	for _, e := range eventsOf(evs, "ext", "sync.Pool.Put") {
		g := And(gone, e.Guard)
		if !sat(g) {
			continue
		}
		a := unwrap(e.Args[len(e.Args)-1])
		h.ob(proveEq(a, hand, g) && proveEq(n, TInt(1), g), rule, name+" goes back", e.Instr.Pos(), "%s goes back to the pool when %s bins and sets hold it", short(a), short(TSub(n, TInt(1))))
	}
}

// files: the handle of obj is put into the chain of every cell its box meets.
func (h *hashCheck) files(rule, name string, cs *cells, hash, hand *Term, query bool, f *BDD) {
	l := cs.In.Loop
	pos := cs.In.Instr.Pos()
	g := cs.G
	chain := h.chainOf(rule, name, l, hash, cs.X, cs.Y, pos)
	// is it in there already?
	found := bddFalse
	for _, e := range l.Events {
		if e.Kind != "loop" || e.Loop.Back == nil {
			continue
		}
		w := e.Loop
		for _, ph := range w.Phis {
			if ph.Var == nil || ph.Back == nil || !isBin(ph.Var.typ) || !proveEq(ph.Init, l.Iter.Load(chain, ph.Var.typ), And(cs.R, e.Guard)) {
				continue
			}
			plain := true
			for _, x := range w.Events {
				plain = plain && x.Kind != "user" && x.Kind != "store"
			}
			if !plain || !proveEq(ph.Back, get(w.Iter, ph.Var, "next"), AndAll(cs.R, w.Assume, w.BackG, notNil(ph.Var))) {
				continue
			}
			same := CondEq(get(w.Iter, ph.Var, "handle"), hand)
			ok := true
			for _, x := range w.Exits {
				y := AndAll(cs.R, w.Assume, x.Guard, notNil(ph.Var))
				ok = ok && (!sat(y) || implies(y, same))
			}
			if ok {
				found = Or(found, And(e.Guard, notNil(ph.Var)))
			}
		}
	}
	var puts []*BDD
	var put *Event
	for _, e := range l.Events {
		if e.Kind != "store" || e.Loc.op != OIndex || e.Loc.args[0] != get(l.Iter, hash, "table") {
			continue
		}
		h.ob(e.Loc == chain && put == nil, rule, name+" files", e.Instr.Pos(), "it is put into %s", short(e.Loc))
		put = e
		puts = append(puts, e.Guard)
	}
	if !h.ob(put != nil, rule, name+" files", pos, "it is put into no chain") {
		panic(abortCheck{})
	}
	h.ob(implies(And(g, Not(found)), put.Guard), rule, name+" files always", put.Instr.Pos(), "it is put into the chain of a cell only when %s", shortB(put.Guard))
	y := And(g, put.Guard)
	leaves(put.Val, bddTrue, func(lg *BDD, b *Term) {
		z := And(y, lg)
		if !sat(z) {
			return
		}
		h.ob(notNilUnder(b, z) || b.op == OAlloc || implies(z, notNil(b)), rule, name+" bin", put.Instr.Pos(), "the bin put there is %s", short(b))
		h.ob(proveEq(get(l.Back, b, "handle"), hand, z), rule, name+" bin handle", put.Instr.Pos(), "the new bin is for %s", short(get(l.Back, b, "handle")))
		got := get(l.Back, b, "next")
		ok := false
		for _, at := range h.heads(l, chain, g) {
			ok = ok || proveEq(got, put.Mem.Load(at, put.Val.typ), z)
		}
		h.ob(ok, rule, name+" bin next", put.Instr.Pos(), "the new bin is followed by %s", short(got))
		// it was unused
		if b.op == OAlloc {
			kept := false
			allEvents(l.Events, func(e *Event, ls []*LoopInfo) {
				if e.Kind == "store" && e.Val == b && e != put {
					kept = true
				}
			})
			h.ob(!kept, rule, name+" unused", put.Instr.Pos(), "the new bin is in the pool as well")
			return
		}
		popped := bddFalse
		for _, e := range l.Events {
			if e.Kind == "store" && locClass(e.Loc) == "SpaceHash.pooledBins" {
				leaves(e.Val, e.Guard, func(vg *BDD, v *Term) {
					if q := And(z, vg); sat(q) && proveEq(e.Mem.Load(e.Loc, b.typ), b, q) && proveEq(v, get(e.Mem, b, "next"), q) {
						popped = Or(popped, vg)
					}
				})
			}
		}
		h.ob(implies(z, popped), rule, name+" unused", put.Instr.Pos(), "%s is not taken out of the pool", short(b))
	})
	var held []*BDD
	for _, e := range l.Events {
		if e.Kind == "store" && e.Loc == addrOf(e.Mem, hand, "retains") {
			n := e.Mem.Load(e.Loc, e.Val.typ)
			h.ob(proveEq(e.Val, TAdd(n, TInt(1)), And(g, e.Guard)), rule, name+" held", e.Instr.Pos(), "one bin more holds the handle, its count goes from %s to %s", short(n), short(e.Val))
			held = append(held, e.Guard)
		}
	}
	h.onceWhen(rule, name+" held", put.Instr.Pos(), held, put.Guard, g)
	_ = f
}

func notNilUnder(b *Term, g *BDD) bool { return implies(g, notNil(b)) }

// stampGoesOn: the stamp is one more after, and stays during.
func (h *hashCheck) stampGoesOn(rule, name string, evs []*Event, before, after *Mem, hash *Term, f *BDD, pos token.Pos) {
	old, now := get(before, hash, "stamp"), get(after, hash, "stamp")
	h.ob(implies(f, CondLt(old, now, true)), rule, name+" stamp", pos, "the stamp goes from %s to %s", short(old), short(now))
	allEvents(evs, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "store" && locClass(e.Loc) == "SpaceHash.stamp" && len(ls) > 0 {
			h.fail(rule, name+" stamp stays", e.Instr.Pos(), "the stamp changes while chains are walked")
		}
	})
	// not before the walks
	first := 0
	for _, e := range evs {
		if e.Kind == "loop" {
			h.ob(proveEq(get(e.Loop.Entry, hash, "stamp"), old, And(f, e.Guard)) || first > 0, rule, name+" stamp last", e.Instr.Pos(), "the stamp is %s when the chains are walked", short(get(e.Loop.Entry, hash, "stamp")))
		}
	}
}

// made: the handle put into the set is for the shape, held by the set, not yet asked about.
func (h *hashCheck) made(rule, name string, e *Event, obj *Term, f *BDD) {
	if !h.ob(e.Sub != nil && e.Sub.Ret != nil, rule, name+" handle", e.Instr.Pos(), "what is put into the set is not known") {
		panic(abortCheck{})
	}
	r := e.Sub.Ret
	m := e.Sub.Mem
	p := obj
	if len(e.Sub.Params) > 0 {
		p = e.Sub.Params[0]
	}
	o := get(m, r, "obj")
	h.ob(proveEq(o, p, f) || proveEq(o, obj, f), rule, name+" handle shape", e.Instr.Pos(), "the new handle is for %s", short(o))
	n := get(m, r, "retains")
	h.ob(proveEq(n, TInt(1), f), rule, name+" handle held", e.Instr.Pos(), "the new handle is held %s times", short(n))
	st := get(m, r, "stamp")
	h.ob(proveEq(st, TInt(0), f), rule, name+" handle stamp", e.Instr.Pos(), "the new handle has the stamp %s", short(st))
}

// orphaned: the handle of a removed shape is empty, and held once less.
func (h *hashCheck) orphaned(rule, name string, s *Summary, hash, hand *Term, f *BDD) {
	pos := s.Fn.Pos()
	y := And(f, notNil(hand))
	empty := bddFalse
	for _, e := range s.Events {
		if e.Kind == "store" && e.Loc == addrOf(e.Mem, hand, "obj") {
			h.ob(!sat(And(y, e.Guard)) || proveEq(e.Val, TNilOf(e.Val.typ), And(y, e.Guard)), rule, name+" forgets", e.Instr.Pos(), "the handle taken out of the set is now for %s", short(e.Val))
			empty = Or(empty, e.Guard)
		}
	}
	h.ob(implies(y, empty), rule, name+" forgets always", pos, "the handle taken out of the set still is for its shape, but when %s", shortB(empty))
	var n *Term
	for _, e := range s.Events {
		if e.Kind == "store" && e.Loc == addrOf(e.Mem, hand, "retains") {
			h.ob(n == nil && proveEq(e.Val, TSub(e.Mem.Load(e.Loc, e.Val.typ), TInt(1)), And(y, e.Guard)), rule, name+" lets go", e.Instr.Pos(), "the count of the handle becomes %s", short(e.Val))
			n = e.Mem.Load(e.Loc, e.Val.typ)
		}
	}
	if n != nil {
		h.putsBack(rule, name, s.Events, hash, hand, n, y)
	} else {
		h.ob(len(eventsOf(s.Events, "ext", "sync.Pool.Put")) == 0, rule, name+" goes back", pos, "a handle goes back to the pool that was not let go of")
	}
}

// insertInto: HashSet.Insert of the shape's handle, and every cell of its box.
func (h *hashCheck) insertInto(rule, name string, s *Summary, hash, obj, id *Term, when, f *BDD) {
	pos := s.Fn.Pos()
	y := And(f, when)
	var ins []*BDD
	var hand, bb *Term
	for _, e := range s.Events {
		g := And(f, e.Guard)
		switch {
		case e.Kind == "call" && e.Name == "HashSet.Insert":
			ins = append(ins, e.Guard)
			hand = e.Result
			h.ob(e.Args[0] == get(s.Entry, hash, "handleSet") && e.Args[1] == id && e.Args[2] == obj, rule, name+" set", e.Instr.Pos(), "it is put into the set with %s", shortAll(e.Args[1:3]))
			h.made(rule, name, e, obj, g)
		case e.Kind == "user":
			h.ob(e.Callee == get(s.Entry, hash, "SpatialIndex.bbfunc") && len(e.Args) == 1 && e.Args[0] == obj, rule, name+" box", e.Instr.Pos(), "the box looked at is that of %s", shortAll(e.Args))
			bb = e.Result
		}
	}
	if !h.ob(hand != nil && bb != nil, rule, name, pos, "it is not put into the set, or its box is not looked at") {
		return
	}
	h.onceWhen(rule, name+" into the set", pos, ins, when, f)
	cs := h.cells(rule, name, s.Events, bb, get(s.Entry, hash, "celldim"), And(y, s.G), pos)
	h.files(rule, name, cs, hash, hand, false, y)
}

func checkC41(c *Ctx) {
	h := &hashCheck{Ctx: c}
	base := func(s *Summary) (*Term, *BDD) {
		hash := s.Params[0]
		return hash, AndAll(s.G, notNil(hash), notNil(get(s.Entry, hash, "SpatialIndex")))
	}
	rule := "filing"
	c.part("Insert", func() {
		s := c.hashSum("SpaceHash.Insert")
		hash, f := base(s)
		h.insertInto(rule, "SpaceHash.Insert", s, hash, s.Params[1], s.Params[2], bddTrue, And(f, notNil(s.Params[1])))
	})
	c.part("Remove", func() {
		s := c.hashSum("SpaceHash.Remove")
		hash, f := base(s)
		name := "SpaceHash.Remove"
		var hand *Term
		for _, e := range s.Events {
			if e.Kind == "call" && e.Name == "HashSet.Remove" {
				c.ob(hand == nil && implies(f, e.Guard) && e.Args[0] == get(s.Entry, hash, "handleSet") && e.Args[1] == s.Params[2] && e.Args[2] == s.Params[1], rule, name+" set", e.Instr.Pos(), "it takes out %s", shortAll(e.Args[1:]))
				hand = e.Result
			}
		}
		if c.ob(hand != nil, rule, name, s.Fn.Pos(), "nothing is taken out of the set") {
			h.orphaned(rule, name, s, hash, hand, f)
			c.storesNone(rule, name+" of what is not there", s, f, And(f, Not(notNil(hand))))
		}
	})
	c.part("ReindexObject", func() {
		s := c.hashSum("SpaceHash.ReindexObject")
		hash, f := base(s)
		name := "SpaceHash.ReindexObject"
		obj, id := s.Params[1], s.Params[2]
		f = And(f, notNil(obj))
		var hand *Term
		for _, e := range s.Events {
			if e.Kind == "call" && e.Name == "HashSet.Remove" {
				was := bddTrue // it may look whether it is there first
				for _, q := range eventsOf(s.Events, "call", "HashSet.Find") {
					if q.Seq < e.Seq && implies(f, q.Guard) && q.Args[0] == e.Args[0] && q.Args[1] == id && q.Args[2] == obj {
						was = notNil(q.Result)
						f = And(f, Or(And(was, notNil(e.Result)), And(Not(was), Not(notNil(e.Result)))))
					}
				}
				c.ob(hand == nil && implies(And(f, was), e.Guard) && e.Args[0] == get(s.Entry, hash, "handleSet") && e.Args[1] == id && e.Args[2] == obj, rule, name+" set", e.Instr.Pos(), "it takes out %s", shortAll(e.Args[1:]))
				hand = e.Result
			}
		}
		if c.ob(hand != nil, rule, name, s.Fn.Pos(), "nothing is taken out of the set") {
			h.orphaned(rule, name, s, hash, hand, f)
			h.insertInto(rule, name, s, hash, obj, id, notNil(hand), f)
			c.storesNone(rule, name+" of what is not there", s, f, And(f, Not(notNil(hand))))
		}
	})
	c.part("NewSpaceHash", func() {
		s := c.sum("NewSpaceHash", "hash", Config{NoEnter: true})
		f := typeFact(s)
		r := s.Ret
		cl := unwrap(get(s.Mem, r, "class"))
		name := "NewSpaceHash"
		c.ob(get(s.Mem, r, "bbfunc") == s.Params[2] && get(s.Mem, r, "staticIndex") == s.Params[3], rule, name, s.Fn.Pos(), "the box function and the static index are not those given")
		c.ob(proveEq(get(s.Mem, s.Params[3], "dynamicIndex"), r, And(f, notNil(s.Params[3]))), rule, name+" static", s.Fn.Pos(), "the static index does not know the dynamic one")
		c.ob(proveEq(get(s.Mem, cl, "SpatialIndex"), r, f) && proveEq(get(s.Mem, get(s.Mem, cl, "handleSet"), "entries"), TInt(0), f), rule, name+" empty", s.Fn.Pos(), "the new hash is not empty or belongs to another index")
		n := get(s.Mem, cl, "numCells")
		c.ob(proveEq(n, s.Params[1], f) && proveEq(TLen(get(s.Mem, cl, "table")), n, f), rule, name+" table", s.Fn.Pos(), "%s cells, %s chains", short(n), short(TLen(get(s.Mem, cl, "table"))))
		c.ob(proveEq(get(s.Mem, cl, "celldim"), s.Params[0], f), rule, name+" cell size", s.Fn.Pos(), "the size of a cell is %s", short(get(s.Mem, cl, "celldim")))
		c.ob(implies(f, CondLt(TInt(0), get(s.Mem, cl, "stamp"), true)), rule, name+" stamp", s.Fn.Pos(), "the first stamp is that of new handles")
	})
	c.atLeast(rule, 30)

	rule = "all"
	c.part("Each", func() {
		s := c.hashSum("SpaceHash.Each")
		hash, f := base(s)
		ok := false
		for _, e := range eventsOf(s.Events, "call", "HashSet.Each") {
			if e.Sub == nil || e.Args[0] != get(s.Entry, hash, "handleSet") || !implies(f, e.Guard) {
				continue
			}
			for _, x := range e.Sub.Events {
				if x.Kind == "user" && x.Callee == s.Params[1] {
					ok = !ok && implies(And(f, notNil(e.Sub.Params[0])), x.Guard) && len(x.Args) == 1 && x.Args[0] == get(x.Mem, e.Sub.Params[0], "obj")
				}
			}
		}
		c.ob(ok, rule, "SpaceHash.Each", s.Fn.Pos(), "f is not called once for every shape")
	})
	c.part("Count", func() {
		s := c.hashSum("SpaceHash.Count")
		hash, f := base(s)
		ok := false
		for _, e := range eventsOf(s.Events, "call", "HashSet.Count") {
			ok = e.Args[0] == get(s.Entry, hash, "handleSet") && proveEq(s.Ret, e.Result, f)
		}
		c.ob(ok, rule, "SpaceHash.Count", s.Fn.Pos(), "it returns %s", short(s.Ret))
	})
	c.part("Contains", func() {
		s := c.hashSum("SpaceHash.Contains")
		hash, f := base(s)
		ok := false
		for _, e := range eventsOf(s.Events, "call", "HashSet.Find") {
			ok = e.Args[0] == get(s.Entry, hash, "handleSet") && e.Args[1] == s.Params[2] && e.Args[2] == s.Params[1] && sameCond(toBDD(s.Ret), notNil(e.Result), f)
		}
		c.ob(ok, rule, "SpaceHash.Contains", s.Fn.Pos(), "it returns %s", short(s.Ret))
	})
	c.atLeast(rule, 3)

	rule = "asking"
	c.part("Query", func() {
		s := c.hashSum("SpaceHash.Query")
		hash, f := base(s)
		name := "SpaceHash.Query"
		obj, bb, fn, data := s.Params[1], s.Params[2], s.Params[3], s.Params[4]
		cs := h.cells(rule, name, s.Events, bb, get(s.Entry, hash, "celldim"), f, s.Fn.Pos())
		chain := h.chainOf(rule, name, cs.In.Loop, hash, cs.X, cs.Y, cs.In.Instr.Pos())
		h.asks(rule, name, s, cs.In.Loop, chain, hash, obj, fn, data, obj, false, cs.R)
		h.stampGoesOn(rule, name, s.Events, s.Entry, s.Mem, hash, f, s.Fn.Pos())
	})
	c.part("CollideStatic", func() {
		name := "SpatialIndex.CollideStatic"
		s := c.sum(name, "hash", Config{NoEnter: true})
		dyn, st, fn, data, pos := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Fn.Pos()
		f := AndAll(typeFact(s), notNil(dyn), notNil(st))
		want := bddTrue
		for _, e := range eventsOf(s.Events, "invoke", "Count") {
			if e.Recv == get(s.Entry, st, "class") {
				want = And(want, CondLt(TInt(0), e.Result, true))
			}
		}
		var gs []*BDD
		for _, e := range eventsOf(s.Events, "invoke", "Each") {
			if e.Recv != get(s.Entry, dyn, "class") || e.Sub == nil {
				continue
			}
			in := AndAll(f, e.Guard)
			var qs []*BDD
			for _, q := range eventsOf(e.Sub.Events, "invoke", "Query") {
				obj := e.Sub.Params[0]
				ok := q.Recv == get(s.Entry, st, "class") && unwrap(q.Args[0]) == obj && unwrap(q.Args[2]) == fn && q.Args[3] == data
				for _, b := range e.Sub.Events {
					if b.Kind == "user" && b.Callee == get(s.Entry, dyn, "bbfunc") {
						ok = ok && sameStruct(b.Result, q.Args[1], in) && b.Args[0] == obj
					}
				}
				c.ob(ok, rule, name+" asks", q.Instr.Pos(), "the static shapes are asked with %s", shortAll(q.Args))
				qs = append(qs, q.Guard)
			}
			c.onceWhen(rule, name+" asks about every shape", e.Instr.Pos(), qs, bddTrue, in)
			gs = append(gs, e.Guard)
		}
		c.onceWhen(rule, name+" visits the moving shapes", pos, gs, want, f)
	})
	c.part("ReindexQuery", func() {
		s := c.hashSum("SpaceHash.ReindexQuery")
		hash, f := base(s)
		name := "SpaceHash.ReindexQuery"
		fn, data, pos := s.Params[1], s.Params[2], s.Fn.Pos()
		// every chain is emptied first
		var each *Event
		for _, e := range eventsOf(s.Events, "call", "HashSet.Each") {
			if e.Args[0] == get(s.Entry, hash, "handleSet") && e.Sub != nil {
				c.ob(each == nil && implies(f, e.Guard), rule, name+" every shape", e.Instr.Pos(), "the shapes are visited only when %s", shortB(e.Guard))
				each = e
			}
		}
		if !c.ob(each != nil, rule, name+" every shape", pos, "the shapes are not visited") {
			return
		}
		n := 0
		why := "no loop"
		for _, e := range s.Events {
			if e.Kind != "loop" || e.Seq > each.Seq {
				continue
			}
			h.clears(rule, name, e, hash, f, &n, &why)
		}
		c.ob(n == 1, rule, name+" empties the table", pos, "the chains are not all emptied first: %s", why)
		hand := each.Sub.Params[0]
		in := AndAll(f, each.Guard, notNil(hand))
		var bb *Term
		for _, e := range each.Sub.Events {
			if e.Kind == "user" && e.Callee == get(s.Entry, hash, "SpatialIndex.bbfunc") {
				c.ob(len(e.Args) == 1 && e.Args[0] == get(each.Sub.Entry, hand, "obj") && implies(in, e.Guard), rule, name+" box", e.Instr.Pos(), "the box looked at is that of %s", shortAll(e.Args))
				bb = e.Result
			}
		}
		if !c.ob(bb != nil, rule, name+" box", pos, "the box of a shape is not looked at") {
			return
		}
		cs := h.cells(rule, name, each.Sub.Events, bb, get(each.Sub.Entry, hash, "celldim"), in, pos)
		h.files(rule, name, cs, hash, hand, true, in)
		chain := h.chainOf(rule, name, cs.In.Loop, hash, cs.X, cs.Y, cs.In.Instr.Pos())
		// who is in the chain already was asked about before: it is skipped then
		obj := get(each.Sub.Entry, hand, "obj")
		skip := bddFalse
		for _, e := range cs.In.Loop.Events {
			if e.Kind == "store" && e.Loc == chain {
				skip = Or(skip, e.Guard)
			}
		}
		h.asks(rule, name, s, cs.In.Loop, chain, hash, obj, fn, data, obj, false, And(cs.R, skip))
		h.stampGoesOn(rule, name, each.Sub.Events, each.Sub.Entry, each.Sub.Mem, hash, in, pos)
		var st []*BDD
		for _, e := range eventsOf(s.Events, "call", "SpatialIndex.CollideStatic") {
			st = append(st, e.Guard)
			ok := e.Args[0] == get(s.Entry, hash, "SpatialIndex") && proveEq(e.Args[1], get(s.Entry, hash, "SpatialIndex.staticIndex"), f) && e.Args[2] == fn && e.Args[3] == data
			c.ob(ok, rule, name+" static shapes", e.Instr.Pos(), "the static shapes are asked about with %s", shortAll(e.Args))
		}
		c.onceWhen(rule, name+" static shapes asked", pos, st, bddTrue, f)
	})
	c.atLeast(rule, 30)

	rule = "segments"
	c.part("SegmentQuery", func() { h.segment(rule) })
	c.atLeast(rule, 20)
}

// clears: a loop over the whole table empties every chain.
func (h *hashCheck) clears(rule, name string, e *Event, hash *Term, f *BDD, n *int, why *string) {
	l := e.Loop
	table := get(l.Iter, hash, "table")
	var at *Term
	var when *BDD = bddFalse
	for _, x := range l.Events {
		if x.Kind == "store" && x.Loc.op == OIndex && x.Loc.args[0] == table && proveEq(x.Val, TNilOf(x.Val.typ), And(f, x.Guard)) {
			at = x.Loc
			when = Or(when, x.Guard)
		}
	}
	if at == nil {
		return
	}
	g := And(f, l.Assume)
	msg := visitsIndexed(e, at.args[1], TLen(table), f)
	if m2 := visitsIndexed(e, at.args[1], get(l.Iter, hash, "numCells"), f); m2 == "" {
		msg = ""
	}
	if msg == "" && !implies(f, e.Guard) {
		msg = "only when " + shortB(e.Guard)
	}
	back := And(g, l.BackG)
	if msg == "" && !implies(back, when) {
		msg = "a chain is emptied only when " + shortB(when)
	}
	if msg != "" {
		*why = msg
		return
	}
	*n++
	// what was in it is let go of
	head := func(x *LoopInfo) *Term { return at }
	ws, m3 := h.binWalks(l.Events, head, back)
	if len(ws) == 0 { // it may have been emptied already
		for _, x := range l.Events {
			if x.Kind != "loop" || x.Loop.Back == nil {
				continue
			}
			for _, ph := range x.Loop.Phis {
				if ph.Var != nil && ph.Back != nil && isBin(ph.Var.typ) && proveEq(ph.Init, l.Iter.Load(at, ph.Var.typ), And(f, x.Guard)) &&
					proveEq(ph.Back, get(x.Loop.Iter, ph.Var, "next"), AndAll(f, x.Loop.Assume, x.Loop.BackG, notNil(ph.Var))) {
					ws = append(ws, &binWalk{E: x, L: x.Loop, El: ph.Var, Next: ph.Back})
					break
				}
			}
		}
	}
	if !h.ob(len(ws) <= 1 && m3 == "", rule, name+" emptied chain", e.Instr.Pos(), "the walk over an emptied chain: %s", m3) {
		return
	}
	loops := 0
	for _, x := range l.Events {
		if x.Kind == "loop" {
			loops++
		}
	}
	h.ob(loops == len(ws), rule, name+" emptied chain", e.Instr.Pos(), "the walk over an emptied chain does not start at its head")
	for _, w := range ws {
		in := AndAll(f, w.L.Assume, notNil(w.El), w.L.BackG)
		h.recycles(rule, name+" emptied chain", w.L.Events, w.L.Iter, w.L.Back, hash, w.El, in, w.E.Instr.Pos())
		h.lets(rule, name+" emptied chain", w.L, hash, get(w.L.Iter, w.El, "handle"), in)
	}
}

// segment: the cells the segment crosses, one after the other, until it ends.
func (h *hashCheck) segment(rule string) {
	name := "SpaceHash.SegmentQuery"
	s := h.hashSum(name)
	hash := s.Params[0]
	f := AndAll(s.G, notNil(hash), notNil(get(s.Entry, hash, "SpatialIndex")))
	obj, a, b, tExit, fn, data := s.Params[1], s.Params[2], s.Params[3], s.Params[4], s.Params[5], s.Params[6]
	pos := s.Fn.Pos()
	dim := get(s.Entry, hash, "celldim")
	f = And(f, CondLt(TNum(0), dim, false))
	var walk *Event
	for _, e := range s.Events {
		if e.Kind != "loop" {
			continue
		}
		has := false
		allEvents(e.Loop.Events, func(x *Event, ls []*LoopInfo) { has = has || x.Kind == "user" && x.Callee == fn })
		if has {
			h.ob(walk == nil, rule, name+" one walk", e.Instr.Pos(), "two loops ask about shapes")
			walk = e
		}
	}
	if !h.ob(walk != nil && walk.Loop.Back != nil && implies(f, walk.Guard), rule, name+" walk", pos, "no loop asks about shapes") {
		return
	}
	l := walk.Loop
	g := AndAll(f, l.Assume, l.BackG)
	axis := func(ax string) (A, B *Term) { return TDiv(fld(a, ax), dim), TDiv(fld(b, ax), dim) }
	phi := func(what string, typ func(*PhiInfo) bool, ok func(p *PhiInfo) bool) *PhiInfo {
		for _, p := range l.Phis {
			if p.Var != nil && p.Back != nil && p.Init != nil && typ(p) && ok(p) {
				return p
			}
		}
		h.fail(rule, name+" "+what, walk.Instr.Pos(), "%s of the walk is not what it should be", what)
		panic(abortCheck{})
	}
	num := func(p *PhiInfo) bool { return isNumType(p.Var.typ) }
	flt := func(p *PhiInfo) bool { return isFloat(p.Var.typ) }
	X, _ := axis("X")
	Y, _ := axis("Y")
	cx := phi("first cell x", num, func(p *PhiInfo) bool { return floorOf(p.Init, X, f) })
	cy := phi("first cell y", num, func(p *PhiInfo) bool { return floorOf(p.Init, Y, f) })
	// where it leaves a cell
	next := func(ax string) *PhiInfo {
		A, B := axis(ax)
		d := TSub(B, A)
		inf := TMaxF()
		fl := TApp("floor", tyFloat, A)
		right := CondLt(A, B, false)
		return phi("first crossing "+ax, flt, func(p *PhiInfo) bool {
			up := And(f, right)
			down := And(f, CondLt(B, A, false))
			still := AndAll(f, Not(right), Not(CondLt(B, A, false)))
			if !proveEq(p.Init, TDiv(TSub(TAdd(fl, TNum(1)), A), d), up) || !proveEq(p.Init, TDiv(TSub(A, fl), TScale(d, -1, 1)), down) {
				return false
			}
			ok := true
			leaves(p.Init, bddTrue, func(lg *BDD, v *Term) {
				if y := And(still, lg); sat(y) && !proveEq(v, inf, y) && (!containsTerm(v, inf) || !never(And(y, CondEq(TDiv(v, inf), TNum(0))))) {
					ok = false
				}
			})
			return ok
		})
	}
	nx, ny := next("X"), next("Y")
	if !h.ob(cx != cy && nx != ny, rule, name+" axes", pos, "the two axes are not told apart") {
		return
	}
	h.ob(true, rule, name+" starts", pos, "")
	// one step
	right := func(ax string) (*BDD, *BDD, *Term) {
		A, B := axis(ax)
		return CondLt(A, B, false), CondLt(B, A, false), TSub(B, A)
	}
	t := phi("time", flt, func(p *PhiInfo) bool {
		return p != nx && p != ny && proveEq(p.Init, TNum(0), f)
	})
	goX := Not(CondEq(cx.Back, cx.Var))
	stepX := CondLt(nx.Var, ny.Var, false)
	stepY := CondLt(ny.Var, nx.Var, false)
	for _, k := range []struct {
		ax     string
		c, o   *PhiInfo
		n, no  *PhiInfo
		before *BDD
	}{{"X", cx, cy, nx, ny, stepX}, {"Y", cy, cx, ny, nx, stepY}} {
		up, down, d := right(k.ax)
		y := And(g, k.before)
		h.ob(proveEq(k.c.Back, TAdd(k.c.Var, TInt(1)), And(y, up)) && proveEq(k.c.Back, TSub(k.c.Var, TInt(1)), And(y, down)), rule, name+" next cell "+k.ax, walk.Instr.Pos(), "the next cell is %s", short(k.c.Back))
		h.ob(proveEq(k.o.Back, k.o.Var, y), rule, name+" same row "+k.ax, walk.Instr.Pos(), "the other coordinate becomes %s", short(k.o.Back))
		h.ob(proveEq(t.Back, k.n.Var, y), rule, name+" time "+k.ax, walk.Instr.Pos(), "the time becomes %s", short(t.Back))
		h.ob(proveEq(k.n.Back, TAdd(k.n.Var, TInv(d)), And(y, up)) && proveEq(k.n.Back, TSub(k.n.Var, TInv(d)), And(y, down)), rule, name+" next crossing "+k.ax, walk.Instr.Pos(), "the next crossing is at %s", short(k.n.Back))
		h.ob(proveEq(k.no.Back, k.no.Var, y), rule, name+" other crossing "+k.ax, walk.Instr.Pos(), "the other crossing is at %s", short(k.no.Back))
	}
	// both crossings at once: one of the two steps, whole
	tie := AndAll(g, Not(stepX), Not(stepY))
	whole := func(c, o, n, no *PhiInfo, ax string) bool {
		up, down, d := right(ax)
		return proveEq(c.Back, TAdd(c.Var, TInt(1)), And(tie, up)) && proveEq(c.Back, TSub(c.Var, TInt(1)), And(tie, down)) && proveEq(o.Back, o.Var, tie) &&
			proveEq(n.Back, TAdd(n.Var, TInv(d)), And(tie, up)) && proveEq(n.Back, TSub(n.Var, TInv(d)), And(tie, down)) && proveEq(no.Back, no.Var, tie) && proveEq(t.Back, n.Var, tie)
	}
	_ = goX
	h.ob(whole(cx, cy, nx, ny, "X") || whole(cy, cx, ny, nx, "Y"), rule, name+" corner", walk.Instr.Pos(), "where it leaves a cell at a corner, no whole step is made")
	// until the end
	end := phi("end", flt, func(p *PhiInfo) bool { return p != t && p != nx && p != ny && proveEq(p.Init, tExit, f) })
	for _, x := range l.Exits {
		y := AndAll(f, l.Assume, x.Guard)
		h.ob(!sat(y) || implies(y, CondLe(end.Var, t.Var, false)), rule, name+" to the end", walk.Instr.Pos(), "the walk can end when %s", shortB(x.Guard))
	}
	chain := h.chainOf(rule, name, l, hash, cx.Var, cy.Var, walk.Instr.Pos())
	h.endOf = end
	h.asks(rule, name, s, l, chain, hash, obj, fn, data, obj, true, And(f, CondLt(t.Var, end.Var, false)))
	old, now := get(s.Entry, hash, "stamp"), get(s.Mem, hash, "stamp")
	h.ob(implies(And(f, s.Assume), CondLt(old, now, true)), rule, name+" stamp", pos, "the stamp goes from %s to %s", short(old), short(now))
	allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "store" && locClass(e.Loc) == "SpaceHash.stamp" && len(ls) > 0 {
			h.fail(rule, name+" stamp stays", e.Instr.Pos(), "the stamp changes while chains are walked")
		}
	})
}

// shortens: the end comes nearer at most to what an answer says.
func (h *hashCheck) shortens(rule, name string, s *Summary, l *LoopInfo, again, walk, asked *Event, in *BDD) {
	end := h.endOf
	w := walk.Loop
	// the smallest answer in the chain
	ok := func(ph *PhiInfo) bool { // a running minimum
		y := And(in, w.BackG)
		return proveLE(TMin(ph.Var, asked.Result), ph.Back, And(y, asked.Guard)) && proveLE(ph.Var, ph.Back, And(y, Not(asked.Guard)))
	}
	n := 0
	for _, ph := range w.Phis {
		if ph.Var == nil || ph.Back == nil || !isFloat(ph.Var.typ) || ph.Invariant {
			continue
		}
		n++
		h.ob(ok(ph), rule, name+" answers", walk.Instr.Pos(), "the smallest answer so far becomes %s", short(ph.Back))
		start := ph.Init
		if again != nil {
			for _, p := range again.Loop.Phis {
				if p.Var == ph.Init && p.Back != nil {
					h.ob(p.Back == ph.Var || proveLE(ph.Var, p.Back, And(again.Loop.Assume, again.Loop.BackG)), rule, name+" answers kept", again.Instr.Pos(), "the smallest answer so far becomes %s", short(p.Back))
					start = p.Init
				}
			}
		}
		g := And(l.Assume, l.BackG)
		h.ob(start == end.Var || proveLE(TNum(1), start, g) || proveLE(TMin(TNum(1), end.Var), start, g), rule, name+" answers start", walk.Instr.Pos(), "the smallest answer is %s at first", short(start))
		b := end.Back
		h.ob(proveLE(TMin(end.Var, ph.Var), b, And(g, walk.Guard)) || b == ph.Var, rule, name+" end", walk.Instr.Pos(), "the end becomes %s", short(b))
	}
	h.ob(n <= 1, rule, name+" answers", walk.Instr.Pos(), "%d numbers are kept", n)
	if n == 0 {
		h.ob(proveEq(end.Back, end.Var, And(l.Assume, l.BackG)), rule, name+" end", walk.Instr.Pos(), "the end becomes %s", short(end.Back))
	}
}

func init() {
	register(&Check{ID: "C41", Run: checkC41,
		Assume:      []string{"access paths that differ mean objects that differ", "what a user callback does to the index while it is walked is looked at by C05 only", "sets of handles hold what was put in (C40)"},
		Explanation: "guarded value summaries of the spatial hash: cells of a box, filing and removing along the bucket chains, what queries and segments visit"})
}
