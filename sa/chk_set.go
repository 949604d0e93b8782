package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C40: hash sets hold what was put in and not taken out, each once.

// binWalk: a loop that walks a chain of bins.
type binWalk struct {
	E    *Event
	L    *LoopInfo
	El   *Term // the bin at the start of an iteration
	Next *Term // the one of the next iteration
	// where the current bin is linked from: a phi, its start, how it goes on
	Links []binLink
}

type binLink struct {
	At   *Term // the address that holds the current bin
	Ph   *PhiInfo
	Kind string // address, bin before
}

func isBin(t types.Type) bool {
	n := typeBaseOf(t)
	return strings.HasPrefix(n, "HashSetBin") || n == "SpaceHashBin"
}

func isBinAddr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBin(p.Elem())
}

// binWalks: the loops of one level that walk a chain from its head on.
func (c *Ctx) binWalks(evs []*Event, head func(l *LoopInfo) *Term, f *BDD) (out []*binWalk, why string) {
	for _, e := range evs {
		if e.Kind != "loop" || e.Loop.Back == nil {
			continue
		}
		l := e.Loop
		h := head(l)
		if h == nil {
			continue
		}
		entry := And(e.Guard, f)
		iter := AndAll(l.Assume, l.BackG, f)
		var w *binWalk
		for _, ph := range l.Phis {
			if ph.Var == nil || ph.Back == nil {
				continue
			}
			if isBin(ph.Var.typ) && proveEq(ph.Init, l.Entry.Load(h, ph.Var.typ), entry) && w == nil {
				w = &binWalk{E: e, L: l, El: ph.Var, Next: ph.Back}
			}
		}
		if w == nil {
			for _, ph := range l.Phis {
				if ph.Var != nil && ph.Back != nil && isBinAddr(ph.Var.typ) && ph.Init == h {
					bt := ph.Var.typ.Underlying().(*types.Pointer).Elem()
					w = &binWalk{E: e, L: l, El: l.Iter.Load(ph.Var, bt), Next: l.Back.Load(ph.Back, bt)}
				}
			}
		}
		if w == nil {
			continue
		}
		for _, ph := range l.Phis {
			if ph.Var == nil || ph.Back == nil || ph.Var == w.El {
				continue
			}
			if isBinAddr(ph.Var.typ) && ph.Init == h {
				w.Links = append(w.Links, binLink{ph.Var, ph, "address"})
			}
			if isBin(ph.Var.typ) && proveEq(ph.Init, TNilOf(ph.Var.typ), entry) {
				w.Links = append(w.Links, binLink{TIte(notNil(ph.Var), addrOf(l.Iter, ph.Var, "next"), h), ph, "bin before"})
			}
		}
		if n := get(l.Iter, w.El, "next"); !proveEq(w.Next, n, And(iter, notNil(w.El))) {
			why = "the walk goes on at " + short(w.Next)
			continue
		}
		out = append(out, w)
	}
	return
}

// keeps: if the walk goes on from a bin that stays (leaves) when g, the link is where the next one hangs.
func (w *binWalk) keeps(k binLink, g *BDD) bool {
	if k.Kind == "address" {
		return proveEq(k.Ph.Back, addrOf(w.L.Iter, w.El, "next"), g)
	}
	return proveEq(k.Ph.Back, w.El, g)
}

func (w *binWalk) drops(k binLink, g *BDD) bool {
	return proveEq(k.Ph.Back, k.Ph.Var, g) && proveEq(w.L.Back.Load(k.At, w.El.typ), get(w.L.Iter, w.El, "next"), g)
}

// bucket: the address of the chain for this hash.
func bucket(m *Mem, set, hash *Term) func(t *Term) bool {
	return func(t *Term) bool {
		if t == nil || t.op != OIndex || t.args[0] != get(m, set, "table") {
			return false
		}
		i := t.args[1]
		return i.op == OApp && i.name == "mod" && i.args[0] == hash && (i.args[1] == get(m, set, "size") || i.args[1] == TLen(get(m, set, "table")))
	}
}

// bucketOf: the chain for the hash, found in the loops of one level.
func bucketOf(m *Mem, set, hash *Term) func(l *LoopInfo) *Term {
	is := bucket(m, set, hash)
	return func(l *LoopInfo) *Term {
		var r *Term
		for _, ph := range l.Phis {
			if ph.Init == nil {
				continue
			}
			walkTerm(ph.Init, func(x *Term) {
				if is(x) {
					r = x
				}
			})
		}
		return r
	}
}

// search: the loop that looks for ptr; found is the condition after it.
func (c *Ctx) search(rule, name string, s *Summary, set, hash, ptr *Term, f *BDD) (*binWalk, *BDD) {
	pos := s.Fn.Pos()
	ws, why := c.binWalks(s.Events, bucketOf(s.Entry, set, hash), f)
	if !c.ob(len(ws) == 1, rule, name+" search", pos, "%d loops search the chain of the hash (%s)", len(ws), why) {
		panic(abortCheck{})
	}
	w := ws[0]
	c.ob(implies(f, w.E.Guard), rule, name+" always searches", w.E.Instr.Pos(), "it searches only when %s", shortB(w.E.Guard))
	// equal: what the set's own comparison says about ptr and the element
	eq := bddFalse
	for _, e := range w.L.Events {
		if e.Kind == "user" && e.Callee == get(e.Mem, set, "isEqual") && len(e.Args) == 2 {
			c.ob(e.Args[0] == ptr && proveEq(e.Args[1], get(w.L.Iter, w.El, "elt"), AndAll(f, w.L.Assume, e.Guard)), rule, name+" compares", e.Instr.Pos(), "it compares %s and %s", short(e.Args[0]), short(e.Args[1]))
			eq = Or(eq, And(e.Guard, toBDD(e.Result)))
		} else if e.Kind == "user" || e.Kind == "call" || e.Kind == "store" {
			c.fail(rule, name+" search does something", e.Instr.Pos(), "%s %s while searching", e.Kind, e.Name)
		}
	}
	iter := And(f, w.L.Assume)
	here := notNil(w.El)
	for _, x := range w.L.Exits {
		g := And(iter, x.Guard)
		c.ob(!sat(g) || implies(And(g, here), eq), rule, name+" stops at", w.E.Instr.Pos(), "the search can end early, when %s", shortB(x.Guard))
	}
	c.ob(!sat(AndAll(iter, w.L.BackG, eq)), rule, name+" stops", w.E.Instr.Pos(), "the search goes on past what it looks for")
	return w, here
}

func checkC40(c *Ctx) {
	cfg := Config{NoEnter: true, KeepUser: keepAll, Opaque: opaqueSet("nextPrime")}
	rule := "find"
	c.part("Find", func() {
		s := c.sum("HashSet.Find", "set", cfg)
		set, hash, ptr := s.Params[0], s.Params[1], s.Params[2]
		f := And(typeFact(s), notNil(set))
		w, found := c.search(rule, "HashSet.Find", s, set, hash, ptr, AndAll(s.G, notNil(set)))
		c.ob(proveEq(s.Ret, get(s.Entry, w.El, "elt"), And(f, found)), rule, "HashSet.Find found", s.Fn.Pos(), "it returns %s", short(s.Ret))
		c.ob(proveEq(s.Ret, TNilOf(s.Ret.typ), And(f, Not(found))), rule, "HashSet.Find missing", s.Fn.Pos(), "it returns %s for what is not there", short(s.Ret))
		c.onlyTouches(rule, "HashSet.Find", s, f, "HashSet HashSetBin HashSetBin[U]", "")
		c.storesNone(rule, "HashSet.Find", s, f, f)
	})
	c.part("Count", func() {
		s := c.sum("HashSet.Count", "set", cfg)
		c.ob(proveEq(s.Ret, get(s.Entry, s.Params[0], "entries"), typeFact(s)), rule, "HashSet.Count", s.Fn.Pos(), "it returns %s", short(s.Ret))
	})
	c.atLeast(rule, 9)

	rule = "remove"
	c.part("Remove", func() {
		s := c.sum("HashSet.Remove", "set", cfg)
		set, hash, ptr, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
		g := AndAll(s.G, notNil(set))
		f := And(typeFact(s), notNil(set))
		w, found := c.search(rule, "HashSet.Remove", s, set, hash, ptr, g)
		ok := len(w.Links) > 0
		why := "it does not know what links to it"
		for _, k := range w.Links {
			iter := AndAll(g, w.L.Assume, w.L.BackG)
			ok = w.keeps(k, iter) || k.Ph.Back == k.Ph.Var && false
			if !ok {
				why = "the link is lost on the way"
				continue
			}
			got := s.Mem.Load(k.At, w.El.typ)
			if ok = proveEq(got, get(s.Entry, w.El, "next"), And(f, found)); ok {
				break
			}
			why = "the link becomes " + short(got)
		}
		c.ob(ok, rule, "HashSet.Remove unlinks", pos, "the bin is not taken out of its chain: %s", why)
		n := get(s.Entry, set, "entries")
		c.ob(proveEq(get(s.Mem, set, "entries"), TSub(n, TInt(1)), And(f, found)), rule, "HashSet.Remove count", pos, "the number of entries becomes %s", short(get(s.Mem, set, "entries")))
		c.ob(proveEq(s.Ret, get(s.Entry, w.El, "elt"), And(f, found)), rule, "HashSet.Remove found", pos, "it returns %s", short(s.Ret))
		c.ob(proveEq(s.Ret, TNilOf(s.Ret.typ), And(f, Not(found))), rule, "HashSet.Remove missing", pos, "it returns %s for what is not there", short(s.Ret))
		c.recycles(rule, "HashSet.Remove", s.Events, s.Entry, s.Mem, set, w.El, And(f, found), pos)
		c.storesNone(rule, "HashSet.Remove", s, f, And(f, Not(found)))
		c.onlyTouches(rule, "HashSet.Remove", s, f, "HashSet", "HashSet.entries HashSet.pooledBins")
	})
	c.atLeast(rule, 11)

	rule = "insert"
	c.part("Insert", func() {
		s := c.sum("HashSet.Insert", "set", cfg)
		set, hash, ptr, tr, pos := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Fn.Pos()
		g := AndAll(s.G, notNil(set))
		f := And(g, s.Assume)
		w, found := c.search(rule, "HashSet.Insert", s, set, hash, ptr, g)
		c.ob(proveEq(s.Ret, get(s.Entry, w.El, "elt"), And(f, found)), rule, "HashSet.Insert found", pos, "it returns %s", short(s.Ret))
		c.storesNone(rule, "HashSet.Insert", s, f, And(f, found))
		// what is not there is made, once
		ms := bddFalse
		var made *Term
		for _, e := range s.Events {
			if e.Kind == "user" && e.Callee == tr {
				c.ob(len(e.Args) == 1 && e.Args[0] == ptr && made == nil, rule, "HashSet.Insert makes", e.Instr.Pos(), "an element is made from %v", e.Args)
				made, ms = e.Result, Or(ms, e.Guard)
			}
		}
		new := And(f, Not(found))
		if !c.ob(made != nil && sameCond(ms, Not(found), f), rule, "HashSet.Insert makes when missing", pos, "an element is made when %s", shortB(ms)) {
			return
		}
		c.ob(proveEq(s.Ret, made, new), rule, "HashSet.Insert result", pos, "it returns %s", short(s.Ret))
		is := bucket(s.Entry, set, hash)
		// linked at the head of the chain
		var link *Event
		for _, e := range s.Events {
			if e.Kind == "store" && is(e.Loc) {
				c.ob(link == nil, rule, "HashSet.Insert links once", e.Instr.Pos(), "it is linked twice")
				link = e
			}
		}
		if !c.ob(link != nil && sameCond(link.Guard, Not(found), f), rule, "HashSet.Insert links", pos, "the bin is not put into the chain of its hash") {
			return
		}
		bin := link.Val
		// what the bin holds, before the table may grow
		grown := bddFalse
		for _, e := range s.Events {
			if e.Kind == "store" && e.Loc == addrOf(s.Entry, set, "table") {
				grown = Or(grown, e.Guard)
				c.ob(link.Seq < e.Seq, rule, "HashSet.Insert links first", e.Instr.Pos(), "the table is replaced before the bin is linked into it")
			}
		}
		still := And(new, Not(grown))
		for _, x := range []struct {
			p string
			w *Term
		}{{"hash", hash}, {"elt", made}, {"next", s.Entry.Load(link.Loc, bin.typ)}} {
			leaves(bin, bddTrue, func(lg *BDD, b *Term) {
				y := And(still, lg)
				if !sat(y) {
					return
				}
				c.ob(proveEq(get(s.Mem, b, x.p), x.w, y), rule, "HashSet.Insert bin "+x.p, link.Instr.Pos(), "%s of the new bin is %s", x.p, short(get(s.Mem, b, x.p)))
			})
			for _, e := range s.Events { // set before the table grows
				if e.Kind == "store" && strings.HasSuffix(locClass(e.Loc), "."+x.p) && ownerOfLoc(e.Loc, locClass(e.Loc)) != nil && sat(And(grown, e.Guard)) {
					for _, t := range s.Events {
						if t.Kind == "store" && t.Loc == addrOf(s.Entry, set, "table") {
							c.ob(e.Seq < t.Seq, rule, "HashSet.Insert bin in time "+x.p, e.Instr.Pos(), "%s of the new bin is set after the table was replaced", x.p)
						}
					}
				}
			}
		}
		// an unused bin: fresh, or taken out of the pool
		leaves(bin, bddTrue, func(lg *BDD, b *Term) {
			y := And(new, lg)
			if !sat(y) || b.op == OAlloc {
				if b.op == OAlloc {
					kept := false
					for _, e := range s.Events {
						if e.Kind == "store" && e.Val == b && e != link {
							kept = true
						}
					}
					c.ob(!kept, rule, "HashSet.Insert fresh bin", pos, "the new bin is in the pool as well")
				}
				return
			}
			popped := bddFalse
			for _, e := range s.Events {
				if e.Kind == "store" && e.Loc == addrOf(e.Mem, set, "pooledBins") {
					leaves(e.Val, e.Guard, func(vg *BDD, v *Term) {
						if z := And(y, vg); sat(z) && proveEq(get(e.Mem, set, "pooledBins"), b, z) && proveEq(v, get(e.Mem, b, "next"), z) {
							popped = Or(popped, vg)
						}
					})
				}
			}
			c.ob(implies(y, popped), rule, "HashSet.Insert unused bin", pos, "the bin %s is not taken out of the pool", short(b))
		})
		n := get(s.Entry, set, "entries")
		c.ob(proveEq(get(s.Mem, set, "entries"), TAdd(n, TInt(1)), new), rule, "HashSet.Insert count", pos, "the number of entries becomes %s", short(get(s.Mem, set, "entries")))
		c.onlyTouches(rule, "HashSet.Insert", s, f, "HashSet", "HashSet.entries HashSet.pooledBins HashSet.table HashSet.size")
		if sat(And(f, grown)) {
			c.rehash(s, set, And(f, grown))
		}
	})
	c.atLeast(rule, 20)

	rule = "visit"
	c.part("Each", func() {
		// next is read before f, which may take the element out
		s := c.sum("HashSet.Each", "set2", Config{NoEnter: true})
		set := s.Params[0]
		s2 := c.sum("HashSet.Each", "set", cfg)
		for i, s := range []*Summary{s, s2} {
			g := And(s.G, notNil(set))
			c.chains(rule, "HashSet.Each", s, set, i == 1, g, func(w *binWalk, in *BDD) {
				n := bddFalse
				for _, e := range w.L.Events {
					if e.Kind == "user" {
						x := And(in, e.Guard)
						c.ob(e.Callee == s.Params[1] && proveEq(e.Args[0], get(w.L.Iter, w.El, "elt"), x) && !sat(And(x, n)), rule, "HashSet.Each calls", e.Instr.Pos(), "it calls %s with %s", short(e.Callee), short(e.Args[0]))
						n = Or(n, e.Guard)
					}
				}
				c.ob(implies(And(in, w.L.BackG), n), rule, "HashSet.Each every element", w.E.Instr.Pos(), "it is called only when %s", shortB(n))
			})
		}
		c.storesNone(rule, "HashSet.Each", s2, s2.G, s2.G)
	})
	c.part("Filter", func() {
		s := c.sum("HashSet.Filter", "set", cfg)
		set := s.Params[0]
		g := And(s.G, notNil(set))
		c.chains(rule, "HashSet.Filter", s, set, true, g, func(w *binWalk, in *BDD) {
			keep, n := bddFalse, bddFalse
			for _, e := range w.L.Events {
				if e.Kind == "user" {
					x := And(in, e.Guard)
					c.ob(e.Callee == s.Params[1] && proveEq(e.Args[0], get(w.L.Iter, w.El, "elt"), x) && !sat(And(x, n)), rule, "HashSet.Filter calls", e.Instr.Pos(), "it calls %s with %s", short(e.Callee), short(e.Args[0]))
					n = Or(n, e.Guard)
					keep = Or(keep, And(e.Guard, toBDD(e.Result)))
				}
			}
			back := And(in, w.L.BackG)
			c.ob(implies(back, n), rule, "HashSet.Filter every element", w.E.Instr.Pos(), "it is called only when %s", shortB(n))
			stay, go_ := And(back, keep), And(back, Not(keep))
			ok := false
			for _, k := range w.Links {
				ok = ok || w.keeps(k, stay) && w.drops(k, go_)
			}
			c.ob(ok, rule, "HashSet.Filter unlinks", w.E.Instr.Pos(), "what is rejected does not leave its chain, or what is kept does")
			cnt := get(w.L.Iter, set, "entries")
			c.ob(proveEq(get(w.L.Back, set, "entries"), TSub(cnt, TInt(1)), go_) && proveEq(get(w.L.Back, set, "entries"), cnt, stay), rule, "HashSet.Filter count", w.E.Instr.Pos(), "the number of entries becomes %s", short(get(w.L.Back, set, "entries")))
			c.recycles(rule, "HashSet.Filter", w.L.Events, w.L.Iter, w.L.Back, set, w.El, go_, w.E.Instr.Pos())
			for _, e := range w.L.Events {
				if e.Kind == "store" {
					c.ob(!sat(AndAll(stay, e.Guard)), rule, "HashSet.Filter stays", e.Instr.Pos(), "%s changes although the element stays", short(e.Loc))
				}
			}
		})
		c.onlyTouches(rule, "HashSet.Filter", s, g, "HashSet", "HashSet.entries HashSet.pooledBins")
	})
	c.part("NewHashSet", func() {
		s := c.sum("NewHashSet", "set", cfg)
		f := typeFact(s)
		n := get(s.Mem, s.Ret, "size")
		c.ob(proveEq(TLen(get(s.Mem, s.Ret, "table")), n, f), rule, "NewHashSet table", s.Fn.Pos(), "the table has %s chains", short(TLen(get(s.Mem, s.Ret, "table"))))
		c.ob(proveEq(get(s.Mem, s.Ret, "entries"), TInt(0), f) && get(s.Mem, s.Ret, "isEqual") == s.Params[0], rule, "NewHashSet", s.Fn.Pos(), "the new set has %s entries", short(get(s.Mem, s.Ret, "entries")))
	})
	c.atLeast(rule, 16)
}

// storesNone: nothing that existed before is written under g.
func (c *Ctx) storesNone(rule, name string, s *Summary, f, g *BDD) {
	for _, e := range s.Events {
		if e.Kind == "store" && rootOf(e.Loc).op != OAlloc {
			c.ob(!sat(And(g, e.Guard)), rule, name+" writes", e.Instr.Pos(), "%s is written", short(e.Loc))
		}
		if e.Kind == "loop" && sat(And(g, e.Guard)) {
			allEvents(e.Loop.Events, func(x *Event, ls []*LoopInfo) {
				if x.Kind == "store" && rootOf(x.Loc).op != OAlloc {
					c.fail(rule, name+" writes", x.Instr.Pos(), "%s is written", short(x.Loc))
				}
			})
		}
	}
	c.ob(true, rule, name+" writes nothing", s.Fn.Pos(), "")
}

// recycles: if the bin goes to the pool, it goes to its head, and holds nothing any more.
func (c *Ctx) recycles(rule, name string, evs []*Event, before, after *Mem, set, bin *Term, f *BDD, pos token.Pos) {
	old := get(before, set, "pooledBins")
	leaves(get(after, set, "pooledBins"), bddTrue, func(g *BDD, v *Term) {
		x := And(f, g)
		if !sat(x) || proveEq(v, old, x) {
			return
		}
		c.ob(proveEq(v, bin, x) && proveEq(get(after, bin, "next"), old, x), rule, name+" pool", pos, "the pool becomes %s, followed by %s", short(v), short(get(after, bin, "next")))
	})
}

// chains: a loop over the table, and in it one along each chain.
func (c *Ctx) chains(rule, name string, s *Summary, set *Term, whole bool, f *BDD, inner func(w *binWalk, in *BDD)) {
	table := get(s.Entry, set, "table")
	n := 0
	why := "no loop"
	for _, e := range s.Events {
		if e.Kind != "loop" || !sat(And(f, e.Guard)) {
			continue
		}
		head := func(l *LoopInfo) *Term {
			var h *Term
			for _, ph := range l.Phis {
				if ph.Init == nil || !isBin(ph.Init.typ) && !isBinAddr(ph.Init.typ) {
					continue
				}
				walkTerm(ph.Init, func(x *Term) {
					if x.op == OIndex && isBin(x.typ) && h == nil {
						h = x
					}
				})
			}
			return h
		}
		ws, msg := c.binWalks(e.Loop.Events, head, And(f, e.Loop.Assume))
		if len(ws) != 1 {
			if msg != "" {
				why = msg
			}
			continue
		}
		w := ws[0]
		h := head(w.L)
		ls := h.args[0]
		ok := !whole || ls == table || proveEq(ls, get(e.Loop.Iter, set, "table"), And(f, e.Loop.Assume))
		if !ok {
			why = "the chains are those of " + short(ls)
			continue
		}
		if whole {
			msg = visitsIndexed(e, h.args[1], TLen(ls), f)
			if m2 := visitsIndexed(e, h.args[1], get(s.Entry, set, "size"), f); m2 == "" {
				msg = ""
			}
			if msg != "" {
				why = msg
				continue
			}
		}
		in := AndAll(f, e.Loop.Assume, w.L.Assume, notNil(w.El))
		c.ob(implies(AndAll(f, e.Loop.Assume, e.Loop.BackG), w.E.Guard), rule, name+" every chain", w.E.Instr.Pos(), "a chain is visited only when %s", shortB(w.E.Guard))
		for _, x := range w.L.Exits {
			c.ob(!sat(And(in, x.Guard)), rule, name+" whole chain", w.E.Instr.Pos(), "a chain may be left early, when %s", shortB(x.Guard))
		}
		c.ob(implies(f, e.Guard), rule, name+" always", e.Instr.Pos(), "only when %s", shortB(e.Guard))
		inner(w, in)
		n++
	}
	c.ob(n == 1, rule, name+" chains", s.Fn.Pos(), "not every chain is visited once: %s", why)
}

// rehash: growing moves every bin into the chain for its hash in the new table.
func (c *Ctx) rehash(s *Summary, set *Term, f *BDD) {
	rule, name := "insert", "HashSet growth"
	pos := s.Fn.Pos()
	var nt *Term
	for _, e := range s.Events {
		if e.Kind == "store" && e.Loc == addrOf(s.Entry, set, "table") {
			c.ob(nt == nil, rule, name+" once", e.Instr.Pos(), "the table is replaced twice")
			nt = e.Val
		}
	}
	c.ob(proveEq(get(s.Mem, set, "table"), nt, f) && proveEq(TLen(nt), get(s.Mem, set, "size"), f), rule, name+" size", pos, "the new table has %s chains, the size becomes %s", short(TLen(nt)), short(get(s.Mem, set, "size")))
	n := 0
	c.chains(rule, name, s, set, true, f, func(w *binWalk, in *BDD) {
		n++
		back := And(in, w.L.BackG)
		hash := get(w.L.Iter, w.El, "hash")
		var at *Term
		for _, e := range w.L.Events {
			if e.Kind != "store" || e.Loc.op != OIndex {
				continue
			}
			i := e.Loc.args[1]
			ok := e.Loc.args[0] == nt && i.op == OApp && i.name == "mod" && proveEq(i.args[0], hash, back) && (proveEq(i.args[1], TLen(nt), f) || proveEq(i.args[1], get(s.Mem, set, "size"), f))
			c.ob(ok && implies(back, e.Guard) && proveEq(e.Val, w.El, back), rule, name+" chain", e.Instr.Pos(), "%s becomes %s", short(e.Loc), short(e.Val))
			at = e.Loc
			// on top of what is there already
			c.ob(proveEq(get(w.L.Back, w.El, "next"), e.Mem.Load(e.Loc, w.El.typ), back), rule, name+" next", e.Instr.Pos(), "the bin is followed by %s", short(get(w.L.Back, w.El, "next")))
		}
		c.ob(at != nil, rule, name+" moves", w.E.Instr.Pos(), "the bins are not moved")
	})
	c.ob(n == 1, rule, name+" bins", pos, "the bins are moved %d times", n)
}

func init() {
	register(&Check{ID: "C40", Run: checkC40, Explanation: "hash sets"})
	_ = ssa.NaiveForm
}
