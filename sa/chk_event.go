package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: which collision callbacks are called, when, and with what effect.
// C17: the orientation collisions are reported in.

func typeFact(s *Summary) *BDD { return And(s.G, s.Assume) }

// underlying object of an interface parameter asserted to be *T
func asType(s *Summary, i int, events []*Event) *Term {
	for _, e := range events {
		if e.Kind == "assert" && len(e.Args) > 1 && e.Args[0] == s.Params[i] {
			return e.Args[1]
		}
	}
	return nil
}

func eventsOf(evs []*Event, kind, name string) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.Kind == kind && e.Name == name {
			r = append(r, e)
		}
	}
	return r
}

func storesTo(evs []*Event, class string) []*Event {
	var r []*Event
	allEvents(evs, func(e *Event, ls []*LoopInfo) {
		if e.Kind == "store" && locClass(e.Loc) == class {
			r = append(r, e)
		}
	})
	return r
}

func orGuards(evs []*Event) *BDD {
	r := bddFalse
	for _, e := range evs {
		r = Or(r, e.Guard)
	}
	return r
}

func sameCond(a, b, under *BDD) bool {
	return !sat(AndAll(under, a, Not(b))) && !sat(AndAll(under, b, Not(a)))
}

func checkC16(c *Ctx) {
	k := func(n string) *Term { return TInt(constInt(c, "CP_ARBITER_STATE_"+n)) }
	first, ignore, normal, cached, invalidated := k("FIRST_COLLISION"), k("IGNORE"), k("NORMAL"), k("CACHED"), k("INVALIDATED")
	stateIs := func(m *Mem, arb *Term, v *Term) *BDD { return CondEq(get(m, arb, "state"), v) }
	// the handler called is arb.handler, with the arbiter, the space and its data
	rightCall := func(rule, construct string, e *Event, arb, sp *Term, field string) {
		g := AndAll(e.Guard, e.Assume)
		h := ownerOfCallee(e.Callee)
		ok := h != nil && proveEq(h, get(e.Mem, arb, field), g)
		c.ob(ok, rule, construct+" handler", e.Instr.Pos(), "the callback called is not the one of the collision's %s", field)
		if ok {
			c.ob(len(e.Args) == 3 && proveEq(e.Args[0], arb, g) && proveEq(e.Args[1], sp, g) && proveEq(e.Args[2], get(e.Mem, h, "UserData"), g), rule, construct+" arguments", e.Instr.Pos(), "the callback does not get the arbiter, the space and the handler's data")
		}
	}

	rule := "begin and pre-solve"
	name := "SpaceCollideShapesFunc"
	c.part(name, func() {
		s := c.sum(name, "event", Config{NoEnter: true, Opaque: opaqueSet("QueryReject", "Collide", "Space.ContactBufferGetArray", "HashSet.Insert", "Arbiter.Update"),
			KeepOnUser: func(cl string) bool { return strings.HasPrefix(cl, "CollisionInfo.") },
			// shown below for Update
			KeepOn: func(fn *ssa.Function, cl string) bool {
				return strings.HasPrefix(cl, "CollisionInfo.") && fname(fn) == "Arbiter.Update"
			}})
		pos := s.Fn.Pos()
		a, sp := asType(s, 0, s.Events), asType(s, 3, s.Events)
		b, id := s.Params[1], s.Params[2]
		one := func(kind, n string) *Event {
			es := eventsOf(s.Events, kind, n)
			if len(es) != 1 {
				c.fail("coverage", name+" "+n, pos, "%d calls of %s were found, one was expected", len(es), n)
				panic(abortCheck{})
			}
			return es[0]
		}
		if a == nil || sp == nil {
			c.fail("coverage", name, pos, "the shape and the space are not resolved")
			return
		}
		f := typeFact(s)
		rej, col, ins, upd := one("call", "QueryReject"), one("call", "Collide"), one("call", "HashSet.Insert"), one("call", "Arbiter.Update")
		c.ob(implies(f, rej.Guard) && proveEq(rej.Args[0], a, f) && proveEq(rej.Args[1], b, f), rule, name+" rejection", rej.Instr.Pos(), "not every pair of shapes is tested for rejection")
		rejected := toBDD(rej.Result)
		c.ob(sameCond(col.Guard, Not(rejected), f), rule, name+" narrow phase", col.Instr.Pos(), "shapes are collided when %s", shortB(col.Guard))
		g := And(f, col.Guard)
		c.ob(proveEq(col.Args[0], a, g) && proveEq(col.Args[1], b, g) && proveEq(col.Args[2], id, g), rule, name+" narrow phase shapes", col.Instr.Pos(), "the shapes collided are not the pair found")
		info := col.Result
		cnt := fld(info, "count")
		f = And(f, Not(CondLt(cnt, TInt(0), true)))
		proc := AndAll(Not(rejected), Not(CondEq(cnt, TInt(0))))
		c.ob(sameCond(ins.Guard, proc, f) && sameCond(upd.Guard, proc, f), rule, name+" touching", ins.Instr.Pos(), "an arbiter is found or made when %s", shortB(ins.Guard))
		arb := ins.Result
		f = And(f, notNil(arb))
		g = And(f, proc)
		c.ob(proveEq(ins.Args[0], get(ins.Mem, sp, "cachedArbiters"), g), rule, name+" arbiters", ins.Instr.Pos(), "the arbiter is not one of the space's")
		ia, ib := fld(info, "a"), fld(info, "b")
		pa, pb := fld(ins.Args[2], "a"), fld(ins.Args[2], "b")
		c.ob(proveEq(pa, ia, g) && proveEq(pb, ib, g) || proveEq(pa, ib, g) && proveEq(pb, ia, g) || proveEq(pa, a, g) && proveEq(pb, b, g), rule, name+" pair", ins.Instr.Pos(), "the arbiter is looked up for another pair of shapes")
		c.ob(proveEq(upd.Args[0], arb, g) && proveEq(upd.Args[2], sp, g), rule, name+" update", upd.Instr.Pos(), "the arbiter updated is not the pair's")
		for _, p := range []string{"a", "b", "count", "n", "arr"} {
			x := get(upd.Mem, upd.Args[1], p)
			y := fld(info, p)
			same := false
			if p == "n" {
				same = vec(x).eq(vec(y), g)
			} else {
				same = proveEq(x, y, g)
			}
			c.ob(same, rule, name+" update "+p, upd.Instr.Pos(), "the arbiter is not updated with the collision found: %s is %s", p, short(x))
		}

		begins, pres := eventsOf(s.Events, "user", "CollisionHandler.BeginFunc"), eventsOf(s.Events, "user", "CollisionHandler.PreSolveFunc")
		if len(begins) == 0 || len(pres) == 0 {
			c.fail("coverage", name, pos, "no begin or pre-solve callback is called")
			return
		}
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind == "user" {
				c.ob(e.Name == "CollisionHandler.BeginFunc" || e.Name == "CollisionHandler.PreSolveFunc", rule, name+" "+e.Name, e.Instr.Pos(), "%s is called when two shapes touch", e.Name)
			}
		})
		began := orGuards(begins)
		c.ob(sameCond(began, And(proc, stateIs(upd.After, arb, first)), f), rule, name+" begin", begins[0].Instr.Pos(), "the begin callback is not called exactly when the shapes start to touch, but when %s", shortB(began))
		for i, e := range begins {
			rightCall(rule, name+" begin", e, arb, sp, "handler")
			for _, o := range begins[:i] {
				c.ob(!sat(AndAll(f, e.Guard, o.Guard)), rule, name+" begin once", e.Instr.Pos(), "the begin callback is called twice")
			}
		}
		// what the begin callback left
		go1 := And(AndAll(proc, Not(began)), Not(stateIs(upd.After, arb, ignore)))
		refused := bddFalse
		for _, e := range begins {
			ok := toBDD(e.Result)
			go1 = Or(go1, AndAll(e.Guard, ok, Not(stateIs(e.After, arb, ignore))))
			refused = Or(refused, And(e.Guard, Not(ok)))
		}
		pre := orGuards(pres)
		c.ob(!sat(AndAll(f, refused, pre)), rule, name+" refused", pres[0].Instr.Pos(), "pre-solve is called though the begin callback refused the collision")
		c.ob(sameCond(pre, go1, f), rule, name+" pre-solve", pres[0].Instr.Pos(), "the pre-solve callback is not called exactly when the pair touches and is not ignored, but when %s", shortB(pre))
		c.ob(implies(And(f, refused), stateIs(s.Mem, arb, ignore)), rule, name+" ignored", pos, "a collision refused by the begin callback is not ignored until the shapes separate")
		kept := bddFalse
		keepWant := bddFalse
		// the state the last callback left
		lastIgn := AndAll(proc, Not(began), Not(pre), stateIs(upd.After, arb, ignore))
		for _, e := range begins {
			lastIgn = Or(lastIgn, AndAll(e.Guard, Not(pre), stateIs(e.After, arb, ignore)))
		}
		for i, e := range pres {
			rightCall(rule, name+" pre-solve", e, arb, sp, "handler")
			for _, o := range pres[:i] {
				c.ob(!sat(AndAll(f, e.Guard, o.Guard)), rule, name+" pre-solve once", e.Instr.Pos(), "the pre-solve callback is called twice")
			}
			m := e.After
			inf := TMaxF()
			sensor := Or(toBDD(get(m, a, "sensor")), toBDD(get(m, b, "sensor")))
			fixed := And(CondEq(get(m, get(m, a, "body"), "m"), inf), CondEq(get(m, get(m, b, "body"), "m"), inf))
			keepWant = Or(keepWant, AndAll(e.Guard, toBDD(e.Result), Not(stateIs(m, arb, ignore)), Not(sensor), Not(fixed)))
			lastIgn = Or(lastIgn, And(e.Guard, stateIs(m, arb, ignore)))
		}
		rule1 := "solved"
		var app []*Event
		for _, e := range storesTo(s.Events, "Space.arbiters") {
			app = append(app, e)
			kept = Or(kept, e.Guard)
			want := mapGate(get(e.Mem, sp, "arbiters"), func(l *Term) *Term { return rawTerm(OApp, l.typ, "append", l, arb) })
			ok := proveEq(e.Val, want, And(f, e.Guard))
			c.ob(ok, rule1, name+" list", e.Instr.Pos(), "the arbiter is not put on the list of those to solve: %s", short(e.Val))
		}
		c.ob(len(app) > 0, rule1, name, pos, "no arbiter is put on the list of those to solve")
		c.ob(!sat(AndAll(f, keepWant, Not(kept))), rule1, name+" accepted", pos, "a collision accepted by pre-solve, of no sensor, is not solved")
		c.ob(!sat(AndAll(f, kept, Not(keepWant))), rule1, name+" not accepted", pos, "a collision is solved that was ignored, refused by pre-solve, of a sensor, or between two bodies of infinite mass")
		out := AndAll(f, proc, Not(kept))
		c.ob(proveEq(TLen(get(s.Mem, arb, "contacts")), TInt(0), out) && proveEq(get(s.Mem, arb, "count"), TInt(0), out), rule1, name+" no contacts", pos, "an arbiter that is not solved keeps contacts")
		for _, cl := range []string{"Arbiter.contacts", "Arbiter.count"} {
			for _, e := range s.Events {
				if e.Kind != "store" || locClass(e.Loc) != cl {
					continue
				}
				c.ob(!sat(AndAll(f, e.Guard, kept)), rule1, name+" keeps "+cl, e.Instr.Pos(), "the contacts of an arbiter to be solved are changed")
			}
		}
		c.ob(implies(And(out, lastIgn), stateIs(s.Mem, arb, ignore)), rule1, name+" stays ignored", pos, "an ignored collision does not stay ignored")
		c.ob(implies(AndAll(out, Not(lastIgn), Not(refused)), stateIs(s.Mem, arb, normal)), rule1, name+" touching now", pos, "a collision that is not solved is not marked as touching: begin would be called again")
		for _, e := range pres {
			c.ob(proveEq(get(s.Mem, arb, "state"), get(e.After, arb, "state"), AndAll(f, kept, e.Guard)), rule1, name+" state", pos, "the state of an arbiter to be solved is changed")
		}
		c.ob(proveEq(get(s.Mem, arb, "stamp"), get(s.Mem, sp, "stamp"), g), rule1, name+" stamp", pos, "the arbiter is not stamped as used in this step: %s", short(get(s.Mem, arb, "stamp")))
		ret := s.Ret
		c.ob(proveEq(ret, id, And(f, rejected)) && proveEq(ret, fld(info, "collisionId"), And(f, Not(rejected))), rule1, name+" result", pos, "the id kept for the pair is %s", short(ret))
		// contacts that are not used are released
		rule2 := "contacts taken and released"
		used := func(m *Mem) *Term { return get(m, get(m, sp, "contactBuffersHead"), "numContacts") }
		c.ob(proveEq(TSub(used(upd.Mem), used(col.After)), cnt, g) || proveEq(TSub(used(ins.Mem), used(col.After)), cnt, g), rule2, name+" claimed", pos, "the contacts of a collision are not claimed before callbacks run")
		for _, e := range s.Events {
			if e.Kind == "store" && locClass(e.Loc) == "ContactBuffer.numContacts" {
				c.ob(!sat(AndAll(f, e.Guard, Not(proc))), rule2, name+" only then", e.Instr.Pos(), "contacts are claimed or released for shapes that do not touch")
			}
		}
		last := func(e *Event, g *BDD) {
			d := TSub(used(s.Mem), used(e.After))
			g = AndAll(f, proc, g)
			c.ob(proveEq(d, TNeg(cnt), And(g, Not(kept))), rule2, name+" released", pos, "the contacts of an arbiter that is not solved stay claimed")
			if !sat(And(g, kept)) {
				return
			}
			c.ob(proveEq(d, TNum(0), And(g, kept)), rule2, name+" kept", pos, "the contacts of an arbiter to be solved are released")
		}
		last(upd, AndAll(Not(began), Not(pre)))
		for _, e := range begins {
			last(e, And(e.Guard, Not(pre)))
		}
		for _, e := range pres {
			last(e, e.Guard)
		}
	})
	c.atLeast(rule, 17)
	c.atLeast("solved", 10)
	c.atLeast("contacts taken and released", 3)

	rule = "new arbiter"
	c.part("Arbiter.Init", func() {
		s := c.sum("Arbiter.Init", "event", Config{NoEnter: true})
		f := typeFact(s)
		arb := s.Params[0]
		pos := s.Fn.Pos()
		c.ob(implies(f, stateIs(s.Mem, arb, first)), rule, "Arbiter.Init state", pos, "a new arbiter starts in state %s", short(get(s.Mem, arb, "state")))
		c.ob(proveEq(get(s.Mem, arb, "a"), s.Params[1], f) && proveEq(get(s.Mem, arb, "b"), s.Params[2], f) &&
			proveEq(get(s.Mem, arb, "body_a"), get(s.Entry, s.Params[1], "body"), f) && proveEq(get(s.Mem, arb, "body_b"), get(s.Entry, s.Params[2], "body"), f), rule, "Arbiter.Init pair", pos, "a new arbiter is not the pair's")
		for _, p := range []string{"handler", "handlerA", "handlerB", "UserData", "thread_a.next", "thread_a.prev", "thread_b.next", "thread_b.prev"} {
			x := get(s.Mem, arb, p)
			c.ob(proveEq(x, TNilOf(x.typ), f), rule, "Arbiter.Init "+p, pos, "a new arbiter starts with %s left over", p)
		}
		c.ob(proveEq(get(s.Mem, arb, "count"), TInt(0), f), rule, "Arbiter.Init contacts", pos, "a new arbiter starts with contacts")
	})

	rule = "update"
	name = "Arbiter.Update"
	c.part(name, func() {
		s := c.sum(name, "event", Config{NoEnter: true, Opaque: opaqueSet("Space.LookupHandler"), Pure: pureAll})
		pos := s.Fn.Pos()
		arb, info, sp := s.Params[0], s.Params[1], s.Params[2]
		a, b := get(s.Entry, info, "a"), get(s.Entry, info, "b")
		f := AndAll(typeFact(s), notNil(arb), notNil(info), notNil(sp))
		s0 := get(s.Entry, arb, "state")
		st := get(s.Mem, arb, "state")
		isC := CondEq(s0, cached)
		c.ob(implies(And(f, isC), CondEq(st, first)), rule, name+" cached", pos, "a pair that touches again after separating does not begin a new collision")
		c.ob(proveEq(st, s0, And(f, Not(isC))), rule, name+" touching", pos, "the state of a pair that keeps touching changes to %s", short(st))
		c.ob(proveEq(get(s.Mem, arb, "a"), a, f) && proveEq(get(s.Mem, arb, "b"), b, f) && proveEq(get(s.Mem, arb, "body_a"), get(s.Entry, a, "body"), f) && proveEq(get(s.Mem, arb, "body_b"), get(s.Entry, b, "body"), f), rule, name+" order", pos, "the arbiter does not take the order of the collision found")
		for _, e := range s.Events {
			if e.Kind == "store" && strings.HasPrefix(locClass(e.Loc), "CollisionInfo.") {
				c.fail("update", name+" collision", e.Instr.Pos(), "the collision found is changed")
			}
		}
		rule1 := "handler"
		lk := eventsOf(s.Events, "call", "Space.LookupHandler")
		tA, tB := get(s.Entry, a, "collisionType"), get(s.Entry, b, "collisionType")
		wild := c.global(s.Entry, "WILDCARD_COLLISION_TYPE")
		def := get(s.Entry, sp, "defaultHandler")
		h := get(s.Mem, arb, "handler")
		var main *Event
		for _, e := range lk {
			if proveEq(e.Args[1], tA, And(f, e.Guard)) && proveEq(e.Args[2], tB, And(f, e.Guard)) || proveEq(e.Args[1], tB, And(f, e.Guard)) && proveEq(e.Args[2], tA, And(f, e.Guard)) {
				main = e
				break
			}
		}
		if main == nil {
			c.fail(rule1, name, pos, "the handler of the two types is not looked up")
			return
		}
		c.ob(implies(f, main.Guard) && proveEq(main.Args[0], sp, f) && proveEq(main.Args[3], def, f) && proveEq(h, main.Result, f), rule1, name, main.Instr.Pos(), "the handler is not the one registered for the two types, the default one if there is none")
		hA := get(s.Mem, h, "TypeA")
		swapped := AndAll(Not(CondEq(tA, hA)), Not(CondEq(hA, wild)))
		c.ob(sameCond(toBDD(get(s.Mem, arb, "swapped")), swapped, f), rule1, name+" swapped", pos, "the pair is reported swapped when %s", shortB(toBDD(get(s.Mem, arb, "swapped"))))
		need := Or(Not(CondEq(h, def)), toBDD(get(s.Entry, sp, "usesWildcards")))
		for _, w := range []struct {
			field string
			t     *Term
		}{{"handlerA", TIte(swapped, tB, tA)}, {"handlerB", TIte(swapped, tA, tB)}} {
			v := get(s.Mem, arb, w.field)
			cov := bddFalse
			for _, e := range lk {
				if e == main {
					continue
				}
				ge := AndAll(f, e.Guard)
				if !proveEq(v, e.Result, ge) {
					continue
				}
				cov = Or(cov, e.Guard)
				c.ob(proveEq(e.Args[1], w.t, ge) && proveEq(e.Args[2], wild, ge) && proveEq(e.Args[0], sp, ge), rule1, name+" "+w.field, e.Instr.Pos(), "the wildcard handler called for the %s of the two types is looked up for %s", map[string]string{"handlerA": "first", "handlerB": "second"}[w.field], short(e.Args[1]))
				d := e.Args[3]
				c.ob(strings.Contains(short(d), "CollisionHandlerDoNothing"), rule1, name+" "+w.field+" none", e.Instr.Pos(), "without a wildcard handler, %s is used", short(d))
			}
			c.ob(implies(And(f, need), cov), rule1, name+" "+w.field+" set", pos, "the wildcard handler is not looked up for every pair that needs it, but when %s", shortB(cov))
		}
	})
	c.atLeast("update", 3)
	c.atLeast("handler", 8)

	rule = "lookup"
	c.part("HashPair", func() {
		s := c.sum("HashPair", "event", Config{})
		a, b := s.Params[0], s.Params[1]
		other := subst(s.Ret, map[*Term]*Term{a: b, b: a})
		c.ob(proveEq(s.Ret, other, s.G), rule, "HashPair symmetric", s.Fn.Pos(), "the hash of a pair depends on its order: the pair is not found again when swapped")
	})
	c.part("NewSpace", func() {
		s := c.sum("NewSpace", "event", Config{NoEnter: true, Opaque: opaqueSet("NewHashSet"), Pure: pureAll})
		sp := s.Ret
		for _, w := range []struct{ field, key, elt, p, q string }{{"cachedArbiters", "ShapePair", "Arbiter", "a", "b"}, {"collisionHandlers", "CollisionHandler", "CollisionHandler", "TypeA", "TypeB"}} {
			var ev *Event
			for _, e := range eventsOf(s.Events, "call", "NewHashSet") {
				if proveEq(get(s.Mem, sp, w.field), e.Result, bddTrue) {
					ev = e
				}
			}
			if ev == nil {
				c.fail("coverage", "NewSpace "+w.field, s.Fn.Pos(), "the comparison of %s is not resolved", w.field)
				continue
			}
			fn := funcOf(c, ev.Args[0])
			if fn == nil {
				c.fail("coverage", "NewSpace "+w.field, s.Fn.Pos(), "the comparison of %s is not a function of this package", w.field)
				continue
			}
			q := c.sumFn(fn, "event", Config{})
			k, e := q.Params[0], q.Params[1]
			f := AndAll(q.G, q.Assume, notNil(e))
			var ka, kb *Term
			if w.key == "ShapePair" {
				ka, kb = fld(k, "a"), fld(k, "b")
			} else {
				ka, kb = get(q.Entry, k, w.p), get(q.Entry, k, w.q)
				f = And(f, notNil(k))
			}
			ea, eb := get(q.Entry, e, w.p), get(q.Entry, e, w.q)
			want := Or(And(CondEq(ka, ea), CondEq(kb, eb)), And(CondEq(ka, eb), CondEq(kb, ea)))
			c.ob(sameCond(toBDD(q.Ret), want, f), rule, w.field+" comparison", fn.Pos(), "two pairs are taken for the same when %s", shortB(toBDD(q.Ret)))
		}
		f := And(s.G, s.Assume)
		c.ob(!sat(And(f, toBDD(get(s.Mem, sp, "usesWildcards")))), rule, "NewSpace wildcards", s.Fn.Pos(), "a new space uses wildcards")
		d := get(s.Mem, sp, "defaultHandler")
		c.ob(strings.Contains(short(d), "CollisionHandlerDoNothing"), rule, "NewSpace default handler", s.Fn.Pos(), "the default handler of a new space is %s", short(d))
	})
	c.part("Space.LookupHandler", func() {
		s := c.sum("Space.LookupHandler", "event", Config{NoEnter: true, Opaque: opaqueSet("HashSet.Find", "HashPair"), Pure: pureAll})
		pos := s.Fn.Pos()
		es := eventsOf(s.Events, "call", "HashSet.Find")
		if len(es) != 1 {
			c.fail("coverage", "Space.LookupHandler", pos, "%d look-ups were found", len(es))
			return
		}
		e := es[0]
		f := And(s.G, s.Assume)
		a, b := s.Params[1], s.Params[2]
		key := e.Args[2]
		x, y := get(e.Mem, key, "TypeA"), get(e.Mem, key, "TypeB")
		c.ob(implies(f, e.Guard) && proveEq(e.Args[0], get(s.Entry, s.Params[0], "collisionHandlers"), f) && (proveEq(x, a, f) && proveEq(y, b, f) || proveEq(x, b, f) && proveEq(y, a, f)), rule, "Space.LookupHandler key", pos, "the handler is looked up for other types")
		c.ob(pairHash(s.Events, e.Args[1], a, b, f), rule, "Space.LookupHandler hash", pos, "the handler is looked up under the hash %s", short(e.Args[1]))
		found := notNil(e.Result)
		c.ob(proveEq(s.Ret, e.Result, And(f, found)) && proveEq(s.Ret, s.Params[3], And(f, Not(found))), rule, "Space.LookupHandler result", pos, "the handler returned is %s", short(s.Ret))
	})
	newHandler := func(name string, wildcardOnly bool) {
		c.part(name, func() {
			s := c.sum(name, "event", Config{NoEnter: true, Opaque: opaqueSet("HashSet.Insert", "HashPair"), Pure: pureAll})
			pos := s.Fn.Pos()
			es := eventsOf(s.Events, "call", "HashSet.Insert")
			if len(es) != 1 {
				c.fail("coverage", name, pos, "%d insertions were found", len(es))
				return
			}
			e := es[0]
			f := And(s.G, s.Assume)
			sp, a := s.Params[0], s.Params[1]
			b := c.global(e.Mem, "WILDCARD_COLLISION_TYPE")
			want := [4]string{"AlwaysCollide", "AlwaysCollide", "DoNothing", "DoNothing"}
			if !wildcardOnly {
				b = s.Params[2]
				want = [4]string{"DefaultBegin", "DefaultPreSolve", "DefaultPostSolve", "DefaultSeparate"}
			}
			h := e.Args[2]
			c.ob(implies(f, e.Guard) && proveEq(e.Args[0], get(s.Entry, sp, "collisionHandlers"), f) && proveEq(get(e.Mem, h, "TypeA"), a, f) && proveEq(get(e.Mem, h, "TypeB"), b, f), rule, name+" types", pos, "the handler is not registered for its types, in their order")
			c.ob(pairHash(s.Events, e.Args[1], a, b, f), rule, name+" hash", pos, "the handler is registered under the hash %s", short(e.Args[1]))
			for i, fl := range []string{"BeginFunc", "PreSolveFunc", "PostSolveFunc", "SeparateFunc"} {
				fn := funcOf(c, get(e.Mem, h, fl))
				c.ob(fn != nil && fname(fn) == want[i], rule, name+" "+fl, pos, "a new handler's %s is %s", fl, short(get(e.Mem, h, fl)))
			}
			c.ob(e.Sub != nil && e.Sub.Ret != nil && e.Sub.Ret == e.Sub.Params[0], rule, name+" itself", pos, "what is registered is not the handler made")
			c.ob(proveEq(s.Ret, e.Result, f), rule, name+" result", pos, "the handler returned is not the one registered: changing it has no effect")
			if wildcardOnly {
				c.ob(implies(f, toBDD(get(s.Mem, sp, "usesWildcards"))), rule, name+" wildcards", pos, "wildcard handlers are not looked up after one was made")
				was := toBDD(get(s.Entry, sp, "usesWildcards"))
				d := get(s.Mem, sp, "defaultHandler")
				c.ob(strings.Contains(short(d), "CollisionHandlerDefault") && !proveEq(d, get(s.Entry, sp, "defaultHandler"), And(f, Not(was))), rule, name+" default", pos, "pairs without a handler of their own do not call wildcard handlers")
			}
		})
	}
	newHandler("Space.NewCollisionHandler", false)
	newHandler("Space.NewWildcardCollisionHandler", true)
	c.atLeast(rule, 22)

	rule = "wildcards"
	for _, ph := range []string{"Begin", "PreSolve", "PostSolve", "Separate"} {
		ph := ph
		yes := map[string]bool{"Begin": true, "PreSolve": true}[ph]
		for _, w := range []string{"A", "B"} {
			name := "Arbiter.CallWildcard" + ph + w
			c.part(name, func() {
				s := c.sum(name, "event", Config{NoEnter: true})
				es := eventsOf(s.Events, "user", "CollisionHandler."+ph+"Func")
				if len(es) != 1 || !implies(And(s.G, s.Assume), es[0].Guard) {
					c.fail(rule, name, s.Fn.Pos(), "the handler's %s callback is not called once", ph)
					return
				}
				rightCall(rule, name, es[0], s.Params[0], s.Params[1], "handler"+w)
				if yes {
					c.ob(proveEq(s.Ret, es[0].Result, s.G), rule, name+" result", s.Fn.Pos(), "the callback's verdict is not returned")
				}
			})
		}
		name := "Default" + ph
		c.part(name, func() {
			s := c.sum(name, "event", Config{NoEnter: true})
			es := eventsOf(s.Events, "user", "CollisionHandler."+ph+"Func")
			if len(es) != 2 || !implies(And(s.G, s.Assume), And(es[0].Guard, es[1].Guard)) {
				c.fail(rule, name, s.Fn.Pos(), "not both wildcard handlers are called, whatever the other one says")
				return
			}
			rightCall(rule, name+" first", es[0], s.Params[0], s.Params[1], "handlerA")
			rightCall(rule, name+" second", es[1], s.Params[0], s.Params[1], "handlerB")
			if yes {
				c.ob(sameCond(toBDD(s.Ret), And(toBDD(es[0].Result), toBDD(es[1].Result)), s.G), rule, name+" verdict", s.Fn.Pos(), "the collision is accepted when %s", short(s.Ret))
			}
		})
	}
	for name, wantTrue := range map[string]bool{"AlwaysCollide": true, "DoNothing": false} {
		c.part(name, func() {
			s := c.sum(name, "event", Config{NoEnter: true})
			bad := ""
			allEvents(s.Events, func(e *Event, ls []*LoopInfo) { bad = e.Kind + " " + e.Name })
			c.ob(bad == "" && (!wantTrue || implies(s.G, toBDD(s.Ret))), rule, name, s.Fn.Pos(), "it is not the neutral callback: %s", bad)
		})
	}
	c.part("Arbiter.Ignore", func() {
		s := c.sum("Arbiter.Ignore", "event", Config{NoEnter: true})
		c.ob(implies(s.G, stateIs(s.Mem, s.Params[0], ignore)) && implies(s.G, Not(toBDD(s.Ret))), rule, "Arbiter.Ignore", s.Fn.Pos(), "the collision is not ignored, or the result is not false")
	})
	c.atLeast(rule, 40)

	rule = "separate"
	name = "SpaceArbiterSetFilter"
	c.part(name, func() {
		s := c.sum(name, "event", Config{NoEnter: true})
		pos := s.Fn.Pos()
		arb, sp := s.Params[0], s.Params[1]
		f := AndAll(typeFact(s), notNil(arb), notNil(sp))
		still := func(p string) *BDD {
			b := get(s.Entry, arb, p)
			return Or(CondEq(get(s.Entry, b, "sleepingIdleTime"), TMaxF()), notNil(get(s.Entry, b, "sleepingRoot")))
		}
		asleep := And(still("body_a"), still("body_b"))
		old := Not(CondEq(get(s.Entry, sp, "stamp"), get(s.Entry, arb, "stamp")))
		// stamps only grow
		f = And(f, Not(CondLt(get(s.Entry, sp, "stamp"), get(s.Entry, arb, "stamp"), true)))
		calls := eventsOf(s.Events, "user", "CollisionHandler.SeparateFunc")
		if len(calls) == 0 {
			c.fail(rule, name, pos, "the separate callback is never called")
			return
		}
		want := AndAll(Not(asleep), old, Not(stateIs(s.Entry, arb, cached)))
		c.ob(!sat(AndAll(f, want, Not(orGuards(calls)))), rule, name+" called", pos, "shapes that stopped touching do not get a separate callback")
		c.ob(!sat(AndAll(f, Not(want), orGuards(calls))), rule, name+" only then", pos, "a separate callback is called for shapes that still touch, that are asleep, or a second time")
		for _, e := range calls {
			rightCall(rule, name, e, arb, sp, "handler")
			c.ob(implies(And(f, e.Guard), stateIs(e.Mem, arb, cached)), rule, name+" state", e.Instr.Pos(), "the arbiter is not marked as separated when the callback is called: it would be called again")
		}
		for _, e := range storesTo(s.Events, "Arbiter.state") {
			c.ob(!sat(AndAll(f, e.Guard, Not(want))), rule, name+" kept state", e.Instr.Pos(), "the state of an arbiter in use is changed")
		}
		expire := AndAll(Not(asleep), Not(CondLt(TSub(get(s.Entry, sp, "stamp"), get(s.Entry, arb, "stamp")), get(s.Entry, sp, "collisionPersistence"), true)))
		// the callback cannot change stamps or the persistence during a step
		keep := c.sum(name, "event kept", Config{NoEnter: true, KeepUser: func(e *Event, cl string) bool { return true }})
		fk := AndAll(typeFact(keep), notNil(arb), notNil(sp), Not(CondLt(get(s.Entry, sp, "stamp"), get(s.Entry, arb, "stamp"), true)))
		c.ob(sameCond(toBDD(keep.Ret), Not(expire), fk), rule, name+" forgotten", pos, "an arbiter is kept when %s", shortB(toBDD(keep.Ret)))
		puts := bddFalse
		for _, e := range keep.Events {
			if e.Kind == "ext" && strings.HasSuffix(e.Name, "Pool.Put") {
				puts = Or(puts, e.Guard)
			}
		}
		c.ob(!sat(AndAll(fk, puts, toBDD(keep.Ret))), rule, name+" recycled", pos, "an arbiter that is kept is recycled")
	})
	name = "Space.Step"
	c.part(name, func() {
		s := c.sum(name, "step sub", Config{NoEnter: true, Opaque: stepOpaque, KeepUser: func(e *Event, cl string) bool { return true }})
		n := 0
		for _, e := range eventsOf(s.Events, "call", "HashSet.Filter") {
			if proveEq(e.Args[0], get(e.Mem, s.Params[0], "cachedArbiters"), And(s.G, s.Assume)) {
				n++
				if e.Sub == nil {
					c.fail("coverage", name+" separate", e.Instr.Pos(), "the filter is not resolved")
					continue
				}
				q := e.Sub
				fq := e.Guard
				in := eventsOf(q.Events, "call", "SpaceArbiterSetFilter")
				ok := len(in) == 1 && implies(fq, in[0].Guard) && in[0].Args[0] == q.Params[0] && proveEq(in[0].Args[1], s.Params[0], fq) && proveEq(q.Ret, in[0].Result, fq)
				c.ob(ok, rule, name+" filter", e.Instr.Pos(), "cached arbiters are not all tested for separation")
			}
		}
		c.ob(n == 1, rule, name+" once", s.Fn.Pos(), "the cached arbiters are filtered %d times in a step", n)
	})
	name = "CachedArbitersFilter"
	c.part(name, func() {
		s := c.sum(name, "event", Config{NoEnter: true, Opaque: opaqueSet("Arbiter.Unthread"), KeepUser: func(e *Event, cl string) bool { return true }})
		pos := s.Fn.Pos()
		arb, sp, shape, body := s.Params[0], s.Params[1], s.Params[2], s.Params[3]
		f := AndAll(typeFact(s), notNil(arb), notNil(sp), notNil(body))
		side := func(x string) *BDD {
			sh := get(s.Entry, arb, x)
			return And(CondEq(body, get(s.Entry, arb, "body_"+x)), Or(CondEq(shape, sh), Not(notNil(shape))))
		}
		match := Or(side("a"), side("b"))
		c.ob(sameCond(toBDD(s.Ret), Not(match), f), rule, name+" matches", pos, "arbiters are kept when %s", shortB(toBDD(s.Ret)))
		calls := eventsOf(s.Events, "user", "CollisionHandler.SeparateFunc")
		want := AndAll(match, notNil(shape), Not(stateIs(s.Entry, arb, cached)))
		c.ob(len(calls) > 0 && sameCond(orGuards(calls), want, f), rule, name+" called", pos, "the separate callback is called when %s", shortB(orGuards(calls)))
		for _, e := range calls {
			rightCall(rule, name, e, arb, sp, "handler")
			c.ob(implies(And(f, e.Guard), stateIs(e.Mem, arb, invalidated)), rule, name+" state", e.Instr.Pos(), "the arbiter is not invalid when its shape is removed")
		}
		un := bddFalse
		for _, e := range eventsOf(s.Events, "call", "Arbiter.Unthread") {
			if proveEq(e.Args[0], arb, And(f, e.Guard)) {
				un = Or(un, e.Guard)
			}
		}
		c.ob(sameCond(un, match, f), rule, name+" contact graph", pos, "a removed arbiter stays in the contact graph")
		// off the list of those being solved
		n := 0
		for _, e := range s.Events {
			if e.Kind != "loop" {
				continue
			}
			l := e.Loop
			var el *Term
			for _, x := range l.Exits {
				sup := map[int]bool{}
				bddSupport(x.Guard, sup)
				for i := range sup {
					walkTerm(bddVars[i], func(t *Term) {
						if t.op == OLoad && t.args[0].op == OIndex && locClass(t.args[0].args[0]) != "" && strings.HasSuffix(typeName(t.typ), "Arbiter") {
							el = t
						}
					})
				}
			}
			if el == nil {
				continue
			}
			n++
			list := get(e.Mem, sp, "arbiters")
			same := CondEq(arb, el)
			lw := *e
			lw.Loop = withoutExits(l, same)
			msg := visitsIndexed(&lw, indexOf(el), TLen(list), bddTrue)
			if msg == "" && !proveEq(el.args[0].args[0], list, bddTrue) {
				msg = "the list searched is " + short(el.args[0].args[0])
			}
			c.ob(msg == "", rule, name+" search", e.Instr.Pos(), "not all arbiters being solved are searched: %s", msg)
			c.ob(sameCond(e.Guard, match, f), rule, name+" search when", e.Instr.Pos(), "arbiters being solved are searched when %s", shortB(e.Guard))
		}
		c.ob(n == 1, rule, name+" solved", pos, "a removed arbiter stays on the list of those being solved")
		st := storesTo(s.Events, "Space.arbiters")
		c.ob(len(st) > 0, rule, name+" taken off", pos, "a removed arbiter is not taken off the list of those being solved")
	})
	c.part("Space.RemoveShape", func() {
		s := c.sum("Space.RemoveShape", "event", Config{NoEnter: true, Opaque: opaqueSet("Space.FilterArbiters", "Body.Activate", "Body.ActivateStatic", "Body.RemoveShape")})
		es := eventsOf(s.Events, "call", "Space.FilterArbiters")
		sp, sh := s.Params[0], s.Params[1]
		f := And(s.G, s.Assume)
		ok := len(es) == 1 && implies(f, es[0].Guard) && proveEq(es[0].Args[0], sp, f) && proveEq(es[0].Args[1], get(s.Entry, sh, "body"), f) && proveEq(es[0].Args[2], sh, f)
		c.ob(ok, rule, "Space.RemoveShape", s.Fn.Pos(), "removing a shape does not separate the shapes it touches")
	})
	c.part("Space.FilterArbiters", func() {
		s := c.sum("Space.FilterArbiters", "event", Config{NoEnter: true, Opaque: opaqueSet("HashSet.Filter", "CachedArbitersFilter", "Space.Lock", "Space.Unlock")})
		es := eventsOf(s.Events, "call", "HashSet.Filter")
		f := And(s.G, s.Assume)
		if len(es) != 1 || es[0].Sub == nil {
			c.fail(rule, "Space.FilterArbiters", s.Fn.Pos(), "the cached arbiters are not filtered once")
			return
		}
		e := es[0]
		in := eventsOf(e.Sub.Events, "call", "CachedArbitersFilter")
		ok := implies(f, e.Guard) && proveEq(e.Args[0], get(s.Entry, s.Params[0], "cachedArbiters"), f) && len(in) == 1
		if ok {
			g := e.Guard
			x := in[0]
			ok = implies(g, x.Guard) && x.Args[0] == e.Sub.Params[0] && proveEq(x.Args[1], s.Params[0], g) && proveEq(x.Args[2], s.Params[2], g) && proveEq(x.Args[3], s.Params[1], g) && proveEq(e.Sub.Ret, x.Result, g)
		}
		c.ob(ok, rule, "Space.FilterArbiters", s.Fn.Pos(), "not every cached arbiter is filtered by the shape and body given")
	})
	c.atLeast(rule, 18)
}

// pureAll: the opaque operations (looking up, making) change nothing looked at here.
func pureAll(fn *ssa.Function) bool { return true }

// pairHash: HashPair of the two keys, in either order.
func pairHash(evs []*Event, t, a, b *Term, f *BDD) bool {
	for _, e := range eventsOf(evs, "call", "HashPair") {
		if t == e.Result {
			x, y := e.Args[0], e.Args[1]
			return proveEq(x, a, f) && proveEq(y, b, f) || proveEq(x, b, f) && proveEq(y, a, f)
		}
	}
	return false
}

// global: the value of a package-level variable.
func (c *Ctx) global(m *Mem, name string) *Term {
	g, ok := c.p.Pkg.Members[name].(*ssa.Global)
	if !ok {
		c.fail("anchor", name, token.NoPos, "variable %s not found", name)
		panic(abortCheck{})
	}
	return m.Load(rawTerm(OGlobal, g.Type(), name), elemType(g.Type()))
}

func checkC17(c *Ctx) {
	keep := func(cl string) bool { return cl == "Arbiter.swapped" }
	rule := "wildcard calls"
	for _, ph := range []string{"Begin", "PreSolve", "PostSolve", "Separate"} {
		for _, w := range []string{"CallWildcard%A", "CallWildcard%B", "Default%"} {
			name := strings.Replace(w, "%", ph, 1)
			if w != "Default%" {
				name = "Arbiter." + name
			}
			c.part(name, func() {
				s := c.sum(name, "orient", Config{NoEnter: true, KeepOnUser: keep})
				arb := s.Params[0]
				es := eventsOf(s.Events, "user", "CollisionHandler."+ph+"Func")
				f := And(s.G, s.Assume)
				sw := toBDD(get(s.Entry, arb, "swapped"))
				if len(es) == 0 {
					c.fail(rule, name, s.Fn.Pos(), "the handler is not called")
				}
				for _, e := range es {
					h := ownerOfCallee(e.Callee)
					g := And(f, e.Guard)
					now := toBDD(get(e.Mem, arb, "swapped"))
					switch {
					case h != nil && proveEq(h, get(e.Mem, arb, "handlerA"), g):
						c.ob(sameCond(now, sw, g), rule, name+" first", e.Instr.Pos(), "the handler of the first type sees the pair the other way round")
					case h != nil && proveEq(h, get(e.Mem, arb, "handlerB"), g):
						c.ob(sameCond(now, Not(sw), g), rule, name+" second", e.Instr.Pos(), "the handler of the second type does not see its own shape first")
					default:
						c.fail(rule, name, e.Instr.Pos(), "the handler called is neither wildcard handler")
					}
				}
				c.ob(sameCond(toBDD(get(s.Mem, arb, "swapped")), sw, f), rule, name+" restored", s.Fn.Pos(), "the orientation is changed for what is called next")
			})
		}
	}
	c.atLeast(rule, 28)

	rule = "accessors"
	pick := func(s *Summary, m *Mem, a, b string) *Term {
		arb := s.Params[0]
		return TIte(toBDD(get(m, arb, "swapped")), get(m, arb, b), get(m, arb, a))
	}
	acc := func(name string, f func(s *Summary, arb *Term, facts *BDD)) {
		c.part(name, func() {
			s := c.sum(name, "orient", Config{NoEnter: true})
			arb := s.Params[0]
			f(s, arb, AndAll(s.G, s.Assume, notNil(arb)))
		})
	}
	acc("Arbiter.Shapes", func(s *Summary, arb *Term, f *BDD) {
		c.ob(proveEq(elem(s.Ret, 0), pick(s, s.Entry, "a", "b"), f) && proveEq(elem(s.Ret, 1), pick(s, s.Entry, "b", "a"), f), rule, "Arbiter.Shapes", s.Fn.Pos(), "the shapes are returned as %s", short(s.Ret))
	})
	acc("Arbiter.Bodies", func(s *Summary, arb *Term, f *BDD) {
		// the arbiter's bodies are those of its shapes
		for _, x := range []string{"a", "b"} {
			f = And(f, CondEq(get(s.Entry, arb, "body_"+x), get(s.Entry, get(s.Entry, arb, x), "body")))
		}
		c.ob(proveEq(elem(s.Ret, 0), pick(s, s.Entry, "body_a", "body_b"), f) && proveEq(elem(s.Ret, 1), pick(s, s.Entry, "body_b", "body_a"), f), rule, "Arbiter.Bodies", s.Fn.Pos(), "the bodies are returned as %s", short(s.Ret))
	})
	oriented := func(m *Mem, arb *Term) V2 {
		n := getV(m, arb, "n")
		sw := toBDD(get(m, arb, "swapped"))
		return V2{TIte(sw, TNeg(n.x), n.x), TIte(sw, TNeg(n.y), n.y)}
	}
	acc("Arbiter.Normal", func(s *Summary, arb *Term, f *BDD) {
		c.ob(vec(s.Ret).eq(oriented(s.Entry, arb), f), rule, "Arbiter.Normal", s.Fn.Pos(), "the normal does not point from the first shape to the second: %s", short(s.Ret))
	})
	count := func(m *Mem, arb *Term) *Term {
		return TIte(CondLt(get(m, arb, "state"), TInt(constInt(c, "CP_ARBITER_STATE_CACHED")), true), get(m, arb, "count"), TInt(0))
	}
	acc("Arbiter.Count", func(s *Summary, arb *Term, f *BDD) {
		c.ob(proveEq(s.Ret, count(s.Entry, arb), f), rule, "Arbiter.Count", s.Fn.Pos(), "the number of contacts is %s", short(s.Ret))
	})
	acc("Arbiter.IsFirstContact", func(s *Summary, arb *Term, f *BDD) {
		c.ob(sameCond(toBDD(s.Ret), CondEq(get(s.Entry, arb, "state"), TInt(constInt(c, "CP_ARBITER_STATE_FIRST_COLLISION"))), f), rule, "Arbiter.IsFirstContact", s.Fn.Pos(), "it is the first contact when %s", short(s.Ret))
	})
	// contacts used in a loop: the index they are found under
	conIdx := func(t *Term) *Term {
		var r *Term
		walkTerm(t, func(u *Term) {
			if r == nil && u.op == OLoad && strings.HasPrefix(locClass(u.args[0]), "Contact.") {
				r = indexOf(u.args[0])
			}
		})
		return r
	}
	acc("Arbiter.TotalImpulse", func(s *Summary, arb *Term, f *BDD) {
		pos := s.Fn.Pos()
		cov := bddFalse
		for _, e := range s.Events {
			if e.Kind != "loop" || e.Loop.Back == nil {
				continue
			}
			l := e.Loop
			for _, p := range l.Phis {
				if p.Back == nil || typeName(p.Var.typ) != "Vector" {
					continue
				}
				i := conIdx(p.Back)
				if i == nil {
					continue
				}
				con := contactAt(get(l.Iter, arb, "contacts"), i, p.Back)
				if con == nil {
					continue
				}
				n := getV(l.Iter, arb, "n")
				jn, jt := get(l.Iter, con, "jnAcc"), get(l.Iter, con, "jtAcc")
				add := V2{TSub(TMul(n.x, jn), TMul(n.y, jt)), TAdd(TMul(n.x, jt), TMul(n.y, jn))}
				g := AndAll(l.Assume, l.BackG)
				up, down := vec(p.Back).eq(vec(p.Var).add(add), g), vec(p.Back).eq(vec(p.Var).sub(add), g)
				c.ob(up || down, rule, "Arbiter.TotalImpulse contact", e.Instr.Pos(), "an impulse adds %s to the total", short(p.Back))
				msg := visitsIndexed(e, i, count(l.Entry, arb), bddTrue)
				c.ob(msg == "", rule, "Arbiter.TotalImpulse all", e.Instr.Pos(), "not every contact is counted: %s", msg)
				c.ob(isZero(vec(p.Init).x, e.Guard) && isZero(vec(p.Init).y, e.Guard), rule, "Arbiter.TotalImpulse start", e.Instr.Pos(), "the sum starts at %s", short(p.Init))
				sw := toBDD(get(s.Entry, arb, "swapped"))
				sum := vec(p.Var)
				if !up {
					sum = sum.neg()
				}
				ge := AndAll(f, e.Guard)
				c.ob(vec(s.Ret).eq(sum, And(ge, sw)) && vec(s.Ret).eq(sum.neg(), And(ge, Not(sw))), rule, "Arbiter.TotalImpulse side", pos, "the total is not the impulse on the first body: %s", short(s.Ret))
				cov = Or(cov, e.Guard)
			}
		}
		c.ob(implies(f, cov), rule, "Arbiter.TotalImpulse", pos, "the impulses are not summed")
	})
	acc("Arbiter.ContactPointSet", func(s *Summary, arb *Term, f *BDD) {
		pos := s.Fn.Pos()
		c.ob(proveEq(fld(s.Ret, "Count"), count(s.Entry, arb), f), rule, "Arbiter.ContactPointSet count", pos, "the number of points is %s", short(fld(s.Ret, "Count")))
		c.ob(vec(fld(s.Ret, "Normal")).eq(oriented(s.Entry, arb), f), rule, "Arbiter.ContactPointSet normal", pos, "the normal does not point from the first shape to the second: %s", short(fld(s.Ret, "Normal")))
		pts := fld(s.Ret, "Points")
		cov := bddFalse
		for _, e := range s.Events {
			if e.Kind != "loop" || e.Loop.Back == nil {
				continue
			}
			l := e.Loop
			// the cells that end up in the result
			for k := 0; k < int(constInt(c, "MAX_CONTACTS_PER_ARBITER")); k++ {
				pt := elem(pts, k)
				type cell struct {
					what string
					t    *Term
				}
				var back [5]*Term
				var it [5]*Term
				for n, q := range []string{"PointA.X", "PointA.Y", "PointB.X", "PointB.Y", "Distance"} {
					v := fld(pt, q)
					for loc, mv := range l.MemVars {
						if mv == v {
							back[n], it[n] = l.Back.Load(loc, v.typ), v
						}
					}
					if back[n] == nil {
						c.fail("coverage", "Arbiter.ContactPointSet points", pos, "point %d of the result is not resolved", k)
						return
					}
				}
				i := conIdx(back[0])
				if i == nil {
					c.fail("coverage", "Arbiter.ContactPointSet points", pos, "point %d of the result is not a contact's", k)
					return
				}
				if k == 0 {
					nCon := get(l.Entry, arb, "count")
					fits := And(Not(CondLt(nCon, TInt(0), true)), Not(CondLt(TInt(constInt(c, "MAX_CONTACTS_PER_ARBITER")), nCon, true)))
					msg := visitsIndexed(e, i, count(l.Entry, arb), fits)
					c.ob(msg == "", rule, "Arbiter.ContactPointSet all", e.Instr.Pos(), "not every contact gets a point: %s", msg)
					cov = Or(cov, e.Guard)
				}
				con := contactAt(get(l.Iter, arb, "contacts"), i, back[0])
				if con == nil {
					c.fail("coverage", "Arbiter.ContactPointSet points", pos, "the contact is not resolved")
					return
				}
				m := l.Iter
				p1 := getV(m, get(m, arb, "body_a"), "p").add(getV(m, con, "r1"))
				p2 := getV(m, get(m, arb, "body_b"), "p").add(getV(m, con, "r2"))
				sw := toBDD(get(m, arb, "swapped"))
				at := CondEq(i, TInt(int64(k)))
				for _, o := range []struct {
					g    *BDD
					x, y V2
				}{{Not(sw), p1, p2}, {sw, p2, p1}} {
					g := AndAll(l.Assume, l.BackG, at, o.g)
					c.ob(V2{back[0], back[1]}.eq(o.x, g) && V2{back[2], back[3]}.eq(o.y, g), rule, "Arbiter.ContactPointSet points", e.Instr.Pos(), "point %d is not that of the first, then of the second shape: %s", k, short(back[0]))
				}
				d := p2.sub(p1).dot(getV(m, arb, "n"))
				c.ob(proveEq(back[4], d, AndAll(l.Assume, l.BackG, at)), rule, "Arbiter.ContactPointSet distance", e.Instr.Pos(), "the distance of point %d is %s", k, short(back[4]))
				same := true
				for n := range back {
					same = same && proveEq(back[n], it[n], AndAll(l.Assume, l.BackG, Not(at)))
				}
				c.ob(same, rule, "Arbiter.ContactPointSet others", e.Instr.Pos(), "point %d is changed by another contact", k)
			}
		}
		c.ob(implies(f, cov), rule, "Arbiter.ContactPointSet", pos, "the points are not filled in")
	})
	c.part("Arbiter.SetContactPointSet", func() {
		name := "Arbiter.SetContactPointSet"
		s := c.sum(name, "orient", Config{NoEnter: true})
		arb, set := s.Params[0], s.Params[1]
		pos := s.Fn.Pos()
		f := AndAll(s.G, s.Assume, notNil(arb), notNil(set))
		sw := toBDD(get(s.Entry, arb, "swapped"))
		n := getV(s.Entry, set, "Normal")
		now := getV(s.Mem, arb, "n")
		c.ob(now.eq(n, And(f, Not(sw))) && now.eq(n.neg(), And(f, sw)), rule, name+" normal", pos, "the normal set is not taken as pointing from the first shape to the second")
		cov := bddFalse
		for _, e := range s.Events {
			if e.Kind != "loop" || e.Loop.Back == nil {
				continue
			}
			l := e.Loop
			var r1 *Event
			for _, b := range l.Events {
				if b.Kind == "store" && locClass(b.Loc) == "Contact.r1" {
					r1 = b
				}
			}
			if r1 == nil {
				continue
			}
			i := indexOf(r1.Loc)
			con := ownerOfLoc(r1.Loc, "Contact.r1")
			msg := visitsIndexed(e, i, get(l.Entry, set, "Count"), AndAll(l.Assume, CondEq(get(l.Entry, set, "Count"), get(l.Entry, arb, "count"))))
			c.ob(msg == "", rule, name+" all", e.Instr.Pos(), "not every contact is set: %s", msg)
			want := contactAt(get(l.Iter, arb, "contacts"), i, nil)
			c.ob(con != nil && con == want, rule, name+" contact", e.Instr.Pos(), "the contacts set are not the arbiter's")
			if con == nil {
				continue
			}
			cov = Or(cov, e.Guard)
			var pt [2]V2
			for k, q := range []string{"PointA", "PointB"} {
				pt[k] = setPoint(l, set, i, q)
			}
			m := l.Iter
			pa, pb := getV(m, get(m, arb, "body_a"), "p"), getV(m, get(m, arb, "body_b"), "p")
			a, b := getV(l.Back, con, "r1"), getV(l.Back, con, "r2")
			for _, o := range []struct {
				g    *BDD
				x, y V2
			}{{Not(sw), pt[0], pt[1]}, {sw, pt[1], pt[0]}} {
				g := AndAll(l.Assume, l.BackG, o.g)
				c.ob(a.eq(o.x.sub(pa), g) && b.eq(o.y.sub(pb), g), rule, name+" points", e.Instr.Pos(), "the points set are not taken as those of the first, then of the second shape: %s", short(a.x))
			}
		}
		c.ob(implies(f, cov), rule, name, pos, "the points set are not used")
	})
	c.atLeast(rule, 20)

	rule = "a body's collisions"
	name := "Body.EachArbiter"
	c.part(name, func() {
		s := c.sum(name, "orient", Config{NoEnter: true, KeepOnUser: func(cl string) bool {
			return cl == "Arbiter.swapped" || cl == "Arbiter.body_a" || cl == "Arbiter.body_b"
		}})
		body := s.Params[0]
		n := 0
		for _, e := range s.Events {
			if e.Kind != "loop" {
				continue
			}
			l := e.Loop
			for _, b := range l.Events {
				if b.Kind != "user" {
					continue
				}
				n++
				arb := b.Args[0]
				g := AndAll(l.Assume, b.Guard)
				msg := visitsList(e, arb, get(e.Mem, body, "arbiterList"), func(m *Mem, x *Term) *Term {
					return TIte(CondEq(get(m, x, "body_a"), body), get(m, x, "thread_a.next"), get(m, x, "thread_b.next"))
				}, bddTrue)
				c.ob(msg == "", rule, name+" all", e.Instr.Pos(), "not every collision of the body is visited: %s", msg)
				c.ob(implies(AndAll(l.Assume, l.BackG), b.Guard), rule, name+" each", b.Instr.Pos(), "a collision can be passed over")
				isB := CondEq(body, get(l.Iter, arb, "body_b"))
				isA := CondEq(body, get(l.Iter, arb, "body_a"))
				now := toBDD(get(b.Mem, arb, "swapped"))
				g = AndAll(g, Or(isA, isB), Not(And(isA, isB)))
				c.ob(sameCond(now, isB, g), rule, name+" orientation", b.Instr.Pos(), "the body's own shape is not reported first")
				c.ob(sameCond(toBDD(get(l.Back, arb, "swapped")), toBDD(get(l.Iter, arb, "swapped")), AndAll(g, l.BackG)), rule, name+" restored", b.Instr.Pos(), "the orientation the handlers see is changed")
			}
		}
		c.ob(n == 1, rule, name, s.Fn.Pos(), "%d calls for the collisions of the body were found", n)
	})
	c.atLeast(rule, 4)
}

// contactAt: the contact with index i in a list, as an address seen in t (or built).
func contactAt(list, i, t *Term) *Term {
	if t == nil {
		return TIndexAddr(list, i, list.typ.Underlying().(*types.Slice).Elem())
	}
	var r *Term
	walkTerm(t, func(u *Term) {
		if u.op == OIndex && u.args[1] == i && u.args[0] == list {
			r = u
		}
	})
	return r
}

// setPoint: the point of a contact point set with index i.
func setPoint(l *LoopInfo, set, i *Term, which string) V2 {
	a, t := addrPath(l.Iter, set, set.typ, "Points")
	el := t.Underlying().(*types.Array).Elem()
	base := TIndexAddr(a, i, el)
	x, _ := addrPath(l.Iter, base, el, which+".X")
	y, _ := addrPath(l.Iter, base, el, which+".Y")
	return V2{l.Iter.Load(x, tyFloat), l.Iter.Load(y, tyFloat)}
}

func init() {
	register(&Check{ID: "C16", Run: checkC16, Assume: []string{"stamps do not wrap around", "callbacks leave the arbiter's shapes alone"},
		Explanation: "Guarded value summaries of the collision functions: under which conditions each callback is called, with what arguments and in which state, and what is done with its result."})
	register(&Check{ID: "C17", Run: checkC17, Assume: []string{"an arbiter's bodies are those of its shapes, two different ones"},
		Explanation: "Guarded value summaries of the arbiter's accessors and of the functions that call handlers or visit a body's arbiters, compared with one definition of which shape comes first."})
}
