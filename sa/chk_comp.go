package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// C38: a component falls asleep only when all of it has been idle.
// C39: the lists of contacts are well linked.

// loopOver: the loop of this level over the list, together with its element.
func loopOver(evs []*Event, list *Term, has func(l *LoopInfo) *Term, f *BDD) (e *Event, el *Term, why string, n int) {
	for _, x := range evs {
		if x.Kind != "loop" {
			continue
		}
		el2 := has(x.Loop)
		if el2 == nil {
			continue
		}
		n++
		lst, i := elemOfList(el2)
		if lst == nil || lst != list && !proveEq(lst, list, And(f, x.Loop.Assume)) {
			why = "the elements are those of " + short(el2)
			continue
		}
		if msg := visitsIndexed(x, i, TLen(lst), f); msg != "" {
			why = msg
			continue
		}
		e, el = x, el2
	}
	return
}

func kinematicBody(m *Mem, b *Term) *BDD {
	return AndAll(Not(CondEq(get(m, b, "sleepingIdleTime"), TMaxF())), CondEq(get(m, b, "m"), TMaxF()))
}

func sleepingBody(m *Mem, b *Term) *BDD { return notNil(get(m, b, "sleepingRoot")) }

func (c *Ctx) compSum() *Summary {
	name := "Space.ProcessComponents"
	return c.sum(name, "comp", Config{NoEnter: true,
		Opaque:   opaqueSet("Body.Activate", "FloodFillComponent", "ComponentActive", "Space.Deactivate", "Body.PushArbiter", "Arbiter.Unthread"),
		KeepUser: keepAll,
		KeepOn: func(fn *ssa.Function, class string) bool {
			switch fname(fn) {
			case "Body.Activate", "Space.Deactivate": // C06
				return class != "Space.dynamicBodies"
			case "Body.PushArbiter", "Arbiter.Unthread": // C39
				return true
			}
			return false
		}})
}

func checkC38(c *Ctx) {
	name := "Space.ProcessComponents"
	rule := "idle time"
	c.part(name, func() {
		s := c.compSum()
		sp, dt, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		m := s.Entry
		sleep := Not(CondEq(get(m, sp, "SleepTimeThreshold"), TMaxF()))
		f := And(s.G, sleep)
		off := And(s.G, Not(sleep))

		// no sleeping, no change
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			bad := false
			switch e.Kind {
			case "call":
				bad = e.Name == "Body.Activate" || e.Name == "FloodFillComponent" || e.Name == "Space.Deactivate"
			case "store":
				switch locClass(e.Loc) {
				case "Body.sleepingIdleTime", "Body.sleepingRoot", "Body.sleepingNext", "Space.sleepingComponents":
					bad = true
				}
			default:
				return
			}
			if !bad {
				return
			}
			x := And(off, e.Guard)
			for _, l := range ls {
				x = And(x, loopEvent(s.Events, l).Guard)
			}
			c.ob(!sat(x), "sleep switched off", name+" "+e.Kind+" "+e.Name, e.Instr.Pos(), "it happens without a SleepTimeThreshold too")
		})

		// the idle time of every body
		e, el, why, n := loopOver(s.Events, get(m, sp, "dynamicBodies"), func(l *LoopInfo) *Term {
			for _, st := range storesTo(l.Events, "Body.sleepingIdleTime") {
				if o := ownerOfLoc(st.Loc, "Body.sleepingIdleTime"); o != nil && o.op == OLoad {
					return o
				}
			}
			return nil
		}, f)
		if c.ob(n == 1 && e != nil, rule, name+" loop", pos, "%d loops update idle times; %s", n, why) {
			l := e.Loop
			c.ob(implies(f, e.Guard), rule, name+" always", e.Instr.Pos(), "idle times are updated only when %s", shortB(e.Guard))
			in := AndAll(f, l.Assume, l.BackG, notNil(el))
			dyn := dynamicBody(l.Iter, el)
			ids := get(m, sp, "IdleSpeedThreshold")
			g := vec(get(m, sp, "gravity"))
			dvsq := TIte(condEq0(ids, false), TMul(TMul(g.dot(g), dt), dt), TMul(ids, ids))
			mass := get(l.Iter, el, "m")
			thr := TIte(condEq0(dvsq, false), TNum(0), TMul(mass, dvsq))
			v := vec(get(l.Iter, el, "v"))
			w := get(l.Iter, el, "w")
			vsq, wsq := v.dot(v), TMul(w, w)
			ke := TAdd(TIte(condEq0(vsq, false), TNum(0), TMul(vsq, mass)), TIte(condEq0(wsq, false), TNum(0), TMul(wsq, get(l.Iter, el, "i"))))
			old := get(l.Iter, el, "sleepingIdleTime")
			now := get(l.Back, el, "sleepingIdleTime")
			moves := CondLt(thr, ke, false)
			c.ob(proveEq(now, TNum(0), AndAll(in, dyn, moves)), rule, name+" moving", e.Instr.Pos(), "a body that moves has the idle time %s", short(now))
			c.ob(proveEq(now, TAdd(old, dt), AndAll(in, dyn, Not(moves))), rule, name+" idle", e.Instr.Pos(), "a body that hardly moves has the idle time %s", short(now))
			c.ob(proveEq(now, old, AndAll(in, Not(dyn))), rule, name+" not dynamic", e.Instr.Pos(), "the idle time of a body that is not dynamic changes")
		}
		c.atLeast(rule, 5)

		// contacts and joints keep bodies awake
		ends := func(rule, list, na, nb string, wake func(m *Mem, x, other *Term) *BDD, f *BDD) {
			e, el, why, n := loopOver(s.Events, get(m, sp, list), func(l *LoopInfo) *Term {
				for _, x := range eventsOf(l.Events, "call", "Body.Activate") {
					if a := x.Args[0]; a.op == OLoad && a.args[0].op == OField && typeBaseOf(a.args[0].args[0].typ) != "" {
						o := a.args[0].args[0]
						if lst, _ := elemOfList(o); lst == get(m, sp, list) {
							return o
						}
					}
				}
				return nil
			}, f)
			if !c.ob(n == 1 && e != nil, rule, name+" "+list, pos, "%d loops wake up bodies; %s", n, why) {
				return
			}
			l := e.Loop
			c.ob(implies(f, e.Guard), rule, name+" "+list+" always", e.Instr.Pos(), "this is done only when %s", shortB(e.Guard))
			in := AndAll(f, l.Assume, l.BackG, notNil(el))
			A, B := get(l.Iter, el, na), get(l.Iter, el, nb)
			in = AndAll(in, notNil(A), notNil(B))
			ga, gb := bddFalse, bddFalse
			for _, x := range eventsOf(l.Events, "call", "Body.Activate") {
				y := And(in, x.Guard)
				toA, toB := proveEq(x.Args[0], A, y), proveEq(x.Args[0], B, y)
				c.ob(toA || toB, rule, name+" "+list+" body", x.Instr.Pos(), "a body is woken up that has nothing to do with it: %s", short(x.Args[0]))
				if toA {
					ga = Or(ga, x.Guard)
				} else if toB {
					gb = Or(gb, x.Guard)
				}
			}
			wa, wb := wake(l.Iter, A, B), wake(l.Iter, B, A)
			c.ob(sameCond(ga, wa, in), rule, name+" "+list+" first", pos, "the first body is kept awake when %s, expected when %s", shortB(ga), shortB(wa))
			c.ob(sameCond(gb, wb, in), rule, name+" "+list+" second", pos, "the second body is kept awake when %s, expected when %s", shortB(gb), shortB(wb))
		}
		ends("kept awake by contacts", "arbiters", "body_a", "body_b", func(m *Mem, x, other *Term) *BDD {
			return Or(kinematicBody(m, other), sleepingBody(m, x))
		}, f)
		c.atLeast("kept awake by contacts", 5)
		ends("kept awake by joints", "constraints", "a", "b", func(m *Mem, x, other *Term) *BDD {
			return kinematicBody(m, other)
		}, f)
		c.atLeast("kept awake by joints", 5)

		// the components
		rule := "components"
		var L *Event
		nl := 0
		for _, x := range s.Events {
			if x.Kind == "loop" && len(eventsOf(x.Loop.Events, "call", "FloodFillComponent")) > 0 {
				L = x
				nl++
			}
		}
		if !c.ob(nl == 1, rule, name+" loop", pos, "%d loops look for components", nl) {
			return
		}
		l := L.Loop
		c.ob(implies(f, L.Guard), rule, name+" always", L.Instr.Pos(), "components are looked for only when %s", shortB(L.Guard))
		ff := eventsOf(l.Events, "call", "FloodFillComponent")
		if !c.ob(len(ff) == 1, rule, name+" fills", pos, "%d calls mark components", len(ff)) {
			return
		}
		body := ff[0].Args[0]
		lst, i := elemOfList(body)
		var ph *PhiInfo
		for _, p := range l.Phis {
			if p.Var == i {
				ph = p
			}
		}
		if !c.ob(lst != nil && ph != nil && lst == get(l.Iter, sp, "dynamicBodies") && ff[0].Args[1] == body, rule, name+" element", ff[0].Instr.Pos(), "the component marked is that of %s from %s", short(ff[0].Args[1]), short(body)) {
			return
		}
		in := AndAll(f, l.Assume, notNil(body))
		c.ob(proveEq(ph.Init, TInt(0), And(f, L.Guard)), rule, name+" from the first", L.Instr.Pos(), "the search begins at body %s", short(ph.Init))
		for _, x := range l.Exits {
			c.ob(!sat(And(x.Guard, in)) || implies(And(x.Guard, in), CondLe(TLen(lst), i, true)), rule, name+" to the last", L.Instr.Pos(), "the search ends at body %s (when %s)", short(i), shortB(x.Guard))
		}
		fresh := Not(notNil(get(l.Iter, body, "sleepingRoot")))
		c.ob(sameCond(ff[0].Guard, fresh, And(in, l.BackG)), rule, name+" fills when", ff[0].Instr.Pos(), "a component is marked when %s", shortB(ff[0].Guard))
		ca := eventsOf(l.Events, "call", "ComponentActive")
		if !c.ob(len(ca) == 1 && ca[0].Seq > ff[0].Seq, rule, name+" asks", pos, "%d calls ask whether a component is active, after it is marked", len(ca)) {
			return
		}
		c.ob(proveEq(ca[0].Args[0], body, in) && proveEq(ca[0].Args[1], get(m, sp, "SleepTimeThreshold"), in), rule, name+" asks for", ca[0].Instr.Pos(), "it is asked whether %s is active for %s", short(ca[0].Args[0]), short(ca[0].Args[1]))
		c.ob(implies(And(in, ca[0].Guard), fresh), rule, name+" asks when", ca[0].Instr.Pos(), "it is asked when %s", shortB(ca[0].Guard))
		c.ob(implies(AndAll(in, l.BackG, fresh), ca[0].Guard), rule, name+" asks always", ca[0].Instr.Pos(), "it is asked only when %s", shortB(ca[0].Guard))
		idle := And(fresh, Not(toBDD(ca[0].Result)))
		c.listBecomes(rule, name, l.Events, sp, "sleepingComponents", body, And(in, l.BackG), bddFalse, idle, pos)
		if w := c.oneWalk(rule, name+" component", l.Events, "Body", body, func(m *Mem, x *Term) *Term { return get(m, x, "sleepingNext") }, AndAll(in, l.BackG, idle), pos); w != nil {
			g := bddFalse
			for _, x := range eventsOf(w.L.Events, "call", "Space.Deactivate") {
				y := And(w.In, x.Guard)
				c.ob(proveEq(x.Args[0], sp, y) && proveEq(x.Args[1], w.El, y), rule, name+" sets aside", x.Instr.Pos(), "what falls asleep is %s", short(x.Args[1]))
				c.ob(!sat(And(y, g)), rule, name+" sets aside once", x.Instr.Pos(), "it is done twice")
				g = Or(g, x.Guard)
			}
			c.ob(implies(w.In, g), rule, name+" sets aside each", pos, "a body of the component falls asleep only when %s", shortB(g))
			c.ob(!sat(AndAll(in, l.BackG, w.E.Guard, Not(idle))), rule, name+" sets aside when", w.E.Instr.Pos(), "a component falls asleep when %s", shortB(w.E.Guard))
		}
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind == "call" && e.Name == "Space.Deactivate" {
				c.ob(len(ls) == 2 && ls[0] == l, rule, name+" sleep", e.Instr.Pos(), "bodies fall asleep elsewhere")
			}
		})
		stay := AndAll(in, l.BackG, idle)
		go_ := AndAll(in, l.BackG, Not(idle))
		nilB := TNilOf(body.typ)
		c.ob(proveEq(ph.Back, i, stay), rule, name+" next after sleep", L.Instr.Pos(), "when a component fell asleep the search goes on at %s", short(ph.Back))
		c.ob(proveEq(ph.Back, TAdd(i, TInt(1)), go_), rule, name+" next", L.Instr.Pos(), "the search goes on at %s", short(ph.Back))
		for _, fl := range []string{"sleepingRoot", "sleepingNext"} {
			c.ob(proveEq(get(l.Back, body, fl), nilB, go_), rule, name+" unmarked "+fl, L.Instr.Pos(), "a body that stays awake keeps its %s", fl)
			for _, st := range storesTo(l.Events, "Body."+fl) {
				c.ob(!sat(And(stay, st.Guard)), rule, name+" marked "+fl, st.Instr.Pos(), "a body that fell asleep loses its %s", fl)
				c.ob(st.Loc == addrOf(st.Mem, body, fl), rule, name+" others "+fl, st.Instr.Pos(), "another body's %s is changed", fl)
			}
		}
		// in this order
		var order []int
		for _, x := range s.Events {
			if x.Kind != "loop" {
				continue
			}
			k := -1
			switch {
			case x == L:
				k = 3
			case len(storesTo(x.Loop.Events, "Body.sleepingIdleTime")) > 0:
				k = 0
			case len(eventsOf(x.Loop.Events, "call", "Body.Activate")) > 0:
				k = 1
			}
			if k >= 0 {
				order = append(order, k)
			}
		}
		ok := true
		for k := 1; k < len(order); k++ {
			ok = ok && order[k] >= order[k-1]
		}
		c.ob(ok, rule, name+" order", pos, "idle times, wake-ups and the search for components are not in this order")
		c.onlyTouches(rule, name, s, s.G, "Body Space Shape Arbiter ArbiterThread Constraint", "Body.sleepingIdleTime Body.sleepingRoot Body.sleepingNext Space.sleepingComponents Body.arbiterList Arbiter.thread_a Arbiter.thread_b ArbiterThread.next ArbiterThread.prev")
	})
	c.atLeast("components", 20)

	rule = "marking a component"
	c.part("FloodFillComponent", func() {
		name := "FloodFillComponent"
		s := c.sum(name, "comp", Config{NoEnter: true, Opaque: opaqueSet("FloodFillComponent"), KeepUser: keepAll})
		root, body, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		dyn := dynamicBody(s.Entry, body)
		new_ := Not(notNil(get(s.Entry, body, "sleepingRoot")))
		f := And(s.G, notNil(body))
		for _, e := range s.Events {
			if e.Kind == "assert" {
				continue
			}
			c.ob(!sat(AndAll(f, e.Guard, Not(And(dyn, new_)))), rule, name+" skips "+e.Kind, e.Instr.Pos(), "something happens for bodies that are not dynamic or already marked")
		}
		in := AndAll(f, dyn, new_)
		walk := func(what, typ, list, end, other, na, nb string) {
			w := c.oneWalk(rule, name+" "+what, s.Events, typ, get(s.Entry, body, list), nextOf(body, end, na, nb), in, pos)
			if w == nil {
				return
			}
			A, B := get(w.L.Iter, w.El, end), get(w.L.Iter, w.El, other)
			to := TIte(CondEq(A, body), B, A)
			g := bddFalse
			for _, x := range eventsOf(w.L.Events, "call", name) {
				y := And(w.In, x.Guard)
				c.ob(proveEq(x.Args[0], root, y) && proveEq(x.Args[1], to, y), rule, name+" "+what+" goes on", x.Instr.Pos(), "the search goes on at %s for %s", short(x.Args[1]), short(x.Args[0]))
				g = Or(g, x.Guard)
			}
			c.ob(implies(w.In, g), rule, name+" "+what+" each", pos, "the search goes on through %s only when %s", what, shortB(g))
		}
		walk("contacts", "Arbiter", "arbiterList", "body_a", "body_b", "thread_a.next", "thread_b.next")
		walk("joints", "Constraint", "constraintList", "a", "b", "next_a", "next_b")
		var first *Event
		for _, e := range s.Events {
			if first == nil && (e.Kind == "loop" || e.Kind == "call") {
				first = e
			}
		}
		if c.ob(first != nil, rule, name+" search", pos, "no search") {
			m := first.Mem
			same := CondEq(body, root)
			c.ob(proveEq(get(m, body, "sleepingRoot"), root, in), rule, name+" root", pos, "the body is marked with %s", short(get(m, body, "sleepingRoot")))
			x := And(in, Not(same))
			c.ob(proveEq(get(m, root, "sleepingNext"), body, x), rule, name+" link", pos, "the root is linked to %s", short(get(m, root, "sleepingNext")))
			c.ob(proveEq(get(m, body, "sleepingNext"), get(s.Entry, root, "sleepingNext"), x), rule, name+" link on", pos, "the body is linked to %s", short(get(m, body, "sleepingNext")))
			c.ob(proveEq(get(m, root, "sleepingNext"), get(s.Entry, root, "sleepingNext"), And(in, same)), rule, name+" root link", pos, "the root is linked to itself")
		}
		c.onlyTouches(rule, name, s, s.G, "Body Space Shape Arbiter ArbiterThread Constraint", "Body.sleepingRoot Body.sleepingNext")
	})
	c.atLeast(rule, 12)

	rule = "idle long enough"
	c.part("ComponentActive", func() {
		name := "ComponentActive"
		s := c.sum(name, "comp", Config{NoEnter: true})
		root, thr, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		var L *Event
		var el *Term
		why := ""
		active := func(m *Mem, x *Term) *BDD { return CondLt(get(m, x, "sleepingIdleTime"), thr, false) }
		for _, e := range eventsOf(s.Events, "loop", "") {
			for _, p := range e.Loop.Phis {
				if typeBaseOf(p.Var.typ) != "Body" {
					continue
				}
				l2 := withoutExits(e.Loop, And(notNil(p.Var), active(e.Loop.Iter, p.Var)))
				e2 := *e
				e2.Loop = l2
				if why = visitsList(&e2, p.Var, root, func(m *Mem, x *Term) *Term { return get(m, x, "sleepingNext") }, s.G); why == "" {
					L, el = e, p.Var
				}
			}
		}
		if !c.ob(L != nil, rule, name+" walk", pos, "not every body of the component is looked at: %s", why) {
			return
		}
		l := L.Loop
		act := active(l.Iter, el)
		flag := foundFlag(l, act)
		if flag == bddFalse {
			c.ob(!sat(AndAll(l.Assume, l.BackG, notNil(el), act)), rule, name+" stops", pos, "an active body goes unnoticed")
		}
		for k, x := range l.Exits {
			sel := bddTrue
			if len(l.Exits) > 1 {
				for j, y := range l.Exits {
					if j != k {
						sel = And(sel, Not(y.Sel))
					}
				}
				sel = And(sel, x.Sel)
			}
			g := AndAll(s.G, sel)
			here := AndAll(l.Assume, x.Guard)
			switch {
			case implies(here, And(notNil(el), act)):
				c.ob(implies(AndAll(g, s.Assume), toBDD(s.Ret)), rule, name+" active", pos, "with an active body the answer is %s", short(s.Ret))
			case implies(here, Not(notNil(el))):
				c.ob(sameCond(toBDD(s.Ret), flag, And(g, s.Assume)), rule, name+" idle", pos, "with no active body the answer is %s", short(s.Ret))
			default:
				// one exit for both
				y := AndAll(g, s.Assume)
				c.ob(implies(And(y, notNil(el)), toBDD(s.Ret)) && !sat(AndAll(y, Not(notNil(el)), toBDD(s.Ret))) && implies(And(here, notNil(el)), act), rule, name+" answer", pos, "the answer is %s", short(s.Ret))
			}
		}
		c.ob(len(s.Events) == 1, rule, name+" pure", pos, "it does more than look")
	})
	c.part("Body.IsSleeping", func() {
		s := c.sum("Body.IsSleeping", "comp", Config{NoEnter: true})
		c.ob(sameCond(toBDD(s.Ret), sleepingBody(s.Entry, s.Params[0]), s.G) && len(s.Events) == 0, rule, "Body.IsSleeping", s.Fn.Pos(), "it answers %s", short(s.Ret))
	})
	c.atLeast(rule, 4)

	// nothing else puts bodies to sleep
	rule = "falls asleep nowhere else"
	c.part("writers", func() {
		may := map[string]map[string]bool{
			"Body.sleepingRoot":        {"Space.ProcessComponents": true, "FloodFillComponent": true, "Body.Activate": true, "Body.ComponentAdd": true},
			"Body.sleepingNext":        {"Space.ProcessComponents": true, "FloodFillComponent": true, "Body.Activate": true, "Body.ComponentAdd": true},
			"Space.sleepingComponents": {"Space.ProcessComponents": true, "Body.Activate": true, "NewSpace": true},
		}
		c.writersOnly(rule, may)
		for _, fn := range c.p.All {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(ssa.CallInstruction); ok {
						if cal := cl.Common().StaticCallee(); cal != nil && fname(cal) == "Space.Deactivate" {
							ok := fname(topFn(fn)) == name || c.onlyWithin(fn, map[string]bool{name: true})
							c.ob(ok, rule, "Space.Deactivate in "+fname(fn), in.Pos(), "bodies are put to sleep here")
						}
					}
				}
			}
		}
	})
	c.atLeast(rule, 5)
}

func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// writersOnly: the fields are stored to only by these functions and helpers
// used by nothing else (or for objects just made).
func (c *Ctx) writersOnly(rule string, may map[string]map[string]bool) {
	for _, fn := range c.p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				class := addrClassOf(fa)
				names, ok := may[class]
				if !ok {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				c.ob(names[fname(topFn(fn))] || c.onlyWithin(fn, names), rule, class+" in "+fname(fn), in.Pos(), "%s is changed here", class)
			}
		}
	}
}

// thread: one end of a contact's links.
func thread(m *Mem, arb, body *Term, f string) *Term {
	return TIte(CondEq(get(m, arb, "body_a"), body), get(m, arb, "thread_a."+f), get(m, arb, "thread_b."+f))
}

func checkC39(c *Ctx) {
	rule := "taken out of the lists"
	c.part("Arbiter.Unthread", func() {
		name := "Arbiter.Unthread"
		s := c.sum(name, "threads", Config{NoEnter: true})
		arb, pos := s.Params[0], s.Fn.Pos()
		A, B := get(s.Entry, arb, "body_a"), get(s.Entry, arb, "body_b")
		f := AndAll(s.G, notNil(A), notNil(B), Not(CondEq(A, B)))
		for _, x := range []struct {
			w    string
			body *Term
			t    string
		}{{"first", A, "thread_a."}, {"second", B, "thread_b."}} {
			prev, next := get(s.Entry, arb, x.t+"prev"), get(s.Entry, arb, x.t+"next")
			nilA := TNilOf(arb.typ)
			head0, head := get(s.Entry, x.body, "arbiterList"), get(s.Mem, x.body, "arbiterList")
			hasP, hasN := notNil(prev), notNil(next)
			c.ob(proveEq(thread(s.Mem, prev, x.body, "next"), next, And(f, hasP)), rule, name+" "+x.w+" before", pos, "the contact before it is linked to %s", short(thread(s.Mem, prev, x.body, "next")))
			c.ob(proveEq(thread(s.Mem, next, x.body, "prev"), prev, And(f, hasN)), rule, name+" "+x.w+" after", pos, "the contact after it is linked back to %s", short(thread(s.Mem, next, x.body, "prev")))
			c.ob(proveEq(head, next, AndAll(f, Not(hasP), CondEq(head0, arb))), rule, name+" "+x.w+" head", pos, "the list now begins with %s", short(head))
			c.ob(proveEq(head, head0, AndAll(f, Or(hasP, Not(CondEq(head0, arb))))), rule, name+" "+x.w+" other head", pos, "the list now begins with %s", short(head))
			c.ob(proveEq(get(s.Mem, arb, x.t+"prev"), nilA, f) && proveEq(get(s.Mem, arb, x.t+"next"), nilA, f), rule, name+" "+x.w+" itself", pos, "it stays linked itself")
			// the links for the other body stay
			for _, y := range []struct {
				o    *Term
				g    *BDD
				f, w string
			}{{prev, hasP, "next", "before"}, {next, hasN, "prev", "after"}} {
				for _, tt := range []string{"thread_a.", "thread_b."} {
					for _, ff := range []string{"next", "prev"} {
						mine := CondEq(get(s.Entry, y.o, "body_a"), x.body)
						if tt == "thread_b." {
							mine = Not(mine)
						}
						g := AndAll(f, y.g)
						if ff == y.f {
							g = And(g, Not(mine))
						}
						c.ob(proveEq(get(s.Mem, y.o, tt+ff), get(s.Entry, y.o, tt+ff), g), rule, name+" "+x.w+" "+y.w+" "+tt+ff, pos, "other links of the contact %s it change", y.w)
					}
				}
			}
		}
		c.onlyTouches(rule, name, s, f, "Body Space Shape Arbiter ArbiterThread Constraint", "Body.arbiterList Arbiter.thread_a Arbiter.thread_b ArbiterThread.next ArbiterThread.prev")
	})
	c.atLeast(rule, 26)

	rule = "put at the head of a list"
	c.part("Body.PushArbiter", func() {
		name := "Body.PushArbiter"
		s := c.sum(name, "threads", Config{NoEnter: true})
		body, arb, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := AndAll(s.G, notNil(arb), notNil(body))
		old := get(s.Entry, body, "arbiterList")
		g := And(f, Not(CondEq(old, arb)))
		c.ob(proveEq(get(s.Mem, body, "arbiterList"), arb, f), rule, name+" head", pos, "the list now begins with %s", short(get(s.Mem, body, "arbiterList")))
		c.ob(proveEq(thread(s.Mem, arb, body, "next"), old, g), rule, name+" next", pos, "the contact is linked to %s", short(thread(s.Mem, arb, body, "next")))
		c.ob(proveEq(thread(s.Mem, old, body, "prev"), arb, And(g, notNil(old))), rule, name+" prev", pos, "the contact after it is linked back to %s", short(thread(s.Mem, old, body, "prev")))
		for _, x := range []struct {
			o   *Term
			g   *BDD
			not string
			w   string
		}{{arb, g, "next", "it"}, {old, And(g, notNil(old)), "prev", "the one after it"}} {
			for _, tt := range []string{"thread_a.", "thread_b."} {
				for _, ff := range []string{"next", "prev"} {
					mine := CondEq(get(s.Entry, x.o, "body_a"), body)
					if tt == "thread_b." {
						mine = Not(mine)
					}
					h := x.g
					if ff == x.not {
						h = And(h, Not(mine))
					}
					c.ob(proveEq(get(s.Mem, x.o, tt+ff), get(s.Entry, x.o, tt+ff), h), rule, name+" "+x.w+" "+tt+ff, pos, "other links of %s change", x.w)
				}
			}
		}
		c.onlyTouches(rule, name, s, f, "Body Space Shape Arbiter ArbiterThread Constraint", "Body.arbiterList Arbiter.thread_a Arbiter.thread_b ArbiterThread.next ArbiterThread.prev")
	})
	c.atLeast(rule, 10)

	rule = "every contact in both lists"
	c.part("Space.ProcessComponents", func() {
		name := "Space.ProcessComponents"
		s := c.compSum()
		sp, pos := s.Params[0], s.Fn.Pos()
		f := s.G
		e, el, why, n := loopOver(s.Events, get(s.Entry, sp, "arbiters"), func(l *LoopInfo) *Term {
			for _, x := range eventsOf(l.Events, "call", "Body.PushArbiter") {
				return x.Args[1]
			}
			return nil
		}, f)
		if !c.ob(n == 1 && e != nil, rule, name+" loop", pos, "%d loops enter the contacts in the lists; %s", n, why) {
			return
		}
		l := e.Loop
		c.ob(implies(f, e.Guard), rule, name+" always", e.Instr.Pos(), "contacts are entered only when %s", shortB(e.Guard))
		in := AndAll(f, l.Assume, l.BackG, notNil(el))
		A, B := get(l.Iter, el, "body_a"), get(l.Iter, el, "body_b")
		ga, gb := bddFalse, bddFalse
		var un *Event
		for _, x := range eventsOf(l.Events, "call", "Arbiter.Unthread") {
			if implies(in, x.Guard) && proveEq(x.Args[0], el, in) && (un == nil || un.Seq > x.Seq) {
				un = x
			}
		}
		for _, x := range eventsOf(l.Events, "call", "Body.PushArbiter") {
			y := And(in, x.Guard)
			c.ob(x.Args[1] == el, rule, name+" contact", x.Instr.Pos(), "the contact entered is %s", short(x.Args[1]))
			c.ob(un != nil && un.Seq < x.Seq, rule, name+" free", x.Instr.Pos(), "a contact may be in the lists already (its body was woken up since the step began), and is not taken out first")
			switch {
			case proveEq(x.Args[0], A, y):
				c.ob(!sat(And(y, ga)), rule, name+" first once", x.Instr.Pos(), "twice")
				ga = Or(ga, x.Guard)
			case proveEq(x.Args[0], B, y):
				c.ob(!sat(And(y, gb)), rule, name+" second once", x.Instr.Pos(), "twice")
				gb = Or(gb, x.Guard)
			default:
				c.fail(rule, name+" body", x.Instr.Pos(), "it is entered in the list of %s", short(x.Args[0]))
			}
		}
		for _, x := range eventsOf(l.Events, "call", "Arbiter.Unthread") {
			for _, p := range eventsOf(l.Events, "call", "Body.PushArbiter") {
				c.ob(x.Seq < p.Seq, rule, name+" taken out later", x.Instr.Pos(), "it is taken out of the lists again")
			}
		}
		c.ob(implies(in, ga), rule, name+" first", pos, "a contact is entered in the list of its first body only when %s", shortB(ga))
		c.ob(implies(in, gb), rule, name+" second", pos, "a contact is entered in the list of its second body only when %s", shortB(gb))
		allEvents(s.Events, func(x *Event, ls []*LoopInfo) {
			if x.Kind == "call" && (x.Name == "Body.PushArbiter" || x.Name == "Arbiter.Unthread") {
				c.ob(len(ls) == 1 && ls[0] == l, rule, name+" elsewhere", x.Instr.Pos(), "contacts are entered or taken out elsewhere too")
			}
		})
		// the components are looked for afterwards
		for _, x := range s.Events {
			if x.Kind == "loop" && len(eventsOf(x.Loop.Events, "call", "FloodFillComponent")) > 0 {
				c.ob(x.Seq > e.Seq, rule, name+" order", x.Instr.Pos(), "components are looked for before the contacts are entered")
			}
		}
	})
	c.atLeast(rule, 8)

	rule = "links changed nowhere else"
	c.part("writers", func() {
		w := map[string]bool{"Arbiter.Unthread": true, "Body.PushArbiter": true}
		i := map[string]bool{"Arbiter.Unthread": true, "Body.PushArbiter": true, "Arbiter.Init": true}
		c.writersOnly(rule, map[string]map[string]bool{"ArbiterThread.next": i, "ArbiterThread.prev": i, "Arbiter.thread_a": i, "Arbiter.thread_b": i, "Body.arbiterList": w})
	})
	c.part("Arbiter.Init", func() {
		s := c.sum("Arbiter.Init", "threads", Config{NoEnter: true})
		for _, p := range []string{"thread_a.next", "thread_a.prev", "thread_b.next", "thread_b.prev"} {
			v := get(s.Mem, s.Params[0], p)
			c.ob(proveEq(v, TNilOf(v.typ), s.G), rule, "Arbiter.Init "+p, s.Fn.Pos(), "a new contact's %s is %s", p, short(v))
		}
	})
	c.part("Arbiter.Next", func() {
		for _, n := range []string{"Arbiter.Next", "Arbiter.ThreadForBody"} {
			s := c.sum(n, "threads", Config{NoEnter: true})
			arb, body := s.Params[0], s.Params[1]
			if n == "Arbiter.Next" {
				c.ob(proveEq(s.Ret, thread(s.Entry, arb, body, "next"), s.G), rule, n, token.NoPos, "it answers %s", short(s.Ret))
			} else {
				isA := CondEq(get(s.Entry, arb, "body_a"), body)
				c.ob(proveEq(s.Ret, addrOf(s.Entry, arb, "thread_a"), And(s.G, isA)) && proveEq(s.Ret, addrOf(s.Entry, arb, "thread_b"), And(s.G, Not(isA))), rule, n, token.NoPos, "it answers %s", short(s.Ret))
			}
		}
	})
	c.atLeast(rule, 8)
}

func init() {
	register(&Check{ID: "C38", Run: checkC38,
		Assume: []string{
			"Body.Activate and Space.Deactivate change what C06 says; here that is only the list of dynamic bodies",
			"entering contacts in the bodies' lists changes those lists only (C39)",
			"SleepTimeThreshold is positive",
		},
		Explanation: "guarded value summaries of the search for idle components: idle times, what keeps bodies awake, marking, the decision, and what falls asleep"})
	register(&Check{ID: "C39", Run: checkC39,
		Assume: []string{
			"the two bodies of a contact are different (C20)",
			"contacts reached through different links are different",
		},
		Explanation: "guarded value summaries of linking and unlinking contacts; typestate of a contact's links (free before it is entered)"})
}
