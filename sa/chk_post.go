package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// C03: post-step callbacks.

func opaqueSet(names ...string) func(fn *ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(fn *ssa.Function) bool { return m[fname(fn)] }
}

func checkC03(c *Ctx) {
	rule := "queueing"
	name := "Space.AddPostStepCallback"
	c.part(name, func() {
		s := c.sum(name, "post", Config{NoEnter: true})
		sp, f, key, data := s.Params[0], s.Params[1], s.Params[2], s.Params[3]
		pos := s.Fn.Pos()
		list := get(s.Entry, sp, "postStepCallbacks")
		noKey := CondEq(key, TNilOf(key.typ))
		ret := s.Ret
		isTrue := toBDD(ret)
		var app []*Event
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind == "store" && locClass(e.Loc) == "Space.postStepCallbacks" {
				app = append(app, e)
				if len(ls) > 0 {
					c.fail(rule, name, e.Instr.Pos(), "the queue is changed while it is searched")
				}
			}
		})
		if len(app) == 0 {
			c.fail("coverage", name, pos, "nothing is queued")
			return
		}
		queued := bddFalse
		for _, e := range app {
			queued = Or(queued, e.Guard)
		}
		f0 := And(s.G, s.Assume)
		c.ob(implies(And(f0, noKey), queued) && implies(And(f0, noKey), isTrue), rule, name+" without a key", pos, "a callback without a key is not always queued and accepted")
		c.ob(!sat(AndAll(f0, queued, Not(isTrue))) && !sat(AndAll(f0, Not(queued), isTrue)), rule, name+" result", pos, "the result does not tell whether the callback was queued")
		// the search for the key
		nLoop := 0
		for _, e := range s.Events {
			if e.Kind != "loop" {
				continue
			}
			l := e.Loop
			var el *Term
			for _, x := range l.Exits {
				sup := map[int]bool{}
				bddSupport(x.Guard, sup)
				for i := range sup {
					v := bddVars[i]
					walkTerm(v, func(t *Term) {
						if t.op == OLoad && locClass(t.args[0]) == "PostStepCallback.key" {
							el = ownerOfLoc(t.args[0], "PostStepCallback.key")
						}
					})
				}
			}
			if el == nil {
				continue
			}
			nLoop++
			same := CondEq(get(l.Iter, el, "key"), key)
			lw := *e
			lw.Loop = withoutExits(l, same)
			msg := visitsIndexed(&lw, indexOf(el), TLen(list), bddTrue)
			c.ob(msg == "", rule, name+" every queued key", e.Instr.Pos(), "not every queued callback is compared: %s", msg)
			notNil := Not(CondEq(el, TNilOf(el.typ)))
			c.ob(!sat(AndAll(l.Assume, l.BackG, same, notNil)), rule, name+" same key", e.Instr.Pos(), "the search goes past a callback with the same key")
			for _, x := range l.Exits {
				fx := AndAll(f0, Not(noKey), x.Sel, x.Guard, notNil)
				if implies(And(x.Guard, l.Assume), same) {
					c.ob(!sat(And(fx, queued)) && !sat(And(fx, isTrue)), rule, name+" rejects", e.Instr.Pos(), "a callback whose key is queued already is accepted")
				} else {
					c.ob(implies(AndAll(f0, Not(noKey), x.Sel, x.Guard), queued), rule, name+" accepts", e.Instr.Pos(), "a callback with a new key is not queued")
				}
			}
		}
		c.ob(nLoop == 1, rule, name+" search", pos, "%d searches of the queued keys were found", nLoop)
		for _, e := range app {
			old := get(e.Mem, sp, "postStepCallbacks")
			ok := e.Val.op == OApp && e.Val.name == "append" && len(e.Val.args) == 2 && proveEq(e.Val.args[0], old, e.Guard)
			c.ob(ok, rule, name+" order", e.Instr.Pos(), "the callback is not put behind the ones queued before: %s", short(e.Val))
			if !ok {
				continue
			}
			cb := e.Val.args[1]
			g := And(f0, e.Guard)
			c.ob(proveEq(get(s.Mem, cb, "key"), key, g), rule, name+" key", e.Instr.Pos(), "the key kept is %s", short(get(s.Mem, cb, "key")))
			c.ob(proveEq(get(s.Mem, cb, "data"), data, g), rule, name+" data", e.Instr.Pos(), "the data kept is %s", short(get(s.Mem, cb, "data")))
			c.ob(proveEq(get(s.Mem, cb, "callback"), f, And(g, Not(CondEq(f, TNilOf(f.typ))))), rule, name+" function", e.Instr.Pos(), "the function kept is %s", short(get(s.Mem, cb, "callback")))
		}
	})
	c.atLeast(rule, 10)

	rule2 := "draining"
	name = "Space.Unlock"
	c.part(name, func() {
		s := c.sum(name, "post", Config{NoEnter: true, Opaque: opaqueSet("Space.Activate"), KeepOnUser: func(cl string) bool { return cl == "Space.skipPostStep" || cl == "Space.locked" }})
		sp, run := s.Params[0], s.Params[1]
		outer := AndAll(CondEq(get(s.Entry, sp, "locked"), TInt(1)), toBDD(run), Not(toBDD(get(s.Entry, sp, "skipPostStep"))))
		var le *Event
		n := 0
		var call *Event
		for _, e := range s.Events {
			if e.Kind == "loop" {
				for _, b := range e.Loop.Events {
					if b.Kind == "user" && b.Name == "PostStepCallback.callback" {
						le, call = e, b
						n++
					}
				}
			}
		}
		if n != 1 {
			c.fail("coverage", name, s.Fn.Pos(), "%d loops calling the queued callbacks were found", n)
			return
		}
		l := le.Loop
		pos := call.Instr.Pos()
		msg := ""
		if el := ownerOfCallee(call.Callee); el == nil {
			msg = "the callback called is not resolved"
		} else {
			list := get(l.Iter, sp, "postStepCallbacks")
			idx := indexOf(el)
			msg = visitsIndexed(le, idx, TLen(list), bddTrue)
			if msg == "" && proveEq(backOf(l, idx), TSub(idx, TInt(1)), And(l.Assume, l.BackG)) {
				msg = "they are called last to first"
			}
			var idxList *Term
			if len(el.args) > 0 && el.op == OLoad {
				idxList = el.args[0]
			}
			c.ob(idxList != nil && idxList.op == OIndex && proveEq(idxList.args[0], list, bddTrue), rule2, name+" queue", pos, "the callbacks called are not the queued ones: %s", short(el))
			g := And(l.Assume, call.Guard)
			c.ob(proveEq(call.Args[0], sp, g) && proveEq(call.Args[1], get(l.Iter, el, "key"), g) && proveEq(call.Args[2], get(l.Iter, el, "data"), g), rule2, name+" arguments", pos, "a callback is not called with the space, its key and its data")
			nonNil := Not(CondEq(get(l.Iter, el, "callback"), TNilOf(call.Callee.typ)))
			c.ob(implies(AndAll(l.Assume, l.BackG, nonNil), call.Guard), rule2, name+" every callback", pos, "a queued callback can be passed over without being called")
		}
		c.ob(msg == "", rule2, name+" in order", pos, "not every callback is called once, in order, those queued meanwhile included: %s", msg)
		c.ob(implies(outer, le.Guard) && implies(le.Guard, outer), rule2, name+" when", pos, "the callbacks are called when %s", shortB(le.Guard))
		g := AndAll(s.G, outer, s.Assume)
		c.ob(proveEq(TLen(get(s.Mem, sp, "postStepCallbacks")), TInt(0), g), rule2, name+" emptied", pos, "the queue is not empty afterwards: %s", short(get(s.Mem, sp, "postStepCallbacks")))
		c.ob(proveEq(get(s.Mem, sp, "skipPostStep"), TBool(bddFalse), g), rule2, name+" guard", pos, "the guard against nesting stays set")
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind == "store" && locClass(e.Loc) == "Space.postStepCallbacks" {
				c.ob(len(ls) == 0 && implies(e.Guard, outer) && e.Seq > le.Seq, rule2, name+" queue kept", e.Instr.Pos(), "queued callbacks are dropped before they are called")
			}
		})
	})
	c.atLeast(rule2, 7)

	rule3 := "drained at the end"
	nOps := 0
	for _, fn := range spaceOps(c) {
		nm := fname(fn)
		if nm == "Space.Lock" || nm == "Space.Unlock" {
			continue
		}
		c.part(nm, func() {
			if eff := c.p.eff.of(fn); eff == nil || !eff.TW["Space.locked"] && !eff.TDyn {
				return
			}
			f := newLockFlow(c, rule3)
			f.root = nm
			outs := f.Run(fn, lockState{})
			c.sites += f.steps
			for k := range f.Funcs {
				c.seen[k] = true
			}
			late, drained := false, false
			for _, o := range outs {
				late = late || o.(lockState).late
				drained = drained || o.(lockState).drained
			}
			if late || drained {
				nOps++
				c.ob(!late, rule3, nm, fn.Pos(), "it can return with queued callbacks not called")
			}
			if nm == "Space.Step" {
				for _, k := range sortedKeysI(f.relock) {
					c.fail(rule3, k, f.relock[k].Pos(), "callbacks can run in the middle of a step: the space is locked again after they ran")
				}
				c.ob(len(f.relock) == 0, rule3, nm+" not in the middle", fn.Pos(), "callbacks can run in the middle of a step")
			}
		})
	}
	if nOps < 8 {
		c.fail("coverage", rule3, token.NoPos, "only %d operations that run callbacks at their end were found", nOps)
	}
	// nothing else takes callbacks off the queue
	rule4 := "queue owners"
	for _, fn := range c.p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || addrClassOf(fa) != "Space.postStepCallbacks" || fresh(fa.X) {
					continue
				}
				reach := c.onlyWithin(fn, map[string]bool{"Space.AddPostStepCallback": true, "Space.Unlock": true})
				c.ob(reach, rule4, fname(fn), in.Pos(), "the queue is also changed outside of queueing and draining")
			}
		}
	}
	c.atLeast(rule4, 2)
}

// onlyWithin: fn is one of the named functions or an unexported helper all of
// whose static callers are.
func (c *Ctx) onlyWithin(fn *ssa.Function, names map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if names[fname(fn)] {
			return true
		}
		if seen[fn] {
			return true
		}
		seen[fn] = true
		if fn.Parent() != nil {
			return rec(fn.Parent())
		}
		if isExportedFn(fn) {
			return false
		}
		n := 0
		for _, g := range c.p.All {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
						n++
						if !rec(g) {
							return false
						}
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(fn) {
							return false
						}
					}
				}
			}
		}
		return n > 0 || fn.Synthetic != "" && !c.invoked(fn.Name())
	}
	return rec(fn)
}

// ownerOfCallee: the object whose function field is called.
func ownerOfCallee(t *Term) *Term {
	if t == nil || t.op != OLoad {
		return nil
	}
	return ownerOfLoc(t.args[0], locClass(t.args[0]))
}

// backOf: a term at the end of an iteration.
func backOf(l *LoopInfo, t *Term) *Term {
	m := map[*Term]*Term{}
	for _, p := range l.Phis {
		if p.Back != nil {
			m[p.Var] = p.Back
		}
	}
	return subst(t, m)
}

func sortedKeysI(m map[string]ssa.Instruction) []string {
	k := map[string]bool{}
	for x := range m {
		k[x] = true
	}
	return sortedSet(k)
}

func init() {
	register(&Check{ID: "C03", Run: checkC03, Assume: []string{"user callbacks leave the lock count as they found it", "one space at a time"},
		Explanation: "Guarded value summaries of queueing and draining (which callbacks are accepted, which the drain loop visits and with what), and typestate analysis of the lock count: every operation that releases the space drains the queue at its end, and a step does not drain in the middle."})
}

// invoked: a method of this name is called through an interface somewhere.
func (c *Ctx) invoked(name string) bool {
	for _, g := range c.p.All {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == name {
					return true
				}
			}
		}
	}
	return false
}
