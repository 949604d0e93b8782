package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C34: what a step does, in which order, to which objects.

// stepOpaque: the operations a step is made of (exported API).
var stepOpaque = opaqueSet("Space.Activate", "Arbiter.Unthread", "Arbiter.PreStep", "Arbiter.ApplyCachedImpulse", "Arbiter.ApplyImpulse",
	"Space.ProcessComponents", "Space.PushFreshContactBuffer", "HashSet.Filter", "Body.IsSleeping", "Space.Lock", "Space.Unlock",
	"SpaceCollideShapesFunc", "SpaceArbiterSetFilter", "Shape.CacheBB", "Shape.Update")

type stepAct struct {
	what  string
	ev    *Event // the call
	loops []*Event
	elem  *Term // the object it is done to, if in a loop
}

func checkC34(c *Ctx) {
	rule := "step"
	name := "Space.Step"
	c.part(name, func() {
		s := c.sum(name, "step", Config{NoEnter: true, NoSub: true, Opaque: stepOpaque, KeepUser: func(e *Event, cl string) bool { return true }})
		sp, dt := s.Params[0], s.Params[1]
		pos := s.Fn.Pos()
		moving := Not(CondEq(dt, TNum(0)))

		// no time, nothing happens
		bad := ""
		for _, e := range s.Events {
			if e.Kind == "call" && e.Name == "Body.IsSleeping" {
				continue
			}
			if sat(AndAll(e.Guard, Not(moving))) {
				bad = e.Kind + " " + e.Name
				if e.Loc != nil {
					bad += short(e.Loc)
				}
			}
		}
		c.ob(bad == "", rule, name+" of no time", pos, "a step of zero time does something: %s", bad)
		g := AndAll(s.G, s.Assume, moving)
		c.ob(proveEq(get(s.Mem, sp, "stamp"), TAdd(get(s.Entry, sp, "stamp"), TInt(1)), g), rule, name+" stamp", pos, "the stamp after a step is %s", short(get(s.Mem, sp, "stamp")))
		c.ob(proveEq(get(s.Mem, sp, "curr_dt"), dt, g), rule, name+" dt", pos, "the time step kept is %s", short(get(s.Mem, sp, "curr_dt")))

		// everything done, with the loops around it
		acts := map[string][]*stepAct{}
		var rec func(evs []*Event, ls []*Event)
		rec = func(evs []*Event, ls []*Event) {
			for _, e := range evs {
				if e.Loop != nil {
					rec(e.Loop.Events, append(append([]*Event(nil), ls...), e))
				}
				what := ""
				switch e.Kind {
				case "call":
					what = e.Name
				case "user":
					what = e.Name
				case "invoke":
					if e.Recv != nil {
						what = typeName(e.Recv.typ) + "." + e.Name
					}
				case "store":
					if locClass(e.Loc) == "Arbiter.state" {
						what = "Arbiter.state"
					}
				}
				if what != "" {
					acts[what] = append(acts[what], &stepAct{what: what, ev: e, loops: ls})
				}
			}
		}
		rec(s.Events, nil)
		one := func(what string) *stepAct {
			if len(acts[what]) != 1 {
				c.fail("coverage", name+" "+what, pos, "%s is done at %d places of a step, one was expected", what, len(acts[what]))
				panic(abortCheck{})
			}
			return acts[what][0]
		}
		// each: done once for every element of the list, unless cond says otherwise
		each := func(what, list string, owner func(e *Event) *Term, cond func(l *LoopInfo, el *Term) *BDD, args func(l *LoopInfo, e *Event, el *Term) string) *stepAct {
			var a *stepAct
			c.part(name+" "+what, func() {
				a = one(what)
				p := a.ev.Instr.Pos()
				if len(a.loops) == 0 {
					c.fail(rule, name+" "+what, p, "%s is not done for every element of %s", what, list)
					return
				}
				le := a.loops[len(a.loops)-1]
				l := le.Loop
				el := owner(a.ev)
				msg := ""
				if el == nil || el.op != OLoad || el.args[0].op != OIndex {
					msg = "the element is not resolved: " + short(el)
				} else {
					a.elem = el
					lst := get(le.Mem, sp, list)
					msg = visitsIndexed(le, indexOf(el), TLen(lst), bddTrue)
					if msg == "" && !proveEq(el.args[0].args[0], lst, bddTrue) {
						msg = "the elements are those of " + short(el.args[0].args[0])
					}
				}
				c.ob(msg == "", rule, name+" "+what+" all", p, "%s is not done once for each of %s: %s", what, list, msg)
				if a.elem == nil {
					return
				}
				outer := bddTrue
				for i, o := range a.loops {
					if i == 0 {
						outer = o.Guard
					} else {
						outer = And(outer, o.Guard)
					}
				}
				want := bddTrue
				if cond != nil {
					want = cond(l, el)
				}
				// the condition of the call, given that the iteration goes on or ends with it
				c.ob(implies(AndAll(l.BackG, want, l.Assume), a.ev.Guard), rule, name+" "+what+" always", p, "%s is left out for some of %s", what, list)
				c.ob(implies(AndAll(a.ev.Guard), want), rule, name+" "+what+" only", p, "%s is done when it should not be", what)
				if len(a.loops) == 1 {
					c.ob(implies(moving, le.Guard), rule, name+" "+what+" every step", p, "%s is left out in some steps", what)
				}
				if args != nil {
					m := args(l, a.ev, el)
					c.ob(m == "", rule, name+" "+what+" values", p, "%s: %s", what, m)
				}
			})
			return a
		}
		once := func(what string, args func(e *Event) string) *stepAct {
			var a *stepAct
			c.part(name+" "+what, func() {
				a = one(what)
				p := a.ev.Instr.Pos()
				c.ob(len(a.loops) == 0 && implies(moving, a.ev.Guard), rule, name+" "+what+" once", p, "%s is not done exactly once in a step", what)
				if args != nil {
					m := args(a.ev)
					c.ob(m == "", rule, name+" "+what+" values", p, "%s: %s", what, m)
				}
			})
			return a
		}
		arg0 := func(e *Event) *Term { return e.Args[0] }
		own := func(class string) func(e *Event) *Term {
			return func(e *Event) *Term {
				if e.Callee != nil {
					if e.Callee.op == OLoad {
						return ownerOfCallee(e.Callee)
					}
					return nil
				}
				return nil
			}
		}
		classOwner := func(e *Event) *Term {
			if e.Recv == nil || e.Recv.op != OLoad {
				return nil
			}
			return ownerOfLoc(e.Recv.args[0], "Constraint.Class")
		}
		eqArg := func(e *Event, i int, want *Term, what string) string {
			if i >= len(e.Args) || !proveEq(e.Args[i], want, And(e.Guard, moving)) {
				return fmt.Sprintf("%s is %s", what, short(e.Args[i]))
			}
			return ""
		}
		first := func(ms ...string) string {
			for _, m := range ms {
				if m != "" {
					return m
				}
			}
			return ""
		}
		memSp := func(e *Event, q string) *Term { return get(e.Mem, sp, q) }

		// the arbiters of the step before
		reset := each("Arbiter.state", "arbiters", func(e *Event) *Term { return ownerOfLoc(e.Loc, "Arbiter.state") }, nil, func(l *LoopInfo, e *Event, el *Term) string {
			if !proveEq(e.Val, TInt(1), bddTrue) {
				return "the state of an arbiter of the step before becomes " + short(e.Val)
			}
			return ""
		})
		unthread := each("Arbiter.Unthread", "arbiters", arg0, func(l *LoopInfo, el *Term) *BDD {
			sleeping := func(q string) *BDD {
				b := bddFalse
				for _, e := range l.Events {
					if e.Kind == "call" && e.Name == "Body.IsSleeping" && e.Result != nil && proveEq(e.Args[0], get(l.Iter, el, q), bddTrue) {
						b = Or(b, And(e.Guard, toBDD(e.Result)))
					}
				}
				return b
			}
			return And(Not(sleeping("body_a")), Not(sleeping("body_b")))
		}, nil)
		positions := each("Body.position_func", "dynamicBodies", own("Body.position_func"), nil, func(l *LoopInfo, e *Event, el *Term) string {
			return first(eqArg(e, 0, el, "the body"), eqArg(e, 1, dt, "the time step"))
		})
		fresh := once("Space.PushFreshContactBuffer", nil)
		update := once("SpatialIndexer.Each", func(e *Event) string {
			if !proveEq(e.Recv, get(e.Mem, get(e.Mem, sp, "dynamicShapes"), "class"), e.Guard) {
				return "it goes over " + short(e.Recv)
			}
			return c.updatesBB(e.Args[0])
		})
		collide := once("SpatialIndexer.ReindexQuery", func(e *Event) string {
			if !proveEq(e.Recv, get(e.Mem, get(e.Mem, sp, "dynamicShapes"), "class"), e.Guard) {
				return "it goes over " + short(e.Recv)
			}
			if !callsFunc(e.Args[0], "SpaceCollideShapesFunc") {
				return "the pairs are handed to " + short(e.Args[0])
			}
			if m := eqArg(e, 1, sp, "the data"); m != "" && !proveEq(stripIface(e.Args[1]), sp, e.Guard) {
				return m
			}
			return ""
		})
		process := once("Space.ProcessComponents", func(e *Event) string {
			return first(eqArg(e, 0, sp, "the space"), eqArg(e, 1, dt, "the time step"))
		})
		filter := once("HashSet.Filter", func(e *Event) string {
			if !proveEq(e.Args[0], memSp(e, "cachedArbiters"), e.Guard) {
				return "it goes over " + short(e.Args[0])
			}
			if !callsFunc(e.Args[1], "SpaceArbiterSetFilter") {
				return "the arbiters are not given to SpaceArbiterSetFilter"
			}
			return ""
		})
		prestepA := each("Arbiter.PreStep", "arbiters", arg0, nil, func(l *LoopInfo, e *Event, el *Term) string {
			want := TSub(TNum(1), TApp("pow", tyFloat, memSp(e, "collisionBias"), dt))
			return first(eqArg(e, 1, dt, "the time step"), eqArg(e, 2, memSp(e, "collisionSlop"), "the slop"), eqArg(e, 3, want, "the share of the overlap corrected"))
		})
		preSolve := each("Constraint.PreSolve", "constraints", own(""), func(l *LoopInfo, el *Term) *BDD { return notNil(get(l.Iter, el, "PreSolve")) }, func(l *LoopInfo, e *Event, el *Term) string {
			return first(eqArg(e, 0, el, "the constraint"), eqArg(e, 1, sp, "the space"))
		})
		prestepC := each("Constrainer.PreStep", "constraints", classOwner, nil, func(l *LoopInfo, e *Event, el *Term) string { return eqArg(e, 0, dt, "the time step") })
		velocity := each("Body.velocity_func", "dynamicBodies", own(""), nil, func(l *LoopInfo, e *Event, el *Term) string {
			gr := ""
			if !vec(e.Args[1]).eq(vec(memSp(e, "gravity")), e.Guard) {
				gr = "the gravity is " + short(e.Args[1])
			}
			return first(eqArg(e, 0, el, "the body"), gr, eqArg(e, 2, TApp("pow", tyFloat, memSp(e, "damping"), dt), "the damping"), eqArg(e, 3, dt, "the time step"))
		})
		prev := get(s.Entry, sp, "curr_dt")
		coef := TIte(condEq0(prev, false), TNum(0), TDiv(dt, prev))
		warm := func(i int) func(l *LoopInfo, e *Event, el *Term) string {
			return func(l *LoopInfo, e *Event, el *Term) string {
				return eqArg(e, i, coef, "the share of the impulses of the step before")
			}
		}
		cachedA := each("Arbiter.ApplyCachedImpulse", "arbiters", arg0, nil, warm(1))
		cachedC := each("Constrainer.ApplyCachedImpulse", "constraints", classOwner, nil, warm(0))
		solveA := each("Arbiter.ApplyImpulse", "arbiters", arg0, nil, nil)
		solveC := each("Constrainer.ApplyImpulse", "constraints", classOwner, nil, func(l *LoopInfo, e *Event, el *Term) string { return eqArg(e, 0, dt, "the time step") })
		postC := each("Constraint.PostSolve", "constraints", own(""), func(l *LoopInfo, el *Term) *BDD { return notNil(get(l.Iter, el, "PostSolve")) }, func(l *LoopInfo, e *Event, el *Term) string {
			return first(eqArg(e, 0, el, "the constraint"), eqArg(e, 1, sp, "the space"))
		})
		postA := each("CollisionHandler.PostSolveFunc", "arbiters", func(e *Event) *Term { return e.Args[0] }, nil, func(l *LoopInfo, e *Event, el *Term) string {
			h := get(l.Iter, el, "handler")
			if !proveEq(ownerOfCallee(e.Callee), h, bddTrue) {
				return "the function called is not that of the arbiter's handler"
			}
			return first(eqArg(e, 1, sp, "the space"), eqArg(e, 2, get(l.Iter, h, "UserData"), "the user data"))
		})
		// the solver runs the configured number of times
		c.part(name+" iterations", func() {
			if solveA == nil || solveC == nil {
				return
			}
			for _, a := range []*stepAct{solveA, solveC} {
				if len(a.loops) != 2 {
					c.fail(rule, name+" iterations", a.ev.Instr.Pos(), "%s is not repeated", a.what)
					return
				}
				le := a.loops[0]
				l := le.Loop
				n := get(l.Iter, sp, "Iterations")
				msg := "no counter"
				for _, ph := range l.Phis {
					if ph.Invariant || !isNumType(ph.Var.typ) {
						continue
					}
					up := visitsIndexed(le, ph.Var, n, bddTrue)
					msg = up
					if up == "" {
						break
					}
					// counting down from Iterations to 0
					if idx := TSub(ph.Var, TInt(1)); visitsIndexed(le, idx, n, bddTrue) == "" {
						msg = ""
						break
					}
				}
				c.ob(msg == "", rule, name+" iterations "+a.what, a.ev.Instr.Pos(), "%s is not repeated Iterations times: %s", a.what, msg)
				c.ob(implies(moving, le.Guard) && implies(And(l.BackG, l.Assume), a.loops[1].Guard), rule, name+" iterations "+a.what+" always", a.ev.Instr.Pos(), "%s is left out in some iterations", a.what)
			}
			c.ob(solveA.loops[0] == solveC.loops[0], rule, name+" iterations together", solveC.ev.Instr.Pos(), "contacts and joints are not solved in the same iterations")
		})
		// the order
		top := func(a *stepAct) int {
			if len(a.loops) > 0 {
				return a.loops[0].Seq
			}
			return a.ev.Seq
		}
		before := func(what string, as, bs []*stepAct) {
			for _, a := range as {
				for _, b := range bs {
					if a == nil || b == nil {
						continue
					}
					ok := top(a) < top(b)
					if top(a) == top(b) && len(a.loops) > 0 && len(b.loops) > 0 {
						// in the same loop: the same element, in this order
						ok = a.ev.Seq < b.ev.Seq && (a == preSolve || a == reset)
					}
					c.ob(ok, rule, name+" order: "+a.what+" before "+b.what, b.ev.Instr.Pos(), "%s", what)
				}
			}
		}
		L := func(as ...*stepAct) []*stepAct { return as }
		before("positions are integrated before collisions are looked for", L(reset, unthread, positions, fresh), L(collide))
		before("positions are integrated before the bounding boxes are updated", L(positions), L(update))
		before("the bounding boxes are updated before collisions are looked for", L(update), L(collide))
		before("contacts are complete before the contact graph is built and arbiters expire", L(collide), L(process, filter))
		before("sleeping is settled before the solver prepares", L(process), L(filter, prestepA, prestepC))
		before("a constraint's PreSolve comes before it is prepared", L(preSolve), L(prestepC))
		before("joints and contacts are prepared before velocities are integrated", L(filter, prestepA, prestepC), L(velocity))
		before("velocities are integrated before the impulses of the step before are applied", L(velocity), L(cachedA, cachedC))
		before("the impulses of the step before come before the solver", L(cachedA, cachedC), L(solveA, solveC))
		before("post-solve callbacks come after the solver", L(solveA, solveC), L(postC, postA))
	})
	c.atLeast(rule, 75)
	c.part(name+" old arbiters", func() {
		f := newFlow(c.p)
		ok := false
		f.Instr = func(fr *FFrame, in ssa.Instruction, st S) ([]S, bool) {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, isFa := x.Addr.(*ssa.FieldAddr); isFa && addrClassOf(fa) == "Space.arbiters" && emptySlice(x.Val) {
					return []S{true}, true
				}
			case *ssa.Call:
				if x.Call.IsInvoke() && x.Call.Method.Name() == "ReindexQuery" {
					ok = true
					if st == S(false) {
						c.fail(rule, name+" old arbiters", x.Pos(), "collisions are looked for while the list still holds the arbiters of the step before (%s)", fr.path())
					}
				}
			}
			return nil, false
		}
		fn := c.fn(name)
		f.Run(fn, false)
		c.sites += f.steps
		c.ob(ok, rule, name+" old arbiters", fn.Pos(), "collisions are not looked for")
	})
	c.part("integration", func() { checkIntegration(c) })
}

// updatesBB: the function handed over brings a shape's bounding box up to date.
func (c *Ctx) updatesBB(f *Term) string {
	fn := funcOf(c, f)
	if fn == nil {
		return "the function called for each shape is not resolved: " + short(f)
	}
	s := c.sumFn(fn, "bb", Config{NoEnter: true, Opaque: opaqueSet("Shape.Update", "Shape.CacheBB")})
	sh := s.Params[len(s.Params)-1]
	for _, e := range s.Events {
		if e.Kind == "call" && (e.Name == "Shape.CacheBB" || e.Name == "Shape.Update") && proveEq(e.Args[0], sh, bddTrue) && e.Guard == bddTrue {
			return ""
		}
	}
	return "the bounding boxes are not updated"
}

// funcOf: the function a term denotes (a function variable set once included).
func funcOf(c *Ctx, f *Term) *ssa.Function {
	switch f.op {
	case OFunc, OClosure:
		return f.fn
	case OLoad:
		if f.args[0].op == OGlobal {
			fl := newFlow(c.p)
			t := &ftargets{}
			for _, m := range c.p.Pkg.Members {
				if gl, ok := m.(*ssa.Global); ok && gl.Name() == f.args[0].name {
					for _, st := range fl.storesTo(gl) {
						fl.valueTargets(st.Val, t, map[ssa.Value]bool{})
					}
				}
			}
			if len(t.fns) == 1 && len(t.users) == 0 {
				return t.fns[0].fn
			}
		}
	}
	return nil
}

// callsFunc: the function value is, or its body calls, the named function.
func callsFunc(f *Term, name string) bool {
	if f.op != OFunc && f.op != OClosure || f.fn == nil {
		return false
	}
	if fname(f.fn) == name {
		return true
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && fname(g) == name {
					return true
				}
			}
		}
	}
	return false
}

func stripIface(t *Term) *Term {
	for t.op == OIface {
		t = t.args[0]
	}
	return t
}

func checkIntegration(c *Ctx) {}

func init() {
	_ = token.NoPos
	register(&Check{ID: "C34", Run: checkC34, Assume: []string{"user callbacks do not change the space's lists, gravity or parameters in the middle of a step (they cannot through the exported API while it is locked, except for the parameters)", "the operations a step calls do what C06, C11–C16 state"},
		Explanation: "Guarded value summary of Space.Step with the solver's operations kept as calls: which calls are made for which elements, with which values, under which conditions and in which order."})
}

// emptySlice: a slice of length zero.
func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil {
			n, ok := intConst(x.High)
			return ok && n == 0
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return at.Len() == 0
			}
		}
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		n, ok := intConst(x.Len)
		return ok && n == 0
	}
	return false
}
