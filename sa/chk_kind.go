package main

import (
	"golang.org/x/tools/go/ssa"
)

// C08: the kind of a body decides where it and its shapes are kept.

func checkC08(c *Ctx) {
	st, ki, dy := constInt(c, "BODY_STATIC"), constInt(c, "BODY_KINEMATIC"), constInt(c, "BODY_DYNAMIC")
	isT := func(t *Term, k int64) *BDD { return CondEq(t, TInt(k)) }

	rule := "kind of a body"
	c.part("GetType", func() {
		s := c.sum("Body.GetType", "kind", Config{NoEnter: true})
		f := And(typeFact(s), notNil(s.Params[0]))
		c.ob(proveEq(s.Ret, c.bodyType(s.Entry, s.Params[0]), f), rule, "Body.GetType", s.Fn.Pos(), "the kind of a body is said to be %s", short(s.Ret))
	})
	for name, k := range map[string]int64{"NewBody": dy, "NewKinematicBody": ki, "NewStaticBody": st} {
		c.part(name, func() {
			s := c.sum(name, "kind", Config{NoEnter: true})
			f := typeFact(s)
			if name == "NewBody" {
				f = AndAll(f, CondLt(s.Params[0], TMaxF(), false))
			}
			c.ob(proveEq(c.bodyType(s.Mem, s.Ret), TInt(k), And(f, notNil(s.Ret))), rule, name, s.Fn.Pos(), "the body made is of kind %s", short(c.bodyType(s.Mem, s.Ret)))
			sv := get(s.Mem, s.Ret, "space")
			c.ob(proveEq(sv, TNilOf(sv.typ), f), rule, name+" space", s.Fn.Pos(), "the body made is in a space already")
		})
	}
	c.part("ArrayForBodyType", func() {
		s := c.sum("Space.ArrayForBodyType", "kind", Config{NoEnter: true})
		sp, k := s.Params[0], s.Params[1]
		f := typeFact(s)
		c.ob(s.Ret == TIte(isT(k, st), addrOf(s.Entry, sp, "staticBodies"), addrOf(s.Entry, sp, "dynamicBodies")) ||
			proveEq(s.Ret, addrOf(s.Entry, sp, "staticBodies"), And(f, isT(k, st))) && proveEq(s.Ret, addrOf(s.Entry, sp, "dynamicBodies"), And(f, Not(isT(k, st)))),
			rule, "Space.ArrayForBodyType", s.Fn.Pos(), "the list for a kind is %s", short(s.Ret))
	})
	c.atLeast(rule, 8)

	rule = "changing kind"
	c.part("SetType", func() {
		name := "Body.SetType"
		s := c.sum(name, "kind", Config{NoEnter: true, Opaque: opaqueSet("Body.Activate", "Body.AccumulateMassFromShapes"), KeepUser: keepAll,
			KeepOn: func(fn *ssa.Function, class string) bool {
				if fname(fn) == "Body.AccumulateMassFromShapes" {
					return class != "Body.m" && class != "Body.i" && class != "Body.m_inv" && class != "Body.i_inv" && class != "Body.cog"
				}
				return keepWaking(fn, class)
			},
			Pure: func(fn *ssa.Function) bool { return fn.Name() == "Insert" || fn.Name() == "Remove" }})
		b, k, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		sp := get(s.Entry, b, "space")
		old := c.bodyType(s.Entry, b)
		valid := OrAll(isT(k, st), isT(k, ki), isT(k, dy))
		f := AndAll(s.G, notNil(b), valid)
		same := CondEq(k, old)
		for _, e := range s.Events {
			if e.Kind == "assert" {
				continue
			}
			c.ob(!sat(AndAll(f, e.Guard, same)), rule, name+" same kind "+e.Kind, e.Instr.Pos(), "something happens although the body is of that kind already")
		}
		f = And(f, Not(same))
		in := AndAll(f, notNil(sp), Not(CondEq(get(s.Entry, sp, "staticShapes"), get(s.Entry, sp, "dynamicShapes"))))
		was, is := isT(old, st), isT(k, st)
		c.listBecomes(rule, name, s.Events, sp, "staticBodies", b, in, was, is, pos)
		c.listBecomes(rule, name, s.Events, sp, "dynamicBodies", b, in, is, was, pos)
		c.wokenFirst(rule, name, s, sp, "dynamicBodies", in)

		// a body in no space
		out := And(f, CondEq(sp, TNilOf(sp.typ)))
		for _, cl := range []string{"Space.staticBodies", "Space.dynamicBodies"} {
			for _, e := range storesTo(s.Events, cl) {
				c.ob(!sat(And(out, e.Guard)), rule, name+" in no space", e.Instr.Pos(), "a list of a space changes although the body is in none")
			}
		}

		// its shapes
		list := get(s.Entry, b, "shapeList")
		moved := map[string]*BDD{"Remove": bddFalse, "Insert": bddFalse}
		var seq [2][]*Event
		each, ends := map[string]*BDD{}, map[string]func(){}
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "invoke" || e.Name != "Remove" && e.Name != "Insert" {
				return
			}
			if len(ls) != 1 {
				c.fail(rule, name+" "+e.Name, e.Instr.Pos(), "an index is asked to %s outside a walk over the shapes of the body", e.Name)
				return
			}
			l := ls[0]
			le := loopEvent(s.Events, l)
			x := AndAll(in, l.Assume, le.Guard, e.Guard)
			side := was
			if e.Name == "Insert" {
				side = is
				seq[1] = append(seq[1], e)
			} else {
				seq[0] = append(seq[0], e)
			}
			cls := func(ix string) *Term { return get(e.Mem, get(e.Mem, sp, ix), "class") }
			okS := !sat(And(x, side)) || proveEq(e.Recv, cls("staticShapes"), And(x, side))
			okD := !sat(And(x, Not(side))) || proveEq(e.Recv, cls("dynamicShapes"), And(x, Not(side)))
			c.ob(okS && okD, rule, name+" "+e.Name+" index", e.Instr.Pos(), "%s is asked of %s", e.Name, short(e.Recv))
			lst, i := elemOfList(e.Args[0])
			ok := lst != nil && (lst == list || proveEq(lst, list, x)) && proveEq(e.Args[1], get(e.Mem, e.Args[0], "hashid"), x)
			c.ob(ok, rule, name+" "+e.Name+" shape", e.Instr.Pos(), "%s is asked for %s, expected a shape of the body and its hash", e.Name, short(e.Args[0]))
			if !ok {
				return
			}
			msg := visitsIndexed(le, i, TLen(lst), in)
			c.ob(msg == "", rule, name+" "+e.Name+" visits", e.Instr.Pos(), "not every shape of the body is moved: %s", msg)
			// one call may be seen as several, for each index it may go to
			key := e.Name + l.ID
			if each[key] == nil {
				c.ob(!sat(AndAll(in, le.Guard, moved[e.Name])), rule, name+" "+e.Name+" once", e.Instr.Pos(), "%s is done twice", e.Name)
				moved[e.Name] = Or(moved[e.Name], le.Guard)
				each[key] = bddFalse
			}
			c.ob(!sat(AndAll(l.Assume, in, le.Guard, e.Guard, each[key])), rule, name+" "+e.Name+" each once", e.Instr.Pos(), "%s is done twice", e.Name)
			each[key] = Or(each[key], e.Guard)
			ends[key] = func() {
				c.ob(implies(AndAll(l.Assume, in, le.Guard, l.BackG), each[key]), rule, name+" "+e.Name+" each", e.Instr.Pos(), "a shape is moved only when %s", shortB(each[key]))
			}
		})
		for _, end := range ends {
			end()
		}
		differ := Or(And(was, Not(is)), And(is, Not(was)))
		for _, op := range []string{"Remove", "Insert"} {
			c.ob(implies(And(in, differ), moved[op]), rule, name+" moves shapes "+op, pos, "shapes change index (%s) only when %s", op, shortB(moved[op]))
		}
		c.ob(sameCond(moved["Remove"], moved["Insert"], in), rule, name+" moves shapes both", pos, "shapes are removed from an index when %s, inserted when %s", shortB(moved["Remove"]), shortB(moved["Insert"]))
		// inserted last, in case both are the same index
		for _, r := range seq[0] {
			for _, n := range seq[1] {
				c.ob(r.Seq < n.Seq, rule, name+" order", n.Instr.Pos(), "a shape is inserted before it is removed")
			}
		}

		// what it is from now on
		idle, m := get(s.Mem, b, "sleepingIdleTime"), get(s.Mem, b, "m")
		c.ob(proveEq(idle, TMaxF(), And(f, is)) && proveEq(idle, TNum(0), And(f, Not(is))), rule, name+" static", pos, "the idle time, which marks static bodies, becomes %s", short(idle))
		c.ob(proveEq(m, TMaxF(), AndAll(f, Not(isT(k, dy)))), rule, name+" mass", pos, "the mass of a body that is not dynamic becomes %s", short(m))
		for _, p := range []string{"v.X", "v.Y", "w"} {
			c.ob(proveEq(get(s.Mem, b, p), TNum(0), And(f, Not(isT(k, dy)))), rule, name+" stops", pos, "a body that is no longer dynamic keeps %s %s", p, short(get(s.Mem, b, p)))
		}
		// dynamic: its mass is that of its shapes, worked out when it counts as dynamic
		g := bddFalse
		for _, e := range eventsOf(s.Events, "call", "Body.AccumulateMassFromShapes") {
			x := AndAll(f, e.Guard, isT(k, dy))
			if proveEq(e.Args[0], b, x) && proveEq(c.bodyType(e.Mem, b), TInt(dy), x) {
				g = Or(g, e.Guard)
			}
		}
		c.ob(implies(And(f, isT(k, dy)), g), rule, name+" weighs", pos, "the mass of a body that becomes dynamic is worked out only when %s", shortB(g))
	})
	c.atLeast(rule, 30)
}

func init() {
	register(&Check{ID: "C08", Run: checkC08,
		Assume: []string{
			"waking a body changes what C06 says",
			"a space keeps static and moving shapes in two different indexes (NewSpace, UseSpatialHash)",
			"the mass given to NewBody is finite",
		},
		Explanation: "guarded value summaries of Body.SetType, GetType and the constructors: lists, indexes and fields as functions of the old and the new kind"})
}
