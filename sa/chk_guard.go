package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a debug build refuses: calls that break the rules of the world panic
// before they change it, and calls that keep them are let through.
func init() {
	register(&Check{ID: "C33", Run: checkC33, Variants: []string{"debug"}, Explanation: "Decides, on guarded value summaries of the exported operations of the debug build, that no event of an operation and no return is reachable under any of its listed misuses, and that some event or return is reached in every valid use."})
}

type misuse struct {
	name string
	when *BDD
}

func checkC33(c *Ctx) {
	rule := "refused"
	cfg := Config{NoEnter: true, Opaque: opaqueSet("Body.Activate", "Body.ActivateStatic", "Body.AccumulateMassFromShapes", "Space.FilterArbiters", "Body.RemoveShape", "Body.AddShape", "filterConstraints", "Body.RemoveConstraint", "Space.ActivateBody", "Shape.Update", "Shape.CacheBB")}
	refuse := func(name string, bad func(s *Summary) ([]misuse, *BDD)) {
		c.part(name, func() {
			s := c.sum(name, "guard", cfg)
			pos := s.Fn.Pos()
			f := bddTrue
			for _, p := range s.Params {
				if isPtr(p) {
					f = And(f, notNil(p))
				}
			}
			ms, also := bad(s)
			f = And(f, also)
			ok := f
			for _, m := range ms {
				ok = And(ok, Not(m.when))
			}
			any := bddFalse
			for _, e := range s.Events {
				if e.Kind == "assert" {
					continue
				}
				any = Or(any, e.Guard)
				for _, m := range ms {
					c.ob(!sat(AndAll(f, e.Guard, m.when)), rule, name+" before "+m.name, e.Instr.Pos(), "%s goes ahead although %s", describe(e), m.name)
				}
			}
			for _, m := range ms {
				c.ob(sat(And(f, m.when)), rule, name+" possible "+m.name, pos, "the misuse cannot be told apart from valid use")
				c.ob(!sat(AndAll(f, s.G, m.when)), rule, name+" "+m.name, pos, "the call returns although %s", m.name)
			}
			if len(s.Events) == 0 {
				any = s.G
			}
			c.ob(implies(ok, any), "let through", name, pos, "a valid call goes ahead only when %s", shortB(any))
		})
	}
	locked := func(s *Summary, sp *Term) misuse {
		return misuse{"the space is locked", CondLt(TNum(0), get(s.Entry, sp, "locked"), true)}
	}
	free := func(s *Summary, sp *Term) *BDD {
		return CondLe(TNum(0), get(s.Entry, sp, "locked"), true)
	}
	for _, what := range []string{"Shape", "Body", "Constraint"} {
		what := what
		refuse("Space.Add"+what, func(s *Summary) ([]misuse, *BDD) {
			sp, x := s.Params[0], s.Params[1]
			in := get(s.Entry, x, "space")
			ms := []misuse{{"it is in the space already", CondEq(in, sp)}, {"it is in some space", notNil(in)}, locked(s, sp)}
			if what == "Constraint" {
				ms = append(ms, misuse{"it has no first body", Not(notNil(get(s.Entry, x, "a")))}, misuse{"it has no second body", Not(notNil(get(s.Entry, x, "b")))})
			}
			return ms, free(s, sp)
		})
		refuse("Space.Remove"+what, func(s *Summary) ([]misuse, *BDD) {
			sp, x := s.Params[0], s.Params[1]
			ms := []misuse{{"it is not in the space", Not(CondEq(get(s.Entry, x, "space"), sp))}, locked(s, sp)}
			if what == "Body" {
				ms = append(ms, misuse{"it is the body of the space itself", CondEq(x, get(s.Entry, sp, "StaticBody"))})
			}
			return ms, free(s, sp)
		})
	}
	refuse("Space.ReindexShape", func(s *Summary) ([]misuse, *BDD) {
		return []misuse{locked(s, s.Params[0])}, free(s, s.Params[0])
	})
	refuse("Space.SetStaticBody", func(s *Summary) ([]misuse, *BDD) {
		b := get(s.Entry, s.Params[0], "StaticBody")
		return []misuse{{"the body it had still has shapes", And(notNil(b), CondLt(TNum(0), TLen(get(s.Entry, b, "shapeList")), true))}}, bddTrue
	})
	refuse("Body.ActivateStatic", func(s *Summary) ([]misuse, *BDD) {
		return []misuse{{"the body is not static", Not(staticBody(s.Entry, s.Params[0]))}}, notNil(get(s.Entry, s.Params[0], "arbiterList"))
	})
	for _, name := range []string{"Constraint.SetMaxForce", "Constraint.SetMaxBias", "Constraint.SetErrorBias", "Shape.SetFriction", "Shape.SetElasticity", "Space.SetDamping"} {
		refuse(name, func(s *Summary) ([]misuse, *BDD) {
			return []misuse{{"the value is negative", CondLt(s.Params[1], TNum(0), false)}}, bddTrue
		})
	}
	for _, name := range []string{"PolyShape.Vert"} {
		refuse(name, func(s *Summary) ([]misuse, *BDD) {
			n := fld(s.Params[0], "count")
			if isPtr(s.Params[0]) {
				n = get(s.Entry, s.Params[0], "count")
			}
			return []misuse{{"the index is negative", CondLt(s.Params[1], TNum(0), true)}, {"the index is past the end", CondLe(n, s.Params[1], true)}}, CondLt(TNum(0), n, true)
		})
	}
	c.part("Body.SetType", func() {
		// the body is in a space that is locked: its lists stay as they are
		keep := cfg
		keep.KeepUser, keep.KeepOn = keepAll, func(fn *ssa.Function, class string) bool {
			return fname(fn) == "Body.AccumulateMassFromShapes" || keepWaking(fn, class)
		}
		s := c.sum("Body.SetType", "guard kind", keep)
		b := s.Params[0]
		sp := get(s.Entry, b, "space")
		k := s.Params[1]
		changes := Not(CondEq(k, c.bodyType(s.Entry, b)))
		kinds := bddFalse
		for _, n := range []string{"BODY_STATIC", "BODY_KINEMATIC", "BODY_DYNAMIC"} {
			kinds = Or(kinds, CondEq(k, TInt(constInt(c, n))))
		}
		f := AndAll(notNil(b), notNil(sp), kinds, changes)
		m := And(f, CondLt(TNum(0), get(s.Entry, sp, "locked"), true))
		c.ob(!sat(And(m, s.G)), rule, "Body.SetType", s.Fn.Pos(), "the kind of a body changes although the space is locked")
		for _, e := range s.Events {
			if e.Kind != "invoke" && !(e.Kind == "store" && strings.HasPrefix(locClass(e.Loc), "Space.")) {
				continue
			}
			c.ob(!sat(And(m, e.Guard)), rule, "Body.SetType "+e.Kind, e.Instr.Pos(), "%s goes ahead although the space is locked", describe(e))
		}
	})
	c.part("assert", func() {
		s := c.sum("assert", "guard", cfg)
		c.ob(sameCond(s.G, toBDD(s.Params[0]), bddTrue), rule, "assert", s.Fn.Pos(), "an assertion is let through when %s", shortB(s.G))
	})
	c.atLeast(rule, 80)
	c.atLeast("let through", 16)
}

func describe(e *Event) string {
	if e.Name != "" {
		return e.Kind + " of " + e.Name
	}
	if e.Loc != nil {
		return fmt.Sprintf("%s of %s", e.Kind, short(e.Loc))
	}
	return e.Kind
}
