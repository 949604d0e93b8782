package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// relevantOnly: functions that modify something, but none of the tracked
// classes, are summarised by their effects instead of being inlined.
func relevantOnly(p *Program, classes ...string) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		e := p.eff.of(fn)
		if e == nil || len(e.TW) == 0 || small(fn) {
			return false
		}
		for _, c := range classes {
			if e.TW[c] || makes(p, fn, c) {
				return false
			}
		}
		return true
	}
}

// small: a few steps that call nothing and go round nothing.
func small(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				return false
			}
			n++
		}
	}
	return n <= 24 && len(fn.Blocks) == 1
}

// makes: the function hands out an object it makes itself, of the kind the class belongs to.
func makes(p *Program, fn *ssa.Function, class string) bool {
	owner := ownerOf(class)
	is := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n := namedOf(pt.Elem())
		return n != nil && n.Obj().Name() == owner
	}
	res := fn.Signature.Results()
	hit := false
	for i := 0; i < res.Len(); i++ {
		hit = hit || is(res.At(i).Type())
	}
	if !hit {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if x.Heap && is(x.Type()) {
						return true
					}
				case *ssa.Return: // or gives back what it is handed
					for _, r := range x.Results {
						if _, ok := r.(*ssa.Parameter); ok && is(r.Type()) {
							return true
						}
					}
				case *ssa.Call:
					if h := x.Common().StaticCallee(); h != nil && p.inPkg(h) && h.Signature.Results().Len() > 0 && is(h.Signature.Results().At(0).Type()) && rec(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

// trackCfg inlines what touches the tracked classes and assumes user
// callbacks, which can only go through the exported API, keep the property.
func trackCfg(p *Program, classes ...string) Config {
	return Config{Opaque: relevantOnly(p, classes...), KeepOnUser: func(c string) bool { return true }, NoEnter: true}
}

// ownerOfLoc: the object whose field of the given class loc is (part of).
func ownerOfLoc(loc *Term, class string) *Term {
	for loc != nil {
		if loc.op == OField && loc.name == class {
			return loc.args[0]
		}
		if (loc.op == OField || loc.op == OIndex) && len(loc.args) > 0 {
			loc = loc.args[0]
			continue
		}
		return nil
	}
	return nil
}

type storeSite struct {
	ev    *Event
	owner *Term
	loops []*LoopInfo
	guard *BDD
}

// storesOf: every store to a class, with the object it belongs to.
func storesOf(s *Summary, classes ...string) []storeSite {
	var out []storeSite
	var rec func(evs []*Event, loops []*LoopInfo, outer *BDD)
	rec = func(evs []*Event, loops []*LoopInfo, outer *BDD) {
		for _, e := range evs {
			if e.Kind == "store" {
				for _, c := range classes {
					if locClass(e.Loc) == c {
						g := e.Guard
						if outer != nil {
							g = outer
						}
						out = append(out, storeSite{e, ownerOfLoc(e.Loc, c), loops, g})
					}
				}
			}
			if e.Loop != nil {
				o := outer
				if o == nil {
					o = e.Guard
				}
				rec(e.Loop.Events, append(append([]*LoopInfo(nil), loops...), e.Loop), o)
			}
			if e.Sub != nil {
				o := outer
				if o == nil {
					o = e.Guard
				}
				rec(e.Sub.Events, loops, o)
			}
		}
	}
	rec(s.Events, nil, nil)
	return out
}

// rootsWriting: exported functions whose transitive effects include a class.
func rootsWriting(p *Program, classes ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Exported() {
		e := p.eff.of(fn)
		for _, c := range classes {
			if e.TW[c] {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

// directWriters: functions that themselves write one of the classes.
func directWriters(p *Program, classes ...string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.All {
		e := p.eff.of(fn)
		for _, c := range classes {
			if e != nil && e.WAll[c] {
				out[fn] = true
			}
		}
	}
	return out
}

// invariantRoots: the exported functions an object invariant over the classes
// has to be established for: those that reach a writer without passing
// through another exported function that keeps the invariant on its own.
func invariantRoots(p *Program, classes ...string) []*ssa.Function {
	writers := directWriters(p, classes...)
	exported := map[*ssa.Function]bool{}
	for _, fn := range p.Exported() {
		exported[fn] = true
	}
	var out []*ssa.Function
	for _, fn := range p.Exported() {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function) bool
		visit = func(g *ssa.Function) bool {
			if seen[g] {
				return false
			}
			seen[g] = true
			if writers[g] {
				return true
			}
			e := p.eff.of(g)
			if e == nil {
				return false
			}
			for c := range e.Callees {
				if exported[c] {
					continue
				}
				if visit(c) {
					return true
				}
			}
			return false
		}
		if visit(fn) {
			out = append(out, fn)
		}
	}
	return out
}

func allocatedIn(b *Term) bool { return b != nil && b.op == OAlloc }

func init() {
	register(&Check{
		ID: "C09",
		Explanation: "Guarded value summaries (gated SSA, polynomial normal form) of every exported operation that can reach a write of a body's mass, moment or their inverses; " +
			"at every return the stored inverse must be the reciprocal of the stored quantity, or the quantity infinite and the inverse zero. " +
			"The summation loop over the shapes is checked by the exact change one iteration makes to mass, first moment of mass and moment of inertia.",
		Assume: []string{"real arithmetic (rounding and NaN are not modelled)", "distinct access paths denote distinct bodies"},
		Run:    checkC09,
	})
	register(&Check{
		ID: "C10",
		Explanation: "Guarded value summaries of every exported operation that can reach a write of a body's position, angle, centre of gravity or transform; " +
			"at every return the stored transform must be rotation by the stored angle followed by translation that puts the centre of gravity at the stored position, " +
			"and the position and angle accessors must return what the setters were given.",
		Assume: []string{"real arithmetic (rounding and NaN are not modelled)", "distinct access paths denote distinct bodies"},
		Run:    checkC10,
	})
}

func checkC09(c *Ctx) {
	classes := []string{"Body.m", "Body.i", "Body.m_inv", "Body.i_inv"}
	cfg := trackCfg(c.p, classes...)
	roots := invariantRoots(c.p, classes...)
	for _, fn := range roots {
		fn := fn
		c.part(fname(fn), func() {
			s := c.sumFn(fn, "mass", cfg)
			if s.G == bddFalse {
				return
			}
			for _, q := range []struct{ rule, m, inv, what string }{{"inverse mass", "m", "m_inv", "mass"}, {"inverse moment", "i", "i_inv", "moment"}} {
				owners, order := c.owners(s, "Body."+q.m, "Body."+q.inv)
				for _, b := range order {
					facts := AndAll(s.G, s.Assume, owners[b], notNil(b))
					m, mi := get(s.Mem, b, q.m), get(s.Mem, b, q.inv)
					c.ob(implies(facts, recip(m, mi)), q.rule, fname(fn), fn.Pos(),
						"at return the inverse %s of %s is %s while its %s is %s: not its reciprocal", q.what, short(b), short(mi), q.what, short(m))
				}
			}
		})
	}
	c.atLeast("inverse mass", 3)
	c.atLeast("inverse moment", 3)
	// setters store what they were given, for the type they were given
	c.part("Body.SetMass", func() {
		s := c.sum("Body.SetMass", "mass", cfg)
		c.ob(proveEq(get(s.Mem, s.Params[0], "m"), s.Params[1], And(s.G, s.Assume)), "setter", "Body.SetMass", s.Fn.Pos(), "mass after SetMass(m) is %s", short(get(s.Mem, s.Params[0], "m")))
	})
	c.part("Body.SetMoment", func() {
		s := c.sum("Body.SetMoment", "mass", cfg)
		c.ob(proveEq(get(s.Mem, s.Params[0], "i"), s.Params[1], And(s.G, s.Assume)), "setter", "Body.SetMoment", s.Fn.Pos(), "moment after SetMoment(i) is %s", short(get(s.Mem, s.Params[0], "i")))
	})
	c.part("NewBody", func() {
		s := c.sum("NewBody", "mass", cfg)
		f := And(s.G, s.Assume)
		c.ob(proveEq(get(s.Mem, s.Ret, "m"), s.Params[0], f) && proveEq(get(s.Mem, s.Ret, "i"), s.Params[1], f), "setter", "NewBody", s.Fn.Pos(),
			"NewBody(mass, moment) builds a body with mass %s and moment %s", short(get(s.Mem, s.Ret, "m")), short(get(s.Mem, s.Ret, "i")))
	})
	// bodies that are not dynamic: infinite mass and no velocity
	c.part("Body.SetType", func() {
		s := c.sum("Body.SetType", "mass", cfg)
		dyn := constInt(c, "BODY_DYNAMIC")
		oldT := typeOfBody(c, s.Entry, s.Params[0])
		facts := AndAll(s.G, s.Assume, notNil(s.Params[0]), Not(CondEq(s.Params[1], TInt(dyn))), Not(CondEq(oldT, s.Params[1])))
		for _, w := range []string{"m_inv", "i_inv", "w", "v.X", "v.Y"} {
			v := get(s.Mem, s.Params[0], w)
			c.ob(isZero(v, facts), "immovable", "Body.SetType "+w, s.Fn.Pos(), "a body made kinematic or static keeps %s = %s instead of 0", w, short(v))
		}
	})
	c.part("Body.AccumulateMassFromShapes", func() { accumulateRule(c, cfg) })
}

func notNil(t *Term) *BDD { return Not(CondEq(t, TNilOf(t.typ))) }

// recip: inv is 1/q, or q is infinite and inv is 0.
func recip(q, inv *Term) *BDD {
	return Or(condEq0(TSub(TMul(q, inv), TNum(1)), false), And(condEq0(TSub(q, TMaxF()), false), condEq0(inv, false)))
}

// owners: the objects whose fields of the given classes are stored to, each
// with the condition under which that happens.
func (c *Ctx) owners(s *Summary, classes ...string) (map[*Term]*BDD, []*Term) {
	owners := map[*Term]*BDD{}
	var order []*Term
	for _, st := range storesOf(s, classes...) {
		if st.owner == nil {
			c.fail("writer", fname(s.Fn)+" "+locClass(st.ev.Loc), st.ev.Instr.Pos(), "store through an unresolved location %s", short(st.ev.Loc))
			continue
		}
		g, ok := owners[st.owner]
		if !ok {
			order = append(order, st.owner)
			g = bddFalse
		}
		owners[st.owner] = Or(g, st.guard)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	return owners, order
}

func constInt(c *Ctx, name string) int64 {
	k := c.p.Pkg.Const(name)
	if k == nil {
		c.fail("anchor", name, token.NoPos, "constant %s not found", name)
		panic(abortCheck{})
	}
	n, ok := intOf(constTerm(k.Value))
	if !ok {
		panic(undecided{"constant " + name})
	}
	return n
}

// typeOfBody is the value GetType has for a body in a given memory.
func typeOfBody(c *Ctx, mem *Mem, body *Term) *Term {
	s, err := SummarizeWith(c.p, c.fn("Body.GetType"), Config{NoEnter: true}, []*Term{body}, func(m *Mem) { *m = *mem.clone() })
	if err != nil {
		panic(undecided{err.Error()})
	}
	return s.Ret
}

// accumulateRule: one iteration of the summation adds exactly the mass, first
// moment and moment of inertia (about the combined centre) of one shape.
func accumulateRule(c *Ctx, cfg Config) {
	name := "Body.AccumulateMassFromShapes"
	s := c.sum(name, "mass", cfg)
	body := s.Params[0]
	var loops []*Event
	for _, e := range s.Events {
		if e.Kind == "loop" {
			loops = append(loops, e)
		}
	}
	n := 0
	for _, le := range loops {
		l := le.Loop
		m0, m1 := get(l.Iter, body, "m"), get(l.Back, body, "m")
		if m0 == m1 && !changesIn(l, "Body.m") {
			continue
		}
		n++
		// the shape visited: its mass info is what the new mass adds
		facts := And(l.Assume, l.BackG)
		cog0, cog1 := getV(l.Iter, body, "cog"), getV(l.Back, body, "cog")
		i0, i1 := get(l.Iter, body, "i"), get(l.Back, body, "i")
		var sm, si *Term
		var sc V2
		var shape *Term
		walk := func(t *Term) {
			walkTerm(t, func(x *Term) {
				if x.op == OLoad && locClass(x.args[0]) == "Shape.massInfo" {
					if o := ownerOfLoc(x.args[0], "Shape.massInfo"); o != nil {
						shape = o
					}
				}
			})
		}
		walk(TSub(m1, m0))
		if shape == nil {
			c.fail("mass sum", name, le.Instr.Pos(), "the mass added in one iteration, %s, does not come from a shape's mass data", short(TSub(m1, m0)))
			continue
		}
		sm, si = get(l.Iter, shape, "massInfo.m"), get(l.Iter, shape, "massInfo.i")
		sc = getV(l.Iter, shape, "massInfo.cog")
		pos := And(facts, CondLt(TNum(0), sm, false))
		c.ob(proveEq(TSub(m1, m0), sm, pos), "mass sum", name, le.Instr.Pos(), "one iteration changes the mass by %s, not by the shape's mass", short(TSub(m1, m0)))
		// first moment of mass: m1*cog1 = m0*cog0 + sm*sc
		ok := proveEq(TMul(m1, cog1.x), TAdd(TMul(m0, cog0.x), TMul(sm, sc.x)), pos) && proveEq(TMul(m1, cog1.y), TAdd(TMul(m0, cog0.y), TMul(sm, sc.y)), pos)
		c.ob(ok, "centre of gravity", name, le.Instr.Pos(), "one iteration moves the centre of gravity to (%s, %s): the weighted mean is not kept", short(cog1.x), short(cog1.y))
		// parallel axis: i1 about cog1
		d2 := cog0.sub(sc).dot(cog0.sub(sc))
		want := TAdd(TAdd(TMul(i0, m1), mul(sm, si, m1)), mul(d2, sm, m0))
		c.ob(proveEq(TMul(i1, m1), want, pos), "moment sum", name, le.Instr.Pos(), "one iteration changes the moment by %s: not the shape's moment moved to the combined centre", short(TSub(i1, i0)))
		neg := And(facts, Not(CondLt(TNum(0), sm, false)))
		c.ob(proveEq(m1, m0, neg) && proveEq(i1, i0, neg) && proveEq(cog1.x, cog0.x, neg) && proveEq(cog1.y, cog0.y, neg), "massless shape", name, le.Instr.Pos(), "a shape without mass changes the mass data")
		// starts from nothing
		c.ob(isZero(get(l.Entry, body, "m"), And(le.Guard, s.Assume)) && isZero(get(l.Entry, body, "i"), And(le.Guard, s.Assume)) &&
			isZero(get(l.Entry, body, "cog.X"), And(le.Guard, s.Assume)) && isZero(get(l.Entry, body, "cog.Y"), And(le.Guard, s.Assume)),
			"mass sum start", name, le.Instr.Pos(), "the summation does not start from zero mass, moment and centre of gravity")
	}
	// only the mass of a dynamic body is that of its shapes
	dyn, still := dynamicBody(s.Entry, body), And(notNil(body), Not(dynamicBody(s.Entry, body)))
	for _, f := range []string{"m", "i", "m_inv", "i_inv", "cog.X", "cog.Y", "p.X", "p.Y"} {
		c.ob(get(s.Mem, body, f) == get(s.Entry, body, f) || proveEq(get(s.Mem, body, f), get(s.Entry, body, f), AndAll(s.G, s.Assume, still)), "mass of others", name+" "+f, s.Fn.Pos(), "the %s of a body that is not dynamic becomes %s", f, short(get(s.Mem, body, f)))
	}
	for _, le := range loops {
		if changesIn(le.Loop, "Body.m") {
			c.ob(implies(And(dyn, s.G), le.Guard), "mass of dynamic", name, le.Instr.Pos(), "the mass of a dynamic body is summed only when %s", shortB(le.Guard))
		}
	}
	if n != 1 {
		c.fail("coverage", name, s.Fn.Pos(), "expected one loop that sums the mass of the shapes, found %d", n)
	}
	// the body stays where it was
	facts := And(s.G, s.Assume)
	sPos, err := SummarizeWith(c.p, c.fn("Body.Position"), Config{NoEnter: true}, []*Term{body}, func(m *Mem) { *m = *s.Entry.clone() })
	ePos, err2 := SummarizeWith(c.p, c.fn("Body.Position"), Config{NoEnter: true}, []*Term{body}, func(m *Mem) { *m = *s.Mem.clone() })
	if err != nil || err2 != nil {
		panic(undecided{fmt.Sprint(err, err2)})
	}
	// with a transform in step with position, angle and centre of gravity (C10)
	m2 := inSyncFacts(s.Entry, body)
	ok := eqSubst(fld(ePos.Ret, "X"), fld(sPos.Ret, "X"), m2, facts) && eqSubst(fld(ePos.Ret, "Y"), fld(sPos.Ret, "Y"), m2, facts)
	c.ob(ok, "position kept", name, s.Fn.Pos(), "Position() changes from %s to %s when the mass is summed again", short(sPos.Ret), short(ePos.Ret))
}

func changesIn(l *LoopInfo, class string) bool {
	for _, h := range l.HavocL {
		if locClass(h) == class {
			return true
		}
	}
	return false
}

func checkC10(c *Ctx) {
	classes := []string{"Body.p", "Body.a", "Body.cog", "Body.transform"}
	cfg := trackCfg(c.p, classes...)
	cfg.Exact = nil
	roots := invariantRoots(c.p, classes...)
	for _, fn := range roots {
		fn := fn
		if fname(fn) == "Body.SetTransform" {
			continue // checked on its own: it is given the position and angle
		}
		c.part(fname(fn), func() {
			s := c.sumFn(fn, "transform", cfg)
			if s.G == bddFalse {
				return
			}
			owners, order := c.owners(s, classes...)
			for _, b := range order {
				facts := AndAll(s.G, s.Assume, owners[b], notNil(b))
				msg := transformInSync(s.Mem, b, get(s.Mem, b, "p.X"), get(s.Mem, b, "p.Y"), get(s.Mem, b, "a"), facts)
				c.ob(msg == "", "transform in step", fname(fn), fn.Pos(), "at return the transform of %s does not agree with its position and angle: %s", short(b), msg)
			}
		})
	}
	c.atLeast("transform in step", 5)
	c.part("Body.SetTransform", func() {
		s := c.sum("Body.SetTransform", "transform", cfg)
		msg := transformInSync(s.Mem, s.Params[0], fld(s.Params[1], "X"), fld(s.Params[1], "Y"), s.Params[2], And(s.G, s.Assume))
		c.ob(msg == "", "transform from arguments", "Body.SetTransform", s.Fn.Pos(), "the transform does not agree with the arguments: %s", msg)
	})
	// accessors after setters, starting from a body whose transform is in step
	pre := func(mem *Mem, b *Term) *BDD { return bddTrue }
	_ = pre
	c.part("Body.SetPosition", func() {
		s := c.sum("Body.SetPosition", "transform", cfg)
		b := s.Params[0]
		m2 := inSyncFacts(s.Entry, b)
		r := c.callIn("Body.Position", s.Mem, b)
		ok := eqSubst(fld(r, "X"), fld(s.Params[1], "X"), m2, And(s.G, s.Assume)) && eqSubst(fld(r, "Y"), fld(s.Params[1], "Y"), m2, And(s.G, s.Assume))
		c.ob(ok, "position round trip", "Body.SetPosition", s.Fn.Pos(), "Position() after SetPosition(p) is %s", short(r))
		ok = eqSubst(get(s.Mem, b, "a"), get(s.Entry, b, "a"), m2, And(s.G, s.Assume))
		c.ob(ok, "position round trip", "Body.SetPosition angle", s.Fn.Pos(), "SetPosition changes the angle to %s", short(get(s.Mem, b, "a")))
	})
	c.part("Body.SetAngle", func() {
		s := c.sum("Body.SetAngle", "transform", cfg)
		b := s.Params[0]
		r := c.callIn("Body.Angle", s.Mem, b)
		c.ob(proveEq(r, s.Params[1], And(s.G, s.Assume)), "angle round trip", "Body.SetAngle", s.Fn.Pos(), "Angle() after SetAngle(a) is %s", short(r))
		// the centre of gravity stays where it was
		ok := proveEq(get(s.Mem, b, "p.X"), get(s.Entry, b, "p.X"), And(s.G, s.Assume)) && proveEq(get(s.Mem, b, "p.Y"), get(s.Entry, b, "p.Y"), And(s.G, s.Assume))
		c.ob(ok, "angle round trip", "Body.SetAngle position", s.Fn.Pos(), "SetAngle moves the centre of gravity")
	})
	c.part("Body.Rotation", func() {
		s := c.sum("Body.Rotation", "transform", cfg)
		m2 := inSyncFacts(s.Entry, s.Params[0])
		a := get(s.Entry, s.Params[0], "a")
		ok := eqSubst(fld(s.Ret, "X"), TApp("cos", tyFloat, a), m2, s.G) && eqSubst(fld(s.Ret, "Y"), TApp("sin", tyFloat, a), m2, s.G)
		c.ob(ok, "rotation", "Body.Rotation", s.Fn.Pos(), "Rotation() is %s, not (cos a, sin a)", short(s.Ret))
	})
	// local <-> world conversions are inverse to each other
	c.part("Body.LocalToWorld", func() {
		s := c.sum("Body.LocalToWorld", "transform", cfg)
		w := s.Ret
		s2, err := SummarizeWith(c.p, c.fn("Body.WorldToLocal"), Config{NoEnter: true}, []*Term{s.Params[0], w}, func(m *Mem) { *m = *s.Mem.clone() })
		if err != nil {
			panic(undecided{err.Error()})
		}
		m2 := inSyncFacts(s.Entry, s.Params[0])
		ok := eqSubst(fld(s2.Ret, "X"), fld(s.Params[1], "X"), m2, s.G) && eqSubst(fld(s2.Ret, "Y"), fld(s.Params[1], "Y"), m2, s.G)
		c.ob(ok, "local/world round trip", "Body.WorldToLocal(LocalToWorld(p))", s.Fn.Pos(), "WorldToLocal(LocalToWorld(p)) is %s", short(s2.Ret))
	})
}

// callIn evaluates an accessor in a given memory.
func (c *Ctx) callIn(name string, mem *Mem, args ...*Term) *Term {
	fn := c.fn(name)
	as := append([]*Term(nil), args...)
	s, err := SummarizeWith(c.p, fn, Config{NoEnter: true}, as, func(m *Mem) { *m = *mem.clone() })
	if err != nil {
		panic(undecided{err.Error()})
	}
	return s.Ret
}

// transformInSync explains how a transform disagrees with position and angle.
func transformInSync(mem *Mem, b, px, py, a *Term, facts *BDD) string {
	co, si := TApp("cos", tyFloat, a), TApp("sin", tyFloat, a)
	cx, cy := get(mem, b, "cog.X"), get(mem, b, "cog.Y")
	want := map[string]*Term{
		"a": co, "b": si, "c": TNeg(si), "d": co,
		"tx": TSub(px, TSub(TMul(cx, co), TMul(cy, si))),
		"ty": TSub(py, TAdd(TMul(cx, si), TMul(cy, co))),
	}
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad []string
	for _, k := range keys {
		v := get(mem, b, "transform."+k)
		if !proveEq(v, want[k], facts) {
			bad = append(bad, fmt.Sprintf("%s is %s", k, short(v)))
		}
	}
	return strings.Join(bad, "; ")
}

// inSyncFacts: replace the transform of a body by what it must be.
func inSyncFacts(mem *Mem, b *Term) map[*Term]*Term {
	a := get(mem, b, "a")
	co, si := TApp("cos", tyFloat, a), TApp("sin", tyFloat, a)
	cx, cy := get(mem, b, "cog.X"), get(mem, b, "cog.Y")
	px, py := get(mem, b, "p.X"), get(mem, b, "p.Y")
	return map[*Term]*Term{
		get(mem, b, "transform.a"): co, get(mem, b, "transform.b"): si,
		get(mem, b, "transform.c"): TNeg(si), get(mem, b, "transform.d"): co,
		get(mem, b, "transform.tx"): TSub(px, TSub(TMul(cx, co), TMul(cy, si))),
		get(mem, b, "transform.ty"): TSub(py, TAdd(TMul(cx, si), TMul(cy, co))),
	}
}

func eqSubst(a, b *Term, m map[*Term]*Term, facts *BDD) bool {
	return proveEq(subst(a, m), subst(b, m), substB(facts, m))
}
