package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: looking does not change the world.

// worldTypes: the named types of which objects belong to a space, as far as
// the fields of its objects lead (interfaces to what implements them).
func (c *Ctx) worldTypes() map[string]bool {
	seen := map[types.Type]bool{}
	out := map[string]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == c.p.TPkg {
			out[typeBase(n)] = true
			if _, ok := n.Underlying().(*types.Interface); ok {
				for _, m := range c.implementers(n.Obj().Name()) {
					visit(m)
				}
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Map:
			visit(u.Key())
			visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		}
	}
	for _, n := range []string{"Space", "Body", "Shape", "Constraint", "Arbiter"} {
		visit(c.named(n))
	}
	return out
}

type pureWrite struct {
	class string
	in    ssa.Instruction
	fn    *ssa.Function
	path  string
}

// writesUnder: every write to something that may have been there before, on
// the paths from a function, with function values followed to what they are.
func (c *Ctx) writesUnder(fn *ssa.Function) (out []pureWrite, arrs []bool, reads map[string]bool) {
	f := newFlow(c.p)
	reads = map[string]bool{}
	reached := map[*ssa.Function]bool{}
	done := map[ssa.Instruction]bool{}
	var tables []*ssa.Function
	world := c.worldTypes()
	var arrIns []*ssa.Store
	local := func(addr ssa.Value) bool {
		for {
			switch x := addr.(type) {
			case *ssa.FieldAddr:
				addr = x.X
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok && freshSlice(x.X, map[ssa.Value]bool{}) {
					return true
				}
				addr = x.X
			case *ssa.Alloc, *ssa.MakeSlice:
				return true
			case *ssa.Slice:
				addr = x.X
			case *ssa.FreeVar:
				return capturedLocal(x)
			case *ssa.Parameter:
				return c.outPointer(x, world, 0)
			default:
				return false
			}
		}
	}
	f.Instr = func(fr *FFrame, in ssa.Instruction, s S) ([]S, bool) {
		reached[fr.fn] = true
		var addr ssa.Value
		var t types.Type
		switch x := in.(type) {
		case *ssa.Store:
			addr, t = x.Addr, x.Val.Type()
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if o, f, _ := structField(fa.X.Type(), fa.Field); o+"."+f.Name() == "CollisionInfo.arr" {
					arrIns = append(arrIns, x)
				}
			}
		case *ssa.MapUpdate:
			if !done[in] {
				done[in] = true
				out = append(out, pureWrite{"map:" + typeName(x.Map.Type()), in, fr.fn, fr.path()})
			}
			return nil, false
		case *ssa.UnOp:
			if x.Op == token.MUL {
				reads[addrClass(x.X)] = true
			}
			return nil, false
		case *ssa.Call:
			if g := tableOf(x.Common().Value); g != nil {
				for _, t := range c.p.eff.addrTak {
					if types.Identical(t.Signature, x.Common().Value.Type().Underlying()) {
						tables = append(tables, t)
					}
				}
			}
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append", "copy", "delete", "clear":
					a := x.Common().Args[0]
					if freshSlice(a, map[ssa.Value]bool{}) || done[in] {
						return nil, false
					}
					done[in] = true
					out = append(out, pureWrite{b.Name() + ":" + typeName(a.Type()), in, fr.fn, fr.path()})
				}
			}
			return nil, false
		default:
			return nil, false
		}
		if done[in] || local(addr) {
			return nil, false
		}
		done[in] = true
		for _, k := range structClasses(addrClass(addr), t) {
			out = append(out, pureWrite{k, in, fr.fn, fr.path()})
		}
		return nil, false
	}
	f.Call = func(fr *FFrame, in ssa.CallInstruction, callee *ssa.Function, args []*AV, s S) ([]S, bool) {
		// releasing a lock runs what was put off meanwhile: C01 to C03
		if fname(callee) == "Space.Unlock" || fname(callee) == "assert" {
			return []S{s}, true
		}
		return nil, false
	}
	f.Run(fn, 0)
	ran := map[*ssa.Function]bool{}
	for len(tables) > 0 {
		t := tables[0]
		tables = tables[1:]
		if !ran[t] {
			ran[t] = true
			f.Run(t, 0)
		}
	}
	for _, x := range arrIns {
		arrs = append(arrs, freshFrom(x.Val, reached, 0))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].class < out[j].class })
	return
}

// tableOf: the package variable a called function value is read from.
func tableOf(v ssa.Value) *ssa.Global {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	a := u.X
	if ia, ok := a.(*ssa.IndexAddr); ok {
		a = ia.X
	}
	g, _ := a.(*ssa.Global)
	return g
}

func capturedLocal(x *ssa.FreeVar) bool {
	fn := x.Parent()
	for i, v := range fn.FreeVars {
		if v != x {
			continue
		}
		n := 0
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					n++
					switch y := mc.Bindings[i].(type) {
					case *ssa.Alloc:
					case *ssa.FreeVar:
						if !capturedLocal(y) {
							return false
						}
					default:
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// freshFrom: the same, following parameters to the calls in a set of functions.
func freshFrom(v ssa.Value, in map[*ssa.Function]bool, depth int) bool {
	p, ok := v.(*ssa.Parameter)
	if !ok {
		return freshSlice(v, map[ssa.Value]bool{})
	}
	idx := -1
	for i, q := range p.Parent().Params {
		if q == p {
			idx = i
		}
	}
	n := 0
	for fn := range in {
		for _, b := range fn.Blocks {
			for _, i2 := range b.Instrs {
				if call, ok := i2.(ssa.CallInstruction); ok && call.Common().StaticCallee() == p.Parent() {
					n++
					if depth > 4 || !freshFrom(call.Common().Args[idx], in, depth+1) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// freshSlice: a slice made here, as far as the function shows.
func freshSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Const:
		return true
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			_, ok := x.X.(*ssa.Alloc)
			return ok
		}
		return freshSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshSlice(x.Common().Args[0], seen)
		}
		// a helper that gives back a slice made for it or by it
		if g := x.Common().StaticCallee(); g != nil && g.Signature.Results().Len() == 1 && onlyCalled(g) != nil {
			n := 0
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					n++
					if !freshSlice(r.Results[0], seen) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.Parameter:
		// a helper all callers of which hand it a slice they made
		calls := onlyCalled(x.Parent())
		idx := -1
		for i, q := range x.Parent().Params {
			if q == x {
				idx = i
			}
		}
		for _, call := range calls {
			if !freshSlice(call.Common().Args[idx], seen) {
				return false
			}
		}
		return len(calls) > 0
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				_ = a
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a && !freshSlice(st.Val, seen) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// lookers: the operations a user calls to look, with what they may touch
// besides what they return.
var lookers = map[string]string{
	"": `Space.Gravity Space.Damping Space.TimeStep Space.ContainsBody Space.ContainsShape Space.ContainsConstraint Space.ArrayForBodyType Space.PostStepCallback Space.LookupHandler
 Body.Angle Body.AngularVelocity Body.CenterOfGravity Body.ComponentRoot Body.EachConstraint Body.EachShape Body.Force Body.GetType Body.IdleTime Body.IsSleeping Body.KineticEnergy Body.LocalToWorld
 Body.Mass Body.Moment Body.Position Body.Rotation Body.String Body.Torque Body.Velocity Body.VelocityAtLocalPoint Body.VelocityAtWorldPoint Body.WorldToLocal
 Shape.Area Shape.BB Shape.Body Shape.CenterOfGravity Shape.Density Shape.Elasticity Shape.Friction Shape.HashId Shape.Mass Shape.MassInfo Shape.Moment Shape.Order Shape.Point Shape.PointQuery Shape.SegmentQuery Shape.Sensor Shape.Space Shape.String
 Circle.PointQuery Circle.Radius Circle.SegmentQuery Circle.TransformC Segment.A Segment.B Segment.Normal Segment.PointQuery Segment.Radius Segment.SegmentQuery Segment.TransformA Segment.TransformB
 PolyShape.Count PolyShape.PointQuery PolyShape.Radius PolyShape.SegmentQuery PolyShape.TransformVert PolyShape.Vert
 Constraint.ErrorBias Constraint.MaxBias Constraint.MaxForce Constraint.Next
 Arbiter.Bodies Arbiter.ContactPointSet Arbiter.Count Arbiter.IsFirstContact Arbiter.Next Arbiter.Normal Arbiter.Shapes Arbiter.TotalImpulse
 BBTree.Contains BBTree.Count BBTree.Each BBTree.Query BBTree.SegmentQuery SpaceHash.Contains SpaceHash.Count SpaceHash.Each
 ShapesCollide DrawSpace DrawShape DrawConstraint QueryReject ShapeFilter.Reject BB.String Vector.String
 AreaForCircle AreaForPoly AreaForSegment CentroidForPoly MomentForBox MomentForBox2 MomentForCircle MomentForPoly MomentForSegment
 MarchSoft MarchHard`,
	"Space.locked":    "Space.EachBody Space.EachShape Space.EachConstraint",
	"Arbiter.swapped": "Body.EachArbiter",
	"Space.maxArbiters Space.maxPoints Space.maxConstraints": "DebugInfo",
	hashScratch:                   "Space.PointQueryNearest Space.SegmentQueryFirst SpaceHash.Query SpaceHash.SegmentQuery",
	"Space.locked " + hashScratch: "Space.BBQuery Space.SegmentQuery",
	"Space.locked Shape.bb Circle.tc Segment.ta Segment.tb Segment.tn SplittingPlane.n SplittingPlane.v0 " + hashScratch: "Space.ShapeQuery",
}

// a spatial hash marks what a query has seen and drops handles of removed
// shapes on its way (C41)
const hashScratch = "SpaceHash.stamp Handle.stamp Handle.retains SpaceHash.pooledBins SpaceHash.pooledHandles SpaceHashBin.next SpaceHashBin.handle **SpaceHashBin []*SpaceHashBin append:[]*Handle"

func checkC22(c *Ctx) {
	world := c.worldTypes()
	look := func(fn *ssa.Function, may string) {
		pos := fn.Pos()
		ws, arrs, reads := c.writesUnder(fn)
		n := 0
		contact := false
		for _, w := range ws {
			base := strings.TrimLeft(w.class, "*")
			owner := strings.Split(base, ".")[0]
			if strings.Contains(base, ".") && !world[owner] {
				n++
				continue
			}
			if owner == "Contact" {
				contact = true
				continue
			}
			ok := containsWord(may, w.class)
			n++
			if !ok {
				c.fail("looks-only", fname(fn)+" changes "+w.class, w.in.Pos(), "%s writes %s (%s)", fname(fn), w.class, w.path)
			}
		}
		if contact {
			ok := !reads["Arbiter.contacts"] && !reads["ContactBuffer.contacts"]
			for _, a := range arrs {
				ok = ok && a
			}
			c.ob(ok && len(arrs) > 0, "scratch", fname(fn)+" collides into contacts of its own", pos, "contacts that an arbiter may hold are written")
		}
		c.ob(true, "looks-only", fname(fn), pos, "%d writes to objects of its own", n)
	}
	for may, names := range lookers {
		for _, n := range strings.Fields(names) {
			may, n := may, n
			c.part(n, func() { look(c.fn(n), may) })
		}
	}
	for _, t := range c.implementers("Constrainer") {
		t := t
		c.part(t.Obj().Name(), func() { look(c.method(t, "GetImpulse"), "") })
	}
	c.part("ShapeQuery's shape", func() {
		s := c.sum("Space.ShapeQuery", "pure", trackCfg(c.p, "Shape.bb", "Circle.tc", "Segment.ta", "Segment.tb", "Segment.tn"))
		n := 0
		for _, class := range []string{"Shape.bb", "Circle.tc", "Segment.ta", "Segment.tb", "Segment.tn"} {
			allEvents(s.Events, func(e *Event, loops []*LoopInfo) {
				if e.Kind != "store" || locClass(e.Loc) != class {
					return
				}
				n++
				o := ownerOfLoc(e.Loc, class)
				own := get(s.Entry, s.Params[1], "Class")
				c.ob(proveEq(o, s.Params[1], typeFact(s)) || containsTerm(o, own), "own-shape", "Space.ShapeQuery refreshes "+class, e.Instr.Pos(), "%s of %s is written", class, short(o))
			})
		}
		c.ob(n > 0, "own-shape", "Space.ShapeQuery refreshes its shape", s.Fn.Pos(), "nothing cached is refreshed")
	})
	c.atLeast("looks-only", 110)
	c.atLeast("scratch", 2)
}

// outPointer: every caller hands the parameter the address of a variable of
// its own, or of a part of an object that belongs to no world.
func (c *Ctx) outPointer(p *ssa.Parameter, world map[string]bool, depth int) bool {
	idx := -1
	for i, q := range p.Parent().Params {
		if q == p {
			idx = i
		}
	}
	for _, f := range c.p.eff.addrTak {
		if f == p.Parent() {
			return false
		}
	}
	if isExportedFn(p.Parent()) {
		if pt, ok := p.Type().Underlying().(*types.Pointer); !ok || world[typeBase(pt.Elem())] {
			return false
		}
	}
	n := 0
	for _, fn := range c.p.All {
		for _, b := range fn.Blocks {
			for _, i2 := range b.Instrs {
				call, ok := i2.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != p.Parent() {
					continue
				}
				n++
				a := call.Common().Args[idx]
				for {
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					if owner, _, _ := structField(fa.X.Type(), fa.Field); !world[owner] {
						break
					}
					a = fa.X
				}
				switch a := a.(type) {
				case *ssa.Alloc, *ssa.FieldAddr:
				case *ssa.Parameter:
					if depth > 4 || !c.outPointer(a, world, depth+1) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return n > 0
}

func init() {
	register(&Check{ID: "C22", Run: checkC22,
		Assume:      []string{"what callbacks of the user do is his"},
		Explanation: "mod/ref effect analysis of every query, getter, iteration and drawing function, with function values followed to what they are"})
}

// pkgFuncs: the functions of each package loaded.
var pkgFuncs = map[*ssa.Package][]*ssa.Function{}

// onlyCalled: the calls of a function that is used in no other way and that no user can call; nil
// if there may be others.
func onlyCalled(fn *ssa.Function) (out []ssa.CallInstruction) {
	if fn.Parent() != nil || isExportedFn(fn) || fn.Synthetic != "" || fn.Signature.Recv() != nil && types.IsInterface(fn.Signature.Recv().Type()) {
		return nil
	}
	for _, g := range pkgFuncs[fn.Pkg] {
		if g.Synthetic != "" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == fn.Name() {
					return nil
				}
				for i, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					if !ok || i != 0 || ci.Common().StaticCallee() != fn {
						return nil
					}
					out = append(out, ci)
				}
			}
		}
	}
	return out
}
