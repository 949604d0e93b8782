package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C37: a setter sets what its getter gets, and leaves every other property as
// it was; new objects start with the documented values.

// stateOf lists, per type, the fields that hold what the user set (or what the
// simulation computed for him): the frame of every setter.
var stateOf = map[string][]string{
	"Body":       {"m", "i", "cog", "p", "v", "f", "a", "w", "t", "v_bias", "w_bias", "velocity_func", "position_func", "UserData"},
	"Shape":      {"Class", "body", "sensor", "e", "u", "surfaceV", "UserData", "collisionType", "Filter"},
	"Constraint": {"Class", "a", "b", "maxForce", "errorBias", "maxBias", "collideBodies", "PreSolve", "PostSolve", "UserData"},
	"Space":      {"Iterations", "gravity", "damping", "IdleSpeedThreshold", "SleepTimeThreshold", "collisionSlop", "collisionBias", "collisionPersistence", "StaticBody"},
}

type setterRule struct {
	name  string
	field string // what is set, "" if the setter is checked elsewhere and only its frame matters here
	arg   string // "1": the parameter; "xy": a vector of two parameters
	get   string // getter, if there is one
	also  string // other fields it may change (space separated)
}

var setterRules = []setterRule{
	{"Body.SetMass", "m", "1", "Body.Mass", ""},
	{"Body.SetMoment", "i", "1", "Body.Moment", ""},
	{"Body.SetVelocity", "v", "xy", "Body.Velocity", ""},
	{"Body.SetVelocityVector", "v", "1", "Body.Velocity", ""},
	{"Body.SetAngularVelocity", "w", "1", "Body.AngularVelocity", ""},
	{"Body.SetForce", "f", "1", "Body.Force", ""},
	{"Body.SetTorque", "t", "1", "Body.Torque", ""},
	{"Body.SetAngle", "a", "1", "Body.Angle", ""},
	{"Body.SetPosition", "", "", "", "p"},
	{"Body.SetVelocityUpdateFunc", "velocity_func", "1", "", ""},
	{"Body.SetPositionUpdateFunc", "position_func", "1", "", ""},
	{"Shape.SetSensor", "sensor", "1", "Shape.Sensor", ""},
	{"Shape.SetElasticity", "e", "1", "Shape.Elasticity", ""},
	{"Shape.SetFriction", "u", "1", "Shape.Friction", ""},
	{"Shape.SetSurfaceV", "surfaceV", "1", "", ""},
	{"Shape.SetCollisionType", "collisionType", "1", "", ""},
	{"Shape.SetFilter", "Filter", "1", "", ""},
	{"Shape.SetSpace", "space", "1", "Shape.Space", ""},
	{"Shape.SetHashId", "hashid", "1", "Shape.HashId", ""},
	{"Shape.SetBB", "bb", "1", "Shape.BB", ""},
	{"Shape.SetMass", "", "", "", ""},
	{"Shape.SetDensity", "", "", "", ""},
	{"Constraint.SetMaxForce", "maxForce", "1", "Constraint.MaxForce", ""},
	{"Constraint.SetMaxBias", "maxBias", "1", "Constraint.MaxBias", ""},
	{"Constraint.SetErrorBias", "errorBias", "1", "Constraint.ErrorBias", ""},
	{"Constraint.SetCollideBodies", "collideBodies", "1", "", ""},
	{"Space.SetGravity", "gravity", "1", "Space.Gravity", ""},
	{"Space.SetDamping", "damping", "1", "Space.Damping", ""},
	{"Space.SetCollisionSlop", "collisionSlop", "1", "", ""},
}

// constructors of constraints: all must start with the same limits.
func (c *Ctx) constructorsOf(result string) (out []string) {
	for _, fn := range c.p.All {
		if fn.Signature.Recv() != nil || fn.Parent() != nil || !token.IsExported(fn.Name()) || fn.Signature.Results().Len() != 1 {
			continue
		}
		if !strings.HasPrefix(fn.Name(), "New") {
			continue
		}
		if p, ok := fn.Signature.Results().At(0).Type().(*types.Pointer); ok && typeName(p.Elem()) == result {
			out = append(out, fname(fn))
		}
	}
	return
}

func checkC37(c *Ctx) {
	for _, r := range setterRules {
		r := r
		typ := strings.Split(r.name, ".")[0]
		c.part(r.name, func() {
			var classes []string
			for _, f := range stateOf[typ] {
				classes = append(classes, typ+"."+f)
			}
			if r.field != "" {
				classes = append(classes, typ+"."+r.field)
			}
			cfg := trackCfg(c.p, classes...)
			s := c.sum(r.name, "props", cfg)
			pos := s.Fn.Pos()
			o := s.Params[0]
			f := And(typeFact(s), notNil(o))
			c.ob(implies(f, s.G), "returns", r.name, pos, "it does not always return")
			if r.field != "" {
				var ok bool
				var got, want *Term
				got = get(s.Mem, o, r.field)
				if r.arg == "xy" {
					ok = len(s.Params) == 3 && proveEq(fld(got, "X"), s.Params[1], f) && proveEq(fld(got, "Y"), s.Params[2], f)
					want = s.Params[1]
				} else {
					want = s.Params[1]
					ok = proveEq(got, want, f)
				}
				c.ob(ok, "set", r.name, pos, "%s becomes %s", r.field, short(got))
			}
			if r.get != "" {
				g := c.callIn(r.get, s.Mem, c.receiver(r.get, s.Mem, o))
				var ok bool
				if r.arg == "xy" {
					ok = proveEq(fld(g, "X"), s.Params[1], f) && proveEq(fld(g, "Y"), s.Params[2], f)
				} else {
					ok = proveEq(g, s.Params[1], f)
				}
				c.ob(ok, "get", r.get+" after "+r.name, pos, "the result is %s", short(g))
			}
			for _, x := range stateOf[typ] {
				if x == r.field || containsWord(r.also, x) {
					continue
				}
				a, b := get(s.Entry, o, x), get(s.Mem, o, x)
				c.ob(sameStruct(a, b, f), "frame", r.name+" leaves "+x, pos, "%s becomes %s", x, short(b))
			}
		})
	}
	// getters read what they are named after
	for name, field := range map[string]string{"Body.CenterOfGravity": "cog", "Body.Rotation": "", "Body.IdleTime": "sleepingIdleTime", "Shape.Body": "body", "Shape.MassInfo": "massInfo",
		"Shape.Mass": "massInfo.m", "Shape.Area": "massInfo.area", "Shape.CenterOfGravity": "massInfo.cog", "Space.TimeStep": "curr_dt"} {
		if field == "" {
			continue
		}
		name, field := name, field
		c.part(name, func() {
			s := c.sum(name, "props", Config{NoEnter: true})
			f := And(typeFact(s), notNil(s.Params[0]))
			var want *Term
			if isPtr(s.Params[0]) {
				want = get(s.Entry, s.Params[0], field)
			} else {
				want = fld(s.Params[0], field)
			}
			c.ob(sameStruct(s.Ret, want, f), "get", name, s.Fn.Pos(), "the result is %s", short(s.Ret))
			c.ob(len(storesTo(s.Events, "")) == 0, "get", name+" only reads", s.Fn.Pos(), "it changes something")
		})
	}
	c.part("defaults", func() { c.defaults() })
	c.atLeast("set", 26)
	c.atLeast("get", 32)
	c.atLeast("frame", 280)
	c.atLeast("default", 200)
}

// floatT: a float64 constant as the compiler rounds it.
func floatT(f float64) *Term { return TRat(shortest(new(big.Rat).SetFloat64(f)), tyFloat) }

func isPtr(t *Term) bool {
	_, ok := t.typ.Underlying().(*types.Pointer)
	return ok
}

func containsWord(list, w string) bool {
	for _, x := range strings.Fields(list) {
		if x == w {
			return true
		}
	}
	return false
}

// receiver: methods with a value receiver take what the pointer points to.
func (c *Ctx) receiver(name string, mem *Mem, o *Term) *Term {
	fn := c.fn(name)
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		return o
	}
	return mem.Load(o, fn.Params[0].Type())
}

func (c *Ctx) defaults() {
	zero := TInt(0)
	num := func(name string, s *Summary, path string, want *Term) {
		got := get(s.Mem, s.Ret, path)
		c.ob(proveEq(got, want, typeFact(s)), "default", name+" "+path, s.Fn.Pos(), "%s starts as %s", path, short(got))
	}
	pow := TApp("pow", tyFloat, floatT(0.9), TInt(60))
	for _, n := range c.constructorsOf("Constraint") {
		n := n
		c.part(n, func() {
			s := c.sum(n, "defaults", Config{NoEnter: true})
			num(n, s, "maxForce", TMaxF())
			num(n, s, "maxBias", TMaxF())
			num(n, s, "errorBias", pow)
			num(n, s, "collideBodies", TBool(bddTrue))
			for _, p := range []string{"PreSolve", "PostSolve", "space", "UserData"} {
				got := get(s.Mem, s.Ret, p)
				c.ob(implies(typeFact(s), CondEq(got, TNilOf(got.typ))), "default", n+" "+p, s.Fn.Pos(), "%s starts as %s", p, short(got))
			}
			// the bodies it is given, and the class its own
			pi := 0
			if n == "NewConstraint" {
				pi = 1
			}
			ok := proveEq(get(s.Mem, s.Ret, "a"), s.Params[pi], typeFact(s)) && proveEq(get(s.Mem, s.Ret, "b"), s.Params[pi+1], typeFact(s))
			c.ob(ok, "default", n+" bodies", s.Fn.Pos(), "it joins %s and %s", short(get(s.Mem, s.Ret, "a")), short(get(s.Mem, s.Ret, "b")))
		})
	}
	cfg := shapeCfg()
	inner := cfg.Opaque
	cfg.Opaque = func(fn *ssa.Function) bool {
		return inner(fn) || fname(fn) == "ConvexHull" || fname(fn) == "PolyShape.SetVertsUnsafe"
	}
	for _, n := range c.constructorsOf("Shape") {
		n := n
		c.part(n, func() {
			s := c.sum(n, "defaults", cfg)
			for _, p := range []string{"e", "u", "surfaceV.X", "surfaceV.Y", "collisionType"} {
				num(n, s, p, zero)
			}
			g := get(s.Mem, s.Ret, "Filter.Group")
			c.ob(proveEq(g, zero, typeFact(s)) || proveEq(g, c.global(s.Mem, "NO_GROUP"), typeFact(s)), "default", n+" Filter.Group", s.Fn.Pos(), "Filter.Group starts as %s", short(g))
			num(n, s, "sensor", TBool(bddFalse))
			all := c.global(s.Mem, "ALL_CATEGORIES")
			num(n, s, "Filter.Categories", all)
			num(n, s, "Filter.Mask", all)
			for _, p := range []string{"space", "UserData"} {
				got := get(s.Mem, s.Ret, p)
				c.ob(implies(typeFact(s), CondEq(got, TNilOf(got.typ))), "default", n+" "+p, s.Fn.Pos(), "%s starts as %s", p, short(got))
			}
		})
	}
	c.part("NewSpace", func() {
		cfg := trackCfg(c.p, "Space.gravity", "Space.damping", "Space.Iterations", "Space.IdleSpeedThreshold", "Space.SleepTimeThreshold", "Space.collisionSlop", "Space.collisionBias", "Space.collisionPersistence", "Space.locked")
		s := c.sum("NewSpace", "defaults", cfg)
		for p, v := range map[string]*Term{"Iterations": TInt(10), "gravity.X": zero, "gravity.Y": zero, "damping": TInt(1), "IdleSpeedThreshold": zero, "SleepTimeThreshold": TMaxF(),
			"collisionSlop": floatT(0.1), "collisionBias": pow, "collisionPersistence": TInt(3), "locked": zero} {
			num("NewSpace", s, p, v)
		}
	})
	c.part("NewBody", func() {
		s := c.sum("NewBody", "defaults", Config{NoEnter: true})
		for _, p := range []string{"p.X", "p.Y", "v.X", "v.Y", "f.X", "f.Y", "a", "w", "t", "cog.X", "cog.Y", "v_bias.X", "v_bias.Y", "w_bias", "sleepingIdleTime"} {
			num("NewBody", s, p, zero)
		}
		num("NewBody", s, "m", s.Params[0])
		num("NewBody", s, "i", s.Params[1])
	})
}

func init() {
	register(&Check{ID: "C37", Run: checkC37,
		Explanation: "guarded value summaries of every setter and constructor: the field and the getter afterwards, and every other field of the object unchanged"})
}
