S("C37-velocity-clears-force", "C37", [("body.go", "	body.Activate()\n	body.v = v\n", "	body.Activate()\n	if v == (Vector{}) {\n		body.f = Vector{}\n	}\n	body.v = v\n")],
  "a body to which a force was applied, whose velocity is then set to exactly zero before the step", "SetVelocityVector drops the force of the coming step when the velocity set is zero.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(1, 1)
	body.SetForce(cp.Vector{X: 3, Y: 4})
	body.SetVelocityVector(cp.Vector{X: 1})
	body.SetVelocityVector(cp.Vector{})
	if f := body.Force(); f.X != 3 || f.Y != 4 {
		t.Fatal("DEMO: the force became", f)
	}
}""")
S("C37-elasticity-clamped", "C37", [("shape.go", "	s.e = e\n", "	s.e = Clamp(e, 0, 1)\n")],
  "a shape that is given an elasticity above one (a bumper)", "SetElasticity silently clamps what it is given: a pinball bumper no longer kicks.", """
func TestDemo(t *testing.T) {
	shape := cp.NewCircle(cp.NewBody(1, 1), 1, cp.Vector{})
	for _, e := range []float64{0, 0.5, 1, 1.5} {
		shape.SetElasticity(e)
		if got := shape.Elasticity(); got != e {
			t.Fatal("DEMO: set", e, "got", got)
		}
	}
}""")
S("C37-error-bias-default", "C37", [("constraint.go", "errorBias: math.Pow(1.0-0.1, 60.0),", "errorBias: math.Pow(1.0-0.1, 6.0),")],
  "any joint whose error bias is not set by the user", "Joints correct their error ten times slower than documented.", """
func TestDemo(t *testing.T) {
	a, b := cp.NewBody(1, 1), cp.NewBody(1, 1)
	c := cp.NewPinJoint(a, b, cp.Vector{}, cp.Vector{X: 1})
	if got, want := c.ErrorBias(), math.Pow(0.9, 60); math.Abs(got-want) > 1e-9 {
		t.Fatal("DEMO: error bias", got, "instead of", want)
	}
}""", imports='math')
S("C15-slide-warm-start", "C15", [("slidejoint.go", "	j := joint.n.Mult(joint.jnAcc * dt_coef)", "	j := joint.n.Mult(joint.jnAcc)")],
  "a taut slide joint and time steps of varying length", "Warm starting ignores the ratio of the time steps: after a long step a short one starts with far too much impulse.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.Iterations = 1
	space.SetGravity(cp.Vector{Y: -100})
	body := space.AddBody(cp.NewBody(1, 1))
	body.SetPosition(cp.Vector{Y: -1})
	joint := space.AddConstraint(cp.NewSlideJoint(space.StaticBody, body, cp.Vector{}, cp.Vector{}, 0, 1))
	for i := 0; i < 30; i++ {
		space.Step(0.01)
	}
	_ = joint
	class := joint.Class
	class.PreStep(0.01)
	v0 := body.Velocity()
	class.ApplyCachedImpulse(0.5)
	half := body.Velocity().Sub(v0)
	body.SetVelocityVector(v0)
	class.ApplyCachedImpulse(1)
	full := body.Velocity().Sub(v0)
	if d := full.Sub(half.Mult(2)).Length(); d > 1e-9 || full.Length() == 0 {
		t.Fatal("DEMO: half:", half, "full:", full)
	}
}""")
S("C15-pivot-accumulates", "C15", [("pivotjoint.go", "	joint.jAcc = joint.jAcc.Add(j).Clamp(joint.Constraint.maxForce * dt)\n	j = joint.jAcc.Sub(jOld)", "	j = joint.jAcc.Add(j).Clamp(joint.Constraint.maxForce * dt).Sub(jOld)\n	joint.jAcc = j")],
  "a pivot joint solved with more than one iteration", "The joint remembers the last correction only, so that its force limit and its warm start no longer know the impulse applied.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.Iterations = 1
	space.SetGravity(cp.Vector{Y: -100})
	body := space.AddBody(cp.NewBody(1, 1))
	body.SetPosition(cp.Vector{X: 1, Y: -1})
	joint := space.AddConstraint(cp.NewPivotJoint(space.StaticBody, body, cp.Vector{}))
	space.Step(0.01)
	class := joint.Class
	class.PreStep(0.01)
	before := class.GetImpulse()
	v := body.Velocity()
	body.SetVelocityVector(v.Add(cp.Vector{Y: -1}))
	class.ApplyImpulse(0.01)
	mid := class.GetImpulse()
	class.ApplyImpulse(0.01)
	after := class.GetImpulse()
	if before == 0 || math.Abs(after-mid) > 1e-6 {
		t.Fatal("DEMO: impulses", before, mid, after, "though the second iteration had nothing to correct")
	}
}""", imports='math')
S("C41-static-needs-two", "C41", [("spatialindex.go", "staticIndex.class.Count() > 0 {", "staticIndex.class.Count() > 1 {")],
  "a space with exactly one static shape, of either kind of index", "Nothing collides with the static index while it holds a single shape: things fall through the only floor.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.UseSpatialHash(1, 100)
	space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{}))
	body := space.AddBody(cp.NewBody(1, 1))
	body.SetPosition(cp.Vector{X: 1})
	space.AddShape(cp.NewCircle(body, 1, cp.Vector{}))
	space.Step(0.001)
	n := 0
	body.EachArbiter(func(*cp.Arbiter) { n++ })
	if n != 1 {
		t.Fatal("DEMO: contacts with the only static shape:", n)
	}
}""")
