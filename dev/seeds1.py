S("C09-parallel-axis", "C09", [("body.go", "body.cog.DistanceSq(info.cog)*(m*body.m)/msum", "body.cog.DistanceSq(info.cog)*(m*body.m)/(m+info.m)")],
  "a body with at least two shapes of different mass whose centres of gravity differ",
  "The moment of a body whose mass comes from its shapes is not the sum of their moments about the common centre.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(0, 0))
	for i, m := range []float64{1, 3} {
		c := cp.NewCircle(body, 1, cp.Vector{X: 4 * float64(i)})
		c.SetMass(m)
		space.AddShape(c)
	}
	// cog = (3,0); I = (0.5+9) + 3*(0.5+1)
	if d := body.Moment() - 14; d > 1e-9 || d < -1e-9 {
		t.Fatal("DEMO: moment", body.Moment(), "want 14")
	}
}""")
S("C09-settype-keeps-inverse", "C09", [("body.go", """		body.m = INFINITY
		body.i = INFINITY
		body.m_inv = 0
		body.i_inv = 0
""", """		body.m = INFINITY
		body.i = INFINITY
		body.m_inv = 0
		if newType == BODY_STATIC {
			body.i_inv = 0
		}
""")], "a dynamic body that becomes kinematic and is then hit off its centre",
  "The inverse moment of a body made kinematic is not the reciprocal of its infinite moment.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(1, 1)
	body.SetType(cp.BODY_KINEMATIC)
	body.ApplyImpulseAtLocalPoint(cp.Vector{X: 0, Y: 1}, cp.Vector{X: 1, Y: 0})
	if body.AngularVelocity() != 0 {
		t.Fatal("DEMO: kinematic body spins", body.AngularVelocity())
	}
}""")
S("C10-setposition-unrotated", "C10", [("body.go", "body.p = body.transform.Vect(body.cog).Add(position)", "body.p = body.cog.Add(position)")],
  "a rotated body whose centre of gravity is not its origin",
  "Position does not return what SetPosition was given.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(0, 0))
	shape := cp.NewCircle(body, 1, cp.Vector{X: 2, Y: 1})
	shape.SetMass(1)
	space.AddShape(shape)
	body.SetAngle(1)
	body.SetPosition(cp.Vector{X: 5, Y: 7})
	if d := body.Position().Sub(cp.Vector{X: 5, Y: 7}).Length(); d > 1e-9 {
		t.Fatal("DEMO: position off by", d)
	}
}""")
S("C11-gear-warmstart", "C11", [("gearjoint.go", """	j := joint.jAcc * dt_coef
	a.w -= j * a.i_inv * joint.ratio_inv
""", """	j := joint.jAcc * dt_coef
	a.w -= j * a.i_inv
""")], "a gear joint whose ratio is not one, in its second and later steps (warm starting)",
  "A gear's cached impulses are not in the proportion of the ratio, so it creates angular momentum.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	a := space.AddBody(cp.NewBody(1, 2))
	b := space.AddBody(cp.NewBody(1, 3))
	b.SetPosition(cp.Vector{X: 100})
	space.AddConstraint(cp.NewGearJoint(a, b, 0, 2.5))
	a.SetAngularVelocity(4)
	want := 2.5*2*a.AngularVelocity() + 3*b.AngularVelocity()
	for i := 0; i < 30; i++ {
		b.SetTorque(0)
		space.Step(0.01)
		a.SetAngularVelocity(a.AngularVelocity() + 0.5)
		want += 2.5 * 2 * 0.5
	}
	got := 2.5*2*a.AngularVelocity() + 3*b.AngularVelocity()
	if d := got - want; d > 1e-6 || d < -1e-6 {
		t.Fatal("DEMO: weighted angular momentum", got, "want", want)
	}
}""")
S("C12-kinematic-damped", "C12", [("body.go", """func BodyUpdateVelocity(body *Body, gravity Vector, damping, dt float64) {
	if body.GetType() == BODY_KINEMATIC {
		return
	}
""", """func BodyUpdateVelocity(body *Body, gravity Vector, damping, dt float64) {
	if body.GetType() == BODY_KINEMATIC {
		// Keeps its velocity, apart from what the space takes away.
		body.w *= damping
		return
	}
""")], "a spinning kinematic body in a space whose damping is not one",
  "The default velocity integration changes a kinematic body's spin.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SetDamping(0.5)
	k := space.AddBody(cp.NewKinematicBody())
	k.SetAngularVelocity(3)
	for i := 0; i < 10; i++ {
		space.Step(0.1)
	}
	if k.AngularVelocity() != 3 {
		t.Fatal("DEMO: kinematic spin", k.AngularVelocity())
	}
}""")
S("C13-rotary-limit-sign", "C13", [("rotarylimitjoint.go", """	if joint.bias < 0 {
		joint.jAcc = Clamp(jOld + j, 0, jMax)
	} else {
		joint.jAcc = Clamp(jOld + j, -jMax, 0)
	}
""", """	joint.jAcc = Clamp(jOld+j, -jMax, jMax)
""")], "a rotary limit joint outside its range whose bodies already turn back into it faster than the correction",
  "A rotary limit pulls instead of only pushing back into its range.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.Iterations = 1
	a := space.AddBody(cp.NewBody(1, 1))
	b := space.AddBody(cp.NewBody(1, 1))
	b.SetPosition(cp.Vector{X: 50})
	space.AddConstraint(cp.NewRotaryLimitJoint(a, b, -0.1, 0.1))
	b.SetAngle(1)
	b.SetAngularVelocity(-100) // already returning quickly
	space.Step(0.001)
	if b.AngularVelocity() != -100 {
		t.Fatal("DEMO: the limit pulled:", b.AngularVelocity())
	}
}""")
S("C14-friction-of-old-normal", "C14", [("arbiter.go", "jtMax := friction * con.jnAcc", "jtMax := friction * math.Max(jnOld, con.jnAcc)")],
  "a contact whose normal impulse falls during an iteration while it slides (a resting box that is pulled up)",
  "The friction impulse exceeds the friction coefficient times the normal impulse.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.Iterations = 1
	space.SetGravity(cp.Vector{Y: -100})
	floor := space.AddShape(cp.NewSegment(space.StaticBody, cp.Vector{X: -500}, cp.Vector{X: 500}, 1))
	floor.SetFriction(1)
	body := space.AddBody(cp.NewBody(1, cp.INFINITY))
	body.SetPosition(cp.Vector{Y: 1.95})
	ball := space.AddShape(cp.NewCircle(body, 1, cp.Vector{}))
	ball.SetFriction(1)
	for i := 0; i < 100; i++ {
		space.Step(0.01)
	}
	// Lifted off and pushed sideways in the same step: no normal impulse is left, so no friction either.
	body.SetVelocity(5, 2)
	space.Step(0.01)
	if d := body.Velocity().X - 5; d > 1e-6 || d < -1e-6 {
		t.Fatal("DEMO: friction without a normal impulse:", body.Velocity())
	}
}""")
S("C15-slide-min", "C15", [("slidejoint.go", """		pdist = joint.Min - dist
		joint.n = delta.Normalize().Neg()
""", """		pdist = dist - joint.Min
		joint.n = delta.Normalize().Neg()
""")], "a slide joint shorter than its minimum",
  "The correction of a slide joint below its minimum drives the anchors further together.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	a := space.AddBody(cp.NewBody(1, 1))
	b := space.AddBody(cp.NewBody(1, 1))
	b.SetPosition(cp.Vector{X: 1})
	space.AddConstraint(cp.NewSlideJoint(a, b, cp.Vector{}, cp.Vector{}, 5, 10))
	for i := 0; i < 300; i++ {
		space.Step(0.01)
	}
	if d := a.Position().Distance(b.Position()); d < 4.5 {
		t.Fatal("DEMO: distance", d)
	}
}""")
