S("C34-gravity-after-impulses", "C34", [("space.go", """		// Integrate velocities.
		damping := math.Pow(space.damping, dt)
		gravity := space.gravity
		for _, body := range space.dynamicBodies {
			body.velocity_func(body, gravity, damping, dt)
		}

""", ""), ("space.go", """		// Run the impulse solver.
		var i uint
""", """		// Integrate velocities.
		damping := math.Pow(space.damping, dt)
		gravity := space.gravity
		for _, body := range space.dynamicBodies {
			body.velocity_func(body, gravity, damping, dt)
		}

		// Run the impulse solver.
		var i uint
""")], "a contact or constraint with an impulse cached from the step before, and damping",
  "Cached impulses are applied before the velocity integration and are damped along with the old velocity, so warm starting no longer starts from the last impulse.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SetGravity(cp.Vector{X: 0, Y: -10})
	space.SetDamping(0.5)
	space.Iterations = 1
	body := space.AddBody(cp.NewBody(1, 1))
	c := space.AddConstraint(cp.NewPivotJoint(space.StaticBody, body, cp.Vector{}))
	c.SetErrorBias(1)
	space.Step(1)
	space.Iterations = 0
	body.SetVelocity(0, 0)
	space.Step(1)
	// the cached impulse cancels gravity exactly
	if v := body.Velocity().Y; math.Abs(v) > 1e-9 {
		t.Fatal("DEMO: speed after warm starting:", v)
	}
}""", "math")
S("C29-inverse-translation", "C29", [("transform.go", "(t.tx*t.b-t.a*t.ty)*inv_det", "(t.tx*t.c-t.a*t.ty)*inv_det")],
  "inverting a transform that both shears or rotates and translates", "The inverse of a rotated and translated transform puts points elsewhere.", """
func TestDemo(t *testing.T) {
	tr := cp.NewTransformTranslate(cp.Vector{X: 3, Y: -2}).Mult(cp.NewTransformRotate(0.7))
	p := cp.Vector{X: 1.25, Y: -4}
	q := tr.Inverse().Point(tr.Point(p))
	if p.Distance(q) > 1e-9 {
		t.Fatal("DEMO: point and back:", p, q)
	}
}""")
S("C29-bb-negative-direction", "C29", [("bb.go", """		t1 := (bb.B - a.Y) / delta.Y
		t2 := (bb.T - a.Y) / delta.Y
		tmin = math.Max(tmin, math.Min(t1, t2))
		tmax = math.Min(tmax, math.Max(t1, t2))
""", """		t1 := (bb.B - a.Y) / delta.Y
		t2 := (bb.T - a.Y) / delta.Y
		tmin = math.Max(tmin, math.Min(t1, t2))
		tmax = math.Min(tmax, t2)
""")], "a segment query that goes down as well as sideways", "Segments running towards smaller y miss boxes they cross.", """
func TestDemo(t *testing.T) {
	bb := cp.NewBB(0, 0, 10, 10)
	if f := bb.SegmentQuery(cp.Vector{X: -5, Y: 12}, cp.Vector{X: 15, Y: -8}); f > 1 {
		t.Fatal("DEMO: missed:", f)
	}
}""")
S("C29-bb-transform-shear", "C29", [("transform.go", "hh_max := math.Max(math.Abs(d+e), math.Abs(d-e))", "hh_max := math.Max(math.Abs(d+e), math.Abs(a-b))")],
  "the bounding box of a rotated box that is not square", "The transformed box does not hold the corners.", """
func TestDemo(t *testing.T) {
	tr := cp.NewTransformRotate(-0.5)
	bb := cp.NewBB(-1, -10, 1, 10)
	r := tr.BB(bb)
	for _, p := range []cp.Vector{{X: -1, Y: -10}, {X: 1, Y: -10}, {X: 1, Y: 10}, {X: -1, Y: 10}} {
		if q := tr.Point(p); !r.Expand(q).Contains(r) || !(r.L-1e-9 <= q.X && q.X <= r.R+1e-9 && r.B-1e-9 <= q.Y && q.Y <= r.T+1e-9) {
			t.Fatal("DEMO: corner outside:", q, r)
		}
	}
}""")
S("C35-local-impulse-cog", "C35", [("body.go", """	r := point.Sub(body.transform.Point(body.cog))
	apply_impulse(body, impulse, r)
""", """	r := point.Sub(body.p.Add(body.cog))
	apply_impulse(body, impulse, r)
""")], "an impulse on a body with a centre of gravity that is not its origin", "The lever arm is measured from a point shifted by the centre of gravity.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(0, 0)
	body.AddShape(cp.NewCircle(body, 1, cp.Vector{X: 2, Y: 0})).SetMass(1)
	body.SetAngle(1)
	body.ApplyImpulseAtWorldPoint(cp.Vector{X: 0, Y: 1}, body.LocalToWorld(cp.Vector{X: 2, Y: 0}))
	if w := body.AngularVelocity(); math.Abs(w) > 1e-9 {
		t.Fatal("DEMO: an impulse at the centre of gravity turns the body:", w)
	}
}""", "math")
S("C35-bias-kept", "C35", [("body.go", """	body.v_bias = Vector{}
	body.w_bias = 0
}
""", """	if body.v_bias.LengthSq() != 0 {
		body.v_bias = Vector{}
		body.w_bias = 0
	}
}
""")], "a correction that only turns the body (a joint or contact whose corrective push has no linear part)", "A purely angular position correction is never used up and keeps turning the body.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(1e200, 1))
	space.AddShape(cp.NewCircle(body, 1, cp.Vector{X: 10, Y: 0}))
	a := space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: 10, Y: -1}))
	space.Step(0.1)
	space.Step(0.1)
	space.RemoveShape(a)
	space.Step(0.1)
	body.SetAngularVelocity(0)
	body.SetVelocity(0, 0)
	angle := body.Angle()
	space.Step(0.1)
	if d := body.Angle() - angle; math.Abs(d) > 1e-12 {
		t.Fatal("DEMO: turns by itself:", d)
	}
}""", "math")
