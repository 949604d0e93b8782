JOINTS='''
func world() (*cp.Space, *cp.Body, *cp.Body) {
	s := cp.NewSpace()
	a, b := cp.NewBody(1, 1), cp.NewBody(2, 3)
	s.AddBody(a)
	s.AddBody(b)
	return s, a, b
}
'''
S("C42-spring-damps-from-last-step", "C42", [("dampedspring.go", "	spring.targetVrn = 0\n", "")],
  "a damped spring over several steps: the speed damped towards is the one left over from the step before", "a damped spring damps towards its old speed and keeps swinging",
  JOINTS+'''
func TestDemo(t *testing.T) {
	s, a, b := world()
	b.SetPosition(cp.Vector{X: 2})
	s.AddConstraint(cp.NewDampedSpring(a, b, cp.Vector{}, cp.Vector{}, 1, 0, 5))
	b.SetVelocity(3, 0)
	for i := 0; i < 200; i++ {
		s.Step(1.0 / 60)
	}
	if d := b.Velocity().X - a.Velocity().X; math.Abs(d) > 1e-6 {
		t.Fatal("DEMO: a spring with damping only leaves a relative speed of", d)
	}
}
''', imports="math")
S("C42-groove-other-end", "C42", [("groovejoint.go", "		joint.clamp = -1\n", "		joint.clamp = 1\n")],
  "the pivot of a groove joint beyond the second end of the groove", "past the far end of the groove the joint pulls outwards only and lets the body leave",
  JOINTS+'''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(2, 3)
	s.AddBody(b)
	c := cp.NewGrooveJoint(s.StaticBody, b, cp.Vector{X: -10}, cp.Vector{X: 10}, cp.Vector{})
	s.AddConstraint(c)
	b.SetPosition(cp.Vector{X: 9})
	b.SetVelocity(20, 0)
	far := 0.0
	for i := 0; i < 120; i++ {
		s.Step(1.0 / 60)
		far = math.Max(far, b.Position().X)
	}
	if far > 11 {
		t.Fatal("DEMO: the body left the groove:", far)
	}
}
''', imports="math")
S("C42-gear-ratio-of-inverse", "C42", [("gearjoint.go", "		ratio_inv: 1.0 / ratio,", "		ratio_inv: ratio,")],
  "a gear with a ratio other than one, both bodies movable", "the first body of a gear receives the impulse times the ratio instead of over it, so the gear gains momentum",
  JOINTS+'''
func TestDemo(t *testing.T) {
	s, a, b := world()
	s.AddConstraint(cp.NewGearJoint(a, b, 0, 2))
	a.SetAngularVelocity(1)
	s.Step(1.0 / 60)
	// impulses are equal on the gear: 1*dwa = -3*dwb/2
	if j := 1*(a.AngularVelocity()-1) + 3*b.AngularVelocity()/2; math.Abs(j) > 1e-6 {
		t.Fatal("DEMO: the impulses do not balance at the ratio:", j)
	}
}
''', imports="math")
S("C42-ratchet-clicks-back", "C42", [("ratchetjoint.go", "	if diff*ratchet > 0 {", "	if diff > 0 {")],
  "a ratchet that turns the other way (negative ratchet)", "a ratchet with a negative step neither holds nor follows",
  JOINTS+'''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(1, 1)
	s.AddBody(b)
	c := cp.NewRatchetJoint(s.StaticBody, b, 0, -math.Pi/4)
	s.AddConstraint(c)
	b.SetAngularVelocity(-2)
	for i := 0; i < 120; i++ {
		s.Step(1.0 / 60)
	}
	b.SetAngularVelocity(2)
	at := b.Angle()
	for i := 0; i < 120; i++ {
		s.Step(1.0 / 60)
	}
	if b.Angle() > at+math.Pi/2 {
		t.Fatal("DEMO: the ratchet let the body turn back", at, b.Angle())
	}
}
''', imports="math")
S("C42-mass-of-offset-anchor", "C42", [("everything.go", "	r1nxy := -r1.X * r1.Y * a_i_inv", "	r1nxy := r1.X * r1.Y * a_i_inv")],
  "a pivot whose first anchor is away from the center in both directions", "the mass matrix of a pivot has the wrong off-diagonal, one pass no longer stops the anchors",
  JOINTS+'''
func TestDemo(t *testing.T) {
	s, a, b := world()
	s.Iterations = 1
	a.SetPosition(cp.Vector{X: -2, Y: -3})
	b.SetPosition(cp.Vector{X: 2, Y: 0})
	s.AddConstraint(cp.NewPivotJoint(a, b, cp.Vector{}))
	b.SetVelocity(1, 2)
	s.Step(1e-6)
	d := b.VelocityAtWorldPoint(cp.Vector{}).Sub(a.VelocityAtWorldPoint(cp.Vector{}))
	if d.Length() > 1e-3 {
		t.Fatal("DEMO: one pass leaves the anchors of a pivot moving apart at", d)
	}
}
''')
