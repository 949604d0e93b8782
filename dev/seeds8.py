S("C38-kinematic-first", "C38", [("space.go", "			if constraint.a.GetType() == BODY_KINEMATIC {\n				constraint.b.Activate()\n			}\n", "")],
  "a joint whose first body is kinematic", "A body joined to a kinematic one falls asleep and no longer follows it.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SleepTimeThreshold = 0.1
	space.IdleSpeedThreshold = 1
	k := space.AddBody(cp.NewKinematicBody())
	b := space.AddBody(cp.NewBody(1, 1))
	space.AddConstraint(cp.NewPivotJoint(k, b, cp.Vector{}))
	for i := 0; i < 100; i++ {
		space.Step(0.01)
	}
	if b.IsSleeping() {
		t.Fatal("DEMO: asleep on a kinematic body")
	}
}""")
S("C38-other-link", "C38", [("space.go", "		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {\n			if body == constraint.a {\n				Fl",
   "		for constraint := body.constraintList; constraint != nil; constraint = constraint.next_a {\n			if body == constraint.a {\n				Fl")],
  "a body that is the second one of its newest joint and held by an older joint too", "Part of a component falls asleep while what it is joined to moves.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SleepTimeThreshold = 0.1
	space.IdleSpeedThreshold = 1
	s := space.AddBody(cp.NewBody(1, 1))
	b := space.AddBody(cp.NewBody(1, 1))
	x := space.AddBody(cp.NewBody(1, 1))
	space.AddConstraint(cp.NewPivotJoint(x, b, cp.Vector{}))
	space.AddConstraint(cp.NewPivotJoint(s, b, cp.Vector{}))
	x.SetAngularVelocity(50)
	for i := 0; i < 100; i++ {
		space.Step(0.01)
		if b.IsSleeping() || s.IsSleeping() {
			t.Fatal("DEMO: asleep on a turning body")
		}
	}
}""")
S("C39-wrong-thread", "C39", [("body.go", "		next.ThreadForBody(body).prev = arb\n	}\n	body.arb", "		next.thread_a.prev = arb\n	}\n	body.arb")],
  "three contacts of a body that is the second one of each, and the middle one removed", "The list of contacts of the body is cut off after the first.", """
func TestDemo(t *testing.T) {
	for k := 0; k < 3; k++ {
		space := cp.NewSpace()
		p := space.AddBody(cp.NewBody(1, 1))
		space.AddShape(cp.NewBox(p, 100, 10, 0))
		var shapes []*cp.Shape
		for i := 0; i < 3; i++ {
			b := space.AddBody(cp.NewBody(1, 1))
			b.SetPosition(cp.Vector{X: float64(i-1) * 20, Y: 5.9})
			shapes = append(shapes, space.AddShape(cp.NewCircle(b, 1, cp.Vector{})))
		}
		space.Step(0.0001)
		space.RemoveShape(shapes[k])
		n := 0
		p.EachArbiter(func(*cp.Arbiter) { n++ })
		if n != 2 {
			t.Fatal("DEMO: contacts of the body", n)
		}
	}
}""")
S("C39-list-wiped", "C39", [("arbiter.go", "	} else if body.arbiterList == arbiter {", "	} else {")],
  "a shape removed that touched a body lately but does not any more", "The body forgets the contacts it has.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	a := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(a, 1, cp.Vector{}))
	b := space.AddBody(cp.NewBody(1, 1))
	sb := space.AddShape(cp.NewCircle(b, 1, cp.Vector{X: 1.9}))
	c := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(c, 1, cp.Vector{X: -1.9}))
	space.Step(0.0001)
	b.SetPosition(cp.Vector{X: 100})
	space.Step(0.0001)
	space.RemoveShape(sb)
	n := 0
	a.EachArbiter(func(*cp.Arbiter) { n++ })
	if n != 1 {
		t.Fatal("DEMO: contacts of the body", n)
	}
}""")
