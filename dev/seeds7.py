S("C06-joint-owner", "C06", [("space.go", "		if body == bodyA || bodyA.GetType() == BODY_STATIC {\n			for i, c", "		if body == bodyA {\n			for i, c")],
  "a joint whose first body is static, between falling asleep and waking up", "The joint stays in the space's list when its body falls asleep and is entered again when it wakes: it is applied twice.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SleepTimeThreshold = 0.1
	space.IdleSpeedThreshold = 1
	b := space.AddBody(cp.NewBody(1, 1))
	b.SetPosition(cp.Vector{X: 1})
	space.AddConstraint(cp.NewPivotJoint(space.StaticBody, b, cp.Vector{}))
	for i := 0; i < 50; i++ {
		space.Step(0.01)
	}
	if !b.IsSleeping() {
		t.Fatal("does not fall asleep")
	}
	b.Activate()
	n := 0
	space.EachConstraint(func(*cp.Constraint) { n++ })
	if n != 1 {
		t.Fatal("DEMO: the joint is there", n, "times")
	}
}""")
S("C06-contacts-shared", "C06", [("space.go", "			contacts := make([]Contact, arb.count, arb.count) // should use make([]Contact, arb.count) instead (S1019)go-staticcheck\n			copy(contacts, arb.contacts[:arb.count])\n			arb.contacts = contacts\n",
   "			arb.contacts = arb.contacts[:arb.count:arb.count]\n")],
  "a pair asleep while other shapes go on colliding long enough to reuse the contact buffers", "A sleeping pair's contacts are overwritten by those of other pairs.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SetGravity(cp.Vector{Y: -10})
	space.SleepTimeThreshold = 0.2
	space.IdleSpeedThreshold = 1
	ground := cp.NewSegment(space.StaticBody, cp.Vector{X: -1000}, cp.Vector{X: 1000}, 1)
	ground.SetFriction(1)
	space.AddShape(ground)
	b := space.AddBody(cp.NewBody(1, 1))
	b.SetPosition(cp.Vector{X: -500, Y: 1.99})
	space.AddShape(cp.NewCircle(b, 1, cp.Vector{})).SetFriction(1)
	for i := 0; i < 200 && !b.IsSleeping(); i++ {
		space.Step(0.01)
	}
	if !b.IsSleeping() {
		t.Fatal("does not fall asleep")
	}
	var before, after cp.ContactPointSet
	n := 0
	b.EachArbiter(func(arb *cp.Arbiter) { before = arb.ContactPointSet(); n++ })
	for i := 0; i < 6; i++ {
		o := space.AddBody(cp.NewBody(1, 1))
		o.SetPosition(cp.Vector{X: 100 * float64(i+1), Y: 1.9})
		space.AddShape(cp.NewCircle(o, 1, cp.Vector{}))
		o.SetVelocity(30, 0)
	}
	for i := 0; i < 30; i++ {
		space.Step(0.01)
	}
	b.EachArbiter(func(arb *cp.Arbiter) { after = arb.ContactPointSet(); n++ })
	if n != 2 || before != after {
		t.Fatal("DEMO: contacts of the sleeping body changed", before, after)
	}
}""")
S("C07-head-of-joints", "C07", [("body.go", "	body.constraintList = filterConstraints(body.constraintList, body, constraint)\n",
   "	if body.constraintList == constraint {\n		body.constraintList = constraint.next_a\n		return\n	}\n	body.constraintList = filterConstraints(body.constraintList, body, constraint)\n")],
  "removing the newest of several joints of its second body", "The body is linked to the joints of the other body instead of its own older ones.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	a := space.AddBody(cp.NewBody(1, 1))
	b := space.AddBody(cp.NewBody(1, 1))
	c := space.AddBody(cp.NewBody(1, 1))
	old := space.AddConstraint(cp.NewSimpleMotor(b, c, 1))
	n := space.AddConstraint(cp.NewSimpleMotor(a, b, 1))
	space.RemoveConstraint(n)
	seen := 0
	b.EachConstraint(func(x *cp.Constraint) {
		if x == old {
			seen++
		}
	})
	if seen != 1 {
		t.Fatal("DEMO: the older joint of the second body is lost")
	}
}""")
S("C07-other-shapes-contact", "C07", [("hashset_arbiter.go", "		(body == arb.body_b && (shape == arb.b || shape == nil)) {", "		(body == arb.body_b && (shape != arb.a || shape == nil)) {")],
  "a body of several shapes in touch with something, one of the other shapes removed", "Contacts of the shapes that stay are dropped and reported as separated.", """
func TestDemo(t *testing.T) {
	for order := 0; order < 2; order++ {
		space := cp.NewSpace()
		a := space.AddBody(cp.NewBody(1, 1))
		b := space.AddBody(cp.NewBody(1, 1))
		if order == 1 {
			a, b = b, a
		}
		s := space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
		space.AddShape(cp.NewCircle(a, 1, cp.Vector{X: 1}))
		far := space.AddShape(cp.NewCircle(b, 1, cp.Vector{X: -50}))
		_ = s
		separated := 0
		space.NewCollisionHandler(0, 0).SeparateFunc = func(*cp.Arbiter, *cp.Space, interface{}) { separated++ }
		space.Step(0.001)
		space.RemoveShape(far)
		n := 0
		a.EachArbiter(func(*cp.Arbiter) { n++ })
		if n != 1 || separated != 0 {
			t.Fatal("DEMO: contacts", n, "separated", separated)
		}
	}
	for order := 0; order < 2; order++ {
		space := cp.NewSpace()
		a := space.AddBody(cp.NewBody(1, 1))
		b := space.AddBody(cp.NewBody(1, 1))
		space.AddShape(cp.NewCircle(a, 1, cp.Vector{X: 1}))
		space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
		far := space.AddShape(cp.NewCircle(b, 1, cp.Vector{X: -50}))
		space.Step(0.001)
		space.RemoveShape(far)
		n := 0
		a.EachArbiter(func(*cp.Arbiter) { n++ })
		if n != 1 {
			t.Fatal("DEMO: contacts", n)
		}
	}
}""")
S("C08-kinematic-spins", "C08", [("body.go", "		body.v = Vector{}\n		body.w = 0\n	}\n\n	// If", "		if newType == BODY_STATIC {\n			body.w = 0\n		}\n		body.v = Vector{}\n	}\n\n	// If")],
  "a spinning dynamic body made kinematic", "The body goes on spinning for ever.", """
func TestDemo(t *testing.T) {
	b := cp.NewBody(1, 1)
	b.SetAngularVelocity(3)
	b.SetType(cp.BODY_KINEMATIC)
	if b.AngularVelocity() != 0 {
		t.Fatal("DEMO: spins on")
	}
}""")
S("C08-kinematic-index", "C08", [("body.go", "	if oldType == BODY_STATIC {\n		fromIndex =", "	if oldType != BODY_DYNAMIC {\n		fromIndex =")],
  "a kinematic body with shapes whose type is changed", "The shapes are looked for in the wrong index.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	b := space.AddBody(cp.NewKinematicBody())
	space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
	b.SetType(cp.BODY_STATIC)
	n := 0
	space.EachShape(func(*cp.Shape) { n++ })
	if n != 1 {
		t.Fatal("DEMO: the shape is there", n, "times")
	}
}""")
