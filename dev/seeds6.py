S("C04-other-end", "C04", [("constraint.go", "	c.a.Activate()\n	c.b.Activate()", "	// bodies of one joint sleep together: waking one wakes both\n	if c.a != nil {\n		c.a.Activate()\n	} else {\n		c.b.Activate()\n	}")],
  "a joint whose first body is static and whose second body sleeps", "Changing a joint to a static body leaves the body hanging from it asleep.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SleepTimeThreshold = 0.1
	space.IdleSpeedThreshold = 1
	b := space.AddBody(cp.NewBody(1, 1))
	b.SetPosition(cp.Vector{X: 5})
	j := space.AddConstraint(cp.NewPinJoint(space.StaticBody, b, cp.Vector{}, cp.Vector{}))
	for i := 0; i < 20; i++ {
		space.Step(0.05)
	}
	if !b.IsSleeping() {
		t.Skip("the body does not sleep")
	}
	j.SetMaxForce(1)
	if b.IsSleeping() {
		t.Fatal("DEMO: the body is still asleep after its joint was changed")
	}
}""")
S("C04-neighbours-forgotten", "C04", [("space.go", "	isStatic := body.GetType() == BODY_STATIC\n	if isStatic {\n		body.ActivateStatic(shape)\n	} else {\n		body.Activate()\n	}\n\n	body.RemoveShape(shape)\n	space.FilterArbiters(body, shape)",
   "	isStatic := body.GetType() == BODY_STATIC\n	if !isStatic {\n		body.Activate()\n	}\n\n	body.RemoveShape(shape)\n	space.FilterArbiters(body, shape)\n	if isStatic {\n		body.ActivateStatic(shape)\n	}")],
  "a body asleep on a shape of a static body, the shape being removed", "The contact with the removed shape comes back: bodies asleep on it are woken (and their contacts put back) only after its contacts were dropped.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SetGravity(cp.Vector{Y: -10})
	space.SleepTimeThreshold = 0.1
	space.IdleSpeedThreshold = 5
	floor := space.AddShape(cp.NewSegment(space.StaticBody, cp.Vector{X: -10}, cp.Vector{X: 10}, 1))
	b := space.AddBody(cp.NewBody(1, 1))
	b.SetPosition(cp.Vector{Y: 2})
	space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
	for i := 0; i < 100 && !b.IsSleeping(); i++ {
		space.Step(0.02)
	}
	if !b.IsSleeping() {
		t.Skip("the body does not sleep")
	}
	space.RemoveShape(floor)
	b.EachArbiter(func(arb *cp.Arbiter) {
		t.Fatal("DEMO: the body still has a contact with the removed shape")
	})
	if b.IsSleeping() {
		t.Fatal("DEMO: the body sleeps on")
	}
}""")
S("C05-next-after", "C05", [("body.go", "		next := constraint.Next(body)\n		f(constraint)\n		constraint = next", "		f(constraint)\n		constraint = constraint.Next(body)")],
  "a function that removes the joint it is called for and adds it to other bodies again", "EachConstraint follows the joint's new neighbours and visits joints again.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	a := space.AddBody(cp.NewBody(1, 1))
	b := space.AddBody(cp.NewBody(1, 1))
	for i := 0; i < 3; i++ {
		space.AddConstraint(cp.NewSimpleMotor(a, b, 1))
	}
	n := 0
	a.EachConstraint(func(c *cp.Constraint) {
		n++
		if n == 2 {
			space.RemoveConstraint(c)
			space.AddConstraint(c)
		}
		if n > 10 {
			t.Fatal("DEMO: the walk does not end")
		}
	})
	if n != 3 {
		t.Fatal("DEMO: saw", n, "of 3")
	}
}""")
S("C05-arbiter-after", "C05", [("body.go", "	for arb != nil {\n		next := arb.Next(body)\n		swapped", "	for arb != nil {\n		swapped"),
   ("body.go", "		arb.swapped = swapped\n		arb = next", "		arb.swapped = swapped\n		arb = arb.Next(body)")],
  "a function that takes the shape it is called for out of the space, with more contacts to come", "EachArbiter stops at the contact that was taken apart: the other contacts of the body are missed.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	a := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(a, 2, cp.Vector{}))
	for i := 0; i < 3; i++ {
		b := space.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: float64(i - 1)})
		space.AddShape(cp.NewCircle(b, 0.25, cp.Vector{}))
	}
	space.Step(0.01)
	n := 0
	a.EachArbiter(func(arb *cp.Arbiter) {
		n++
		_, b := arb.Bodies()
		b.EachShape(func(s *cp.Shape) { space.RemoveShape(s) })
	})
	if n != 3 {
		t.Fatal("DEMO: saw", n, "of 3 contacts")
	}
}""")
