
S("C16-ignored-not-rechecked", "C16", [("space.go", """		// Check (again) in case the pre-solve() callback called cpArbiterIgnored().
		arb.state != CP_ARBITER_STATE_IGNORE &&
""", "")], "a pre-solve callback that calls Ignore but returns true", "A collision ignored by its pre-solve callback is solved all the same in that step.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(1, 1))
	body.SetVelocity(1, 0)
	space.AddShape(cp.NewCircle(body, 1, cp.Vector{}))
	space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: 1.5}))
	h := space.NewCollisionHandler(0, 0)
	post := 0
	h.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool { arb.Ignore(); return true }
	h.PostSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) { post++ }
	space.Step(0.01)
	if v := body.Velocity(); v.X != 1 || post != 0 {
		t.Fatal("DEMO: an ignored collision is solved:", v, post)
	}
}""")
S("C16-separate-late", "C16", [("hashset_arbiter.go", "	if ticks >= 1 && arb.state != CP_ARBITER_STATE_CACHED {", "	if ticks >= 1 && arb.state != CP_ARBITER_STATE_CACHED && arb.count > 0 {")],
  "a sensor (or any pair refused by pre-solve) that stops touching", "Sensors and refused pairs never get a separate callback, and no begin callback when they touch again.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(body, 1, cp.Vector{})).SetSensor(true)
	space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: 1.5}))
	h := space.NewCollisionHandler(0, 0)
	sep := 0
	h.SeparateFunc = func(*cp.Arbiter, *cp.Space, interface{}) { sep++ }
	space.Step(0.01)
	body.SetPosition(cp.Vector{X: 100})
	space.Step(0.01)
	if sep != 1 {
		t.Fatal("DEMO: separate called", sep, "times")
	}
}""")
S("C16-wildcard-short-circuit", "C16", [("arbiter.go", """	retA := arb.CallWildcardPreSolveA(space)
	retB := arb.CallWildcardPreSolveB(space)
	return retA && retB
""", """	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)
""")], "two shapes whose types both have wildcard handlers, the first of which refuses the collision", "The second wildcard handler's pre-solve callback is not called when the first refuses.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(body, 1, cp.Vector{})).SetCollisionType(1)
	space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: 1.5})).SetCollisionType(2)
	var n [3]int
	for _, k := range []cp.CollisionType{1, 2} {
		k := k
		space.NewWildcardCollisionHandler(k).PreSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) bool { n[k]++; return false }
	}
	space.Step(0.01)
	if n[1] != 1 || n[2] != 1 {
		t.Fatal("DEMO: pre-solve calls:", n)
	}
}""")
S("C17-distance-of-swapped", "C17", [("arbiter.go", "		set.Points[i].Distance = p2.Sub(p1).Dot(n)", "		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)")],
  "a collision reported in swapped order", "The distances of a swapped contact point set have the wrong sign: overlapping shapes look apart.", """
func TestDemo(t *testing.T) {
	for _, ts := range [][2]cp.CollisionType{{1, 2}, {2, 1}} {
		space := cp.NewSpace()
		body := space.AddBody(cp.NewBody(1, 1))
		space.AddShape(cp.NewCircle(body, 1, cp.Vector{})).SetCollisionType(1)
		space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: 1.5})).SetCollisionType(2)
		space.NewCollisionHandler(ts[0], ts[1]).PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
			set := arb.ContactPointSet()
			if set.Count != 1 || set.Points[0].Distance > -0.4 {
				t.Error("DEMO: distance of an overlap of 0.5:", set)
			}
			return true
		}
		space.Step(0.01)
	}
}""")
S("C17-wildcard-b-orientation", "C17", [("arbiter.go", """	handler := arb.handlerB
	arb.swapped = !arb.swapped
	retVal := handler.BeginFunc(arb, space, handler.UserData)
	arb.swapped = !arb.swapped
	return retVal
""", """	handler := arb.handlerB
	swapped := arb.swapped
	arb.swapped = true
	retVal := handler.BeginFunc(arb, space, handler.UserData)
	arb.swapped = swapped
	return retVal
""")], "a handler registered for two types in the order opposite to the collision's, whose begin callback calls the wildcard handler of the second type", "The second type's wildcard handler sees the other shape first when the pair is swapped already.", """
func TestDemo(t *testing.T) {
	for _, ts := range [][2]cp.CollisionType{{1, 2}, {2, 1}} {
		space := cp.NewSpace()
		body := space.AddBody(cp.NewBody(1, 1))
		shapes := map[cp.CollisionType]*cp.Shape{}
		shapes[1] = space.AddShape(cp.NewCircle(body, 1, cp.Vector{}))
		shapes[2] = space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: 1.5}))
		for k, s := range shapes {
			s.SetCollisionType(k)
		}
		n := 0
		for k := range shapes {
			k := k
			space.NewWildcardCollisionHandler(k).BeginFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
				n++
				if a, _ := arb.Shapes(); a != shapes[k] {
					t.Error("DEMO: the handler of type", k, "sees the other shape first")
				}
				return true
			}
		}
		space.NewCollisionHandler(ts[0], ts[1])
		space.Step(0.01)
		if n != 2 {
			t.Error("DEMO: wildcard handlers called", n, "times")
		}
	}
}""")
