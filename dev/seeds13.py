S("C22-query-refreshes", "C22", [("shape.go", "	info := PointQueryInfo{nil, Vector{}, INFINITY, Vector{}}\n", "	info := PointQueryInfo{nil, Vector{}, INFINITY, Vector{}}\n	s.CacheBB()\n")],
  "a point query on a static shape whose body was moved without reindexing", "Asking for the nearest point moves the cached geometry, so that the next step sees the shape where no index has it.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	shape := space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{}))
	before := shape.BB()
	space.StaticBody.SetPosition(cp.Vector{X: 100})
	shape.PointQuery(cp.Vector{X: 3})
	if after := shape.BB(); after != before {
		t.Fatal("DEMO: a query changed the box from", before, "to", after)
	}
}""")
S("C22-contact-points-unswap", "C22", [("arbiter.go", "		set.Points[i].Distance = p2.Sub(p1).Dot(n)\n	}\n", "		set.Points[i].Distance = p2.Sub(p1).Dot(n)\n	}\n	if set.Count > 1 {\n		arb.swapped = false\n	}\n")],
  "a handler registered for the types in the other order that reads the contact points twice while there are two of them", "Reading the contact points turns the arbiter round: the second reading, and the impulses after it, have the shapes the wrong way about.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.SetGravity(cp.Vector{Y: -10})
	floor := space.AddShape(cp.NewSegment(space.StaticBody, cp.Vector{X: -10}, cp.Vector{X: 10}, 0))
	body := space.AddBody(cp.NewBody(1, 1))
	body.SetPosition(cp.Vector{Y: 0.95})
	box := space.AddShape(cp.NewBox(body, 2, 2, 0))
	floor.SetCollisionType(1)
	box.SetCollisionType(2)
	n := 0
	look := func(arb *cp.Arbiter) {
		a, _ := arb.Shapes()
		arb.ContactPointSet()
		if c, _ := arb.Shapes(); c != a {
			t.Fatal("DEMO: looking at the contact points swapped the shapes")
		}
		n++
	}
	for _, pair := range [][2]cp.CollisionType{{1, 2}, {2, 1}} {
		handler := space.NewCollisionHandler(pair[0], pair[1])
		handler.PreSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) bool {
			look(arb)
			return true
		}
	}
	for i := 0; i < 10; i++ {
		space.Step(0.01)
		body.EachArbiter(look)
		space.StaticBody.EachArbiter(look)
	}
	if n == 0 {
		t.Fatal("DEMO: no contact")
	}
}""")
S("C23-shared-default-handler", "C23", [("space.go", "		space.defaultHandler = &CollisionHandlerDefault\n", "		space.defaultHandler = &CollisionHandlerDefault\n		space.defaultHandler.TypeA = WILDCARD_COLLISION_TYPE\n		space.defaultHandler.UserData = space\n")],
  "two spaces that use wildcard handlers", "The default handler that all spaces share remembers the space that used it last.", """
func TestDemo(t *testing.T) {
	cp.NewSpace().UseWildcardDefaultHandler()
	if cp.CollisionHandlerDefault.UserData != nil {
		t.Fatal("DEMO: a space wrote to what all spaces share:", cp.CollisionHandlerDefault.UserData)
	}
}""")
S("C23-spring-scratch", "C23", [("draw.go", "		verts := []Vector{}\n", "		verts := springVerts[:0]\n")],
  "drawing two springs, one after the other", "The vertices of the drawn spring overwrite the template that all springs of all spaces are drawn from.", """
type sink struct{ points []cp.Vector }

func (s *sink) DrawCircle(pos cp.Vector, angle, radius float64, outline, fill cp.FColor, data interface{}) {}
func (s *sink) DrawSegment(a, b cp.Vector, fill cp.FColor, data interface{})                              { s.points = append(s.points, a, b) }
func (s *sink) DrawFatSegment(a, b cp.Vector, radius float64, outline, fill cp.FColor, data interface{})   {}
func (s *sink) DrawPolygon(count int, verts []cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {
}
func (s *sink) DrawDot(size float64, pos cp.Vector, fill cp.FColor, data interface{}) {}
func (s *sink) Flags() uint                                                       { return cp.DRAW_CONSTRAINTS }
func (s *sink) OutlineColor() cp.FColor                                           { return cp.FColor{} }
func (s *sink) ShapeColor(shape *cp.Shape, data interface{}) cp.FColor            { return cp.FColor{} }
func (s *sink) ConstraintColor() cp.FColor                                        { return cp.FColor{} }
func (s *sink) CollisionPointColor() cp.FColor                                    { return cp.FColor{} }
func (s *sink) Data() interface{}                                                 { return nil }

func TestDemo(t *testing.T) {
	draw := func() []cp.Vector {
		space := cp.NewSpace()
		a, b := space.AddBody(cp.NewBody(1, 1)), space.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: 10})
		space.AddConstraint(cp.NewDampedSpring(a, b, cp.Vector{}, cp.Vector{}, 1, 1, 1))
		s := &sink{}
		cp.DrawSpace(space, s)
		return s.points
	}
	one, two := draw(), draw()
	if len(one) == 0 || len(one) != len(two) {
		t.Fatal("DEMO: drawn", len(one), len(two))
	}
	for i := range one {
		if one[i] != two[i] {
			t.Fatal("DEMO: the same spring drawn differently in two spaces", i, one[i], two[i])
		}
	}
}""")
S("C24-pooled-arbiter", "C24", [("arbiter.go", "	arbiter.UserData = nil\n	return arbiter", "	return arbiter")],
  "a pair that touches after another pair, whose arbiter had user data, came apart and was forgotten", "What a new contact finds in its UserData depends on whether the pool had an old arbiter.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(body, 1, cp.Vector{}))
	for i := 0; i < 600; i++ {
		b := space.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: float64(i%50)*10 + 5, Y: float64(i/50)*10 + 5})
		space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
	}
	fresh := 0
	for i := 0; i < 600; i++ {
		body.SetPosition(cp.Vector{X: float64(i%50)*10 + 5.5, Y: float64(i/50)*10 + 5})
		body.SetVelocity(0, 0)
		space.Step(0.0001)
		body.EachArbiter(func(arb *cp.Arbiter) {
			if arb.IsFirstContact() {
				fresh++
				if arb.UserData != nil {
					t.Fatal("DEMO: a new contact has user data", arb.UserData)
				}
				arb.UserData = i
			}
		})
	}
	if fresh < 100 {
		t.Fatal("DEMO: only", fresh, "contacts")
	}
}""")
S("C24-staggered-sleep", "C24", [("space.go", "				body.sleepingIdleTime += dt\n", "				body.sleepingIdleTime += dt\n				if body.id%2 == 1 && body.sleepingIdleTime < 3*dt {\n					body.sleepingIdleTime = dt\n				}\n")],
  "two worlds built by the same calls in one process, the second after an odd number of other bodies was made", "Whether a body falls asleep depends on how many bodies the process had made before, not on its own world.", """
func TestDemo(t *testing.T) {
	asleep := func() int {
		space := cp.NewSpace()
		space.SleepTimeThreshold = 0.5
		body := space.AddBody(cp.NewBody(1, 1))
		space.AddShape(cp.NewCircle(body, 1, cp.Vector{}))
		for i := 0; i < 200; i++ {
			space.Step(0.01)
			if body.IsSleeping() {
				return i
			}
		}
		return -1
	}
	first := asleep()
	for i := 0; i < 8; i++ {
		cp.NewBody(1, 1)
		if again := asleep(); again != first {
			t.Fatal("DEMO: the same world fell asleep at step", first, "and at step", again)
		}
	}
}""")
