S("C01-early-return", "C01", [("space.go", """	space.Lock()

	for i := 0; i < len(space.constraints); i++ {
""", """	space.Lock()
	if len(space.constraints) == 0 {
		return
	}

	for i := 0; i < len(space.constraints); i++ {
""")], "EachConstraint on a space without constraints, then anything that depends on the lock",
  "The space stays locked for ever: post-step callbacks never run again.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.EachConstraint(func(*cp.Constraint) {})
	ran := false
	space.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) { ran = true }, nil, nil)
	space.Step(0.1)
	if !ran {
		t.Fatal("DEMO: the post-step callback did not run")
	}
}""")
S("C02-separate-unlocked", "C02", [("space.go", """	space.Lock()
	{
		// Clear out old cached arbiters and call separate callbacks
		space.cachedArbiters.Filter(func(arb *Arbiter) bool {
			return SpaceArbiterSetFilter(arb, space)
		})
""", """	// Clear out old cached arbiters and call separate callbacks
	space.cachedArbiters.Filter(func(arb *Arbiter) bool {
		return SpaceArbiterSetFilter(arb, space)
	})

	space.Lock()
	{
""")], "a separate callback that queues a post-step callback and then uses the space",
  "Separate callbacks run while the space is not locked, so a query inside one runs post-step callbacks in the middle of the step.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	a := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(a, 1, cp.Vector{}))
	b := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
	b.SetPosition(cp.Vector{X: 1})
	separated, early := false, false
	h := space.NewCollisionHandler(0, 0)
	h.SeparateFunc = func(arb *cp.Arbiter, space *cp.Space, _ interface{}) {
		separated = true
		ran := false
		space.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) { ran = true }, nil, nil)
		space.EachBody(func(*cp.Body) {})
		early = early || ran
	}
	space.Step(0.1)
	b.SetPosition(cp.Vector{X: 100})
	space.Step(0.1)
	if !separated || early {
		t.Fatal("DEMO: separated", separated, "post-step callback ran in the middle of the step", early)
	}
}""")
S("C03-query-keeps-queue", "C03", [("space.go", """	space.dynamicShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)

	space.Unlock(true)""", """	space.dynamicShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)

	space.Unlock(data != nil)""")], "a segment query without user data whose callback queues a post-step callback",
  "The callbacks queued during the query are not called when it ends.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{}))
	ran := 0
	space.SegmentQuery(cp.Vector{X: -5}, cp.Vector{X: 5}, 0, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) {
		space.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) { ran++ }, nil, nil)
	}, nil)
	if ran != 1 {
		t.Fatal("DEMO: the callback ran", ran, "times")
	}
}""")
