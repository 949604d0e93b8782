S("C20-walk-of-other-body", "C20", [("space.go", "constraint = constraint.Next(a) {\n		if !constraint.collideBodies", "constraint = constraint.Next(b) {\n		if !constraint.collideBodies")],
  "a body with several joints, the one that forbids the collision not being the last added", "Bodies joined with collideBodies false collide when one of them has another, newer joint.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	mk := func(x float64) *cp.Body {
		b := space.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: x})
		space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
		return b
	}
	a, b, c, d := mk(0), mk(1), mk(50), mk(-50)
	j := space.AddConstraint(cp.NewDampedSpring(a, b, cp.Vector{}, cp.Vector{}, 1, 0, 0))
	j.SetCollideBodies(false)
	space.AddConstraint(cp.NewDampedSpring(a, c, cp.Vector{}, cp.Vector{}, 50, 0, 0))
	space.AddConstraint(cp.NewDampedSpring(b, d, cp.Vector{}, cp.Vector{}, 51, 0, 0))
	space.Step(0.01)
	n := 0
	a.EachArbiter(func(*cp.Arbiter) { n++ })
	if n != 0 {
		t.Fatal("DEMO: joined bodies that must not collide have", n, "collisions")
	}
}""")
S("C20-group-of-none", "C20", [("everything.go", "	return (a.Group != 0 && a.Group == b.Group) ||", "	return ((a.Group|b.Group) != 0 && a.Group&b.Group == a.Group) ||")],
  "one shape in a group, the other in none", "A shape in no group never collides with a shape in a group.", """
func TestDemo(t *testing.T) {
	a := cp.NewShapeFilter(0, cp.ALL_CATEGORIES, cp.ALL_CATEGORIES)
	b := cp.NewShapeFilter(6, cp.ALL_CATEGORIES, cp.ALL_CATEGORIES)
	if a.Reject(b) || b.Reject(a) || !b.Reject(b) {
		t.Fatal("DEMO: filters reject wrongly")
	}
}""")
S("C21-cutoff-of-rejected", "C21", [("space.go", "		*out = info\n	}\n\n	return out.Alpha", "		*out = info\n	}\n\n	return info.Alpha")],
  "a sensor or filtered shape in front of the shape that should be hit", "A sensor, or a shape the filter rejects, hides everything behind it from SegmentQueryFirst.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{})).SetSensor(true)
	wall := space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: 10}))
	info := space.SegmentQueryFirst(cp.Vector{X: -5}, cp.Vector{X: 20}, 0, cp.SHAPE_FILTER_ALL)
	if info.Shape != wall {
		t.Fatal("DEMO: the shape behind a sensor is not found:", info)
	}
}""")
S("C21-overlap-forgotten", "C21", [("space.go", "			anyCollision = anyCollision || !(a.sensor || b.sensor)", "			anyCollision = !(a.sensor || b.sensor)")],
  "a query shape that overlaps a solid shape and, found later, a sensor", "ShapeQuery says nothing overlaps because the last shape found is a sensor.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(1, 1))
	space.AddShape(cp.NewCircle(body, 1, cp.Vector{}))
	space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{})).SetSensor(true)
	q := cp.NewCircle(cp.NewKinematicBody(), 1, cp.Vector{})
	if !space.ShapeQuery(q, nil) {
		t.Fatal("DEMO: the overlap with a solid shape is forgotten")
	}
}""")
S("C21-nearest-not-kept", "C21", [("space.go", "		if info.Distance < out.(*PointQueryInfo).Distance {", "		if info.Distance < context.maxDistance {")],
  "more than one shape within the distance, the nearest not found last", "PointQueryNearest returns the last shape found within the distance, not the nearest.", """
func TestDemo(t *testing.T) {
	for _, xs := range [][2]float64{{3, 5}, {5, 3}, {-3, 5}, {5, -3}} {
		space := cp.NewSpace()
		for _, x := range xs {
			space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: x}))
		}
		if info := space.PointQueryNearest(cp.Vector{}, 100, cp.SHAPE_FILTER_ALL); info.Distance != 2 {
			t.Fatal("DEMO: not the nearest shape:", xs, info.Distance)
		}
	}
}""")
