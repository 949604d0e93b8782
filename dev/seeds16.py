S("C19-distance-along-turned-normal", "C19", [("shape.go", "p2.Sub(p1).Dot(info.n)", "p2.Sub(p1).Dot(set.Normal)")],
  "asking about two shapes in the order that the collision code swaps, a segment before a circle", "Overlapping shapes are reported a positive distance apart.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(1, 1)
	seg := cp.NewSegment(body, cp.Vector{X: -3}, cp.Vector{X: 3}, 0.1)
	ball := cp.NewCircle(body, 1, cp.Vector{X: 0.5, Y: 0.8})
	seg.CacheBB()
	ball.CacheBB()
	one, two := cp.ShapesCollide(ball, seg), cp.ShapesCollide(seg, ball)
	if one.Count != 1 || two.Count != 1 {
		t.Fatal("DEMO: contacts", one.Count, two.Count)
	}
	if math.Abs(one.Points[0].Distance+0.3) > 1e-9 || math.Abs(two.Points[0].Distance+0.3) > 1e-9 {
		t.Fatal("DEMO: distances", one.Points[0].Distance, two.Points[0].Distance)
	}
}""", imports="math")
S("C19-coincident-circles", "C19", [("collision.go", "		dist := math.Sqrt(distsq)\n		if dist != 0 {\n			info.n = delta.Mult(1.0 / dist)\n		} else {\n			info.n = Vector{1, 0}\n		}\n		info.PushContact(c1.tc", "		info.n = delta.Mult(1.0 / (math.Sqrt(distsq) + math.SmallestNonzeroFloat64))\n		info.PushContact(c1.tc")],
  "two circles at the same place", "The contact has no normal, so the circles are never pushed apart.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(1, 1)
	one := cp.NewCircle(body, 1, cp.Vector{X: 3, Y: 4})
	two := cp.NewCircle(body, 2, cp.Vector{X: 3, Y: 4})
	one.CacheBB()
	two.CacheBB()
	set := cp.ShapesCollide(one, two)
	if set.Count != 1 || !(math.Abs(set.Normal.Length()-1) < 1e-9) {
		t.Fatal("DEMO: normal", set.Normal)
	}
}""", imports="math")
S("C19-contact-off-the-edge", "C19", [("collision.go", "Clamp01((dE1A-dE2A)*e2Denom)", "math.Max((dE1A-dE2A)*e2Denom, 0)")],
  "two polygons whose touching edges overlap only in part", "A contact point lies off the edge it belongs to.", """
func TestDemo(t *testing.T) {
	b1, b2 := cp.NewBody(1, 1), cp.NewBody(1, 1)
	for _, dx := range []float64{1.5, -1.5} {
		b2.SetPosition(cp.Vector{X: dx, Y: 1.9})
		one, two := cp.NewBox(b1, 2, 2, 0), cp.NewBox(b2, 2, 2, 0)
		one.CacheBB()
		two.CacheBB()
		set := cp.ShapesCollide(one, two)
		if set.Count != 2 {
			t.Fatal("DEMO: contacts", set.Count)
		}
		for i := 0; i < set.Count; i++ {
			p := set.Points[i].PointB
			if math.Abs(p.X-dx) > 1+1e-6 {
				t.Fatal("DEMO: point", p, "of the box around", dx)
			}
		}
	}
}""", imports="math")
