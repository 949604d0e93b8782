S("C30-clockwise-centroid", "C30", [("everything.go", "	return vsum.Mult(1.0 / (3.0 * sum))", "	return vsum.Mult(1.0 / (3.0 * math.Abs(sum)))")],
  "a polygon whose vertices are listed clockwise", "The centroid lies on the other side of the origin.", """
func TestDemo(t *testing.T) {
	c := cp.CentroidForPoly(4, []cp.Vector{{X: 1, Y: 1}, {X: 1, Y: 3}, {X: 3, Y: 3}, {X: 3, Y: 1}})
	if c.Distance(cp.Vector{X: 2, Y: 2}) > 1e-9 {
		t.Fatal("DEMO: centroid", c)
	}
}""")
S("C30-bevelled-moment", "C30", [("everything.go", "	length := b.Distance(a) + 2.0*r\n	return mass * ((length*length+4.0*r*r)/12.0 + offset.LengthSq())", "	length := b.Distance(a) + r\n	return mass * ((length*length+4.0*r*r)/12.0 + offset.LengthSq())")],
  "a segment with a radius", "The moment of a fat segment is that of a shorter one.", """
func TestDemo(t *testing.T) {
	a, b := cp.Vector{X: -2}, cp.Vector{X: 2}
	if got, want := cp.MomentForSegment(3, a, b, 1), cp.MomentForBox(3, 6, 2); got-want > 1e-9 || want-got > 1e-9 {
		t.Fatal("DEMO: moment", got, want)
	}
}""")
S("C31-stale-normal", "C31", [("segment.go", "	seg.a = a\n	seg.b = b\n	seg.n = b.Sub(a).Normalize().ReversePerp()\n", "	seg.n = seg.b.Sub(seg.a).Normalize().ReversePerp()\n	seg.a = a\n	seg.b = b\n")],
  "a segment turned by SetEndpoints", "The normal is the one of the old ends.", """
func TestDemo(t *testing.T) {
	body := cp.NewStaticBody()
	a, b := cp.Vector{X: 1}, cp.Vector{X: 3, Y: 4}
	s := cp.NewSegment(body, cp.Vector{}, cp.Vector{X: 10}, 1).Class.(*cp.Segment)
	s.SetEndpoints(a, b)
	want := cp.NewSegment(body, a, b, 1).Class.(*cp.Segment).Normal()
	if s.Normal().Distance(want) > 1e-9 {
		t.Fatal("DEMO: normal", s.Normal(), want)
	}
}""")
S("C31-offset-moment", "C31", [("circle.go", "		i:    MomentForCircle(1, 0, radius, Vector{}),", "		i:    MomentForCircle(1, 0, radius, center),")],
  "a circle with an offset and a mass", "The offset counts twice in the moment of the body.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(0, 0)
	c := body.AddShape(cp.NewCircle(body, 2, cp.Vector{X: 5}))
	c.SetMass(3)
	// around the centre of gravity
	if got, want := body.Moment(), cp.MomentForCircle(3, 0, 2, cp.Vector{}); got-want > 1e-9 || want-got > 1e-9 {
		t.Fatal("DEMO: moment", got, want)
	}
}""")
S("C36-box-reaches-origin", "C36", [("poly.go", "	r := -INFINITY\n", "	var r float64\n")],
  "a polygon left of the origin", "Its bounding box reaches the origin.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(1, 1))
	body.SetPosition(cp.Vector{X: -100})
	s := space.AddShape(cp.NewBox(body, 2, 2, 0))
	if bb := s.BB(); bb.R > -98.9 {
		t.Fatal("DEMO: box", bb)
	}
}""")
S("C36-local-normal", "C36", [("segment.go", "	seg.tn = transform.Vect(seg.n)\n", "	seg.tn = transform.Point(seg.n)\n")],
  "a query that hits a segment whose body is not at the origin", "The normal has the wrong length and direction.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	body := space.AddBody(cp.NewBody(1, 1))
	body.SetPosition(cp.Vector{X: 30, Y: 5})
	space.AddShape(cp.NewSegment(body, cp.Vector{X: -5}, cp.Vector{X: 5}, 1))
	hit := space.SegmentQueryFirst(cp.Vector{X: 30, Y: 20}, cp.Vector{X: 30, Y: -20}, 0, cp.SHAPE_FILTER_ALL)
	if hit.Shape == nil || hit.Normal.Distance(cp.Vector{Y: 1}) > 1e-9 {
		t.Fatal("DEMO: hit", hit)
	}
}""")
