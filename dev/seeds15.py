S("C18-thick-query-corners", "C18", [("poly.go", "	if rsum > 0 {\n", "	if r > 0 {\n")],
  "a segment query with a radius that passes the corner of a polygon without one, beyond its faces", "The thick segment misses the corner it touches.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(1, 1)
	shape := cp.NewBox(body, 2, 2, 0)
	shape.CacheBB()
	var info cp.SegmentQueryInfo
	if !shape.SegmentQuery(cp.Vector{X: -5, Y: 1.5}, cp.Vector{X: 5, Y: 1.5}, 0.6, &info) {
		t.Fatal("DEMO: face not hit at all")
	}
	a, b := cp.Vector{X: 0, Y: 4}, cp.Vector{X: 4, Y: 0}
	a, b = a.Add(cp.Vector{X: -0.85, Y: -0.85}), b.Add(cp.Vector{X: -0.85, Y: -0.85})
	if !shape.SegmentQuery(a, b, 0.3, &info) {
		t.Fatal("DEMO: the corner is missed")
	}
}""")
S("C18-rim-counts-as-inside", "C18", [("poly.go", "			outside = planes[i].n.Dot(p.Sub(v1)) > 0\n", "			outside = planes[i].n.Dot(p.Sub(v1)) > r\n")],
  "a point outside the outline of a rounded polygon but within its radius", "The distance jumps: the point is reported deeper than the outline, on the far side.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(1, 1)
	shape := cp.NewBox(body, 2, 2, 0.5)
	shape.CacheBB()
	for _, y := range []float64{1.1, 1.3, 1.6} {
		info := shape.PointQuery(cp.Vector{X: 0.2, Y: y})
		if math.Abs(info.Distance-(y-1.5)) > 1e-9 {
			t.Fatal("DEMO: distance", info.Distance, "at height", y)
		}
	}
}""", imports="math")
S("C18-gradient-in-body-coords", "C18", [("segment.go", "		info.Gradient = seg.tn\n", "		info.Gradient = seg.n\n")],
  "a point on a segment whose body has turned", "The gradient is not the segment's normal.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(1, 1)
	shape := cp.NewSegment(body, cp.Vector{X: -1}, cp.Vector{X: 1}, 0.1)
	body.SetAngle(math.Pi / 2)
	shape.CacheBB()
	info := shape.PointQuery(cp.Vector{X: 0, Y: 0})
	if math.Abs(info.Gradient.Y) > 1e-9 {
		t.Fatal("DEMO: gradient", info.Gradient)
	}
}""", imports="math")
