HULL = '''
func hullOf(t *testing.T, pts []cp.Vector) []cp.Vector {
	vs := append([]cp.Vector(nil), pts...)
	n := cp.ConvexHull(len(vs), vs, nil, 0)
	h := vs[:n]
	for _, p := range pts {
		for i := range h {
			a, b := h[i], h[(i+1)%n]
			if n > 2 && b.Sub(a).Cross(p.Sub(a)) < -1e-9 {
				t.Fatal("DEMO: outside the hull", p, h)
			}
		}
	}
	for i := range h {
		a, b, c := h[i], h[(i+1)%n], h[(i+2)%n]
		if n > 2 && b.Sub(a).Cross(c.Sub(b)) <= 1e-9 {
			t.Fatal("DEMO: not convex at", b, h)
		}
	}
	return h
}
'''
S("C44-greatest-comes-first", "C44", [("poly.go", "	if end == 0 {\n		verts[1], verts[start] = verts[start], verts[1]\n	} else {\n		verts[1], verts[end] = verts[end], verts[1]\n	}", "	verts[1], verts[end] = verts[end], verts[1]")],
  "a list of points that begins with the greatest", "the hull is begun between the wrong points and loses some",
  HULL + '''
func TestDemo(t *testing.T) {
	pts := []cp.Vector{{X: 9, Y: 9}, {X: 5, Y: 5}, {X: 0, Y: 8}, {X: 1, Y: 0}, {X: 8, Y: 1}, {X: 3, Y: 4}}
	for k := range pts {
		hullOf(t, append(append([]cp.Vector(nil), pts[k:]...), pts[:k]...))
	}
}
''')
S("C44-any-outer-point", "C44", [("poly.go", "				max = value\n", "				max = value * 0.5\n")],
  "a side with several points beside it, the farthest of them not the last", "a point that is not the farthest becomes a vertex of the hull",
  HULL + '''
func TestDemo(t *testing.T) {
	for seed := 1; seed < 200; seed++ {
		r := rand.New(rand.NewSource(int64(seed)))
		var pts []cp.Vector
		for i := 0; i < 20; i++ {
			pts = append(pts, cp.Vector{X: float64(r.Intn(1000)), Y: float64(r.Intn(1000))})
		}
		hullOf(t, pts)
	}
}
''', imports="math/rand")
S("C44-inner-points-by-the-old-line", "C44", [("poly.go", "rightCount := QHullPartition(verts[leftCount:], count-leftCount, pivot, b, tol)", "rightCount := QHullPartition(verts[leftCount:], count-leftCount, a, b, tol)")],
  "points inside the triangle of a side and its farthest point", "points inside the hull become vertices of it",
  HULL + '''
func TestDemo(t *testing.T) {
	hullOf(t, []cp.Vector{{X: 0, Y: 0}, {X: 10, Y: 0}, {X: 5, Y: -10}, {X: 6, Y: -1}, {X: 5, Y: 8}, {X: 5, Y: -2}})
	hullOf(t, []cp.Vector{{X: 0, Y: 0}, {X: 10, Y: 0}, {X: 5, Y: 10}, {X: 6, Y: 1}, {X: 5, Y: -8}, {X: 5, Y: 2}})
}
''')
