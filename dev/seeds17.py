SAT = """
// depth is how far apart the outlines are along the axis that keeps them
// farthest apart, found by trying every face.
func depth(a, b []cp.Vector) float64 {
	best := math.Inf(-1)
	for _, s := range [][2][]cp.Vector{{a, b}, {b, a}} {
		for i, v := range s[0] {
			w := s[0][(i+1)%len(s[0])]
			n := w.Sub(v).ReversePerp().Normalize()
			gap := math.Inf(1)
			for _, u := range s[1] {
				gap = math.Min(gap, u.Sub(v).Dot(n))
			}
			best = math.Max(best, gap)
		}
	}
	return best
}

func ring(rnd *rand.Rand, n int, at cp.Vector) []cp.Vector {
	var out []cp.Vector
	turn := rnd.Float64()
	for i := 0; i < n; i++ {
		s, c := math.Sincos((float64(i) + turn) * 2 * math.Pi / float64(n))
		out = append(out, at.Add(cp.Vector{X: 2 * c, Y: s}))
	}
	return out
}

func TestDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	body := cp.NewBody(1, 1)
	for k := 0; k < 400; k++ {
		a := ring(rnd, 3+rnd.Intn(6), cp.Vector{})
		b := ring(rnd, 3+rnd.Intn(6), cp.Vector{X: 2*rnd.Float64() - 1, Y: 1.5*rnd.Float64() - 0.75})
		one := cp.NewPolyShapeRaw(body, len(a), a, 0)
		two := cp.NewPolyShapeRaw(body, len(b), b, 0)
		one.CacheBB()
		two.CacheBB()
		set := cp.ShapesCollide(one, two)
		want := depth(a, b)
		got := 0.0
		for i := 0; i < set.Count; i++ {
			got = math.Min(got, set.Points[i].Distance)
		}
		if want < -1e-6 && math.Abs(got-want) > 1e-6 {
			t.Fatal("DEMO: pair", k, "depth", got, "instead of", want)
		}
	}
}"""
S("C26-first-vertex-unseen", "C26", [("collision.go", "	for i := 0; i < count; i++ {\n		v := planes[i].v0\n", "	for i := 1; i < count; i++ {\n		v := planes[i].v0\n")],
  "polygons whose first vertex is the farthest in a direction the search asks for", "The first vertex of a polygon is never found: it sticks into other shapes.", SAT, imports="math math/rand")
S("C26-depth-of-any-edge", "C26", [("collision.go", "		if d < minDist {\n			minDist = d\n			mini = i\n		}\n		i = j\n", "		if d < minDist {\n			minDist = d\n			mini = j\n		}\n		i = j\n")],
  "overlapping shapes", "The depth is that of the edge after the nearest one.", SAT, imports="math math/rand")
S("C26-normal-of-corner", "C26", [("collision.go", "	if d <= 0 || (-1 < t && t < 1) {", "	if d <= 0 || (-1 <= t && t <= 1) {") if False else ("vector.go", "	ht := 0.5 * t\n	return v.Mult(0.5 - ht).Add(b.Mult(0.5 + ht))", "	ht := 0.5 * t\n	return v.Add(b.Sub(v).Mult(0.5 + math.Abs(ht)))")],
  "a nearest point in the first half of an edge", "The nearest point is mirrored on its edge.", """
func TestDemo(t *testing.T) {
	body := cp.NewBody(1, 1)
	box := cp.NewBox2(body, cp.BB{L: -5, B: -1, R: 5, T: 0}, 0)
	box.CacheBB()
	for x := -4.5; x < 5; x++ {
		ball := cp.NewCircle(body, 1, cp.Vector{X: x, Y: 0.5})
		ball.CacheBB()
		set := cp.ShapesCollide(ball, box)
		if set.Count != 1 || math.Abs(set.Points[0].PointB.X-x) > 1e-9 || math.Abs(set.Points[0].Distance+0.5) > 1e-9 {
			t.Fatal("DEMO: ball at", x, set)
		}
	}
}""", imports="math")
