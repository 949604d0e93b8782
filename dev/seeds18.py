MARCH='''
type march struct{ from, to cp.Vector }

func run(field func(cp.Vector) float64, n int64, hard bool) []march {
	var got []march
	inner := field
	field = func(p cp.Vector) float64 { return inner(cp.Vector{X: math.Round(p.X), Y: math.Round(p.Y)}) }
	f := func(a, b cp.Vector, _ *cp.PolyLineSet) { got = append(got, march{a, b}) }
	bb := cp.BB{L: 0, B: 0, R: float64(n - 1), T: float64(n - 1)}
	if hard {
		cp.MarchHard(bb, n, n, 0.5, f, field)
	} else {
		cp.MarchSoft(bb, n, n, 0.5, f, field)
	}
	return got
}

// every point a line arrives at inside the area is left again as often
func balanced(t *testing.T, got []march) {
	at := map[string]int{}
	for _, m := range got {
		at[fmt.Sprintf("%.6f %.6f", m.to.X, m.to.Y)]++
		at[fmt.Sprintf("%.6f %.6f", m.from.X, m.from.Y)]--
	}
	if len(got) == 0 {
		t.Fatal("DEMO: no outline")
	}
	for k, n := range at {
		if n != 0 {
			t.Fatal("DEMO: the outline is open at", k)
		}
	}
}
'''
S("C28-stale-left-sample", "C28", [("march.go", "		c := marchSample(Vector{bb.L, y1})\n", "		c := marchSample(Vector{bb.L, y0})\n")],
  "an area whose left border crosses the threshold between two rows", "the left corner of a row of cells is sampled at its lower side twice, so the outline along the left border is displaced",
  MARCH+'''
func TestDemo(t *testing.T) {
	got := run(func(p cp.Vector) float64 { return p.Y / 4 }, 5, false)
	for _, m := range got {
		for _, p := range []cp.Vector{m.from, m.to} {
			if p.Y != 2 && math.Abs(p.Y-2) > 1e-9 {
				t.Fatal("DEMO: the outline of a level field is not level:", m)
			}
		}
	}
	if len(got) != 4 {
		t.Fatal("DEMO: segments", got)
	}
}
''', imports="math fmt")
S("C28-saddle-crossed", "C28", [("march.go", "	case 0x9:\n		seg(Vector{x0, midlerp(y0, y1, a, c, t)}, Vector{midlerp(x0, x1, a, b, t), y0}, marchSegment, segmentData)\n		seg(Vector{x1,", "	case 0x9:\n		seg(Vector{midlerp(x0, x1, a, b, t), y0}, Vector{x0, midlerp(y0, y1, a, c, t)}, marchSegment, segmentData)\n		seg(Vector{x1,")],
  "a cell with two opposite corners above the threshold", "one of the two segments of a saddle runs the wrong way round, so the lines gathered from it do not join",
  MARCH+'''
func TestDemo(t *testing.T) {
	// two peaks on a diagonal
	balanced(t, run(func(p cp.Vector) float64 {
		if p.X == 2 && p.Y == 2 || p.X == 3 && p.Y == 3 {
			return 1
		}
		return 0
	}, 6, false))
	balanced(t, run(func(p cp.Vector) float64 {
		if p.X == 3 && p.Y == 2 || p.X == 2 && p.Y == 3 {
			return 1
		}
		return 0
	}, 6, false))
}
''', imports="math fmt")
S("C28-corner-at-threshold", "C28", [("march.go", "	if d > t {\n		dt = 1\n	}\n\n	switch (at)<<0 | (bt)<<1 | (ct)<<2 | (dt)<<3 {\n	case 0x1:\n		segs(", "	if d >= t {\n		dt = 1\n	}\n\n	switch (at)<<0 | (bt)<<1 | (ct)<<2 | (dt)<<3 {\n	case 0x1:\n		segs(")],
  "a sample that is exactly the threshold", "a sample at the threshold counts as above it for the cell at its lower left and as below for the other three, so the aliased outline has loose ends",
  MARCH+'''
func TestDemo(t *testing.T) {
	balanced(t, run(func(p cp.Vector) float64 {
		switch {
		case p.X == 2 && p.Y == 2:
			return 1
		case p.X == 3 && p.Y == 3:
			return 0.5
		}
		return 0
	}, 6, true))
}
''', imports="math fmt")
