S("C27-source-line-reused", "C27", [("polyline.go", "reduced := PolyLine{Verts: []Vector{pl.Verts[0], pl.Verts[1]}}", "reduced := PolyLine{Verts: pl.Verts[:2]}")],
  "a line simplified by angle and used (or simplified with another tolerance) again afterwards", "the simplified line is built in the array of the line given, whose vertices are overwritten as soon as one is dropped",
'''
func TestDemo(t *testing.T) {
	l := &cp.PolyLine{Verts: []cp.Vector{{X: 0}, {X: 1}, {X: 2}, {X: 2, Y: 1}, {X: 2, Y: 2}, {X: 3, Y: 2}}}
	want := append([]cp.Vector{}, l.Verts...)
	l.SimplifyVertexes(0.1)
	for i, v := range want {
		if !l.Verts[i].Equal(v) {
			t.Fatal("DEMO: the line simplified was changed", l.Verts)
		}
	}
}
''')
S("C27-piece-over-the-seam", "C27", [("polyline.go", "	if (end-start+length)%length < 2 {", "	if end-start < 2 {")],
  "a closed line: the piece from the far extreme back to the near one runs over the end of the list", "the way back of every closed line is taken to be a piece of adjacent vertices and loses all its vertices",
'''
func TestDemo(t *testing.T) {
	l := &cp.PolyLine{Verts: []cp.Vector{{X: 0, Y: 0}, {X: 5, Y: -4}, {X: 10, Y: 0}, {X: 5, Y: 4}, {X: 0, Y: 0}}}
	r := l.SimplifyCurves(0.5)
	low, high := false, false
	for _, v := range r.Verts {
		low, high = low || v.Y == -4, high || v.Y == 4
	}
	if !low || !high {
		t.Fatal("DEMO: a corner 4 away from the simplified line was dropped", r.Verts)
	}
}
''')
S("C27-joined-line-drops-neighbour", "C27", [("polyline.go", "	copy(pls.Lines[after:], pls.Lines[after+1:])", "	copy(pls.Lines[before:], pls.Lines[before+1:])")],
  "a segment that joins two lines neither of which is the last of three", "the joined line is dropped from the set and the stale second half kept",
'''
func TestDemo(t *testing.T) {
	set := &cp.PolyLineSet{}
	seg := func(x0, y0, x1, y1 float64) {
		cp.PolyLineCollectSegment(cp.Vector{X: x0, Y: y0}, cp.Vector{X: x1, Y: y1}, set)
	}
	seg(0, 0, 1, 0)
	seg(2, 0, 3, 0)
	seg(0, 9, 1, 9)
	seg(1, 0, 2, 0)
	n := 0
	for _, l := range set.Lines {
		n += len(l.Verts) - 1
	}
	if n != 4 {
		t.Fatal("DEMO: not every segment is in the set once", n)
	}
}
''')
