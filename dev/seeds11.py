S("C41-removed-hides-rest", "C41", [("spacehash.go", "restart:\n	for bin := *binPtr; bin != nil; bin = bin.next {\n		hand := bin.handle\n		other := hand.obj\n\n		if hand.stamp == hash.stamp || obj == other {",
  "	for bin := *binPtr; bin != nil; bin = bin.next {\n		hand := bin.handle\n		other := hand.obj\n\n		if hand.stamp == hash.stamp || obj == other {"),
  ("spacehash.go", "			f(obj, other, 0, data)\n			hand.stamp = hash.stamp\n		} else {\n			hash.removeOrphanedHandles(binPtr)\n			goto restart\n		}", "			f(obj, other, 0, data)\n			hand.stamp = hash.stamp\n		} else {\n			hash.removeOrphanedHandles(binPtr)\n			break\n		}")],
  "a space with a spatial hash; a shape removed that was added after others in its cell; the first query after that", "The query that finds the remains of a removed shape leaves out the shapes behind it in the chain.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.UseSpatialHash(10, 100)
	var last *cp.Shape
	for i := 0; i < 4; i++ {
		last = space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: 2 + float64(i), Y: 3}))
	}
	bb := cp.BB{L: 1, B: 1, R: 9, T: 9}
	count := func() (n int) {
		space.BBQuery(bb, cp.SHAPE_FILTER_ALL, func(*cp.Shape, interface{}) { n++ }, nil)
		return
	}
	if n := count(); n != 4 {
		t.Fatal("DEMO: before:", n)
	}
	space.RemoveShape(last)
	if n := count(); n != 3 {
		t.Fatal("DEMO: shapes found after one of four was removed:", n)
	}
}""")
S("C41-segment-time", "C41", [("spacehash.go", "			cellX += xInc\n			t = nextH\n			nextH += dtdx", "			cellX += xInc\n			nextH += dtdx\n			t = nextH")],
  "a space with a spatial hash; a segment query whose target lies in the last cells it crosses", "The walk along the segment ends one cell too early whenever its last step is a horizontal one.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.UseSpatialHash(1, 100)
	space.AddShape(cp.NewCircle(space.StaticBody, 0.2, cp.Vector{X: 3.5, Y: 0.5}))
	for _, a := range []cp.Vector{{X: 0.5, Y: 0.5}, {X: 6.4, Y: 0.5}, {X: 0.5, Y: 0.1}} {
		if info := space.SegmentQueryFirst(a, cp.Vector{X: 3.5, Y: 0.5}, 0, cp.SHAPE_FILTER_ALL); info.Shape == nil {
			t.Fatal("DEMO: nothing hit from", a)
		}
	}
}""")
S("C41-cell-below-zero", "C41", [("spacehash.go", "	if f < 0 && float64(i) != f {", "	if f < -1 && float64(i) != f {")],
  "a space with a spatial hash; a segment query that starts in the first cell below zero", "The cells from -1 to 0 and from 0 to 1 become one, which a walk along a segment does not know: going left from there, it leaves out the last cell.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	space.UseSpatialHash(1, 100)
	space.AddShape(cp.NewCircle(space.StaticBody, 0.1, cp.Vector{X: -1.5, Y: 0.5}))
	for _, x := range []float64{0.1, -0.5} {
		if info := space.SegmentQueryFirst(cp.Vector{X: x, Y: 0.5}, cp.Vector{X: -1.9, Y: 0.5}, 0, cp.SHAPE_FILTER_ALL); info.Shape == nil {
			t.Fatal("DEMO: nothing hit from", x)
		}
	}
}""")
