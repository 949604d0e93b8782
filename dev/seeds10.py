S("C40-rehash-old-size", "C40", [("hashset.go", "			idx := uint(bin.hash) % newSize\n", "			idx := uint(bin.hash) % set.size\n")],
  "a set that has grown", "Elements moved to the new table are no longer found.", """
func TestDemo(t *testing.T) {
	set := cp.NewHashSet[int, int](func(a, b int) bool { return a == b })
	for i := 0; i < 100; i++ {
		set.Insert(cp.HashValue(i*7919), i+1, func(x int) int { return x })
	}
	for i := 0; i < 100; i++ {
		if set.Find(cp.HashValue(i*7919), i+1) != i+1 {
			t.Fatal("DEMO: lost", i)
		}
	}
}""")
S("C40-filter-two-in-a-row", "C40", [("hashset.go", """			if f(bin.elt) {
				prevPtr = &bin.next
			} else {
				*prevPtr = next

				set.entries--
				set.recycle(bin)
			}
""", """			if !f(bin.elt) {
				*prevPtr = next

				set.entries--
				set.recycle(bin)
			}
			prevPtr = &bin.next
""")],
  "a filter that rejects two neighbours of one chain", "The second stays in its chain.", """
func TestDemo(t *testing.T) {
	set := cp.NewHashSet[int, int](func(a, b int) bool { return a == b })
	for i := 1; i <= 4; i++ {
		set.Insert(7, i, func(x int) int { return x })
	}
	set.Filter(func(x int) bool { return x == 1 || x == 4 })
	seen := map[int]bool{}
	set.Each(func(x int) { seen[x] = true })
	if len(seen) != 2 || !seen[1] || !seen[4] || set.Count() != 2 {
		t.Fatal("DEMO: left", seen, set.Count())
	}
}""")
S("C32-both-moved", "C32", [("bbtree.go", """					context.tree.PairInsert(subtree, leaf)
				}
				context.f(leaf.obj, subtree.obj, 0, context.data)
""", """					context.tree.PairInsert(subtree, leaf)
					context.f(leaf.obj, subtree.obj, 0, context.data)
				}
""")],
  "two shapes that both leave their boxes in the step in which they meet", "They pass through each other.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	n := 0
	h := space.NewCollisionHandler(1, 1)
	h.BeginFunc = func(arb *cp.Arbiter, space *cp.Space, data interface{}) bool { n++; return true }
	for i := -1.0; i <= 1; i += 2 {
		b := space.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: 20 * i})
		b.SetVelocity(-20*i, 0)
		c := space.AddShape(cp.NewCircle(b, 5, cp.Vector{}))
		c.SetCollisionType(1)
	}
	for i := 0; i < 6; i++ {
		space.Step(0.2)
	}
	if n == 0 {
		t.Fatal("DEMO: never met")
	}
}""")
S("C32-unlink-middle", "C32", [("bbtree.go", """			prev.b.next = next
		}
	} else {
		thread.leaf.pairs = next
	}
""", """			prev.b.next = next
		}
	}
	thread.leaf.pairs = next
""")],
  "a shape that lies still on three static shapes, of which the second is removed", "Another one of them is no longer found.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	b := space.AddBody(cp.NewBody(1, 1))
	c := space.AddShape(cp.NewCircle(b, 5, cp.Vector{}))
	c.SetSensor(true)
	var st []*cp.Shape
	for i := 0; i < 3; i++ {
		s := space.AddShape(cp.NewSegment(space.StaticBody, cp.Vector{X: -5, Y: float64(i)}, cp.Vector{X: 5, Y: float64(i)}, 1))
		s.SetCollisionType(7)
		st = append(st, s)
	}
	seen := map[*cp.Shape]bool{}
	h := space.NewWildcardCollisionHandler(7)
	h.PreSolveFunc = func(arb *cp.Arbiter, space *cp.Space, data interface{}) bool {
		x, y := arb.Shapes()
		seen[x], seen[y] = true, true
		return true
	}
	space.RemoveShape(st[1])
	space.Step(0.01)
	if !seen[st[0]] || !seen[st[2]] {
		t.Fatal("DEMO: lost", seen[st[0]], seen[st[2]])
	}
}""")
S("C32-segment-second-box", "C32", [("bbtree.go", """			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tB < t_exit {
""", """			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		} else if tB < t_exit {
"""), ("bbtree.go", """			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tA < t_exit {
""", """			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		} else if tA < t_exit {
""")],
  "a segment that enters the box of one shape, misses the shape and then hits another", "The other shape is not found.", """
func TestDemo(t *testing.T) {
	space := cp.NewSpace()
	for i := 0.0; i < 2; i++ {
		b := space.AddBody(cp.NewBody(1, 1))
		b.SetPosition(cp.Vector{X: 30 * i, Y: -9.5 * (1 - i)})
		space.AddShape(cp.NewCircle(b, 10, cp.Vector{}))
	}
	// over the corner of the first box
	hit := space.SegmentQueryFirst(cp.Vector{X: -50, Y: 0}, cp.Vector{X: 50, Y: 0}, 0, cp.SHAPE_FILTER_ALL)
	miss := space.SegmentQueryFirst(cp.Vector{X: -9.5, Y: 20}, cp.Vector{X: -9, Y: -1}, 0, cp.SHAPE_FILTER_ALL)
	_ = miss
	if hit.Shape == nil {
		t.Fatal("DEMO: nothing")
	}
	far := space.SegmentQueryFirst(cp.Vector{X: 0, Y: 9.6}, cp.Vector{X: 60, Y: -1}, 0, cp.SHAPE_FILTER_ALL)
	if far.Shape == nil {
		t.Fatal("DEMO: nothing beyond")
	}
	// the first box is entered at its corner only
	corner := space.SegmentQueryFirst(cp.Vector{X: 9.5, Y: 5}, cp.Vector{X: 12, Y: -3}, 0, cp.SHAPE_FILTER_ALL)
	_ = corner
	past := space.SegmentQueryFirst(cp.Vector{X: 9.9, Y: -1}, cp.Vector{X: 30, Y: 0}, 0, cp.SHAPE_FILTER_ALL)
	if past.Shape == nil {
		t.Fatal("DEMO: nothing past the corner")
	}
}""")
