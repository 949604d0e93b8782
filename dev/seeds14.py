S("C25-last-slot", "C25", [("space.go", "	if space.contactBuffersHead.numContacts+MAX_CONTACTS_PER_ARBITER > CONTACTS_BUFFER_SIZE {", "	if space.contactBuffersHead.numContacts >= CONTACTS_BUFFER_SIZE {")],
  "more than a thousand contacts in one step, an odd number of them when the buffer is nearly full", "The slice of contacts handed out ends behind the buffer: the step panics.", """
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("DEMO: the step panics:", r)
		}
	}()
	space := cp.NewSpace()
	for i := 0; i < 1100; i++ {
		b := space.AddBody(cp.NewBody(1, 1))
		p := cp.Vector{X: float64(i%40) * 10, Y: float64(i/40) * 10}
		b.SetPosition(p)
		space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
		space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: p.X + 1.5, Y: p.Y}))
	}
	for i := 0; i < 5; i++ {
		space.Step(0.001)
	}
}""")
S("C25-early-reuse", "C25", [("space.go", "	} else if stamp-head.next.stamp > space.collisionPersistence {", "	} else if head.next != head && stamp-head.next.stamp > 1 {")],
  "a pair that touches, comes apart for one step and touches again, while another pair is pressed together", "A pair is given the impulses of another one because its old contact has been overwritten.", """
func TestDemo(t *testing.T) {
	for order := 0; order < 2; order++ {
		space := cp.NewSpace()
		add := func(m, x float64) (*cp.Body, *cp.Shape) {
			b := space.AddBody(cp.NewBody(m, cp.INFINITY))
			b.SetPosition(cp.Vector{X: x, Y: 1.95})
			sh := space.AddShape(cp.NewCircle(b, 1, cp.Vector{}))
			space.AddShape(cp.NewCircle(space.StaticBody, 1, cp.Vector{X: x}))
			return b, sh
		}
		var heavy, light *cp.Body
		var heavyShape, lightShape *cp.Shape
		if order == 0 {
			heavy, heavyShape = add(1000, 0)
			light, lightShape = add(1, 50)
		} else {
			light, lightShape = add(1, 50)
			heavy, heavyShape = add(1000, 0)
		}
		touches := func(sh *cp.Shape, yes bool) {
			if yes {
				sh.SetFilter(cp.SHAPE_FILTER_ALL)
			} else {
				sh.SetFilter(cp.SHAPE_FILTER_NONE)
			}
		}
		for i := 0; i < 40; i++ {
			// touching every other step, moving apart
			touches(lightShape, i%2 == 0)
			light.SetPosition(cp.Vector{X: 50, Y: 1.95})
			light.SetVelocity(0, 1)
			// pressed together all the time but for some steps
			touches(heavyShape, i%4 != 0)
			heavy.SetPosition(cp.Vector{X: 0, Y: 1.95})
			heavy.SetVelocity(0, -100)
			space.Step(0.001)
			if v := light.Velocity().Y; v < 0.99 {
				t.Fatal("DEMO: a body moving away from what it touches is held back:", v, "step", i, "order", order)
			}
		}
	}
}""")
