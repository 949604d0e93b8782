S("C42-ratchet-keeps-pushing", "C42", [("ratchetjoint.go", "	if joint.bias == 0 {\n		joint.jAcc = 0\n	}\n", "")],
  "a ratchet that held a body, which then turns the free way", "a ratchet pushes again, every step, with the impulse it last held the body with, although nothing is held",
  '''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(1, 1)
	s.AddBody(b)
	s.AddConstraint(cp.NewRatchetJoint(s.StaticBody, b, 0, math.Pi/2))
	for i := 0; i < 30; i++ {
		b.SetTorque(-3)
		s.Step(1.0 / 60)
	}
	b.SetAngle(0.1)
	b.SetAngularVelocity(1)
	for i := 0; i < 60; i++ {
		s.Step(1.0 / 60)
	}
	if w := b.AngularVelocity(); math.Abs(w-1) > 1e-9 {
		t.Fatal("DEMO: a body that turns freely changes its speed to", w)
	}
}
''', imports="math")
S("C09-mass-of-static-body", "C09", [("body.go", "	if body == nil || body.GetType() != BODY_DYNAMIC {\n		return\n	}\n\n	body.m = 0", "	if body == nil {\n		return\n	}\n\n	body.m = 0")],
  "a shape with mass on a static or kinematic body", "a body that is not dynamic gets the finite mass of its shapes and is pushed by what hits it",
  '''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewStaticBody()
	sh := cp.NewCircle(b, 5, cp.Vector{})
	sh.SetMass(2)
	s.AddBody(b)
	s.AddShape(sh)
	if !math.IsInf(b.Mass(), 1) && b.Mass() < 1e100 {
		t.Fatal("DEMO: the static body now has mass", b.Mass())
	}
}
''', imports="math")
S("C32-recycles-sibling", "C32", [("bbtree.go", "		tree.RecycleNode(parent.b)\n", "		tree.RecycleNode(parent.a)\n")],
  "removing a shape whose parent is the second child of an inner node, then adding more", "a node of the tree that is still in use is given out again",
  '''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	r := rand.New(rand.NewSource(3))
	var live []*cp.Shape
	add := func() {
		b := cp.NewBody(1, 1)
		b.SetPosition(cp.Vector{X: r.Float64() * 1000, Y: r.Float64() * 1000})
		s.AddBody(b)
		live = append(live, s.AddShape(cp.NewCircle(b, 1+r.Float64()*10, cp.Vector{})))
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("DEMO: panic", e)
		}
	}()
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprint("panic ", e)
			}
		}()
		for i := 0; i < 30; i++ {
			add()
		}
		for k := 0; k < 300; k++ {
			i := r.Intn(len(live))
			s.RemoveShape(live[i])
			live = append(live[:i], live[i+1:]...)
			add()
			for _, sh := range live {
				found := false
				s.BBQuery(sh.BB(), cp.SHAPE_FILTER_ALL, func(x *cp.Shape, _ interface{}) {
					if x == sh {
						found = true
					}
				}, nil)
				if !found {
					done <- "a shape of the space is not found in its own box"
					return
				}
			}
		}
		done <- ""
	}()
	select {
	case m := <-done:
		if m != "" {
			t.Fatal("DEMO:", m)
		}
	case <-time.After(30 * time.Second):
		t.Fatal("DEMO: the tree has a cycle")
	}
}
''', imports="fmt math/rand time")
DRAWER='''
type pen struct{ dots, lines []cp.Vector; circles int }

func (p *pen) DrawCircle(pos cp.Vector, angle, radius float64, outline, fill cp.FColor, data interface{}) { p.circles++ }
func (p *pen) DrawSegment(a, b cp.Vector, fill cp.FColor, data interface{}) { p.lines = append(p.lines, a, b) }
func (p *pen) DrawFatSegment(a, b cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {}
func (p *pen) DrawPolygon(count int, verts []cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {}
func (p *pen) DrawDot(size float64, pos cp.Vector, fill cp.FColor, data interface{}) { p.dots = append(p.dots, pos) }
func (p *pen) Flags() uint { return 7 }
func (p *pen) OutlineColor() cp.FColor { return cp.FColor{} }
func (p *pen) ShapeColor(shape *cp.Shape, data interface{}) cp.FColor { return cp.FColor{} }
func (p *pen) ConstraintColor() cp.FColor { return cp.FColor{} }
func (p *pen) CollisionPointColor() cp.FColor { return cp.FColor{} }
func (p *pen) Data() interface{} { return nil }
'''
S("C43-coil-mirrored-off-axis", "C43", [("draw.go", "		r2 := Vector{sin, cos * s}", "		r2 := Vector{sin, cos / s}")],
  "a spring that is not one unit long", "the coil of a spring is drawn far off the line between its anchors",
  DRAWER+'''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(1, 1)
	b.SetPosition(cp.Vector{X: 100, Y: 0})
	s.AddBody(b)
	s.AddConstraint(cp.NewDampedSpring(s.StaticBody, b, cp.Vector{}, cp.Vector{}, 50, 1, 1))
	p := &pen{}
	cp.DrawSpace(s, p)
	for _, v := range p.lines {
		if v.Y > 7 || v.Y < -7 {
			t.Fatal("DEMO: the coil is drawn at", v)
		}
	}
}
''')
S("C43-pivot-anchor-of-other-body", "C43", [("draw.go", "	case *PivotJoint:\n		joint := constraint.Class.(*PivotJoint)\n\n		a := body_a.transform.Point(joint.AnchorA)\n		b := body_b.transform.Point(joint.AnchorB)", "	case *PivotJoint:\n		joint := constraint.Class.(*PivotJoint)\n\n		a := body_a.transform.Point(joint.AnchorA)\n		b := body_a.transform.Point(joint.AnchorB)")],
  "a pivot whose two bodies are at different places", "the second anchor of a pivot is drawn as if it were fixed to the first body",
  DRAWER+'''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(1, 1)
	b.SetPosition(cp.Vector{X: 100, Y: 0})
	s.AddBody(b)
	s.AddConstraint(cp.NewPivotJoint(s.StaticBody, b, cp.Vector{X: 50}))
	p := &pen{}
	cp.DrawSpace(s, p)
	for _, v := range p.dots {
		if !v.Near(cp.Vector{X: 50}, 1e-9) {
			t.Fatal("DEMO: the pivot is drawn at", v)
		}
	}
}
''')
S("C33-static-body-with-a-shape", "C33", [("space.go", "		if len(space.StaticBody.shapeList) > 0 {", "		if len(space.StaticBody.shapeList) > 1 {")],
  "the space's own body has exactly one shape when it is exchanged", "the static body of a space is exchanged although a shape is still attached to the old one",
  '''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	s.AddShape(cp.NewCircle(s.StaticBody, 1, cp.Vector{}))
	old := s.StaticBody
	func() {
		defer func() { recover() }()
		s.SetStaticBody(cp.NewStaticBody())
	}()
	if s.StaticBody != old {
		t.Fatal("DEMO: the static body was exchanged with a shape attached to it")
	}
}
''')
