S("C33-one-body-is-enough", "C33", [("space.go", 'assert(a != nil && b != nil, "Constraint is attached to a null body")', 'assert(a != nil || b != nil, "Constraint is attached to a null body")')],
  "a debug build, and a joint given one body only", "the joint is in the list of the space, and of one body, before the panic",
  '''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(1, 1)
	s.AddBody(b)
	func() {
		defer func() { recover() }()
		s.AddConstraint(cp.NewSimpleMotor(b, nil, 1))
	}()
	n := 0
	s.EachConstraint(func(*cp.Constraint) { n++ })
	if n != 0 {
		t.Fatal("DEMO: the joint is in the space")
	}
}
''', tags="debug")
S("C34-impulses-of-the-step", "C34", [("space.go", "	prev_dt := space.curr_dt\n	space.curr_dt = dt\n", "	space.curr_dt = dt\n	prev_dt := space.curr_dt\n")],
  "time steps of different lengths", "the cached impulses are not scaled to the new time step",
  '''
type probe struct{ c *cp.Constraint; got []float64 }

func (p *probe) PreStep(dt float64) {}
func (p *probe) ApplyCachedImpulse(k float64) { p.got = append(p.got, k) }
func (p *probe) ApplyImpulse(dt float64) {}
func (p *probe) GetImpulse() float64 { return 0 }

func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(1, 1)
	s.AddBody(b)
	p := &probe{}
	p.c = cp.NewConstraint(p, s.StaticBody, b)
	s.AddConstraint(p.c)
	s.Step(0.02)
	s.Step(0.01)
	if p.got[0] != 0 || p.got[1] != 0.5 {
		t.Fatal("DEMO: scaled by", p.got)
	}
}
''')
S("C11-spring-about-the-other-centre", "C11", [("dampedspring.go", "spring.AnchorB.Sub(b.cog)", "spring.AnchorB.Sub(a.cog)")],
  "a spring on a body whose centre of gravity was moved", "the second anchor of a spring is measured from the first body's centre of gravity",
  '''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(0, 0)
	sh := cp.NewCircle(b, 1, cp.Vector{X: 1})
	sh.SetMass(1)
	s.AddBody(b)
	s.AddShape(sh)
	s.AddConstraint(cp.NewDampedSpring(s.StaticBody, b, cp.Vector{Y: 5}, cp.Vector{X: 1}, 1, 10, 0.1))
	s.Step(0.01)
	if w := b.AngularVelocity(); math.Abs(w) > 1e-9 {
		t.Fatal("DEMO: a spring at the centre of gravity turns the body at", w)
	}
}
''', imports="math")
S("C03-queued-while-called", "C03", [("space.go", "		for i := 0; i < len(space.postStepCallbacks); i++ {\n			callback := space.postStepCallbacks[i]\n			f := callback.callback\n", "		for _, callback := range space.postStepCallbacks {\n			f := callback.callback\n")],
  "a post-step callback that queues another", "a callback queued by a callback is never called",
  '''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	n := 0
	s.AddPostStepCallback(func(s *cp.Space, _, _ interface{}) {
		s.AddPostStepCallback(func(*cp.Space, interface{}, interface{}) { n++ }, 2, nil)
	}, 1, nil)
	s.Step(0.1)
	s.Step(0.1)
	if n != 1 {
		t.Fatal("DEMO: called", n)
	}
}
''')
S("C19-normal-in-body-coordinates", "C19", [("collision.go", "			info.n = segment.tn\n", "			info.n = segment.n\n")],
  "a circle centred exactly on a segment whose body is turned", "the normal of the contact is not across the segment",
  '''
func TestDemo(t *testing.T) {
	b := cp.NewBody(1, 1)
	b.SetAngle(math.Pi / 2)
	seg := cp.NewSegment(b, cp.Vector{X: -2}, cp.Vector{X: 2}, 0.1)
	c := cp.NewCircle(cp.NewBody(1, 1), 0.5, cp.Vector{})
	b.SetPosition(cp.Vector{})
	seg.CacheBB()
	c.CacheBB()
	tb := seg.Class.(*cp.Segment).TransformB()
	c.Body().SetPosition(tb.Mult(0.5))
	c.CacheBB()
	set := cp.ShapesCollide(c, seg)
	if set.Count == 0 {
		t.Skip()
	}
	if d := set.Normal.Dot(tb.Normalize()); math.Abs(d) > 1e-6 {
		t.Fatal("DEMO: the normal is", set.Normal)
	}
}
''', imports="math")
S("C18-point-inside-the-segment", "C18", [("segment.go", "info.Point = a.Lerp(b, t).Sub(flippedN.Mult(r2))", "info.Point = a.Lerp(b, t).Sub(flippedN.Mult(r))")],
  "a segment query against the side of a thick segment", "the point answered is on the middle line, not the surface",
  '''
func TestDemo(t *testing.T) {
	seg := cp.NewSegment(cp.NewBody(1, 1), cp.Vector{X: -2}, cp.Vector{X: 2}, 1)
	seg.CacheBB()
	var info cp.SegmentQueryInfo
	if !seg.SegmentQuery(cp.Vector{Y: 5}, cp.Vector{Y: -5}, 0.5, &info) || math.Abs(info.Point.Y-1) > 1e-9 {
		t.Fatal("DEMO: hit at", info.Point)
	}
}
''', imports="math")
S("C13-motor-adds-up", "C13", [("simplemotor.go", "	motor.jAcc = Clamp(jOld+j, -jMax, jMax)", "	motor.jAcc = jOld + Clamp(j, -jMax, jMax)")],
  "more than one iteration, and a motor at its maximum force", "the impulse of a step is several times the maximum force times the time step",
  '''
func TestDemo(t *testing.T) {
	s := cp.NewSpace()
	b := cp.NewBody(1, 1)
	s.AddBody(b)
	m := cp.NewSimpleMotor(b, s.StaticBody, 100)
	m.SetMaxForce(1)
	s.AddConstraint(m)
	s.Step(0.01)
	if j := m.Class.GetImpulse(); j > 0.01+1e-9 {
		t.Fatal("DEMO: impulse", j)
	}
}
''')
S("C21-query-ends-at-first-hit", "C21", [("space.go", "		context.f(shape, info.Point, info.Normal, info.Alpha, data)\n", "		context.f(shape, info.Point, info.Normal, info.Alpha, data)\n		return info.Alpha\n")],
  "several shapes along a segment, asked about in the order they lie", "shapes beyond the first one found are not reported",
  '''
func TestDemo(t *testing.T) {
	for _, down := range []bool{false, true} {
		s := cp.NewSpace()
		for i := 0; i < 8; i++ {
			s.AddShape(cp.NewCircle(s.StaticBody, 0.4, cp.Vector{X: float64(i)}))
		}
		n := 0
		a, b := cp.Vector{X: -5}, cp.Vector{X: 20}
		if down {
			a, b = b, a
		}
		s.SegmentQuery(a, b, 0, cp.SHAPE_FILTER_ALL, func(*cp.Shape, cp.Vector, cp.Vector, float64, interface{}) { n++ }, nil)
		if n != 8 {
			t.Fatal("DEMO: found", n)
		}
	}
}
''')
