M('C43',"draw.go","options.DrawCircle(circle.tc,","options.DrawCircle(circle.c,")
M('C43',"draw.go","options.DrawFatSegment(seg.ta, seg.tb,","options.DrawFatSegment(seg.ta, seg.b,")
M('C43',"draw.go","verts[i] = planes[i].v0","verts[i] = planes[i+count].v0")
M('C43',"draw.go","for i := 0; i < count; i++ {\n			verts","for i := 1; i < count; i++ {\n			verts")
M('C43',"draw.go","b := body_a.transform.Point(joint.GrooveB)","b := body_b.transform.Point(joint.GrooveB)")
M('C43',"draw.go","	case *RatchetJoint:\n","")
M('C43',"draw.go","r2 := Vector{sin, cos * s}","r2 := Vector{sin, -cos * s}")
M('C43',"draw.go","for j := 0; j < arb.count; j++ {","for j := 1; j < arb.count; j++ {")
M('C43',"draw.go","p2 := arb.body_b.p.Add(arb.contacts[j].r2)","p2 := arb.body_a.p.Add(arb.contacts[j].r2)")
M('C43',"draw.go","	space.staticShapes.class.Each(func(obj *Shape) {","	space.dynamicShapes.class.Each(func(obj *Shape) {")
M('C43',"draw.go","for i := 0; i < len(springVerts)-1; i++ {","for i := 0; i < len(springVerts)-2; i++ {")
M('C43',"draw.go","		a := body_a.transform.Point(joint.AnchorA)\n		b := body_b.transform.Point(joint.AnchorB)\n\n		options.DrawDot(5, a, color, data)\n		options.DrawDot(5, b, color, data)\n	case","		a := body_a.transform.Vect(joint.AnchorA)\n		b := body_b.transform.Point(joint.AnchorB)\n\n		options.DrawDot(5, a, color, data)\n		options.DrawDot(5, b, color, data)\n	case")
R('C43',"draw.go","	switch shape.Class.(type) {\n	case *Circle:\n		circle := shape.Class.(*Circle)\n","	switch circle := shape.Class.(type) {\n	case *Circle:\n")
R('C43',"draw.go","		for i := 0; i < count; i++ {\n			verts[i] = planes[i].v0\n		}","		for i, plane := range planes[:count] {\n			verts[i] = plane.v0\n		}")
R('C43',"draw.go","		verts := make([]Vector, count)\n\n		for i := 0; i < count; i++ {\n			verts[i] = planes[i].v0\n		}","		verts := make([]Vector, 0, count)\n\n		for i := 0; i < count; i++ {\n			verts = append(verts, planes[i].v0)\n		}")
R('C43',"draw.go","	for _, constraint := range space.constraints {\n		DrawConstraint(constraint, options)","	for i := range space.constraints {\n		DrawConstraint(space.constraints[i], options)")
R('C43',"draw.go","		for j := 0; j < arb.count; j++ {\n			p1 := arb.body_a.p.Add(arb.contacts[j].r1)\n			p2 := arb.body_b.p.Add(arb.contacts[j].r2)","		for _, con := range arb.contacts[:arb.count] {\n			p1 := arb.body_a.p.Add(con.r1)\n			p2 := arb.body_b.p.Add(con.r2)")
R('C43',"draw.go","	space.dynamicShapes.class.Each(func(obj *Shape) {\n		DrawShape(obj, options)\n	})\n	space.staticShapes.class.Each(func(obj *Shape) {\n		DrawShape(obj, options)\n	})","	draw := func(obj *Shape) {\n		DrawShape(obj, options)\n	}\n	space.dynamicShapes.class.Each(draw)\n	space.staticShapes.class.Each(draw)")
R('C43',"draw.go","		verts := []Vector{}\n		for i := 0; i < len(springVerts); i++ {\n			v := springVerts[i]\n			verts","		verts := make([]Vector, 0, len(springVerts))\n		for _, v := range springVerts {\n			verts")
R('C43',"draw.go","		a := body_a.transform.Point(joint.AnchorA)\n		b := body_b.transform.Point(joint.AnchorB)\n\n		options.DrawDot(5, a, color, data)\n		options.DrawDot(5, b, color, data)\n	case","		for i, p := range []Vector{body_a.transform.Point(joint.AnchorA), body_b.transform.Point(joint.AnchorB)} {\n			_ = i\n			options.DrawDot(5, p, color, data)\n		}\n	case")
R('C43',"draw.go","		options.DrawDot(5, a, color, data)\n		options.DrawDot(5, b, color, data)\n		options.DrawSegment(a, b, color, data)\n	case *SlideJoint:","		drawRod(options, a, b, color, data)\n	case *SlideJoint:",[("draw.go","func DrawSpace(","func drawRod(options Drawer, a, b Vector, color FColor, data interface{}) {\n	options.DrawDot(5, a, color, data)\n	options.DrawDot(5, b, color, data)\n	options.DrawSegment(a, b, color, data)\n}\n\nfunc DrawSpace(")])
R('C43',"draw.go","	case *PinJoint:\n		joint := constraint.Class.(*PinJoint)\n","	case *PinJoint:\n		joint, _ := constraint.Class.(*PinJoint)\n")
R('C43',"draw.go","			drawSeg(a, b, options.CollisionPointColor(), data)","			color := options.CollisionPointColor()\n			options.DrawSegment(a, b, color, data)",[("draw.go","	drawSeg := options.DrawSegment\n","")])
