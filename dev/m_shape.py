# C30
M('C30','everything.go','return mass * (0.5*(r1*r1+r2*r2) + offset.LengthSq())','return mass * (0.5*(r1*r1+r2*r2) + offset.Length())')
M('C30','everything.go','length := b.Distance(a) + 2.0*r','length := b.Distance(a) + r')
M('C30','everything.go','b := v1.Dot(v1) + v1.Dot(v2) + v2.Dot(v2)','b := v1.Dot(v1) + v2.Dot(v2)')
M('C30','everything.go','return (mass * sum1) / (6.0 * sum2)','return (mass * sum1) / (12.0 * sum2)')
M('C30','everything.go','''		v1 := verts[i].Add(offset)
		v2 := verts[(i+1)%count].Add(offset)''','''		v1 := verts[i].Add(offset)
		v2 := verts[(i+1)%count]''')
M('C30','everything.go','''	for i := 0; i < count; i++ {
		v1 := verts[i].Add(offset)''','''	for i := 0; i < count-1; i++ {
		v1 := verts[i].Add(offset)''')
M('C30','everything.go','return r*(math.Pi*math.Abs(r)+perimeter) + area/2.0','return r*(math.Pi*math.Abs(r)+perimeter) + math.Abs(area)/2.0')
M('C30','everything.go','return r*(math.Pi*math.Abs(r)+perimeter) + area/2.0','return r*(math.Pi*r+perimeter) + area/2.0')
M('C30','everything.go','return vsum.Mult(1.0 / (3.0 * sum))','return vsum.Mult(1.0 / (3.0 * math.Abs(sum)))')
M('C30','everything.go','vsum = vsum.Add(v1.Add(v2).Mult(cross))','vsum = vsum.Add(v1.Mult(2).Mult(cross))')
M('C30','shape.go','	return s.massInfo.m * s.massInfo.i','	return s.body.m * s.massInfo.i')
M('C30','shape.go','	s.massInfo.m = mass\n	s.body.AccumulateMassFromShapes()','	s.body.AccumulateMassFromShapes()\n	s.massInfo.m = mass')
M('C30','shape.go','	s.SetMass(density * s.massInfo.area)','	s.SetMass(density * s.massInfo.area * s.massInfo.i)')
R('C30','everything.go','''	for i := 0; i < count; i++ {
		v1 := verts[i]
		v2 := verts[(i+1)%count]
		cross := v1.Cross(v2)
''','''	prev := verts[count-1]
	for i := 0; i < count; i++ {
		v1 := prev
		v2 := verts[i]
		prev = v2
		cross := v1.Cross(v2)
''')
R('C30','everything.go','''	for i := 0; i < count; i++ {
		v1 := verts[i]
		v2 := verts[(i+1)%count]
		cross := v1.Cross(v2)
''','''	for i := 0; i < count; i++ {
		j := i + 1
		if j == count {
			j = 0
		}
		v1 := verts[i]
		v2 := verts[j]
		cross := v1.Cross(v2)
''')
R('C30','everything.go','''	for i := 0; i < count; i++ {
		v1 := verts[i]
		v2 := verts[(i+1)%count]
		cross := v1.Cross(v2)
''','''	for i, v1 := range verts[:count] {
		v2 := verts[(i+1)%count]
		cross := v1.Cross(v2)
''')
R('C30','everything.go','''		a := v2.Cross(v1)
''','''		a := v1.Cross(v2) / 2
''',)
R('C30','everything.go','return (mass * sum1) / (6.0 * sum2)','''k := mass / (6.0 * sum2)
	return k * sum1''')
R('C30','everything.go','''		area += v1.Cross(v2)
		perimeter += v1.Distance(v2)
	}
''','''		area += v1.Cross(v2)
	}
	for i := range verts[:count] {
		perimeter += verts[i].Distance(verts[(i+1)%count])
	}
''')
R('C30','everything.go','''	offset := Vector{box.L + box.R, box.B + box.T}.Mult(0.5)
''','''	offset := box.Center()
''')
R('C30','everything.go','''	var area float64
	var perimeter float64
	for i := 0; i < count; i++ {
		v1 := verts[i]
		v2 := verts[(i+1)%count]

		area += v1.Cross(v2)
		perimeter += v1.Distance(v2)
	}
''','''	var area float64
	var perimeter float64
	for i, j := count-1, 0; j < count; i, j = j, j+1 {
		v1 := verts[i]
		v2 := verts[j]

		area += v1.Cross(v2)
		perimeter += v1.Distance(v2)
	}
''')
# C31
M('C31','circle.go','	circle.massInfo = CircleShapeMassInfo(mass, circle.r, circle.c)','	circle.massInfo = CircleShapeMassInfo(mass, circle.r, Vector{})')
M('C31','circle.go','i:    MomentForCircle(1, 0, radius, Vector{}),','i:    MomentForCircle(1, 0, radius, center),')
M('C31','circle.go','	circle.r = r\n\n	mass := circle.massInfo.m\n	circle.massInfo = CircleShapeMassInfo(mass, circle.r, circle.c)','	mass := circle.massInfo.m\n	circle.massInfo = CircleShapeMassInfo(mass, circle.r, circle.c)\n	circle.r = r')
M('C31','segment.go','	seg.b = b\n	seg.n = b.Sub(a).Normalize().ReversePerp()','	seg.n = b.Sub(a).Normalize().ReversePerp()')
M('C31','segment.go','	seg.b = b\n	seg.n = b.Sub(a).Normalize().ReversePerp()','	seg.b = b')
M('C31','segment.go','	seg.b = b\n	seg.n = b.Sub(a).Normalize().ReversePerp()','	seg.b = b\n	seg.n = b.Sub(a).Normalize().Perp()')
M('C31','segment.go','i:    MomentForBox(1, a.Distance(b)+2*r, 2*r),','i:    MomentForBox(1, a.Distance(b)+r, 2*r),')
M('C31','poly.go','		n := b.Sub(a).ReversePerp().Normalize()','		n := b.Sub(a).Perp().Normalize()')
M('C31','poly.go','		a := verts[(i-1+count)%count]','		a := verts[(i+1)%count]')
M('C31','poly.go','	p.massInfo = PolyShapeMassInfo(p.massInfo.m, count, verts, p.r)','	p.massInfo = PolyShapeMassInfo(p.massInfo.m, count, verts, 0)')
M('C31','poly.go','		verts[i] = poly.planes[i+poly.count].v0','		verts[i] = poly.planes[i].v0')
M('C31','poly.go','	p.massInfo = PolyShapeMassInfo(p.massInfo.m, count, verts, p.r)\n	if mass > 0 {\n		p.body.AccumulateMassFromShapes()\n	}','	p.massInfo = PolyShapeMassInfo(p.massInfo.m, count, verts, p.r)\n	_ = mass')
M('C31','poly.go','i:    MomentForPoly(1, count, verts, centroid.Neg(), r),','i:    MomentForPoly(1, count, verts, centroid, r),')
M('C31','poly.go','	hw := w / 2.0','	hw := w')
M('C31','poly.go','	bb := &BB{-hw, -hh, hw, hh}','	bb := &BB{-hh, -hw, hh, hw}')
M('C31','poly.go','		hullVerts = append(hullVerts, transform.Point(verts[i]))','		hullVerts = append(hullVerts, transform.Vect(verts[i]))')
M('C31','poly.go','	return NewPolyShapeRaw(body, hullCount, hullVerts, radius)','	_ = hullCount\n	return NewPolyShapeRaw(body, vectCount, hullVerts, radius)')
R('C31','poly.go','''	hullVerts := []Vector{}
	// Transform the verts before building the hull in case of a negative scale.
	for i := 0; i < vectCount; i++ {
		hullVerts = append(hullVerts, transform.Point(verts[i]))
	}
''','''	hullVerts := make([]Vector, vectCount)
	// Transform the verts before building the hull in case of a negative scale.
	for i := range hullVerts {
		hullVerts[i] = transform.Point(verts[i])
	}
''')
R('C31','poly.go','''	hullVerts := []Vector{}
	// Transform the verts before building the hull in case of a negative scale.
	for i := 0; i < vectCount; i++ {
		hullVerts = append(hullVerts, transform.Point(verts[i]))
	}
''','''	hullVerts := make([]Vector, 0, vectCount)
	// Transform the verts before building the hull in case of a negative scale.
	for _, v := range verts[:vectCount] {
		hullVerts = append(hullVerts, transform.Point(v))
	}
''')
R('C31','poly.go','''	verts := make([]Vector, poly.count)
	for i := range verts {
		verts[i] = poly.planes[i+poly.count].v0
	}
	mass := poly.massInfo.m
	poly.massInfo = PolyShapeMassInfo(mass, poly.count, verts, poly.r)
''','''	verts := make([]Vector, 0, poly.count)
	for i := 0; i < poly.count; i++ {
		verts = append(verts, poly.Vert(i))
	}
	mass := poly.massInfo.m
	poly.massInfo.area = AreaForPoly(poly.count, verts, r)
''')
R('C31','poly.go','''		a := verts[(i-1+count)%count]
		b := verts[i]
		n := b.Sub(a).ReversePerp().Normalize()

		p.planes[i+count].v0 = b
		p.planes[i+count].n = n
	}
''','''		b := verts[i]
		n := b.Sub(prev).Normalize().ReversePerp()
		p.planes[i+count] = SplittingPlane{v0: b, n: n}
		prev = b
	}
''',[('poly.go','	p.planes = make([]SplittingPlane, count*2)\n','	p.planes = make([]SplittingPlane, count*2)\n	prev := verts[count-1]\n')])
R('C31','poly.go','''	p.planes = make([]SplittingPlane, count*2)

	for i := 0; i < count; i++ {
''','''	p.planes = make([]SplittingPlane, count*2)
	local := p.planes[count:]

	for i := range local {
''',[('poly.go','		p.planes[i+count].v0 = b\n		p.planes[i+count].n = n','		local[i].v0 = b\n		local[i].n = n')])
R('C31','circle.go','''	mass := circle.massInfo.m
	circle.massInfo = CircleShapeMassInfo(mass, circle.r, circle.c)
	if mass > 0 {
		circle.body.AccumulateMassFromShapes()
	}''','''	circle.massInfo.i = r * r / 2
	circle.massInfo.area = AreaForCircle(0, r)
	if circle.massInfo.m > 0 {
		circle.body.AccumulateMassFromShapes()
	}''')
R('C31','segment.go','''	seg.a = a
	seg.b = b
	seg.n = b.Sub(a).Normalize().ReversePerp()

	mass := seg.massInfo.m
	seg.massInfo = NewSegmentMassInfo(seg.massInfo.m, seg.a, seg.b, seg.r)
	if mass > 0 {
		seg.body.AccumulateMassFromShapes()
	}
''','''	seg.a, seg.b = a, b
	seg.n = b.Sub(a).ReversePerp().Normalize()
	seg.SetRadius(seg.r)
''')
R('C31','poly.go','''	hw := w / 2.0
	hh := h / 2.0
	bb := &BB{-hw, -hh, hw, hh}
	verts := []Vector{
		{bb.R, bb.B},
		{bb.R, bb.T},
		{bb.L, bb.T},
		{bb.L, bb.B},
	}
	return NewPolyShapeRaw(body, 4, verts, r)
''','''	return NewBox2(body, NewBBForExtents(Vector{}, w/2, h/2), r)
''')
# C36
M('C36','circle.go','	circle.tc = transform.Point(circle.c)','	circle.tc = transform.Vect(circle.c)')
M('C36','segment.go','	seg.tn = transform.Vect(seg.n)','	seg.tn = seg.n')
M('C36','segment.go','	return BB{l - rad, b - rad, r + rad, t + rad}','	return BB{l - rad, b - rad, r + rad, t - rad}')
M('C36','segment.go','	if seg.ta.Y < seg.tb.Y {\n		b = seg.ta.Y\n		t = seg.tb.Y','	if seg.ta.Y < seg.tb.Y {\n		b = seg.ta.Y\n		t = seg.ta.Y')
M('C36','poly.go','		n := transform.Vect(src[i].n)','		n := transform.Point(src[i].n)')
M('C36','poly.go','		b = math.Min(b, v.Y)','		b = math.Min(b, v.X)')
M('C36','poly.go','	r := -INFINITY\n','	r := 0.0\n')
M('C36','poly.go','		v := transform.Point(src[i].v0)','		v := transform.Point(dst[i].v0)')
M('C36','shape.go','	s.bb = s.Class.CacheData(transform)\n	return s.bb','	return s.Class.CacheData(transform)')
M('C36','space.go','	shape.CacheBB()\n\n	// attempt','	// attempt')
M('C36','space.go','	space.staticShapes.class.ReindexObject(shape, shape.hashid)\n','')
M('C36','space.go','	space.dynamicShapes = dynamicShapes\n}','}')
M('C36','space.go','		dynamicShapes.class.Insert(shape, shape.hashid)','		staticShapes.class.Insert(shape, shape.hashid)')
M('C36','space.go','NewSpaceHash(dim, count, ShapeGetBB, staticShapes)','NewSpaceHash(dim, count, ShapeGetBB, nil)')
M('C36','space.go','var ShapeUpdateFunc = func(shape *Shape) {\n	shape.CacheBB()','var ShapeUpdateFunc = func(shape *Shape) {\n	if shape.body.v.LengthSq() > 0 { shape.CacheBB() }')
M('C36','poly.go','	return poly.planes[i+poly.count].v0','	return poly.planes[i].v0')
M('C36','segment.go','	return seg.tb','	return seg.b')
R('C36','poly.go','''	count := poly.count
	dst := poly.planes[0:count]
	src := poly.planes[count:]

	l := INFINITY''','''	count := poly.count
	dst, src := poly.planes[:count], poly.planes[count:2*count]

	l := INFINITY''')
R('C36','poly.go','''	for i := 0; i < count; i++ {
		v := transform.Point(src[i].v0)
		n := transform.Vect(src[i].n)

		dst[i].v0 = v
		dst[i].n = n
''','''	for i, plane := range src {
		v := transform.Point(plane.v0)
		dst[i] = SplittingPlane{v0: v, n: transform.Vect(plane.n)}
''')
R('C36','poly.go','''		l = math.Min(l, v.X)
		r = math.Max(r, v.X)
''','''		if v.X < l {
			l = v.X
		}
		if v.X > r {
			r = v.X
		}
''')
R('C36','poly.go','''	radius := poly.r
	poly.Shape.bb = BB{l - radius, b - radius, r + radius, t + radius}
	return poly.Shape.bb
''','''	radius := poly.r
	return BB{l - radius, b - radius, r + radius, t + radius}
''')
R('C36','segment.go','''	var l, r, b, t float64

	if seg.ta.X < seg.tb.X {
		l = seg.ta.X
		r = seg.tb.X
	} else {
		l = seg.tb.X
		r = seg.ta.X
	}

	if seg.ta.Y < seg.tb.Y {
		b = seg.ta.Y
		t = seg.tb.Y
	} else {
		b = seg.tb.Y
		t = seg.ta.Y
	}

	rad := seg.r
	return BB{l - rad, b - rad, r + rad, t + rad}
''','''	return NewBBForCircle(seg.ta, seg.r).Merge(NewBBForCircle(seg.tb, seg.r))
''')
R('C36','space.go','''	space.dynamicShapes.class.ReindexObject(shape, shape.hashid)
	space.staticShapes.class.ReindexObject(shape, shape.hashid)
''','''	for _, index := range []*SpatialIndex{space.dynamicShapes, space.staticShapes} {
		index.class.ReindexObject(shape, shape.hashid)
	}
''')
